"""C12: tree split statistics: criteria, estimators, attribute observers and attribute tests."""
import math
import numpy as np
from pv import sym as S
from pv.sym import eq, and_, or_, not_, implies, ite, smin, smax, Sym, Unsupported
from pv.vm import PathEnd, PyRaise

ID = 'C12'
BUDGET = 14
MAX_CASES = 900
C, O, T = 'trees/_split_criterion/', 'trees/_attribute_observer/', 'trees/_attribute_test/'
GE = 'trees/gaussian_estimator.py'
ASSUME = ['log/exp/sqrt obey their algebraic laws (uninterpreted in the proofs)', 'total weights handed to a criterion are positive unless stated',
          'sortedcontainers.SortedList is a sorted list']
BOUNDED = ['criteria and nominal observers: up to 3 branches and 3 classes with arbitrary weights', 'E-BST and binary-tree observers: all shapes up to 3 nodes with arbitrary cut points and weights, plus one insertion',
           'normal_probability values: generated points against math.erf']


def _fn(f):
    f.pv_model = True
    return f


class Crit:
    """any split criterion: an arbitrary merit per call, remembered"""
    def __init__(self, vm):
        self.vm, self.calls = vm, []

    def pv_getattr(self, vm, name):
        if name == 'get_merit_of_split':
            def f(pre, post):
                m = vm.fresh('merit', 'real')
                self.calls.append((pre, [dict(d) for d in post], m))
                return m
            return _fn(f)
        if name == 'get_range_of_merit':
            return _fn(lambda pre: 1.0)
        raise Unsupported('criterion.' + name)


def dist(vm, name, keys, lo=0):
    return vm.born({k: vm.inp('%s_%s' % (name, k), 'real', lo) for k in keys})


def tot(xs):
    r = 0
    for x in xs:
        r = r + x
    return r


def cls(vm, path, name):
    return vm.cls(path, name)


# ------------------------------------------------------------------ proofs: criteria
GINI, GAIN = C + 'gini_split_criterion.py', C + 'info_gain_split_criterion.py'


def u_gini1(nc):
    def u(vm):
        d = dist(vm, 'd', range(nc))
        w = tot(d.values())
        o = vm.new(cls(vm, GINI, 'GiniSplitCriterion'))
        g = vm.method(o, 'compute_gini', d, w)
        if vm.truth(w > 0):
            vm.prove('one minus the sum of squared relative frequencies', eq(g * w * w, w * w - tot(v * v for v in d.values())))
        else:
            vm.prove('no weight', eq(g, 1))
    return u


def branches(vm, nb, nc):
    return vm.born([dist(vm, 'd%d' % b, range(nc)) for b in range(nb)]), dist(vm, 'pre', range(nc))


def u_gini(nb, nc):
    def u(vm):
        post, pre = branches(vm, nb, nc)
        W = tot(v for d in post for v in d.values())
        vm.assume(W > 0)
        imp = {}

        def gini(vm, self, a, kw):
            vm.prove('called with the weight of the branch', eq(a[1], tot(a[0].values())))
            return imp.setdefault(id(a[0]), vm.fresh('gini', 'real', 0, 1))
        vm.contract(GINI, 'GiniSplitCriterion', 'compute_gini', gini)
        o = vm.new(cls(vm, GINI, 'GiniSplitCriterion'))
        m = vm.method(o, 'get_merit_of_split', pre, post)
        for d in post:
            imp.setdefault(id(d), vm.fresh('gini', 'real', 0, 1))
        vm.prove('merit is one minus the weighted Gini impurity of the branches', eq((1 - m) * W, tot(tot(d.values()) * imp[id(d)] for d in post)))
        vm.prove('range', eq(vm.method(o, 'get_range_of_merit', pre), 1))
    return u


def xlog(d):
    return S.ite(d > 0, d * S.log2(d), 0)


def entropy(ds):
    w = tot(ds)
    return S.ite(w > 0, S.log2(w) - tot(xlog(d) for d in ds) / S.ite(w > 0, w, 1), 0)


def enough(post, frac):
    W = tot(v for d in post for v in d.values())
    return tot(S.ite(tot(d.values()) > frac * W, 1, 0) for d in post)


def u_entropy(nc):
    def u(vm):
        vm.soft_uf = True
        d = dist(vm, 'd', range(nc))
        o = vm.new(cls(vm, GAIN, 'InfoGainSplitCriterion'))
        vm.prove('entropy of a class distribution', eq(vm.method(o, 'compute_entropy', d), entropy(list(d.values()))))
    return u


def u_gain(nb, nc):
    def u(vm):
        post, pre = branches(vm, nb, nc)
        W = tot(v for d in post for v in d.values())
        frac = vm.inp('frac', 'real', 0, 1)
        vm.assume(W > 0)
        H = {}

        def ent(vm, self, a, kw):
            return H.setdefault(id(a[0]), vm.fresh('H', 'real', 0))
        vm.contract(GAIN, 'InfoGainSplitCriterion', '_compute_entropy_dict', ent)
        o = vm.new(cls(vm, GAIN, 'InfoGainSplitCriterion'), min_branch_frac_option=frac)
        m = vm.method(o, 'get_merit_of_split', pre, post)
        n = enough(post, frac)
        if m == -math.inf:
            vm.prove('no merit only when fewer than two branches carry enough weight', n < 2)
            return
        vm.prove('a merit only when two branches carry enough weight', n >= 2)
        for d in [pre] + list(post):
            H.setdefault(id(d), vm.fresh('H', 'real', 0))
        vm.prove('merit is the information gain', eq((H[id(pre)] - m) * W, tot(tot(d.values()) * H[id(d)] for d in post)))
    return u


def u_range(vm):
    for f, c in (('info_gain_split_criterion.py', 'InfoGainSplitCriterion'), ('hellinger_distance_criterion.py', 'HellingerDistanceCriterion')):
        o = vm.new(cls(vm, C + f, c))
        for n in range(0, 6):
            vm.prove('range is log2 of the number of classes (at least 2)', eq(vm.method(o, 'get_range_of_merit', vm.born({i: 1.0 for i in range(n)})), math.log2(max(n, 2))))
        vm.prove('no branches with weight, no merit', vm.method(o, 'get_merit_of_split', vm.born({0: 0.0}), vm.born([vm.born({0: 0.0}), vm.born({0: 0.0})])) == -math.inf)


def u_hell(vm):
    vm.soft_uf = True
    post = vm.born([dist(vm, 'd%d' % b, range(2)) for b in range(2)])
    frac = vm.inp('frac', 'real', 0, 1)
    P = [d[1] for d in post]
    N = [d[0] for d in post]
    vm.assume(and_(tot(P) > 0, tot(N) > 0))
    o = vm.new(cls(vm, C + 'hellinger_distance_criterion.py', 'HellingerDistanceCriterion'), min_branch_frac_option=frac)
    m = vm.method(o, 'get_merit_of_split', vm.born({0: 1.0, 1: 1.0}), post)
    n = enough(post, frac)
    if m == -math.inf:
        vm.prove('no merit only when fewer than two branches carry enough weight', n < 2)
        return
    vm.prove('a merit only when two branches carry enough weight', n >= 2)
    h = tot((S.sqrt(a / tot(N)) - S.sqrt(b / tot(P))) * (S.sqrt(a / tot(N)) - S.sqrt(b / tot(P))) for a, b in zip(N, P))
    vm.prove('merit is the Hellinger distance', eq(m, S.sqrt(h)))


def stat(vm, name, k=None):
    f = (lambda n: vm.inp(name + n, 'real')) if k is None else (lambda n: np.array([vm.inp('%s%s%d' % (name, n, i), 'real') for i in range(k)], dtype=object))
    return vm.born({0: vm.inp(name + '_n', 'real', 0), 1: f('_s'), 2: f('_q')})


def u_vr(nb, k):
    def u(vm):
        vm.soft_uf = True
        pre = stat(vm, 'pre', k)
        vm.assume(pre[0] > 1)
        post = vm.born([stat(vm, 'b%d' % b, k) for b in range(nb)])
        f, c = ('variance_reduction_split_criterion.py', 'VarianceReductionSplitCriterion') if k is None else \
            ('intra_cluster_variance_reduction_split_criterion.py', 'IntraClusterVarianceReductionSplitCriterion')
        o = vm.new(cls(vm, C + f, c))
        m = vm.method(o, 'get_merit_of_split', pre, post)
        big = and_(*[d[0] >= 5 for d in post])

        def sd(d):
            if k is None:
                v = (d[2] - d[1] * d[1] / d[0]) / d[0]
                return S.sqrt(S.ite(v > 0, v, 0))
            return tot((d[2][i] - d[1][i] * d[1][i] / d[0]) / (d[0] - 1) for i in range(k)) / k
        if vm.truth(big):
            vm.prove('merit is the reduction of the deviation', eq(m, sd(pre) - tot(d[0] / pre[0] * sd(d) for d in post)))
        else:
            vm.prove('no merit when a branch has fewer than 5', eq(m, 0))
        vm.prove('range', eq(vm.method(o, 'get_range_of_merit', pre), 1))
    return u


# ------------------------------------------------------------------ proofs: Gaussian estimator
def gauss(vm, name='g', known=None):
    """an estimator whose weight, sum and sum of squares are arbitrary"""
    W, M, Q = vm.inp(name + '_W', 'real', 0), vm.inp(name + '_M', 'real'), vm.inp(name + '_Q', 'real', 0)
    vm.assume(W > 0)
    vm.assume(Q * W >= M * M)
    o = vm.new(cls(vm, GE, 'GaussianEstimator'))
    for f in ('_weight_sum', '_mean', '_variance_sum'):
        if f not in o.fields:
            raise Unsupported('other representation')
    o.fields['_weight_sum'], o.fields['_mean'], o.fields['_variance_sum'] = W, M / W, Q - M * M / W
    return o, W, M, Q


def u_gadd(vm):
    o, W, M, Q = gauss(vm)
    x, w = vm.inp('x', 'real'), vm.inp('w', 'real', 0)
    vm.assume(w > 0)
    vm.method(o, 'add_observation', x, w)
    W, M, Q = W + w, M + w * x, Q + w * x * x
    vm.prove('weight', eq(vm.method(o, 'get_total_weight_observed'), W))
    vm.prove('mean is the weighted mean', eq(vm.method(o, 'get_mean') * W, M))
    v = vm.method(o, 'get_variance')
    if vm.truth(W > 1):
        vm.prove('variance is the sample variance', eq(v * (W - 1) * W, Q * W - M * M))
    else:
        vm.prove('no variance up to weight 1', eq(v, 0))


def u_gfirst(vm):
    o = vm.new(cls(vm, GE, 'GaussianEstimator'))
    vm.prove('a new estimator is empty', and_(eq(vm.method(o, 'get_total_weight_observed'), 0), eq(vm.method(o, 'get_variance'), 0), eq(vm.method(o, 'probability_density', vm.inp('q', 'real')), 0)))
    x, w = vm.inp('x', 'real'), vm.inp('w', 'real', 0)
    vm.assume(w > 0)
    vm.method(o, 'add_observation', None, w)
    vm.prove('a missing value is ignored', eq(vm.method(o, 'get_total_weight_observed'), 0))
    vm.method(o, 'add_observation', x, w)
    vm.prove('first observation', and_(eq(vm.method(o, 'get_total_weight_observed'), w), eq(vm.method(o, 'get_mean'), x), eq(vm.method(o, 'get_variance'), 0)))
    vm.prove('a point mass', and_(eq(vm.method(o, 'probability_density', x), 1), eq(vm.method(o, 'probability_density', x + 1), 0)))


def u_gquery(vm):
    vm.soft_uf = True
    o, W, M, Q = gauss(vm)
    v = vm.inp('v', 'real')

    def phi(vm, self, a, kw):
        r = S.ufun('Phi', a[0])
        vm.assume(and_(r > 0, r < 1))
        vm.ghost['phi'] = (a[0], r)
        return r
    vm.contracts['utils/statistics.py:normal_probability'] = phi
    d = vm.method(o, 'probability_density', v)
    le, e, g = vm.method(o, 'estimated_weight_lessthan_equalto_greaterthan_value', v)
    mean = M / W
    s2 = vm.method(o, 'get_variance')
    s = vm.method(o, 'get_std_dev')
    vm.prove('deviation is the root of the variance', and_(s >= 0, eq(s * s, s2)))
    vm.prove('weight at the value is density times weight', eq(e, d * W))
    if vm.truth(s2 > 0):
        vm.prove('density is the normal density', eq(d * S.sqrt(2 * math.pi) * s, S.exp(-((v - mean) * (v - mean) / (2 * s * s)))))
        z, r = vm.ghost['phi']
        vm.prove('standardised', eq(z * s, v - mean))
        vm.prove('weight below or at the value is the normal distribution function', eq(le + e, r * W))
        vm.prove('weights add up', eq(g, W - le - e))
    else:
        vm.prove('point mass', eq(d, S.ite(eq(v, mean), 1, 0)))
        vm.prove('all weight on the right side', and_(eq(le, S.ite(v > mean, W, 0)), eq(e, S.ite(eq(v, mean), W, 0)), eq(g, S.ite(v < mean, W, 0))))


def u_phi(vm):
    a = vm.inp('a', 'real')
    f = lambda x: vm.call(vm.load('utils/statistics.py').get('normal_probability'), [x], {})
    p, q = f(a), f(-a)
    vm.prove('symmetric', eq(p + q, 1))


# ------------------------------------------------------------------ proofs: tests
def covers(vm, p, X):
    return vm.method(p, 'covers_instance', X)


def branch(vm, t, X, i, n):
    """known finding [first-missing]: the first attribute the instance lacks raises IndexError instead of giving -1"""
    try:
        return vm.method(t, 'branch_for_instance', X)
    except PyRaise as e:
        if i == n and e.name == 'IndexError':
            return -1
        raise


def u_numtest(vm):
    n = 3
    X = vm.born([vm.inp('x%d' % i, 'real') for i in range(n)])
    i = vm.choose(n + 2) - 1
    v = vm.inp('v', 'real')
    passes = vm.choose(2) == 0
    t = vm.new(cls(vm, T + 'numeric_attribute_binary_test.py', 'NumericAttributeBinaryTest'), i, v, passes)
    b = branch(vm, t, X, i, n)
    if not 0 <= i < n:
        vm.prove('no branch without the attribute', eq(b, -1))
        return
    below = X[i] <= v if passes else X[i] < v
    vm.prove('left branch exactly below the cut point', eq(b, ite(below, 0, 1)))
    for br in (0, 1):
        vm.prove('the rule of a branch covers exactly its instances', S.iff(S.truth(covers(vm, vm.method(t, 'branch_rule', br), X)), eq(b, br)))
    vm.prove('depends on its attribute', list(vm.method(t, 'get_atts_test_depends_on')) == [i])
    vm.prove('two branches', vm.method(t, 'max_branches') == 2)
    vm.prove('split value', eq(vm.method(t, 'get_split_value'), v))


def u_nomtest(vm):
    n = 3
    X = vm.born([vm.inp('x%d' % i, 'real') for i in range(n)])
    i = vm.choose(n + 2) - 1
    v = vm.inp('v', 'real')
    t = vm.new(cls(vm, T + 'nominal_attribute_binary_test.py', 'NominalAttributeBinaryTest'), i, v)
    b = branch(vm, t, X, i, n)
    if not 0 <= i < n:
        vm.prove('no branch without the attribute', eq(b, -1))
        return
    vm.prove('branch 0 exactly for the value', eq(b, ite(eq(X[i], v), 0, 1)))
    for br in (0, 1):
        vm.prove('the rule of a branch covers exactly its instances', S.iff(S.truth(covers(vm, vm.method(t, 'branch_rule', br), X)), eq(b, br)))
    vm.prove('depends on its attribute', list(vm.method(t, 'get_atts_test_depends_on')) == [i])
    vm.prove('two branches', vm.method(t, 'max_branches') == 2)


def u_multitest(vm):
    vals = [2, 5, 7]
    i = vm.choose(4) - 1
    t = vm.new(cls(vm, T + 'nominal_attribute_multiway_test.py', 'NominalAttributeMultiwayTest'), i, vm.born({v: b for b, v in enumerate(vals)}))
    x = [2, 5, 7, 9][vm.choose(4)]
    X = vm.born([x, x])
    if not 0 <= i < 2:
        vm.prove('no branch without the attribute', eq(branch(vm, t, X, i, 2), -1))
        return
    vm.prove('one branch per value, none for an unseen one', eq(vm.method(t, 'branch_for_instance', X), vals.index(x) if x in vals else -1))
    for b, v in enumerate(vals):
        vm.prove('the rule of a branch covers exactly its instances', S.iff(S.truth(covers(vm, vm.method(t, 'branch_rule', b), X)), x == v))
    if x == 9:
        b = vm.method(t, 'add_new_branch', 9)
        vm.prove('a new value gets the next branch', eq(b, 3))
        vm.prove('and is routed there', eq(vm.method(t, 'branch_for_instance', X), 3))
        vm.prove('with its rule', covers(vm, vm.method(t, 'branch_rule', 3), X))
        for k, v in enumerate(vals):
            vm.prove('the others keep theirs', eq(vm.method(t, 'branch_for_instance', vm.born([v, v])), k))


# ------------------------------------------------------------------ proofs: observers
def same(a, b):
    """two distributions, absent = 0"""
    ks = sorted(set(a) | set(b))
    return and_(*[eq(a.get(k, 0), b.get(k, 0)) for k in ks])


def best(vm, crit, sug, pre, parts):
    """parts: {branch tuple key: [expected dists]} of all candidates in terms of the test"""
    vm.prove('a suggestion is returned', sug is not None)
    m = vm.getattr(sug, 'merit')
    for p, post, k in crit.calls:
        vm.prove('evaluated against the distribution before the split', same(p, pre))
        vm.prove('no candidate is better than the suggestion', k <= m)
    d = [dict(x) for x in vm.getattr(sug, 'resulting_class_distributions')]
    vm.prove('the merit is the one of its distributions', or_(*[and_(eq(m, k), len(post) == len(d), *[same(x, y) for x, y in zip(post, d)]) for _, post, k in crit.calls]))
    vm.prove('number of branches', vm.method(sug, 'num_splits') == len(d))
    for i, x in enumerate(d):
        vm.prove('branch statistics', same(vm.method(sug, 'resulting_stats_from_split', i), x))
    return m, d


def u_nomclass(nv, nc, binary):
    def u(vm):
        o = vm.new(cls(vm, O + 'nominal_attribute_class_observer.py', 'NominalAttributeClassObserver'))
        g = {}
        # every pair seen or not, in an arbitrary order of arrival
        for v in range(nv - 1, -1, -1):
            for c in range(nc):
                if (v, c) == (0, 0) or vm.choose(2):
                    w = vm.inp('w%d_%d' % (v, c), 'real', 0)
                    vm.assume(w > 0)
                    vm.method(o, 'update', v, c, w)
                    g[v, c] = w
        w2 = vm.inp('again', 'real', 0)
        vm.method(o, 'update', 0, 0, w2)
        g[0, 0] = g[0, 0] + w2
        vm.method(o, 'update', None, 1, vm.inp('miss', 'real', 0))
        for c in range(nc + 1):
            seen = [v for v in range(nv) if (v, c) in g]
            for v in range(nv + 1):
                p = vm.method(o, 'probability_of_attribute_value_given_class', v, c)
                if not seen:
                    vm.prove('class never seen', eq(p, 0))
                else:
                    vm.prove('Laplace estimate of the value given the class', eq(p * (tot(g[k, c] for k in seen) + len(seen)), g.get((v, c), 0) + 1))
        crit, pre = Crit(vm), vm.born({0: 1.0})
        s = vm.method(o, 'get_best_evaluated_split_suggestion', crit, pre, 4, binary)
        vals = sorted({v for v, _ in g})
        m, d = best(vm, crit, s, pre, None)
        t = vm.getattr(s, 'split_test')
        per = {v: {c: g[v, c] for c in range(nc) if (v, c) in g} for v in vals}
        evaluated(vm, crit, vals, per, binary)
        route(vm, t, 4, vals, d, lambda v: {c: g[v, c] for c in range(nc) if (v, c) in g})
    return u


def route(vm, t, att, vals, d, per):
    """the distribution of a branch is the one of the values its test sends there"""
    want = [dict() for _ in d]
    for v in vals:
        b = vm.method(t, 'branch_for_instance', vm.born([None] * att + [v]))
        vm.prove('every observed value has a branch', b is not None and 0 <= b < len(d))
        for k, w in per(v).items():
            want[b][k] = want[b].get(k, 0) + w
    for i, (x, y) in enumerate(zip(want, d)):
        vm.prove('the distribution of a branch is that of the values routed to it', same(x, y))


def evaluated(vm, crit, vals, per, binary):
    def add(ds):
        r = {}
        for d in ds:
            for k, v in d.items():
                r[k] = r.get(k, 0) + v
        return r
    want = [[per[v], add(per[u] for u in vals if u != v)] for v in vals]
    if not binary:
        want.append([per[v] for v in vals])
    for w in want:
        vm.prove('every split is evaluated', or_(*[and_(*[same(a, b) for a, b in zip(post, w)]) for _, post, _ in crit.calls if len(post) == len(w)]))


def u_nomreg(nv, binary):
    def u(vm):
        o = vm.new(cls(vm, O + 'nominal_attribute_regression_observer.py', 'NominalAttributeRegressionObserver'))
        g = {}
        for v in list(range(nv - 1, -1, -1)) + [nv - 1]:
            w, y = vm.inp('w', 'real', 0), vm.inp('y', 'real')
            vm.method(o, 'update', v, y, w)
            a = g.get(v, {0: 0, 1: 0, 2: 0})
            g[v] = {0: a[0] + w, 1: a[1] + w * y, 2: a[2] + w * y * y}
        vm.method(o, 'update', None, 1.0, 1.0)
        pre = vm.born({k: tot(a[k] for a in g.values()) for k in range(3)})
        crit = Crit(vm)
        s = vm.method(o, 'get_best_evaluated_split_suggestion', crit, pre, 2, binary)
        m, d = best(vm, crit, s, pre, None)
        evaluated(vm, crit, list(range(nv)), g, binary)
        route(vm, vm.getattr(s, 'split_test'), 2, range(nv), d, lambda v: g[v])
    return u


class Sorted:
    """sortedcontainers.SortedList"""
    def __init__(self, vm, xs=()):
        self.xs = []
        for x in xs:
            self.add(vm, x)

    def add(self, vm, x):
        i = len(self.xs)
        while i > 0 and vm.truth(x < self.xs[i - 1]):
            i -= 1
        self.xs.insert(i, x)

    def pv_getattr(self, vm, name):
        if name == 'add':
            return _fn(lambda x: self.add(vm, x))
        raise Unsupported('SortedList.' + name)

    def pv_iterate(self, vm):
        return list(self.xs)

    def pv_len(self, vm):
        return len(self.xs)


def u_gobs(nc):
    def u(vm):
        vm.hooks.setdefault('ext', {})['sortedcontainers.sortedlist.SortedList'] = lambda vm, *a: Sorted(vm, *a)
        """an observer after any history: any range and estimator per class"""
        o = vm.new(cls(vm, O + 'numeric_attribute_class_observer_gaussian.py', 'NumericAttributeClassObserverGaussian'))
        vm.prove('nothing to suggest yet', vm.method(o, 'get_best_evaluated_split_suggestion', Crit(vm), vm.born({}), 0, False) is None)
        nb = 2
        vm.setattr(o, 'num_bin_options', nb)
        W = {}

        def totalw(vm, self, a, kw):
            return W[id(self)][0]

        def ltg(vm, self, a, kw):
            w = W[id(self)]
            r = [vm.fresh('part', 'real') for _ in range(3)]
            vm.assume(and_(r[0] + r[1] >= 0, r[2] >= 0, eq(r[0] + r[1] + r[2], w[0])))
            w[1].append((a[0], r))
            return r

        def add(vm, self, a, kw):
            W.setdefault(id(self), [0, []])
            W[id(self)][0] = W[id(self)][0] + a[1]
            vm.ghost.setdefault('added', []).append((id(self), a[0], a[1]))
        for nme, f in (('get_total_weight_observed', totalw), ('estimated_weight_lessthan_equalto_greaterthan_value', ltg), ('add_observation', add)):
            vm.contract(GE, 'GaussianEstimator', nme, f)
        rng, wt = {}, {}
        for c in range(nc - 1, -1, -1):
            for k in range(2):
                x, w = vm.inp('x%d_%d' % (c, k), 'real'), vm.inp('w%d_%d' % (c, k), 'real', 0)
                vm.method(o, 'update', x, c, w)
                a = rng.get(c)
                rng[c] = (x, x) if a is None else (smin(a[0], x), smax(a[1], x))
                wt[c] = wt.get(c, 0) + w
        vm.method(o, 'update', None, 0, 3.0)
        add_ = vm.ghost['added']
        vm.prove('one estimator per class, fed with every value', len(add_) == 2 * nc and len({a[0] for a in add_}) == nc and all(add_[2 * i][0] == add_[2 * i + 1][0] for i in range(nc)))
        crit, pre = Crit(vm), vm.born({0: 1.0})
        s = vm.method(o, 'get_best_evaluated_split_suggestion', crit, pre, 1, True)
        lo, hi = None, None
        for a, b in rng.values():
            lo, hi = (a, b) if lo is None else (smin(lo, a), smax(hi, b))
        if s is None:
            vm.prove('no suggestion only when all values agree', eq(lo, hi))
            return
        vm.prove('equally spaced cut points inside the observed range', and_(lo < hi, len(crit.calls) >= nb))
        m, d = best(vm, crit, s, pre, None)
        cut = vm.method(vm.getattr(s, 'split_test'), 'get_split_value')
        vm.prove('the cut point is one of the equally spaced ones', or_(*[eq(cut, lo + (hi - lo) / (nb + 1) * (i + 1)) for i in range(nb)]))
        b = vm.method(vm.getattr(s, 'split_test'), 'branch_for_instance', vm.born([None, cut]))
        vm.prove('the cut point itself goes left', eq(b, 0))
        for c, (a, z) in rng.items():
            l, r = d[0].get(c, 0), d[1].get(c, 0)
            vm.prove('the weight of a class is kept', eq(l + r, wt[c]))
            vm.prove('a class wholly on one side', and_(implies(cut < a, eq(l, 0)), implies(cut >= z, eq(r, 0))))
            est = [p for (k, (w, ps)) in W.items() for p in ps]
            vm.prove('otherwise its estimated weights at the cut point',
                     or_(cut < a, cut >= z, *[and_(eq(v, cut), eq(l, p[0] + p[1]), eq(r, p[2])) for v, p in est]))
    return u


def bst(vm, shape, mk, path=''):
    """shape: None or (left, right); nodes in key order"""
    if shape is None:
        return None
    return mk(shape)


SHAPES = [(None, None), ((None, None), None), (None, (None, None)), ((None, None), (None, None)), (((None, None), None), None), ((None, (None, None)), None),
          (None, ((None, None), None)), (None, (None, (None, None)))]


def order(shape, n=0):
    """preorder list of in-order positions: inserting keys in this order produces the shape"""
    def size(s):
        return 0 if s is None else 1 + size(s[0]) + size(s[1])

    def go(s, lo):
        if s is None:
            return []
        k = lo + size(s[0])
        return [k] + go(s[0], lo) + go(s[1], k + 1)
    return go(shape, 0), size(shape)


def u_ebst(shape, extra):
    def u(vm):
        o = vm.new(cls(vm, O + 'numeric_attribute_regression_observer.py', 'NumericAttributeRegressionObserver'))
        od, n = order(shape)
        xs = [vm.inp('x%d' % i, 'real') for i in range(n)]
        for a, b in zip(xs, xs[1:]):
            vm.assume(a < b)
        data = []
        for k in od:
            w, y = vm.inp('w', 'real', 0), vm.inp('y', 'real')
            vm.method(o, 'update', xs[k], y, w)
            data.append((xs[k], w, w * y, w * y * y))
        if extra:
            x, w, y = vm.inp('x', 'real'), vm.inp('w', 'real', 0), vm.inp('y', 'real')
            vm.method(o, 'update', x, y, w)
            data.append((x, w, w * y, w * y * y))
        vm.method(o, 'update', None, 1.0, 1.0)
        pre = vm.born({j: tot(e[j + 1] for e in data) for j in range(3)})
        crit = Crit(vm)
        s = vm.method(o, 'get_best_evaluated_split_suggestion', crit, pre, 1)
        m, d = best(vm, crit, s, pre, None)
        cut = vm.method(vm.getattr(s, 'split_test'), 'get_split_value')
        vm.prove('the cut point is an observed value', or_(*[eq(cut, e[0]) for e in data]))
        for j in range(3):
            vm.prove('left statistics are those of the values routed left', eq(d[0][j], tot(ite(e[0] <= cut, e[j + 1], 0) for e in data)))
            vm.prove('right statistics are those of the values routed right', eq(d[1][j], tot(ite(e[0] <= cut, 0, e[j + 1]) for e in data)))
        # no candidate is forgotten or taken twice
        for e in data:
            vm.prove('every value is a candidate', or_(*[eq(post[0][0], tot(ite(f[0] <= e[0], f[1], 0) for f in data)) for _, post, _ in crit.calls]))
    return u


def u_prune(shape):
    """remove_bad_splits drops only candidates below the given ratio; what is left keeps exact statistics"""
    def u(vm):
        o = vm.new(cls(vm, O + 'numeric_attribute_regression_observer.py', 'NumericAttributeRegressionObserver'))
        od, n = order(shape)
        data = []
        for k in od:
            w = vm.inp('w', 'real', 0)
            vm.assume(w > 0)
            vm.method(o, 'update', float(k), 1.0, w)
            data.append((float(k), w))
        pre = vm.born({j: tot(e[1] for e in data) for j in range(3)})
        crit, c2 = Crit(vm), Crit(vm)
        ratio, sdr, e = vm.inp('ratio', 'real', 0, 1), vm.inp('sdr', 'real', 0), vm.inp('e', 'real', 0)
        vm.assume(sdr > 0)
        vm.method(o, 'remove_bad_splits', crit, ratio, sdr, e, pre)
        left = lambda x: tot(w for v, w in data if v <= x)
        good = []
        for x, _ in data:
            bad = or_(*[and_(eq(post[0][0], left(x)), m < (ratio - 2 * e) * sdr) for _, post, m in crit.calls])
            good.append((x, not_(bad)))
        try:
            vm.method(o, 'get_best_evaluated_split_suggestion', c2, pre, 1)
        except PyRaise:
            vm.prove('only an observer with bad candidates alone is emptied', not_(or_(*[g for _, g in good])))
            return
        for x, g in good:
            vm.prove('a candidate that is not bad is kept with its statistics', implies(g, or_(*[eq(post[0][0], left(x)) for _, post, _ in c2.calls])))
        for _, post, _ in c2.calls:
            vm.prove('no candidate is made up', or_(*[and_(eq(post[0][0], left(x)), eq(post[1][0], pre[0] - left(x))) for x, _ in data]))
    return u


def u_bint(shape):
    def u(vm):
        o = vm.new(cls(vm, O + 'numeric_attribute_class_observer_binary_tree.py', 'NumericAttributeClassObserverBinaryTree'))
        od, n = order(shape)
        xs = [vm.inp('x%d' % i, 'real') for i in range(n)]
        for a, b in zip(xs, xs[1:]):
            vm.assume(a < b)
        data = []
        for i, k in enumerate(od):
            w = vm.inp('w', 'real', 0)
            vm.assume(w > 0)
            vm.method(o, 'update', xs[k], i % 2, w)
            data.append((xs[k], i % 2, w))
        crit, pre = Crit(vm), vm.born({0: 1.0, 1: 1.0})
        s = vm.method(o, 'get_best_evaluated_split_suggestion', crit, pre, 1, True)
        m, d = best(vm, crit, s, pre, None)
        cut = vm.method(vm.getattr(s, 'split_test'), 'get_split_value')
        for c in (0, 1):
            vm.prove('left distribution is that of the values routed left', eq(d[0].get(c, 0), tot(ite(e[0] <= cut, e[2], 0) for e in data if e[1] == c)))
            vm.prove('right distribution is that of the values routed right', eq(d[1].get(c, 0), tot(ite(e[0] <= cut, 0, e[2]) for e in data if e[1] == c)))
    return u


def u_null(vm):
    o = vm.new(cls(vm, O + 'attribute_observer_null.py', 'AttributeObserverNull'))
    vm.method(o, 'update', vm.inp('x', 'real'), 0, 1.0)
    vm.prove('a disabled attribute suggests nothing', vm.method(o, 'get_best_evaluated_split_suggestion', Crit(vm), vm.born({}), 0, True) is None)


UNITS = [('gini of a branch[%d classes]' % k, u_gini1(k)) for k in (1, 2, 3)] + [('entropy[%d classes]' % k, u_entropy(k)) for k in (1, 2, 3)] + \
        [('gini[%d branches, %d classes]' % k, u_gini(*k)) for k in ((2, 2), (1, 2), (3, 2), (2, 3))] + \
        [('info gain[%d branches, %d classes]' % k, u_gain(*k)) for k in ((1, 2), (2, 2), (2, 3), (3, 2))] + \
        [('merit range', u_range), ('hellinger', u_hell)] + \
        [('variance reduction[%d branches]' % n, u_vr(n, None)) for n in (1, 2, 3)] + \
        [('intra-cluster variance reduction[%d branches, %d targets]' % k, u_vr(*k)) for k in ((1, 2), (2, 2), (2, 1))] + \
        [('GaussianEstimator.add_observation', u_gadd), ('GaussianEstimator first', u_gfirst), ('GaussianEstimator queries', u_gquery), ('normal_probability', u_phi),
         ('NumericAttributeBinaryTest', u_numtest), ('NominalAttributeBinaryTest', u_nomtest), ('NominalAttributeMultiwayTest', u_multitest), ('AttributeObserverNull', u_null)] + \
        [('NominalAttributeClassObserver[%d values, %d classes, binary=%s]' % k, u_nomclass(*k)) for k in ((2, 2, False), (2, 2, True), (3, 2, False), (2, 3, True))] + \
        [('NominalAttributeRegressionObserver[%d values, binary=%s]' % k, u_nomreg(*k)) for k in ((2, False), (3, False), (2, True))] + \
        [('NumericAttributeClassObserverGaussian[%d classes]' % n, u_gobs(n)) for n in (1, 2)] + \
        [('NumericAttributeRegressionObserver[%r]' % (s,), u_ebst(s, False)) for s in SHAPES] + \
        [('NumericAttributeRegressionObserver[%r + 1]' % (s,), u_ebst(s, True)) for s in SHAPES[:4]] + \
        [('NumericAttributeRegressionObserver.remove_bad_splits[%r]' % (s,), u_prune(s)) for s in SHAPES] + \
        [('NumericAttributeClassObserverBinaryTree[%r]' % (s,), u_bint(s)) for s in SHAPES]


# ------------------------------------------------------------------ the same contracts on the real code
TOL = 1e-7


def near(a, b, tol=TOL):
    if a is None or b is None:
        return a is b
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def cases(rnd, hints, tier):
    while True:
        for kind in ('crit', 'crit', 'reg', 'gauss', 'phi', 'test', 'nomc', 'nomr', 'gobs', 'ebst', 'ebst', 'bint'):
            c = dict(kind=kind, seed=rnd.randrange(10 ** 9))
            yield c


def run_case(case):
    import random
    rnd = random.Random(case['seed'])
    return globals()['r_' + case['kind']](rnd, case)


def weight(rnd):
    return rnd.choice([1.0, 1.0, 1.0, 2.0, 0.5, 3.0, 0.25, rnd.uniform(0.1, 4)])


def r_crit(rnd, case):
    from skmultiflow.trees._split_criterion import GiniSplitCriterion, InfoGainSplitCriterion, HellingerDistanceCriterion
    nc = rnd.choice([2, 2, 2, 3, 4])
    nb = rnd.choice([1, 2, 2, 2, 3])
    W = lambda: rnd.choice([0.0, 1.0, 5.0, 2.0, rnd.uniform(0, 50), rnd.uniform(0, 1)])
    post = [{c: W() for c in range(nc) if rnd.random() < 0.85} for _ in range(nb)]
    if 'post' in case:
        post = [{int(k): v for k, v in d.items()} for d in case['post']]
        nc = 2
    ws = [sum(d.values()) for d in post]
    if sum(ws) <= 0:
        return None
    pre = {c: sum(d.get(c, 0.0) for d in post) for c in range(nc)}
    frac = rnd.choice([0.01, 0.01, 0.0, 0.3, 0.5, ws[0] / sum(ws)])
    import copy
    keep = copy.deepcopy((pre, post))

    def H(ds):
        s = sum(ds)
        return -sum(d / s * math.log2(d / s) for d in ds if d > 0) if s > 0 else 0.0
    g = GiniSplitCriterion().get_merit_of_split(pre, post)
    want = 1 - sum(w / sum(ws) * (1 - sum((v / w) ** 2 for v in d.values())) for w, d in zip(ws, post) if w > 0)
    if not near(g, want):
        return 'Gini merit of %r is %r, should be %r' % (post, g, want)
    if GiniSplitCriterion().get_range_of_merit(pre) != 1.0:
        return 'Gini range'
    n = sum(1 for w in ws if w / sum(ws) > frac)
    want = H(list(pre.values())) - sum(w / sum(ws) * H(list(d.values())) for w, d in zip(ws, post)) if n >= 2 else -math.inf
    m = InfoGainSplitCriterion(min_branch_frac_option=frac).get_merit_of_split(pre, post)
    if not near(m, want):
        return 'information gain of %r (min fraction %r) is %r, should be %r' % (post, frac, m, want)
    for cl in (InfoGainSplitCriterion, HellingerDistanceCriterion):
        r = cl().get_range_of_merit(pre)
        if not near(r, math.log2(max(2, len(pre)))):
            return 'range of merit for %d classes is %r' % (len(pre), r)
    if nc == 2 and nb <= 2:
        P, N = pre[1], pre[0]
        m = HellingerDistanceCriterion(min_branch_frac_option=frac).get_merit_of_split(pre, post)
        missing = any(k not in d for d in post for k in (0, 1))
        if n < 2:
            want = -math.inf
        elif P > 0 and N > 0:
            want = math.sqrt(sum((math.sqrt(d.get(0, 0.0) / N) - math.sqrt(d.get(1, 0.0) / P)) ** 2 for d in post))
        else:
            want = None
        if want is not None and not near(m, want):
            return 'Hellinger merit of %r is %r, should be %r%s' % (post, m, want, ' [hellinger-missing-class]' if missing and m == 0 else '')
    if (pre, post) != keep:
        return 'a criterion modified its arguments'
    return None


def r_reg(rnd, case):
    from skmultiflow.trees._split_criterion import VarianceReductionSplitCriterion, IntraClusterVarianceReductionSplitCriterion
    nb, k = rnd.choice([1, 2, 2, 3]), rnd.choice([1, 2, 3])
    br = []
    for _ in range(nb):
        n = rnd.choice([4, 5, 5, 6, 12])
        ws = [weight(rnd) if rnd.random() < 0.3 else 1.0 for _ in range(n)]
        br.append((ws, [[rnd.choice([rnd.gauss(0, 3), rnd.gauss(50, 1), 2.0]) for _ in range(k)] for _ in range(n)]))

    def st(ws, ys):
        return {0: sum(ws), 1: np.array([sum(w * y[i] for w, y in zip(ws, ys)) for i in range(k)]), 2: np.array([sum(w * y[i] ** 2 for w, y in zip(ws, ys)) for i in range(k)])}
    allb = ([w for b in br for w in b[0]], [y for b in br for y in b[1]])
    pre, post = st(*allb), [st(*b) for b in br]
    one = lambda d: {0: d[0], 1: float(d[1][0]), 2: float(d[2][0])}

    def var(ws, ys, i, dd):
        m = sum(w * y[i] for w, y in zip(ws, ys)) / sum(ws)
        return sum(w * (y[i] - m) ** 2 for w, y in zip(ws, ys)) / (sum(ws) - dd)
    small = any(d[0] < 5 for d in post)
    sd = lambda b: math.sqrt(max(0.0, var(b[0], b[1], 0, 0)))
    m = VarianceReductionSplitCriterion().get_merit_of_split(one(pre), [one(d) for d in post])
    want = 0.0 if small else sd(allb) - sum(sum(b[0]) / pre[0] * sd(b) for b in br)
    if not near(m, want, 1e-5):
        return 'variance reduction of %r is %r, should be %r' % ([one(d) for d in post], m, want)
    mv = lambda b: sum(var(b[0], b[1], i, 1) for i in range(k)) / k
    m = IntraClusterVarianceReductionSplitCriterion().get_merit_of_split(pre, post)
    want = 0.0 if small else mv(allb) - sum(sum(b[0]) / pre[0] * mv(b) for b in br)
    if not near(m, want, 1e-5):
        return 'intra-cluster variance reduction is %r, should be %r' % (m, want)
    return None


def Phi(z):
    return 0.5 * math.erfc(-z / math.sqrt(2))


def moments(data):
    W = sum(w for _, w in data)
    m = sum(w * x for x, w in data) / W
    v = sum(w * (x - m) ** 2 for x, w in data) / (W - 1) if W > 1 else 0.0
    return W, m, v


def r_gauss(rnd, case):
    from skmultiflow.trees.gaussian_estimator import GaussianEstimator
    e = GaussianEstimator()
    data = []
    off = rnd.choice([0, 0, 10, -100])
    for i in range(rnd.choice([1, 2, 3, 8])):
        x, w = rnd.choice([rnd.gauss(off, 2), off, float(rnd.randrange(4))]), weight(rnd)
        e.add_observation(x, w)
        data.append((x, w))
        if rnd.random() < 0.1:
            e.add_observation(None, 1.0)
        if rnd.random() < 0.1:
            e.add_observation(rnd.choice([math.inf, -math.inf]), 1.0)
        W, m, v = moments(data)
        for got, want, what in ((e.get_total_weight_observed(), W, 'weight'), (e.get_mean(), m, 'mean'), (e.get_variance(), v, 'variance'), (e.get_std_dev(), math.sqrt(v), 'deviation')):
            if not near(got, want, 1e-6):
                return 'GaussianEstimator after %r: %s %r, should be %r' % (data, what, got, want)
        if 0 < v < 1e-9:
            continue
        for q in [rnd.gauss(off, 3), m, data[0][0], m + 20 * math.sqrt(v) + 1, m - 1]:
            s = math.sqrt(v)
            if v == 0 and q != m and near(q, m):
                continue
            d = math.exp(-(q - m) ** 2 / (2 * v)) / (s * math.sqrt(2 * math.pi)) if v > 0 else (1.0 if q == e.get_mean() else 0.0)
            if not near(e.probability_density(q), d, 1e-6):
                return 'GaussianEstimator after %r: density at %r is %r, should be %r' % (data, q, e.probability_density(q), d)
            l, t, g = e.estimated_weight_lessthan_equalto_greaterthan_value(q)
            below = Phi((q - m) / s) * W if v > 0 else (W if q >= e.get_mean() else 0.0)
            if not (near(t, d * W, 1e-6) and near(l + t, below, 1e-6) and near(g, W - below, 1e-6)):
                return 'GaussianEstimator after %r: weights around %r are %r, should be %r below or at, %r above' % (data, q, (l, t, g), below, W - below)
    return None


def r_phi(rnd, case):
    from skmultiflow.utils.statistics import normal_probability
    for a in [rnd.uniform(-3, 3), rnd.uniform(-12, 12), rnd.uniform(-1, 1), rnd.choice([0.0, 1.0, -1.0, 40.0, -40.0, 8 * math.sqrt(2), math.sqrt(2)]), rnd.uniform(-40, 40)]:
        p = float(normal_probability(a))
        if abs(p - Phi(a)) > 1e-9:
            return 'normal_probability(%r) is %r, should be %r' % (a, p, Phi(a))
    return None


def r_test(rnd, case):
    from skmultiflow.trees._attribute_test import NumericAttributeBinaryTest, NominalAttributeBinaryTest, NominalAttributeMultiwayTest
    n = rnd.randrange(1, 5)
    i = rnd.randrange(-1, n + 2)
    v = float(rnd.randrange(3))
    X = np.array([rnd.choice([0.0, 1.0, 2.0, 3.0, v, v + 0.5]) for _ in range(n)])
    vals = rnd.sample([0.0, 1.0, 2.0, 3.0, 4.0], rnd.randrange(1, 5))
    eqp = rnd.random() < 0.5
    num, nb, mw = NumericAttributeBinaryTest(i, v, eqp), NominalAttributeBinaryTest(i, v), NominalAttributeMultiwayTest(i, {a: b for b, a in enumerate(vals)})
    found = None
    for t in (num, nb, mw):
        nm = type(t).__name__
        try:
            b = t.branch_for_instance(X)
        except IndexError:
            if i != n:
                raise
            found = '%s on attribute %d of %d raises IndexError [first-missing]' % (nm, i, n)
            continue
        if not 0 <= i < n:
            if b != -1:
                return '%s on attribute %d of %d gives branch %r' % (nm, i, n, b)
            continue
        x = X[i]
        want = (0 if x < v or (eqp and x == v) else 1) if t is num else (0 if x == v else 1) if t is nb else (vals.index(x) if x in vals else -1)
        if b != want:
            return '%s(%r) sends %r to branch %r, should be %r' % (nm, vals if t is mw else v, x, b, want)
        for k in range(2 if t is not mw else len(vals)):
            if bool(t.branch_rule(k).covers_instance(X)) != (k == want):
                return '%s: rule %s of branch %d and the branch %r of %r disagree' % (nm, t.branch_rule(k), k, b, x)
            words = t.describe_condition_for_branch(k).split()
            c, ref = words[-2], float(words[-1])
            if {'=': x == ref, '<=': x <= ref, '<': x < ref, '>': x > ref, '>=': x >= ref, '!=': x != ref}[c] != (k == want):
                return '%s: description %r of branch %d and the branch %r of %r disagree' % (nm, ' '.join(words), k, b, x)
        if list(t.get_atts_test_depends_on()) != [i]:
            return '%s: depends on %r' % (nm, t.get_atts_test_depends_on())
        if t is mw and want == -1:
            k = t.add_new_branch(x)
            if k != len(vals) or t.branch_for_instance(X) != k or not t.branch_rule(k).covers_instance(X):
                return 'new branch for %r: %r' % (x, k)
            for j, u in enumerate(vals):
                Y = X.copy()
                Y[i] = u
                if t.branch_for_instance(Y) != j:
                    return 'adding a branch moved value %r' % u
    return found


class Mine:
    """a criterion of our own (a function of the distributions), that remembers what it was asked"""
    def __init__(self, salt):
        self.salt, self.calls = salt, []

    def value(self, post):
        r = 0.0
        for i, d in enumerate(post):
            for k, v in d.items():
                r += math.sin(self.salt + 1.7 * i + 0.9 * float(k)) * float(v)
            if len(d):
                w = float(d[0]) if self.salt > 50 else sum(float(v) for v in d.values())
                r += 0.37 * (i + 1) * math.sqrt(abs(w))
        return r

    def get_merit_of_split(self, pre, post):
        self.calls.append([{k: float(v) for k, v in d.items()} for d in post])
        return self.value(post)

    def get_range_of_merit(self, pre):
        return 1.0


def dsame(a, b, tol=1e-6):
    return all(near(a.get(k, 0.0), b.get(k, 0.0), tol) for k in set(a) | set(b))


def judge(crit, s, cands, att, what, x2dist, tol=1e-6):
    """cands: expected candidates (lists of distributions)"""
    if s is None:
        return '%s: no suggestion' % what
    d = [{k: float(v) for k, v in x.items()} for x in s.resulting_class_distributions]
    top = max(crit.value(c) for c in cands)
    if not near(s.merit, top, 1e-5):
        return '%s: the suggestion has merit %r, the best candidate %r' % (what, s.merit, top)
    if not near(crit.value(d), s.merit, 1e-5):
        return '%s: the distributions %r of the suggestion do not have its merit' % (what, d)
    for c in cands:
        if not any(len(c) == len(e) and all(dsame(a, b, tol) for a, b in zip(c, e)) for e in crit.calls):
            return '%s: the split %r is never evaluated' % (what, c)
    if s.num_splits() != len(d) or any(not dsame(s.resulting_stats_from_split(i), d[i]) for i in range(len(d))):
        return '%s: num_splits/resulting_stats_from_split disagree with the distributions' % what
    if list(s.split_test.get_atts_test_depends_on()) != [att]:
        return '%s: the test is on attribute %r' % (what, s.split_test.get_atts_test_depends_on())
    want = [{} for _ in d]
    for x, dd in x2dist:
        b = s.split_test.branch_for_instance(np.array([-77.0] * att + [x]))
        if not 0 <= b < len(d):
            return '%s: value %r has no branch' % (what, x)
        for k, v in dd.items():
            want[b][k] = want[b].get(k, 0.0) + v
    if not all(dsame(a, b, tol) for a, b in zip(want, d)):
        return '%s: the branches get %r, the suggestion says %r' % (what, want, d)
    return None


def add(ds):
    r = {}
    for d in ds:
        for k, v in d.items():
            r[k] = r.get(k, 0.0) + v
    return r


def nominal(rnd, obs, per, vals, att, what, pre, salt):
    for binary in (True, False):
        cands = [[per[v], add(per[u] for u in vals if u != v)] for v in vals] + ([] if binary else [[per[v] for v in vals]])
        crit = Mine(salt)
        s = obs.get_best_evaluated_split_suggestion(crit, pre, att, binary)
        r = judge(crit, s, cands, att, what, [(v, per[v]) for v in vals])
        if r:
            return r


def r_nomc(rnd, case):
    from skmultiflow.trees._attribute_observer import NominalAttributeClassObserver
    o = NominalAttributeClassObserver()
    nv, nc = rnd.randrange(1, 5), rnd.randrange(1, 4)
    data = []
    for _ in range(rnd.choice([1, 3, 10, 25])):
        v, c, w = float(rnd.randrange(nv)), rnd.randrange(nc), weight(rnd)
        o.update(v, c, w)
        data.append((v, c, w))
        if rnd.random() < 0.1:
            o.update(None, c, w)
    vals = sorted({v for v, _, _ in data})
    per = {v: add({c: w} for u, c, w in data if u == v) for v in vals}
    for c in range(nc + 1):
        mine = {v: per[v][c] for v in vals if c in per[v]}
        for v in vals + [99.0]:
            want = (mine.get(v, 0.0) + 1) / (sum(mine.values()) + len(mine)) if mine else 0.0
            p = o.probability_of_attribute_value_given_class(v, c)
            if not near(p, want):
                return 'nominal observer after %r: P(%r | class %r) = %r, should be %r' % (data, v, c, p, want)
    return nominal(rnd, o, per, vals, rnd.randrange(3), 'nominal observer after %r' % data, add(per.values()), rnd.uniform(0, 7))


def r_nomr(rnd, case):
    from skmultiflow.trees._attribute_observer import NominalAttributeRegressionObserver
    o = NominalAttributeRegressionObserver()
    nv = rnd.randrange(1, 5)
    data = []
    for _ in range(rnd.choice([1, 3, 10, 25])):
        v, y, w = float(rnd.randrange(nv)), rnd.gauss(0, 3), weight(rnd)
        o.update(v, y, w)
        data.append((v, y, w))
        if rnd.random() < 0.1:
            o.update(None, y, w)
    vals = sorted({v for v, _, _ in data})
    per = {v: add({0: w, 1: w * y, 2: w * y * y} for u, y, w in data if u == v) for v in vals}
    return nominal(rnd, o, per, vals, rnd.randrange(3), 'nominal regression observer after %r' % data, add(per.values()), rnd.uniform(50, 57))


def r_gobs(rnd, case):
    from skmultiflow.trees._attribute_observer import NumericAttributeClassObserverGaussian
    o = NumericAttributeClassObserverGaussian()
    nc = rnd.randrange(1, 4)
    off = [rnd.choice([0, 3, 10]) for _ in range(nc)]
    data = []
    if o.get_best_evaluated_split_suggestion(Mine(1), {}, 0, True) is not None:
        return 'an observer that saw nothing suggests a split'
    for _ in range(rnd.choice([1, 3, 10, 25])):
        c = rnd.randrange(nc)
        x, w = rnd.choice([rnd.gauss(off[c], 1), float(rnd.randrange(5))]), rnd.choice([1.0, 2.0, 1.5])
        o.update(x, c, w)
        data.append((x, c, w))
        if rnd.random() < 0.1:
            o.update(None, c, w)
    cs = sorted({c for _, c, _ in data})
    M = {c: moments([(x, w) for x, k, w in data if k == c]) for c in cs}
    R = {c: (min(x for x, k, _ in data if k == c), max(x for x, k, _ in data if k == c)) for c in cs}
    if any(0 < v < 1e-9 for _, _, v in M.values()):
        return None
    for c in list(range(nc)) + [7]:
        x = rnd.gauss(2, 3)
        W, m, v = M.get(c, (0, 0, 0))
        want = (math.exp(-(x - m) ** 2 / (2 * v)) / math.sqrt(2 * math.pi * v) if v > 0 else (1.0 if x == m else 0.0)) if W else 0.0
        p = o.probability_of_attribute_value_given_class(x, c)
        if not near(p, want):
            return 'Gaussian observer after %r: P(%r | class %r) = %r, should be %r' % (data, x, c, p, want)
    lo, hi = min(r[0] for r in R.values()), max(r[1] for r in R.values())
    crit = Mine(rnd.uniform(0, 7))
    att = rnd.randrange(3)
    s = o.get_best_evaluated_split_suggestion(crit, {c: M[c][0] for c in cs}, att, rnd.random() < 0.5)
    if lo == hi:
        return None if s is None else 'Gaussian observer after %r suggests a split of a single value' % data

    def cand(cut):
        l, r = {}, {}
        for c in cs:
            W, m, v = M[c]
            p = 0.0 if cut < R[c][0] else 1.0 if cut >= R[c][1] else (Phi((cut - m) / math.sqrt(v)) if v > 0 else float(cut >= m))
            l[c], r[c] = p * W, (1 - p) * W
        return [l, r]
    cuts = [lo + (hi - lo) / 11.0 * (i + 1) for i in range(10)]
    if any(near(c, e, 1e-9) for c in cuts for r in R.values() for e in r):
        return None
    what = 'Gaussian observer after %r' % data
    if s is None:
        return what + ': no suggestion'
    cut = s.split_test.get_split_value()
    if not any(near(cut, c) for c in cuts):
        return what + ': cut point %r is not one of the equally spaced %r' % (cut, cuts)
    z = [-77.0] * att + [cut]
    if s.split_test.branch_for_instance(z) != 0:
        return what + ': the cut point itself goes right'
    exp = cand(cut)
    d = [{k: float(v) for k, v in x.items()} for x in s.resulting_class_distributions]
    if not all(dsame(a, b) for a, b in zip(exp, d)):
        return what + ': split at %r gives %r, should be %r' % (cut, d, exp)
    r = judge(crit, s, [cand(c) for c in cuts], att, what, [])
    return r if r and 'branches get' not in r else None


def r_ebst(rnd, case):
    from skmultiflow.trees._attribute_observer import NumericAttributeRegressionObserver
    o = NumericAttributeRegressionObserver()
    multi = rnd.random() < 0.25
    nv = rnd.choice([2, 5, 30])
    data = []
    for _ in range(rnd.choice([1, 2, 4, 10, 25])):
        x, y, w = float(rnd.randrange(nv)), rnd.gauss(0, 3), weight(rnd)
        t = np.array([y, 2.0 * y]) if multi else y
        o.update(x, t, w)
        data.append((x, y, w))
        if rnd.random() < 0.1:
            o.update(None, t, w)
    vals = sorted({x for x, _, _ in data})
    per = {v: add({0: w, 1: w * y, 2: w * y * y} for u, y, w in data if u == v) for v in vals}
    tot_ = add(per.values())
    pre = {0: tot_[0], 1: np.array([tot_[1], 2 * tot_[1]]), 2: np.array([tot_[2], 4 * tot_[2]])} if multi else tot_
    what = 'regression observer after %r' % data
    cands = [[add(per[u] for u in vals if u <= v), add(per[u] for u in vals if u > v) or {0: 0.0, 1: 0.0, 2: 0.0}] for v in vals]

    class Flat(Mine):
        def get_merit_of_split(self, pre, post):
            if multi:
                for d in post:
                    if not (near(float(d[1][1]), 2 * float(d[1][0]), 1e-6) and near(float(d[2][1]), 4 * float(d[2][0]), 1e-6)):
                        raise AssertionError('targets mixed up: %r' % (post,))
                post = [{0: d[0], 1: d[1][0], 2: d[2][0]} for d in post]
            return Mine.get_merit_of_split(self, pre, post)
    crit = Flat(rnd.uniform(50, 57))
    att = rnd.randrange(3)
    s = o.get_best_evaluated_split_suggestion(crit, pre, att)
    if multi:
        s.resulting_class_distributions = [{0: d[0], 1: d[1][0], 2: d[2][0]} for d in s.resulting_class_distributions]
    r = judge(crit, s, cands, att, what, [(v, per[v]) for v in vals])
    if r:
        return r
    # pruning keeps every candidate that is not bad
    sdr = max(crit.value(c) for c in cands)
    if sdr <= 0 or multi:
        return None
    ratio, e = rnd.uniform(0.3, 1.0), rnd.choice([0.0, 0.01, 0.1])
    o.remove_bad_splits(crit, ratio, sdr, e, pre)
    crit.calls = []
    good = [c for c in cands if crit.value(c) / sdr > ratio - 2 * e + 1e-9]
    if good:
        s = o.get_best_evaluated_split_suggestion(crit, pre, att)
        r = judge(crit, s, good, att, what + ' and remove_bad_splits(%r, %r, %r)' % (ratio, sdr, e), [(v, per[v]) for v in vals])
        if r:
            return r
        for c in crit.calls:
            if not any(all(dsame(a, b) for a, b in zip(c, k)) for k in cands):
                return what + ' and pruning: made-up candidate %r' % c
    return None


def r_bint(rnd, case):
    from skmultiflow.trees._attribute_observer import NumericAttributeClassObserverBinaryTree
    o = NumericAttributeClassObserverBinaryTree()
    nv, nc = rnd.choice([2, 5, 30]), rnd.randrange(1, 4)
    data = []
    for _ in range(rnd.choice([1, 2, 4, 10, 25])):
        x, c, w = float(rnd.randrange(nv)), rnd.randrange(nc), rnd.choice([1.0, 2.0, 0.5])
        o.update(x, c, w)
        data.append((x, c, w))
        if rnd.random() < 0.1:
            o.update(None, c, w)
    vals = sorted({x for x, _, _ in data})
    per = {v: add({c: w} for u, c, w in data if u == v) for v in vals}
    cands = [[add(per[u] for u in vals if u <= v), add(per[u] for u in vals if u > v)] for v in vals]
    crit = Zero(rnd.uniform(0, 7))
    att = rnd.randrange(3)
    s = o.get_best_evaluated_split_suggestion(crit, add(per.values()), att, True)
    return judge(crit, s, cands, att, 'binary-tree observer after %r' % data, [(v, per[v]) for v in vals])


class Zero(Mine):
    """absent and zero counts alike"""
    def value(self, post):
        return Mine.value(self, [{k: v for k, v in d.items() if v} or {0: 0.0} for d in post])
