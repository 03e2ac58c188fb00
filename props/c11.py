"""C11: model-based, tabular and drifting generators: RBF, random tree, multi-label, regression, anomaly, ConceptDriftStream."""
import warnings
import numpy as np
from pv import sym as S
from pv.vm import PathEnd
from pv.sym import eq, and_, or_, not_, implies, ite, smin, smax, Sym, Unsupported
from pv.symseq import SymMat, SymVec, SymList
from pv.frame import hooks
from .c07 import same_cols
from .c10 import whole, within, conc

ID = 'C11'
BUDGET = 20
MAX_CASES = 350
D = 'data/'
RBF, RBFD, TREE = D + 'random_rbf_generator.py', D + 'random_rbf_generator_drift.py', D + 'random_tree_generator.py'
CDS = D + 'concept_drift_stream.py'
ASSUME = ['numpy RandomState draws lie in their documented ranges and are a function of the seed and the calls made',
          'sklearn make_multilabel_classification / make_regression return n_samples rows', 'no random RBF direction is exactly zero']
BOUNDED = ['up to 3 centroids, 2 features and trees of depth 2 in the proofs; larger ones: generated runs',
           'anomaly table (numpy fancy indexing): generated runs only; its delivery is proved']


# ------------------------------------------------------------------ proofs: RBF
def state(vm, o, n, drift=0):
    """any centroids: symbolic centres, labels, deviations, weights"""
    cs = vm.getattr(o, 'centroids')
    ws = vm.getattr(o, 'centroid_weights')
    for i, c in enumerate(cs):
        c.fields['centre'] = vm.born([vm.inp('c%d_%d' % (i, j), 'real', 0, 1) for j in range(n)])
        c.fields['class_label'] = vm.inp('l%d' % i, 'int', 0, 1)
        c.fields['std_dev'] = vm.inp('s%d' % i, 'real', 0, 1)
        ws[i] = vm.inp('w%d' % i, 'real', 0)
    tot = 0
    for w in ws:
        tot = tot + w
    vm.assume(tot > 0)
    return cs, ws, tot


def u_rbf(k, n):
    def u(vm):
        vm.unroll_forks = k + 2
        o = vm.new(vm.cls(RBF, 'RandomRBFGenerator'), model_random_state=1, sample_random_state=2, n_classes=2, n_features=n, n_centroids=k)
        cs = vm.getattr(o, 'centroids')
        vm.prove('n_centroids centroids', len(cs) == k and len(vm.getattr(o, 'centroid_weights')) == k)
        for c in cs:
            vm.prove('centroids lie in the unit cube, with a class, deviation and weight',
                     and_(len(c.fields['centre']) == n, *[within(v, 0, 1) for v in c.fields['centre']], whole(c.fields['class_label'], 2), within(c.fields['std_dev'], 0, 1)))
        cs, ws, tot = state(vm, o, n)
        before = [list(c.fields['centre']) for c in cs]
        m0 = len(vm.ghost['draws'])
        vm.hooks['draw'] = lambda vm, s: None
        p = vm.inp('p', 'int', 0)
        o.fields['sample_idx'] = p
        X, y = nonzero(vm, lambda: vm.method(o, 'next_sample', 1))
        vm.prove('one row, one label', tuple(X.shape) == (1, n) and tuple(y.shape) == (1,))
        d = vm.ghost['draws'][m0:]
        if [x[1] for x in d] != ['rand'] + ['rand'] * n + ['normal']:
            raise Unsupported('other draws')
        u0 = d[0][2] * tot
        a = [2 * x[2] - 1 for x in d[1:n + 1]]
        g = d[n + 1][2]
        mag = S.sqrt(sum(v * v for v in a))
        lo = 0
        hit = False
        for i, c in enumerate(cs):
            mine = and_(lo <= u0, u0 < lo + ws[i])
            lo = lo + ws[i]
            if k == 1:
                mine = True
            vm.prove('the label is the class of the centroid drawn by weight', implies(mine, eq(y[0], c.fields['class_label'])))
            for j in range(n):
                vm.prove('the features lie on a random direction at a normal distance scaled by the centroid', implies(mine, eq(X[0, j], before[i][j] + a[j] * (g * c.fields['std_dev'] / mag))))
        vm.prove('the model is not changed', and_(*[eq(v, w) for c, b in zip(cs, before) for v, w in zip(c.fields['centre'], b)]))
        vm.prove('position', eq(vm.getattr(o, 'sample_idx'), p + 1))
    return u


def nonzero(vm, f):
    from pv.vm import PyRaise
    try:
        return f()
    except PyRaise as e:
        if e.name == 'ZeroDivisionError':
            raise PathEnd()
        raise


def u_rbfdrift(n):
    def u(vm):
        k, nd = 2, 1
        sp = vm.inp('speed', 'real', 0)
        o = nonzero(vm, lambda: vm.new(vm.cls(RBFD, 'RandomRBFGeneratorDrift'), model_random_state=1, sample_random_state=2, n_classes=2, n_features=n, n_centroids=k,
                                       change_speed=sp, num_drift_centroids=nd))
        cs, ws, tot = state(vm, o, n)
        V = vm.getattr(o, 'centroid_speed')
        vm.prove('one direction per drifting centroid', len(V) == nd and len(V[0]) == n)
        for j in range(n):
            V[0][j] = vm.inp('v%d' % j, 'real', -1, 1)
        v0 = list(V[0])
        c0 = [list(c.fields['centre']) for c in cs]
        vm.contract(RBF, 'RandomRBFGenerator', 'next_sample', lambda vm, s, a, kw: sampled(vm, o, n))
        X, y = vm.method(o, 'next_sample', 1)
        vm.prove('one row, one label', tuple(X.shape) == (1, n) and tuple(y.shape) == (1,))
        vm.prove('drawn from the moved model', and_(*[eq(X[0, j], vm.ghost['row'][0][j]) for j in range(n)], eq(y[0], vm.ghost['row'][1])))
        for j in range(n):
            t = c0[0][j] + v0[j] * sp
            out = or_(t > 1, t < 0)
            vm.prove('a drifting centroid moves by speed, inside the unit cube', eq(vm.ghost['moved'][0][j], ite(t > 1, 1, ite(t < 0, 0, t))))
            vm.prove('it turns round exactly at the border', eq(V[0][j], ite(out, -v0[j], v0[j])))
            vm.prove('the other centroids stay', eq(vm.ghost['moved'][1][j], c0[1][j]))
    return u


def sampled(vm, o, n):
    vm.ghost['moved'] = [list(c.fields['centre']) for c in vm.getattr(o, 'centroids')]
    x = [vm.fresh('x', 'real') for _ in range(n)]
    l = vm.fresh('label', 'int', 0, 1)
    vm.ghost['row'] = (x, l)
    X = np.empty((1, n), dtype=object)
    X[0, :] = x
    y = np.empty(1, dtype=object)
    y[0] = l
    return vm.born(X), vm.born(y)


# ------------------------------------------------------------------ proofs: tree
def leaf_ok(vm, node, depth, lo, hi, par):
    """depth and value ranges of the generated tree"""
    ch = node.fields['children']
    if len(ch) == 0:
        vm.prove('leaves between min_leaf_depth and max_tree_depth', par['min_leaf_depth'] <= depth <= par['max_tree_depth'] or depth == par['max_tree_depth'])
        vm.prove('leaf label is a class', whole(node.fields['class_label'], par['n_classes']))
        return
    vm.prove('no node below max_tree_depth', depth < par['max_tree_depth'])
    a = node.fields['split_att_index']
    a = conc(vm, a, par['n_num_features'] + par['n_cat_features']) if isinstance(a, Sym) else int(a)
    if a < par['n_num_features']:
        v = node.fields['split_att_value']
        vm.prove('numeric splits inside the interval left by the ancestors', and_(v >= lo[a], v <= hi[a]))
        vm.prove('a numeric split has two branches', len(ch) == 2)
        leaf_ok(vm, ch[0], depth + 1, lo, hi[:a] + [v] + hi[a + 1:], par)
        leaf_ok(vm, ch[1], depth + 1, lo[:a] + [v] + lo[a + 1:], hi, par)
    else:
        vm.prove('a nominal split has one branch per category', len(ch) == par['n_categories_per_cat_feature'])
        for c in ch:
            leaf_ok(vm, c, depth + 1, lo, hi, par)


def u_tree(par, frac):
    def u(vm):
        o = vm.new(vm.cls(TREE, 'RandomTreeGenerator'), tree_random_state=1, sample_random_state=2, fraction_leaves_per_level=frac, **par)
        root = vm.getattr(o, 'tree_root')
        leaf_ok(vm, root, 0, [0.0] * par['n_num_features'], [1.0] * par['n_num_features'], par)
        nn, k = par['n_num_features'], par['n_categories_per_cat_feature']
        n = nn + par['n_cat_features'] * k
        p = vm.inp('p', 'int', 0)
        o.fields['sample_idx'] = p
        X, y = vm.method(o, 'next_sample', 1)
        vm.prove('one row, one label', tuple(X.shape) == (1, n) and tuple(y.shape) == (1,) and vm.getattr(o, 'n_features') == n)
        x = list(X[0])
        vm.prove('numeric features in [0, 1)', and_(*[within(v, 0, 1, True) for v in x[:nn]]))
        for c in range(par['n_cat_features']):
            blk = x[nn + c * k:nn + (c + 1) * k]
            vm.prove('each nominal feature is one-hot', and_(*[whole(v, 2) for v in blk], eq(sum(blk), 1)))
        node = root
        while len(node.fields['children']):
            a = node.fields['split_att_index']
            a = conc(vm, a, nn + par['n_cat_features']) if isinstance(a, Sym) else int(a)
            if a < nn:
                node = node.fields['children'][0 if vm.truth(x[a] < node.fields['split_att_value']) else 1]
            else:
                for j in range(k):
                    if vm.truth(eq(x[nn + (a - nn) * k + j], 1)):
                        node = node.fields['children'][j]
                        break
        vm.prove('the label is the leaf the features lead to', eq(y[0], node.fields['class_label']))
        vm.prove('position', eq(vm.getattr(o, 'sample_idx'), p + 1))
    return u


# ------------------------------------------------------------------ proofs: tables
def u_table(kind, nt):
    rel, cls = {'multilabel': (D + 'multilabel_generator.py', 'MultilabelGenerator'), 'regression': (D + 'regression_generator.py', 'RegressionGenerator'),
                'anomaly': (D + 'anomaly_sine_generator.py', 'AnomalySineGenerator')}[kind]

    def u(vm):
        hooks(vm, True)
        n, p, b = vm.inp('n', 'int', 20), vm.inp('p', 'int', 0), vm.inp('b', 'int', 1)
        MX = SymMat.fresh(vm, 'X', n, 2)
        if kind == 'multilabel':
            MY = SymMat.fresh(vm, 'y', n, nt)
            Y = MY

            def mk(vm, n_samples, n_features, n_classes, n_labels, random_state):
                vm.prove('the table asked for is generated', and_(eq(n_samples, n), n_features == 2, n_classes == nt, n_labels == 1))
                return MX, MY
            vm.hooks['ext']['sklearn.datasets.make_multilabel_classification'] = mk
            o = vm.new(vm.cls(rel, cls), n_samples=n, n_features=2, n_targets=nt, n_labels=1, random_state=1)
        elif kind == 'regression':
            Y = SymMat.fresh(vm, 'y', n, nt)

            def mk(vm, n_samples, n_features, n_informative, n_targets, random_state):
                vm.prove('the table asked for is generated', and_(eq(n_samples, n), n_features == 2, n_informative == 1, n_targets == nt))
                return MX, (SymVec(vm, Y.cols[0], 0, n) if False else Y)
            vm.hooks['ext']['sklearn.datasets.make_regression'] = mk

            def resize(vm, a, shp):
                if not (isinstance(a, SymMat) and len(shp) == 2 and vm.known(S.lift(eq(a.n, shp[0]))) and len(a.cols) == shp[1]):
                    raise Unsupported('resize')
                return a
            vm.hooks['ext']['numpy.resize'] = resize
            o = vm.new(vm.cls(rel, cls), n_samples=n, n_features=2, n_informative=1, n_targets=nt, random_state=1)
        else:
            Yv = SymList.fresh(vm, 'y', 'real', n).pv_toarray(vm)
            Y = SymMat([Yv.arr], 0, n)

            def prep(vm, s, a, k):
                vm.setattr(s, 'X', MX)
                vm.setattr(s, 'y', Yv)
            vm.contract(rel, cls, '_prepare_for_use', prep)
            o = vm.new(vm.cls(rel, cls), n_samples=n, n_anomalies=1, random_state=1)
        ZX, ZY = list(MX.cols), list(Y.cols)
        vm.prove('sizes', and_(vm.getattr(o, 'n_features') == 2, vm.getattr(o, 'n_targets') == nt, eq(vm.method(o, 'n_remaining_samples'), n)))
        vm.assume(p <= n)
        o.fields['sample_idx'] = p
        r = vm.method(o, 'next_sample', b)
        k = smin(p + b, n) - p
        if r[0] is None:
            vm.prove('nothing is delivered only after the last row', and_(r[1] is None, p >= n))
        else:
            vm.prove('rows p..p+b of the features', same_cols(r[0], ZX, k, p))
            vm.prove('their targets', same_cols(r[1], ZY, k, p))
            vm.prove('one target is flat, several are a matrix', isinstance(r[1], SymVec) if nt == 1 else isinstance(r[1], SymMat))
        vm.prove('more exactly while rows are left', S.iff(vm.method(o, 'has_more_samples'), p + b < n))
        vm.prove('remaining', implies(p + b <= n, eq(vm.method(o, 'n_remaining_samples'), n - p - b)))
        q = vm.method(o, 'last_sample')
        vm.prove('last_sample is what was delivered', q[0] is r[0] and q[1] is r[1])
        vm.method(o, 'restart')
        vm.prove('restart returns to the first row', and_(eq(vm.getattr(o, 'sample_idx'), 0), eq(vm.method(o, 'n_remaining_samples'), n)))
        vm.prove('restart forgets the last sample', all(x is None for x in vm.method(o, 'last_sample')))
        vm.prove('restart keeps the data', same_cols(vm.getattr(o, 'X'), ZX, n))
    return u


# ------------------------------------------------------------------ proofs: ConceptDriftStream
class Src:
    def __init__(self, vm, k, nt, remaining):
        self.k, self.nt, self.taken, self.rem, self.restarts = k, nt, 0, remaining, 0
        self.more = vm.fresh('more%d' % k, 'bool')
        self.restartable = vm.fresh('restartable%d' % k, 'bool')
        self.rows = []

    def pv_getattr(self, vm, name):
        if name == 'next_sample':
            def f(batch_size=1):
                if batch_size != 1:
                    raise Unsupported('batch')
                X = np.empty((1, 2), dtype=object)
                y = np.empty((1, self.nt) if self.nt > 1 else (1,), dtype=object)
                for j in range(2):
                    X[0, j] = vm.fresh('x%d' % self.k, 'real')
                for j in range(self.nt):
                    y[(0, j) if self.nt > 1 else 0] = vm.fresh('y%d' % self.k, 'real')
                self.rows.append((list(X[0]), list(y[0]) if self.nt > 1 else [y[0]]))
                vm.ghost.setdefault('order', []).append((self.k, self.rows[-1]))
                return vm.born(X), vm.born(y)
            f.pv_model = True
            return f
        r = {'n_remaining_samples': lambda: self.rem, 'has_more_samples': lambda: self.more, 'is_restartable': lambda: self.restartable}.get(name)
        if name == 'restart':
            def r():
                self.restarts += 1
        if r:
            r.pv_model = True
            return r
        v = dict(n_samples=0, n_targets=self.nt, n_features=2, n_num_features=1, n_cat_features=1, n_classes=2, cat_features_idx=[1], feature_names=['a', 'b'],
                 target_names=['t'], target_values=[0, 1], name='S%d' % self.k)
        if name in v:
            return v[name]
        raise Unsupported('stream.%s' % name)


def u_cds(nt, b):
    def u(vm):
        pos, width = vm.inp('position', 'int'), vm.inp('width', 'int', 1) if b == 1 else 7
        A, B = vm.born(Src(vm, 0, nt, 5)), vm.born(Src(vm, 1, nt, 7))
        o = vm.new(vm.cls(CDS, 'ConceptDriftStream'), A, B, pos, width, 3)
        vm.prove('describes the base stream', vm.getattr(o, 'n_features') == 2 and vm.getattr(o, 'n_targets') == nt and vm.getattr(o, 'n_classes') == 2 and
                 vm.getattr(o, 'target_values') == [0, 1] and vm.getattr(o, 'feature_names') == ['a', 'b'])
        i0 = vm.inp('i0', 'int', 0)
        o.fields['sample_idx'] = i0
        m0 = len(vm.ghost.get('draws', []))
        r = vm.method(o, 'next_sample', b)
        X, y = r
        vm.prove('shapes', tuple(X.shape) == (b, 2) and tuple(y.shape) == ((b,) if nt == 1 else (b, nt)))
        order = vm.ghost['order']
        d = [x[2] for x in vm.ghost['draws'][m0:]]
        if len(d) != b:
            raise Unsupported('other draws')
        vm.prove('one underlying sample per sample', len(order) == b)
        for j in range(b):
            k, (x, t) = order[j]
            e = S.exp(S.div(-4.0 * (i0 + j + 1 - pos), width))
            vm.prove('the drift stream is used with probability 1/(1+exp(-4(t-position)/width))', S.iff(k == 0, d[j] * (1 + e) > 1))
            vm.prove('the row is passed on', and_(*[eq(X[j, i], x[i]) for i in range(2)]))
            vm.prove('its target is passed on', and_(*[eq(y[(j, i) if nt > 1 else j], t[i]) for i in range(nt)]))
        q = vm.method(o, 'last_sample')
        vm.prove('last_sample is what was delivered', q[0] is X and q[1] is y)
        vm.prove('position', eq(vm.getattr(o, 'sample_idx'), i0 + b))
        vm.method(o, 'restart')
        vm.prove('restart restarts both streams once and forgets the last sample', A.restarts == 1 and B.restarts == 1 and vm.method(o, 'last_sample') == (None, None)
                 and vm.getattr(o, 'sample_idx') == 0)
        vm.prove('more samples while both streams have', S.iff(vm.method(o, 'has_more_samples'), and_(A.more, B.more)))
        vm.prove('restartable if both are', S.iff(vm.method(o, 'is_restartable'), and_(A.restartable, B.restartable)))
    return u


def u_cds_remaining(vm):
    a, b = vm.inp('a', 'int', -1), vm.inp('b', 'int', -1)
    o = vm.new(vm.cls(CDS, 'ConceptDriftStream'), vm.born(Src(vm, 0, 1, a)), vm.born(Src(vm, 1, 1, b)), 10, 1, 3)
    vm.prove('remaining: the sum, or -1 if a stream is infinite', eq(vm.method(o, 'n_remaining_samples'), ite(or_(a < 0, b < 0), -1, a + b)))


UNITS = [('RBF %d centroids %d features' % (k_, n_), u_rbf(k_, n_)) for k_, n_ in ((1, 1), (2, 2), (3, 1))]
UNITS += [('RBF drift %d features' % n_, u_rbfdrift(n_)) for n_ in (1, 2)]
UNITS += [('tree %s' % nm_, u_tree(par_, fr_)) for nm_, fr_, par_ in (
    ('numeric depth 2', 0.25, dict(n_classes=2, n_num_features=1, n_cat_features=0, n_categories_per_cat_feature=2, max_tree_depth=2, min_leaf_depth=1)),
    ('mixed depth 1', 0.5, dict(n_classes=3, n_num_features=1, n_cat_features=1, n_categories_per_cat_feature=3, max_tree_depth=1, min_leaf_depth=0)),
    ('mixed depth 2', 0.0, dict(n_classes=2, n_num_features=1, n_cat_features=2, n_categories_per_cat_feature=2, max_tree_depth=2, min_leaf_depth=2)))]
UNITS += [('%s %d targets' % (k_, t_), u_table(k_, t_)) for k_, t_ in (('multilabel', 1), ('multilabel', 3), ('regression', 1), ('regression', 2), ('anomaly', 1))]
UNITS += [('concept drift %d targets batch %d' % (t_, b_), u_cds(t_, b_)) for t_, b_ in ((1, 1), (1, 2), (2, 1))] + [('concept drift remaining', u_cds_remaining)]


# ------------------------------------------------------------------ generated runs
KINDS = ['RandomRBFGenerator', 'RandomRBFGeneratorDrift', 'RandomTreeGenerator', 'MultilabelGenerator', 'RegressionGenerator', 'AnomalySineGenerator', 'ConceptDriftStream']


def cases(rnd, hints, tier):
    yield dict(gen='defaults')
    k = 0
    while True:
        g = KINDS[k % len(KINDS)]
        k += 1
        seed = lambda: rnd.randint(0, 2 ** 31)
        bs = [rnd.choice([1, 1, 2, 3, 10]) for _ in range(rnd.randint(2, 7))]
        if g.startswith('RandomRBF'):
            kw = dict(model_random_state=seed(), sample_random_state=seed(), n_classes=rnd.randint(2, 5), n_features=rnd.randint(1, 5), n_centroids=rnd.choice([1, 2, 3, 10]))
            if g.endswith('Drift'):
                kw.update(change_speed=rnd.choice([0.0, .01, .3, .9]), num_drift_centroids=rnd.choice([0, 1, 2, 50]))
        elif g == 'RandomTreeGenerator':
            d = rnd.randint(1, 5)
            kw = dict(tree_random_state=seed(), sample_random_state=seed(), n_classes=rnd.randint(2, 4), n_cat_features=rnd.randint(0, 3), n_num_features=rnd.randint(1, 3),
                      n_categories_per_cat_feature=rnd.randint(2, 4), max_tree_depth=d, min_leaf_depth=rnd.randint(0, d), fraction_leaves_per_level=rnd.choice([0.0, .15, .5, 1.0]))
        elif g == 'MultilabelGenerator':
            kw = dict(n_samples=rnd.randint(5, 40), n_features=rnd.randint(1, 4), n_targets=rnd.randint(1, 4), n_labels=rnd.randint(1, 2), random_state=seed())
        elif g == 'RegressionGenerator':
            n = rnd.randint(1, 4)
            kw = dict(n_samples=rnd.randint(5, 40), n_features=n, n_informative=rnd.randint(1, n), n_targets=rnd.randint(1, 3), random_state=seed())
        elif g == 'AnomalySineGenerator':
            n = rnd.randint(10, 60)
            kw = dict(n_samples=n, n_anomalies=rnd.randint(1, n // 2), contextual=rnd.random() < .5, n_contextual=rnd.randint(1, n // 3), shift=rnd.choice([0, 1, 4, -3]),
                      noise=rnd.choice([0.0, 0.0, .5]), replace=rnd.random() < .5, random_state=seed())
        else:
            kw = dict(position=rnd.choice([0, 3, 10, 20]), width=rnd.choice([1, 3, 10]), random_state=seed(), alpha=rnd.choice([None, None, 1, 10, 45, 60, 90, 0.5, rnd.uniform(1, 90)]))
            yield dict(gen=g, kw=kw, base=rnd.choice(['SEA', 'multilabel', 'regression', 'rbf', 'table']), batches=bs, seeds=[seed(), seed()], bad=rnd.choice([-1, 91, 180]))
            continue
        yield dict(gen=g, kw=kw, batches=bs)


def run_case(c):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        import skmultiflow.data as M
        if c['gen'] == 'defaults':
            return run_defaults(M)
        C = getattr(M, c['gen'])
        if c['gen'] == 'ConceptDriftStream':
            return run_drift(M, C, c)
        kw = c['kw']
        s = C(**kw)
        fin = kw.get('n_samples')
        got, left = [], fin
        for b in c['batches'] + ([fin, 3] if fin else []):
            if fin:
                if s.n_remaining_samples() != left or s.has_more_samples() != (left > 0):
                    return '%d of %d samples left, reported %r, has_more_samples %r' % (left, fin, s.n_remaining_samples(), s.has_more_samples())
                if left == 0:
                    break
            elif s.n_remaining_samples() != -1 or not s.has_more_samples():
                return 'an infinite stream ends'
            X, y = s.next_sample(b)
            k = min(b, left) if fin else b
            nt = kw.get('n_targets', 1)
            if X is None or np.shape(X) != (k, s.n_features) or np.shape(y) != ((k,) if nt == 1 else (k, nt)):
                return 'asked for %d rows, %r left: shapes %r, %r' % (b, left, np.shape(X), np.shape(y))
            q = s.last_sample()
            if not (np.array_equal(q[0], X) and np.array_equal(q[1], y)):
                return 'last_sample differs from what was delivered'
            got.append((np.array(X), np.array(y), b))
            if fin:
                if b > left and c['gen'] != 'AnomalySineGenerator':
                    left = 0
                    break
                left -= k
        X, y = np.concatenate([a[0] for a in got]), np.concatenate([a[1] for a in got])
        msg = {'RandomRBFGenerator': rbf, 'RandomRBFGeneratorDrift': rbf, 'RandomTreeGenerator': tree}.get(c['gen'], table)(c['gen'], kw, s, X, y, C)
        if msg:
            return msg
        X2, y2 = C(**kw).next_sample(len(X))
        if not (np.array_equal(X, X2) and np.array_equal(y, y2)):
            return 'a second generator with the same seeds differs when read in one batch'
        s.restart()
        if s.last_sample() != (None, None) or s.sample_idx != 0:
            return 'restart keeps the last sample or the position'
        for X3, y3, b in got:
            a, t = s.next_sample(b)
            if not (np.array_equal(a, X3) and np.array_equal(t, y3)):
                return 'restart does not replay the stream'
    return None


def rbf(g, kw, s, X, y, C):
    n, k = kw['n_features'], kw['n_centroids']
    m = np.random.RandomState(kw['model_random_state'])
    cs, ws = [], []
    for i in range(k):
        ctr = [m.rand() for _ in range(n)]
        cs.append([ctr, m.randint(kw['n_classes']), m.rand()])
        ws.append(m.rand())
    nd = min(k, kw.get('num_drift_centroids', 0))
    m = np.random.RandomState(kw['model_random_state'])
    V = []
    for i in range(nd):
        v = np.array([m.rand() for _ in range(n)])
        V.append(v / np.sqrt((v * v).sum()))
    r = np.random.RandomState(kw['sample_random_state'])
    if list(s.target_values) != list(range(kw['n_classes'])) or s.n_features != n or len(s.feature_names) != n or s.n_num_features != n or s.n_cat_features:
        return 'description does not match'
    for x, l in zip(X, y):
        for i in range(nd):
            for j in range(n):
                t = cs[i][0][j] + V[i][j] * kw['change_speed']
                cs[i][0][j] = min(max(t, 0), 1)
                if not 0 <= t <= 1:
                    V[i][j] = -V[i][j]
        u, acc, i = r.rand() * np.sum(ws), 0.0, -1
        while acc <= u and i + 1 < k:
            i += 1
            acc += ws[i]
        a = np.array([r.rand() * 2 - 1 for _ in range(n)])
        want = cs[i][0] + a * (r.normal() * cs[i][2] / np.sqrt((a * a).sum()))
        if l != cs[i][1] or not np.allclose(x, want, rtol=1e-7, atol=1e-9):
            return 'row %r class %r; the model with these seeds gives %r class %r' % (list(x), l, list(want), cs[i][1])
    return None


def tree(g, kw, s, X, y, C):
    nn, nc, k = kw['n_num_features'], kw['n_cat_features'], kw['n_categories_per_cat_feature']
    n = nn + nc * k
    if s.n_features != n or len(s.feature_names) != n or list(s.target_values) != list(range(kw['n_classes'])):
        return 'description does not match'
    r = np.random.RandomState(kw['tree_random_state'])

    def grow(d, cand, lo, hi):
        if d >= kw['max_tree_depth'] or (d >= kw['min_leaf_depth'] and kw['fraction_leaves_per_level'] >= 1 - r.rand()):
            return r.randint(0, kw['n_classes'])
        a = r.randint(0, len(cand))
        if a < nn:
            v = (hi[a] - lo[a]) * r.rand() + lo[a]
            left = grow(d + 1, cand, lo, hi[:a] + [v] + hi[a + 1:])
            return (a, v, [left, grow(d + 1, cand, lo[:a] + [v] + lo[a + 1:], hi)])
        return (cand[a], None, [grow(d + 1, [q for q in cand if q != cand[a]], lo, hi) for _ in range(k)])
    root = grow(0, list(range(nn + nc)), [0.0] * nn, [1.0] * nn)
    q = np.random.RandomState(kw['sample_random_state'])
    for x, l in zip(X, y):
        want = [q.rand() for _ in range(nn)]
        for _ in range(nc):
            v = q.randint(0, k)
            want += [1.0 if v == i else 0.0 for i in range(k)]
        if not np.allclose(want, x, rtol=0, atol=1e-12):
            return 'features %r, drawn %r' % (list(x), want)
        t = root
        while isinstance(t, tuple):
            a, v, ch = t
            t = ch[0 if x[a] < v else 1] if a < nn else ch[list(x[nn + (a - nn) * k:nn + (a - nn + 1) * k]).index(1)]
        if l != t:
            return 'row %r is labelled %r, its leaf says %r' % (list(x), l, t)
    return None


def table(g, kw, s, X, y, C):
    from sklearn.datasets import make_multilabel_classification, make_regression
    n = kw['n_samples']
    if g == 'MultilabelGenerator':
        WX, Wy = make_multilabel_classification(n_samples=n, n_features=kw['n_features'], n_classes=kw['n_targets'], n_labels=kw['n_labels'], random_state=kw['random_state'])
        if kw['n_targets'] == 1:
            Wy = Wy.ravel()
        tv = np.unique(Wy).tolist() if kw['n_targets'] == 1 else [np.unique(Wy[:, i]).tolist() for i in range(kw['n_targets'])]
        if list(s.target_values) != tv:
            return 'target_values %r, the table has %r' % (s.target_values, tv)
    elif g == 'RegressionGenerator':
        WX, Wy = make_regression(n_samples=n, n_features=kw['n_features'], n_informative=kw['n_informative'], n_targets=kw['n_targets'], random_state=kw['random_state'])
    else:
        if not set(y) <= {0, 1} or len(X) != n:
            return 'labels %r' % sorted(set(y))
        if (sum(y) != kw['n_anomalies']) if not kw['replace'] else not 1 <= sum(y) <= kw['n_anomalies']:
            return '%d anomalies, asked for %d (replace %r)' % (sum(y), kw['n_anomalies'], kw['replace'])
        t = np.arange(n) / 4.0
        if kw['noise'] == 0:
            if not np.allclose(X[:, 0], np.sin(t), atol=1e-12):
                return 'the first feature is not the sine'
            off = [i for i in range(n) if y[i] == 0 and abs(X[i, 1] - np.cos(t[i])) > 1e-9]
            if not kw['contextual']:
                if off:
                    return 'normal rows %r are not on the cosine' % off
            else:
                sh = abs(kw['shift'])
                if len(off) > kw['n_contextual']:
                    return '%d contextual anomalies, asked for %d' % (len(off), kw['n_contextual'])
                for i in off:
                    if i < sh or abs(X[i, 1] - np.sin(t[i - sh])) > 1e-9:
                        return 'contextual anomaly %d is not the shifted sine' % i
                if not kw['replace'] and kw['n_contextual'] - len(off) > kw['n_anomalies'] + n // 8:
                    return '%d contextual anomalies, asked for %d' % (len(off), kw['n_contextual'])
            for i in range(n):
                if y[i] == 1 and not 1 - 1e-9 <= X[i, 1] <= 3 + 1e-9:
                    return 'anomaly %d at %r' % (i, X[i, 1])
        return None
    if len(X) > n or not (np.allclose(X, WX[:len(X)]) and np.allclose(y, Wy[:len(X)])):
        return 'the rows are not the table in order'
    return None


def mkbase(M, kind, i, seed):
    if kind == 'SEA':
        return M.SEAGenerator(classification_function=2 * i, random_state=seed)
    if kind == 'multilabel':
        return M.MultilabelGenerator(n_samples=60, n_features=2, n_targets=3, random_state=seed)
    if kind == 'regression':
        return M.RegressionGenerator(n_samples=50 + 20 * i, n_features=2, n_informative=1, random_state=seed)
    if kind == 'table':
        r = np.random.RandomState(seed % 2 ** 31)
        return M.DataStream(r.rand(50, 3), r.randint(0, 2, 50), name='t')
    return M.RandomRBFGenerator(seed, seed + 1, n_features=3, n_centroids=4)


def run_drift(M, C, c):
    kw = c['kw']
    try:
        C(mkbase(M, 'SEA', 0, 1), mkbase(M, 'SEA', 1, 1), alpha=c['bad'])
        return 'alpha %r is accepted' % c['bad']
    except ValueError:
        pass
    mk = lambda: [mkbase(M, c['base'], i, c['seeds'][i]) for i in range(2)]
    a, b = mk()
    s = C(a, b, **kw)
    A, B = mk()
    fin = c['base'] in ('multilabel', 'regression', 'table')
    width = kw['width']
    if kw['alpha'] is not None:
        width = max(1, int(1 / np.tan(kw['alpha'] * np.pi / 180)))
    if s.width != width or s.position != kw['position']:
        return 'width %r, position %r; parameters %r' % (s.width, s.position, kw)
    for at in ('n_targets', 'n_features', 'n_num_features', 'n_cat_features', 'n_classes', 'feature_names', 'target_names', 'target_values'):
        if getattr(s, at) != getattr(A, at):
            return '%s is %r, the base stream has %r' % (at, getattr(s, at), getattr(A, at))
    r = np.random.RandomState(kw['random_state'])
    t, got, used = 0, [], [0, 0]
    for k in c['batches'] + ([1] * 130 if fin else []):
        if fin:
            more = A.has_more_samples() and B.has_more_samples()
            if s.has_more_samples() != more:
                return 'has_more_samples %r with %d and %d samples left' % (s.has_more_samples(), A.n_remaining_samples(), B.n_remaining_samples())
            if not more or min(A.n_remaining_samples(), B.n_remaining_samples()) < k:
                break
        X, y = s.next_sample(k)
        nt = A.n_targets
        if np.shape(X) != (k, A.n_features) or np.shape(y) != ((k,) if nt == 1 else (k, nt)):
            return 'shapes %r %r' % (np.shape(X), np.shape(y))
        for j in range(k):
            t += 1
            with np.errstate(over='ignore'):
                p = 1 / (1 + np.exp(-4.0 * (t - kw['position']) / width))
            i = 0 if r.rand() > p else 1
            used[i] += 1
            wx, wy = (A, B)[i].next_sample()
            if not (np.allclose(X[j], wx[0]) and np.allclose(y[j], wy[0])):
                return 'sample %d should come from stream %d (probability of drift %r)' % (t, i, p)
        q = s.last_sample()
        if not (np.array_equal(q[0], X) and np.array_equal(q[1], y)):
            return 'last_sample differs'
        got.append((np.array(X), np.array(y)))
        ra, rb = A.n_remaining_samples(), B.n_remaining_samples()
        if s.n_remaining_samples() != (-1 if min(ra, rb) < 0 else ra + rb) or s.has_more_samples() != (A.has_more_samples() and B.has_more_samples()):
            return 'remaining samples %r, has_more %r; streams have %r and %r' % (s.n_remaining_samples(), s.has_more_samples(), ra, rb)
    s.restart()
    if s.last_sample() != (None, None) or s.sample_idx != 0:
        return 'restart keeps the last sample or the position'
    for X, y in got:
        X3, y3 = s.next_sample(len(X))
        if not (np.array_equal(X, X3) and np.array_equal(y, y3)):
            return 'restart does not replay the stream'
    return None


def run_defaults(M):
    a, b = M.ConceptDriftStream(random_state=1, position=5, width=2), M.ConceptDriftStream(random_state=1, position=5, width=2)
    X = a.next_sample(10)[0]
    if not np.array_equal(X, b.next_sample(10)[0]):
        return 'two default streams share their generators'
    A, B = M.AGRAWALGenerator(random_state=112), M.AGRAWALGenerator(random_state=112, classification_function=2)
    r = np.random.RandomState(1)
    for j in range(10):
        i = 0 if r.rand() > 1 / (1 + np.exp(-4.0 * (j + 1 - 5) / 2)) else 1
        if not np.allclose((A, B)[i].next_sample()[0][0], X[j]):
            return 'default streams are not AGRAWAL with functions 0 and 2'
    for C, kw in ((M.AnomalySineGenerator, dict(n_samples=5, n_anomalies=6)), (M.AnomalySineGenerator, dict(n_samples=5, n_anomalies=2, contextual=True, n_contextual=6))):
        try:
            C(**kw)
            return 'more anomalies than samples are accepted'
        except ValueError:
            pass
    return None
