"""C18: ensembles of weighted experts and of classifiers per chunk."""
import numpy as np
from pv import sym as S
from pv.sym import eq, and_, or_, not_, implies, ite, Sym, Unsupported
from pv.vm import PathEnd, PyRaise
from props.learnmodel import Learner, arr, same, matrix

ID = 'C18'
BUDGET = 20
MAX_CASES = 900
M_ = 'meta/'
CLS = {'dwm': (M_ + 'dynamic_weighted_majority.py', 'DynamicWeightedMajorityClassifier'),
       'add': (M_ + 'additive_expert_ensemble.py', 'AdditiveExpertEnsembleClassifier'),
       'awe': (M_ + 'accuracy_weighted_ensemble.py', 'AccuracyWeightedEnsembleClassifier'),
       'inc': (M_ + 'batch_incremental.py', 'BatchIncrementalClassifier'),
       'nse': (M_ + 'learn_nse.py', 'LearnPPNSEClassifier'),
       'lpp': (M_ + 'learn_pp.py', 'LearnPPClassifier')}
ASSUME = ['base estimators: deep-copyable, fit/partial_fit, predict and predict_proba, answers a function of what they were taught and of the row',
          'sklearn KFold returns index sets that partition the chunk', 'class labels are non-negative integers']
BOUNDED = ['up to 3 experts and 3 classes, chunks of 2 or 3 rows, up to 5 rows per call (all values, weights, votes and answers symbolic)']


def total(xs):
    t = 0
    for x in xs:
        t = t + x
    return t


# ---------------------------------------------------------------- experts
def experts(vm, kind, k, n, period=2, classes=3, **kw):
    """an ensemble in an arbitrary state: k experts of arbitrary weights"""
    fam = []
    base = Learner(vm, fam, nclass=classes)
    if kind == 'dwm':
        kw = dict(dict(period=period, beta=vm.inp('beta', 'real'), theta=vm.inp('theta', 'real')), **kw)
        vm.assume(and_(kw['beta'] > 0, kw['beta'] < 1, kw['theta'] > 0, kw['theta'] <= 1))
    else:
        kw = dict(dict(beta=vm.inp('beta', 'real'), gamma=vm.inp('gamma', 'real')), **kw)
        vm.assume(and_(kw['beta'] > 0, kw['beta'] < 1, kw['gamma'] > 0))
    o = vm.new(vm.cls(*CLS[kind]), base_estimator=base, n_estimators=n, **kw)
    e = list(vm.getattr(o, 'experts'))
    vm.prove('one expert of weight 1 at first', len(e) == 1 and vm.truth(eq(vm.getattr(e[0], 'weight'), 1)))
    while len(e) < k:
        e.append(vm.method(o, '_construct_new_expert'))
    if k == 0:
        e = []
    ws = []
    for x in e:
        w = vm.inp('w', 'real')
        vm.assume(w > 0)
        vm.setattr(x, 'weight', w)
        ws.append(w)
    vm.setattr(o, 'experts', vm.born(list(e)))
    vm.setattr(o, 'num_classes', max(2, classes))
    return o, base, fam, kw, e, ws


def est(vm, e):
    return [vm.getattr(x, 'estimator') for x in e]


def taught(vm, m, was, X, y, classes, w):
    vm.prove('an expert learns the row once', len(m.told) == was + 1)
    how, a = m.told[-1]
    vm.prove('by partial_fit', how == 'partial_fit' and same(matrix(a['X']), [list(X)]) and same(list(np.ravel(np.array(a['y'], dtype=object))), [y]))
    c = a.get('classes')
    vm.prove('knowing the classes', (c is None) if classes is None else (c is not None and sorted(int(v) for v in c) == sorted(classes)))
    g = a.get('sample_weight')
    vm.prove('with its weight', (g is None) if w is None else (g is not None and same(list(np.ravel(np.array(g, dtype=object))), [w])))


def votes(vm, said, ws, nc):
    return [total([w for a, w in zip(said, ws) if a == c]) for c in range(nc)]


def may_win(v, c):
    return and_(*[v[c] >= x for x in v])


def u_dwm(k, n, at_period):
    """one row: weights, removals, the new expert, training"""
    def u(vm):
        nc = 3 if k < 3 else 2
        o, base, fam, kw, e, ws = experts(vm, 'dwm', k, n, classes=nc)
        vm.assume(and_(*[and_(w <= 1, w >= kw['theta']) for w in ws], or_(*[eq(w, 1) for w in ws])))
        vm.setattr(o, 'epochs', 3 if at_period else 4)
        x, y = arr(vm, 1, 2), vm.choose(nc)
        W = vm.inp('sw', 'real', 0) if vm.choose(2) else None
        cl = vm.choose(2) if k < 3 else W is None
        E = est(vm, e)
        was = [len(m.told) for m in E]
        said = [m.row('predict', list(x[0])) for m in E]
        vm.method(o, 'partial_fit', x, vm.born(np.array([y])), **dict({} if W is None else dict(sample_weight=vm.born([W])), **(dict(classes=vm.born(list(range(nc)))) if cl else {})))
        now = list(vm.getattr(o, 'experts'))
        N, NW = est(vm, now), [vm.getattr(x, 'weight') for x in now]
        vm.prove('between one and n_estimators experts', 1 <= len(now) <= max(n, 1))
        if not at_period:
            vm.prove('nothing else changes between the periods', len(now) == k and all(a is b for a, b in zip(N, E)) and and_(*[eq(a, b) for a, b in zip(ws, NW)]))
        else:
            beta, theta = kw['beta'], kw['theta']
            low = [w if a == y else w * beta for w, a in zip(ws, said)]
            top = low[0]
            for w in low[1:]:
                top = ite(w > top, w, top)
            sc = [S.div(w, top) for w in low]
            old = [i for i in range(len(E)) if any(m is E[i] for m in N)]
            new = [m for m in N if not any(m is q for q in E)]
            v = votes(vm, said, low, nc)
            vm.prove('at most one new expert', len(new) <= 1)
            vm.prove('in order, the new one last', [m for m in N if m not in new] == [E[i] for i in old] and N[len(old):] == new)
            # lowest label wins ties
            right = and_(*[(v[y] > v[c]) if c < y else (v[y] >= v[c]) for c in range(nc)])
            vm.prove('a new expert exactly after a wrong majority', S.iff(not_(right), len(new) == 1))
            stay = [sc[i] >= theta for i in range(k)]
            gone = [i for i in range(k) if i not in old]
            full = and_(bool(new), k == n, *stay)
            for i in range(k):
                weakest = and_(*[low[i] <= q for q in low])
                if i in gone:
                    vm.prove('only experts below theta go, or the weakest to make room', or_(not_(stay[i]), and_(full, weakest)))
                else:
                    vm.prove('an expert below theta goes', stay[i])
            vm.prove('one makes room in a full ensemble', implies(full, len(gone) == 1))
            vm.prove('weights are scaled to at most 1', and_(*[eq(NW[j], sc[i]) for j, i in enumerate(old)]))
            if new:
                vm.prove('the new expert weighs 1', eq(NW[-1], 1))
                vm.prove('and is a copy of the base estimator', new[0] is not base and len(new[0].told) == 1)
        vm.prove('weights stay within theta and 1, the best at 1', and_(*[and_(w >= kw['theta'], w <= 1) for w in NW], or_(*[eq(w, 1) for w in NW])))
        for m in N:
            taught(vm, m, was[E.index(m)] if m in E else 0, x[0], y, list(range(nc)) if cl else None, W)
        vm.prove('the base estimator is never trained', not base.told)
    return u


def u_add(k, n, pruning):
    def u(vm):
        nc = 3 if k < 3 else 2
        o, base, fam, kw, e, ws = experts(vm, 'add', k, n, classes=nc, pruning=pruning)
        ep = (1000, 1001)[vm.choose(2)]
        vm.setattr(o, 'epochs', ep - 1)
        x, y = arr(vm, 1, 2), vm.choose(nc)
        W = vm.inp('sw', 'real', 0) if vm.choose(2) else None
        E = est(vm, e)
        was = [len(m.told) for m in E]
        said = [m.row('predict', list(x[0])) for m in E]
        vm.method(o, 'partial_fit', x, vm.born(np.array([y])), classes=vm.born(list(range(nc))), **({} if W is None else dict(sample_weight=vm.born([W]))))
        now = list(vm.getattr(o, 'experts'))
        N, NW = est(vm, now), [vm.getattr(x, 'weight') for x in now]
        vm.prove('between one and n_estimators experts', 1 <= len(now) <= n)
        beta = kw['beta']
        v = votes(vm, said, ws, nc)
        low = [w if a == y else w * beta for w, a in zip(ws, said)]
        right = and_(*[(v[y] > v[c]) if c < y else (v[y] >= v[c]) for c in range(nc)])
        new = [m for m in N if m not in E]
        gone = [i for i in range(k) if E[i] not in N]
        vm.prove('a new expert exactly after a wrong majority', S.iff(not_(right), len(new) == 1) if len(new) < 2 else False)
        vm.prove('one makes room in a full ensemble, nobody else goes', len(gone) == (1 if new and k == n else 0))
        if gone and pruning == 'oldest':
            vm.prove('the oldest', gone == [0])
        if gone and pruning == 'weakest':
            vm.prove('the weakest', and_(*[low[gone[0]] <= q for q in low]))
        if pruning == 'oldest':
            vm.prove('in order of age', N == [m for m in E if m in N] + new)
        want = []
        for m in N:
            want.append(kw['gamma'] * total(low) if m in new else low[E.index(m)])
        t = total(want)
        for w, g in zip(want, NW):
            vm.prove('weight of an expert', eq(g * t, w) if ep % 1000 else eq(g, w))
        if ep % 1000:
            vm.prove('weights sum to 1', eq(total(NW), 1))
        vm.prove('weights stay positive', and_(*[w > 0 for w in NW]))
        if new:
            vm.prove('the new expert is a copy of the base estimator', new[0] is not base and len(new[0].told) == 1)
        for m in N:
            taught(vm, m, was[E.index(m)] if m in E else 0, x[0], y, list(range(nc)), W)
        vm.prove('the base estimator is never trained', not base.told)
    return u


def u_vote(kind, k):
    """predict is the weighted majority, row by row"""
    def u(vm):
        nc = 3 if k < 3 else 2
        o, base, fam, kw, e, ws = experts(vm, kind, k, k, classes=nc)
        n = 2 if k < 3 else 1
        X = arr(vm, n, 2)
        r = vm.method(o, 'predict', X)
        vm.prove('a label per row', len(r) == n)
        for i in range(n):
            said = [m.row('predict', list(X[i])) for m in est(vm, e)]
            v = votes(vm, said, ws, nc)
            vm.prove('the label with the highest sum of weights', or_(*[and_(eq(r[i], c), may_win(v, c)) for c in range(nc)]))
        vm.prove('nobody learns', all(not m.told for m in fam))
        P = vm.method(o, 'get_expert_predictions', X)
        vm.prove('the predictions of each expert', len(P) == k and all(same(p, [m.row('predict', list(x)) for x in X]) for p, m in zip(P, est(vm, e))))
    return u


def u_many(kind, n):
    """a call of n rows is n calls of one row; classes stay known; reset forgets"""
    def u(vm):
        o, base, fam, kw, e, ws = experts(vm, kind, 1, 1)
        calls = []
        vm.contract(CLS[kind][0], CLS[kind][1], 'fit_single_sample', lambda vm, self, a, k: calls.append((list(a), dict(k))))
        X, y = arr(vm, n, 2), [vm.choose(2) for _ in range(n)]
        W = arr(vm, n, lo=0, name='sw') if vm.choose(2) else None
        r = vm.method(o, 'partial_fit', X, vm.born(np.array(y)), classes=vm.born([0, 1]), **({} if W is None else dict(sample_weight=W)))
        vm.prove('returns itself', r is o)
        vm.prove('a step per row', len(calls) == n)
        for i, (a, k) in enumerate(calls):
            g = dict(zip(('X', 'y', 'classes', 'sample_weight'), a), **k)
            vm.prove('with its row', same(matrix(g['X']), [list(X[i])]) and same(g['y'], [y[i]]) and list(g['classes']) == [0, 1])
            vm.prove('and weight', g.get('sample_weight') is None if W is None else same(g['sample_weight'], [W[i]]))
    return u


def u_late(kind):
    """experts added later know the classes; reset brings the state of the constructor back"""
    def u(vm):
        kw = dict(period=1) if kind == 'dwm' else {}
        o, base, fam, kw, e, ws = experts(vm, kind, 1, 2, classes=2, **kw)
        vm.method(o, 'partial_fit', arr(vm, 1, 2), vm.born(np.array([0])), classes=vm.born([0, 1]))
        vm.method(o, 'partial_fit', arr(vm, 1, 2, name='z'), vm.born(np.array([0])))
        for m in est(vm, vm.getattr(o, 'experts')):
            vm.prove('every lesson with the classes', all(a.get('classes') is not None and list(a['classes']) == [0, 1] for _, a in m.told))
        r = vm.method(o, 'reset')
        vm.prove('reset returns itself', r is o)
        e = list(vm.getattr(o, 'experts'))
        vm.prove('one fresh expert', len(e) == 1 and not est(vm, e)[0].told and est(vm, e)[0] is not base and vm.truth(eq(vm.getattr(e[0], 'weight'), 1)))
        vm.prove('no rows', vm.getattr(o, 'epochs') == 0)
        vm.method(o, 'partial_fit', arr(vm, 1, 2, name='q'), vm.born(np.array([0])))
        vm.prove('classes are forgotten', all(a.get('classes') is None for m in est(vm, vm.getattr(o, 'experts')) for _, a in m.told))
    return u


# ---------------------------------------------------------------- chunks
class Fit(Learner):
    """style 'sk': fit learns anew from a chunk, columns and answers are the labels of that chunk (classes_);
    style 'skm': fit is missing, partial_fit, a column per label; 'own': both go on learning, a column per label"""
    def __init__(self, vm, fam, style, told=()):
        Learner.__init__(self, vm, fam, told=told)
        self.style = style
        self.params = ('X', 'y', 'sample_weight') if style == 'sk' else ('X', 'y', 'classes', 'sample_weight')

    def pv_copy(self):
        return Fit(self.vm, self.fam, self.style, self.told)

    def known(self, told=None):
        t = self.told[:len(self.told) if told is None else told]
        if self.style == 'sk':
            t = t[-1:]
        return sorted({int(v) for _, a in t for v in np.ravel(np.array(a['y'], dtype=object))})

    def columns(self, told=None):
        k = self.known(told)
        return k if self.style == 'sk' else list(range(max(k) + 1))

    def pv_getattr(self, vm, name):
        if self.style == 'sk' and name == 'partial_fit':
            raise PyRaise('AttributeError', (name,))
        if name == 'fit':
            from props.learnmodel import fn
            return fn(lambda *a, **k: self.learn('fit', a, k), self.params)
        if name == 'classes_' and self.style == 'sk' and self.told:
            return vm.born(np.array(self.known()))
        if name == '__class__':
            return self.style
        return Learner.pv_getattr(self, vm, name)

    def learn(self, how, a, k):
        if self.style == 'skm' and how == 'fit':
            raise PyRaise('NotImplementedError', ())
        return Learner.learn(self, how, a, k)

    def width(self, told=None):
        return len(self.columns(told))

    def row(self, how, x, told=None):
        from props.learnmodel import key
        memo = self.vm.ghost.setdefault('answers', {})
        told = len(self.told) if told is None else told
        k = (self.no, told, how, tuple(key(v) for v in x))
        if k not in memo:
            if how == 'predict_proba':
                memo[k] = [self.vm.fresh('p', 'real', 0, 1) for _ in range(self.width(told))]
            else:
                c = self.known(told)
                memo[k] = c[self.vm.choose(len(c))]
        return memo[k]

    def of_label(self, x, c, told=None):
        """the probability of label c"""
        col = self.columns(told)
        p = self.row('predict_proba', x, told)
        return p[col.index(c)] if c in col else 0


class Folds:
    """sklearn's KFold over 2 rows: each is tested once by the other, in either order"""
    def __init__(self, vm):
        self.vm, self.made = vm, []
        vm.hooks.setdefault('ext', {})['sklearn.model_selection.KFold'] = self.make

    def make(self, vm, n_splits=5, shuffle=False, random_state=None):
        self.made.append(n_splits)
        return self

    def pv_getattr(self, vm, name):
        from props.learnmodel import fn
        if name != 'split':
            raise Unsupported('KFold.' + name)

        def split(X, y=None, groups=None):
            first = vm.choose(2)
            return vm.born([(np.array([1 - i]), np.array([i])) for i in (first, 1 - first)])
        return fn(split)


def taught_chunk(vm, m, X, y, W, classes, style, told=-1):
    how, a = m.told[told]
    vm.prove('a model learns the chunk', how == ('partial_fit' if style == 'skm' else 'fit') and same(matrix(a['X']), [list(x) for x in X]) and same(list(a['y']), list(y)))
    if style == 'skm':
        vm.prove('with its classes', list(a['classes']) == classes)
    if W is not None:
        vm.prove('with its weights', same(list(a['sample_weight']), list(W)))


def mse(m, X, y, seen):
    return S.div(total([(1 - m.of_label(list(x), c)) * (1 - m.of_label(list(x), c)) if c in seen else 1 for x, c in zip(X, y)]), len(y))


def base_mse(y):
    """of guessing by the class distribution"""
    n = len(y)
    return total([S.div(y.count(c), n) * (1 - S.div(y.count(c), n)) * (1 - S.div(y.count(c), n)) for c in sorted(set(y))])


def awe(vm, style, kept, vote=2, window=2):
    fam = []
    base = Fit(vm, fam, style)
    f = Folds(vm)
    o = vm.new(vm.cls(*CLS['awe']), base_estimator=base, n_estimators=vote, n_kept_estimators=kept, window_size=window, n_splits=2)
    return o, base, fam, f


def pool(vm, o, base, k, labels, wlo=0):
    """k models trained on one row of some label each, of arbitrary weight"""
    out = []
    W = vm.getattr(o, 'WeightedClassifier')
    for j in range(k):
        m = base.pv_copy()
        for c in labels[j]:
            m.told.append(('partial_fit', {'y': [c]}) if base.style == 'skm' else ('fit', {'y': list(labels[j])}))
        w = vm.inp('w', 'real', 0)
        out.append(vm.call(W, [m, w, vm.born(np.array(labels[j]))], {}))
    vm.setattr(o, 'models_pool', vm.born(list(out)))
    return out


def u_awe(style, k, kept, y, labels):
    """a full chunk: a new model, weights of all models, the best are kept"""
    def u(vm):
        o, base, fam, f = awe(vm, style, kept)
        vm.method(o, 'partial_fit', arr(vm, 1, 1, name='first'), vm.born(np.array([y[0]])))
        vm.prove('nothing learned before the chunk is full', not vm.getattr(o, 'models_pool') and all(not m.told for m in fam))
        X = [arr(vm, 1, 1, name='z')[0]]
        x0 = vm.getattr(o, 'X_chunk')[0].copy()
        old = pool(vm, o, base, k, labels)
        had = [len(m.told) for m in est(vm, old)]
        ws = vm.inp('sw', 'real', 0) if vm.choose(2) else None
        vm.method(o, 'partial_fit', vm.born(np.array([X[0]], dtype=object)), vm.born(np.array([y[1]])), **({} if ws is None else dict(sample_weight=vm.born(np.array([ws], dtype=object)))))
        X = [x0, X[0]]
        now = list(vm.getattr(o, 'models_pool'))
        e = est(vm, now)
        E = est(vm, old)
        vm.prove('old models learn nothing', [len(m.told) for m in E] == had)
        full = [m for m in e if m not in E] or [m for m in fam if m is not base and len(m.told) and 'X' in m.told[0][1] and len(m.told[0][1]['y']) == 2 and m not in E]
        vm.prove('a new model of the whole chunk', len(full) > 0 and len(full[0].told) == 1 and full[0] is not base)
        new = full[0]
        taught_chunk(vm, new, X, y, [1, 1 if ws is None else ws], sorted(set(y)), style)
        vm.prove('and the base estimator is never trained', not base.told)
        r = base_mse(list(y))
        need = {}
        for m, lab in zip(E, labels):
            d = r - mse(m, X, y, lab)
            need[m] = ite(d > 0, d, 0)
        wnow = {m: vm.getattr(q, 'weight') for q, m in zip(now, e)}
        vm.prove('the pool keeps at most n_kept_estimators', len(now) == min(k + 1, kept) and len(set(map(id, e))) == len(e) and all(m in E or m is new for m in e))
        for q, m in zip(now, e):
            if m is not new:
                vm.prove('a model weighs its advantage over guessing on the chunk', eq(wnow[m], need[m]))
            else:
                vm.prove('weights are not negative', wnow[m] >= 0)
                vm.prove('the labels of the chunk', list(vm.getattr(q, 'seen_labels')) == sorted(set(y)))
        if len(now) < k + 1:
            gone = [m for m in E + [new] if m not in e]
            if gone[0] is new:
                vm.prove('the new model is dropped only if no model weighs less', True)
            else:
                vm.prove('the model dropped weighs the least of the old, and less than the new one', and_(*[need[gone[0]] <= need[m] for m in E], need[gone[0]] < wnow[new]))
        vm.prove('the chunk starts over', vm.getattr(o, 'p') == 0)
    return u


def u_awe_cv(style, y):
    """the weight of the new model: cross-validated"""
    def u(vm):
        o, base, fam, f = awe(vm, style, 3)
        X = arr(vm, 2, 1)
        vm.method(o, 'partial_fit', X, vm.born(np.array(y)))
        q = list(vm.getattr(o, 'models_pool'))
        vm.prove('one model', len(q) == 1)
        vm.prove('as many folds as asked for', f.made == [2])
        vm.prove('advantage over guessing, not negative', vm.getattr(q[0], 'weight') >= 0)
        # the folds' models: each answer used is about the row left out
        d = base_mse(list(y))
        folds = [m for m in fam if any(len(t[1]['y']) == 1 for t in m.told)]
        err = 0
        for m in folds:
            for how, rows, told in m.asked:
                vm.prove('tested on one row', how == 'predict_proba' and len(rows) == 1)
                c = y[0] if same(rows[0], X[0]) is True else y[1]
                p = m.of_label(list(rows[0]), c, told)
                if style == 'sk':
                    vm.prove('by a model of the other rows', same(m.told[told - 1][1]['X'], [X[1] if same(rows[0], X[0]) is True else X[0]]))
                err = err + S.div((1 - p) * (1 - p), 2)
        vm.prove('weight of the new model', eq(vm.getattr(q[0], 'weight'), ite(d - err > 0, d - err, 0)))
    return u


def u_awe_rows(n):
    """chunks are cut in order, whatever the calls"""
    def u(vm):
        o, base, fam, f = awe(vm, 'sk', 5)
        vm.contract(CLS['awe'][0], CLS['awe'][1], 'compute_weight', lambda vm, self, a, k: vm.fresh('w', 'real', 0))
        X, y = arr(vm, n, 1), [i % 2 for i in range(n)]
        cut = 1 + vm.choose(n)
        r = vm.method(o, 'partial_fit', X[:cut], vm.born(np.array(y[:cut])))
        vm.prove('returns itself', r is o)
        kx = X.copy()
        if cut < n:
            vm.method(o, 'partial_fit', X[cut:], vm.born(np.array(y[cut:])))
        q = est(vm, vm.getattr(o, 'models_pool'))
        vm.prove('a model per full chunk', len(q) == n // 2)
        for j, m in enumerate(q):
            vm.prove('of its rows', len(m.told) == 1)
            taught_chunk(vm, m, X[2 * j:2 * j + 2], y[2 * j:2 * j + 2], None, None, 'sk')
        vm.prove('the rows given are untouched', all(a is b for a, b in zip(kx.flat, X.flat)))
        vm.prove('reset returns itself', vm.method(o, 'reset') is o)
        vm.prove('reset forgets', not vm.getattr(o, 'models_pool'))
        vm.method(o, 'partial_fit', X[:1], vm.born(np.array(y[:1])))
        vm.prove('also the rows of the open chunk', not vm.getattr(o, 'models_pool'))
    return u


def u_awe_vote(k, vote):
    def u(vm):
        o, base, fam, f = awe(vm, 'skm', 5, vote)
        n = 2 if k < 3 else 1
        X = arr(vm, n, 1)
        if k == 0:
            r = vm.method(o, 'predict', X)
            vm.prove('zeros before the first chunk', len(r) == n and all(vm.truth(eq(v, 0)) for v in r))
            return
        q = pool(vm, o, base, k, [[0, 1, 2][:3 if k < 3 else 2]] * k)
        ws = [vm.getattr(z, 'weight') for z in q]
        if k > vote:
            vm.assume(and_(*[not_(eq(a, b)) for i, a in enumerate(ws) for b in ws[:i]]))
        r = vm.method(o, 'predict', X)
        E = est(vm, q)
        asked = [bool(m.asked) for m in E]
        vm.prove('the best n_estimators vote', sum(asked) == min(k, vote) and and_(*[ws[i] >= ws[j] for i in range(k) for j in range(k) if asked[i] and not asked[j]]))
        for i in range(n):
            said = {j: E[j].row('predict', list(X[i])) for j in range(k) if asked[j]}
            v = {c: total([ws[j] for j in said if said[j] == c]) for c in set(said.values())}
            vm.prove('the label with the highest sum of weights', or_(*[and_(eq(r[i], c), *[v[c] >= x for x in v.values()]) for c in v]))
        try:
            vm.method(o, 'predict_proba', X)
            vm.prove('no probabilities', False)
        except PyRaise as ex:
            vm.prove('no probabilities', ex.name == 'NotImplementedError')
    return u


def u_inc(n, M, style):
    def u(vm):
        fam = []
        base = Fit(vm, fam, 'sk')
        if style == 'plain':
            base.params = ('X', 'y')
            base.pv_copy = lambda: copy_plain(base)
        o = vm.new(vm.cls(*CLS['inc']), base_estimator=base, n_estimators=M, window_size=2)
        X, y = arr(vm, n, 1), [vm.choose(2) if i < 2 else i % 2 for i in range(n)]
        W = arr(vm, n, lo=0, name='sw') if vm.choose(2) else None
        z = vm.method(o, 'predict', X[:1])
        vm.prove('zeros before the first chunk', len(z) == 1 and vm.truth(eq(z[0], 0)))
        cut = 1 + vm.choose(n)
        kw = lambda a, b: {} if W is None else dict(sample_weight=W[a:b])
        kx = X.copy()
        r = vm.method(o, 'partial_fit', X[:cut], vm.born(np.array(y[:cut])), **kw(0, cut))
        vm.prove('returns itself', r is o)
        if cut < n:
            vm.method(o, 'partial_fit', X[cut:], vm.born(np.array(y[cut:])), **kw(cut, n))
        q = list(vm.getattr(o, 'ensemble'))
        first = max(0, n // 2 - M)
        vm.prove('a model per full chunk, the last n_estimators', len(q) == n // 2 - first)
        for j, m in enumerate(q):
            j += first
            vm.prove('of its chunk', len(m.told) == 1 and m.told[0][0] == 'fit')
            a = m.told[0][1]
            vm.prove('rows and labels', same(matrix(a['X']), [list(x) for x in X[2 * j:2 * j + 2]]) and same(list(a['y']), y[2 * j:2 * j + 2]))
            if style != 'plain':
                vm.prove('and weights', same(list(a['sample_weight']), [1, 1] if W is None else list(W[2 * j:2 * j + 2])))
        vm.prove('the base estimator is never trained', not base.told)
        vm.prove('the rows given are untouched', all(a is b for a, b in zip(kx.flat, X.flat)))
        p = vm.method(o, 'predict_proba', X[:1])
        g = vm.method(o, 'predict', X[:1])
        share = S.div(total([m.row('predict', list(X[0])) for m in q]), max(1, len(q)))
        vm.prove('the share of models that say 1', len(p) == 1 and (not q or eq(p[0], share) is True or abs(float(p[0]) - float(share)) < 1e-9))
        vm.prove('1 if at least half do', not q or eq(g[0], 1 if share >= 0.5 else 0))
        vm.prove('reset returns itself and forgets', vm.method(o, 'reset') is o and not vm.getattr(o, 'ensemble'))
        vm.method(o, 'partial_fit', X[:1], vm.born(np.array(y[:1])))
        vm.prove('also the rows of the open chunk', not vm.getattr(o, 'ensemble'))
    return u


def copy_plain(b):
    m = Fit(b.vm, b.fam, 'sk', b.told)
    m.params = ('X', 'y')
    return m


# ---------------------------------------------------------------- Learn++.NSE
def nse(vm, style, k, nc, window=2, **kw):
    """k members that know all classes, arbitrary histories of errors and weights"""
    fam = []
    base = Fit(vm, fam, style)
    kw = dict(dict(slope=vm.inp('slope', 'real', 0), crossing_point=vm.inp('cross', 'real')), **kw)
    o = vm.new(vm.cls(*CLS['nse']), base_estimator=base, window_size=window, **kw)
    base = vm.getattr(o, 'base_estimator')
    return o, base, fam, kw


def history(vm, o, base, k, nc, labels=None):
    E, B, Wk, EW = [], [], [], []
    for j in range(k):
        m = base.pv_copy()
        m.told.append(('fit', {'y': list(labels[j] if labels else range(nc))}))
        E.append(m)
        n = 1 + (k - j) % 2
        B.append([vm.inp('b', 'real', 0) for _ in range(n)])
        Wk.append([vm.inp('k', 'real', 0) for _ in range(n)])
        EW.append(vm.inp('v', 'real'))
        vm.assume(and_(*[w > 0 for w in Wk[-1]]))
    vm.setattr(o, 'ensemble', vm.born(list(E)))
    vm.setattr(o, 'bkts', vm.born([vm.born(list(b)) for b in B]))
    vm.setattr(o, 'wkts', vm.born([vm.born(list(b)) for b in Wk]))
    vm.setattr(o, 'ensemble_weights', vm.born(list(EW)))
    vm.setattr(o, 'classes', vm.born(np.array(range(nc))))
    return E, B, Wk, EW


def onehot(vm, E, nc, X):
    """the members' probabilities of rows X are 0 and 1, for the label they predict"""
    from props.learnmodel import key
    memo = vm.ghost.setdefault('answers', {})
    for m in E:
        for x in X:
            c = m.row('predict', list(x))
            memo[(m.no, len(m.told), 'predict_proba', tuple(key(v) for v in x))] = [1 if q == c else 0 for q in m.columns()]


def unless_all_wrong(vm, f, *a, **k):
    """a member that errs on all of its own window divides by zero in numpy's way (inf); not claimed"""
    try:
        return vm.method(*((f,) + a), **k)
    except PyRaise as ex:
        if ex.name == 'ZeroDivisionError':
            raise PathEnd()
        raise


def u_nse(k, prune, y, style):
    """a full window: weights of its rows, the new member, errors, weights of the members, pruning"""
    def u(vm):
        nc = 2
        M = k if prune else 15
        o, base, fam, kw = nse(vm, style, k, nc, pruning=prune, n_estimators=max(M, 1))
        E, B, Wk, EW = history(vm, o, base, k, nc) if k else ([], [], [], [])
        X = arr(vm, 2, 1)
        kx = X.copy()
        more = {} if k else dict(classes=vm.born(np.array(range(nc))))
        onehot(vm, E, nc, X)
        vm.method(o, 'partial_fit', X[:1], vm.born(np.array(y[:1])), **more)
        vm.prove('nothing happens before the window is full', len(vm.getattr(o, 'ensemble')) == k)
        said = [[m.row('predict', list(x)) for x in X] for m in E]
        D = [S.div(1, 2), S.div(1, 2)]
        if k:
            right = []
            for i in range(2):
                v = [total([ite(EW[j] > 0, EW[j], 0) for j in range(k) if said[j][i] == c]) for c in range(nc)]
                right.append(bool(vm.truth(and_(*[(v[y[i]] > v[c]) if c < y[i] else (v[y[i]] >= v[c]) for c in range(nc)]))))
            e = S.div(2 - sum(right), 2)
            D = [S.div(e, 2) if r else S.div(1, 2) for r in right]
            t = D[0] + D[1]
            D = [S.div(d, t) if t != 0 else d for d in D]
        old = list(fam)
        unless_all_wrong(vm, o, 'partial_fit', X[1:], vm.born(np.array(y[1:])))
        now = list(vm.getattr(o, 'ensemble'))
        dead = 1 if prune and k + 1 > M else 0
        vm.prove('at most n_estimators members when pruning', len(now) == k + 1 - dead)
        vm.prove('the oldest goes', prune != 'age' or not dead or all(a is b for a, b in zip(now, E[1:])))
        new = now[-1] if not any(now[-1] is m for m in E) else None
        made = [m for m in fam if m not in old]
        firstborn = made[0]
        for m in made:
            how, a = m.told[-1]
            vm.prove('a new member learns the window once', len(m.told) == 1 and how == 'fit' and same(matrix(a['X']), [list(x) for x in kx]) and same(list(a['y']), list(y)))
            vm.prove('knowing the classes', style != 'own' or list(a['classes']) == list(range(nc)))
        vm.prove('the base estimator is never trained', not base.told)
        vm.prove('old members learn nothing', all(len(m.told) == 1 for m in E))
        err = [total([D[i] for i in range(2) if said[j][i] != y[i]]) for j in range(k)]
        said.append([firstborn.row('predict', list(x)) for x in kx])
        mine = total([D[i] for i in range(2) if said[k][i] != y[i]])
        if vm.truth(eq(mine, 1)):
            raise PathEnd()
        bad = bool(vm.truth(mine > S.div(1, 2)))
        vm.prove('a second attempt exactly after an error over a half', len(made) == (2 if bad else 1))
        err = [ite(x > S.div(1, 2), S.div(1, 2), x) for x in err] + [mine]
        tt = k + 1
        BK, WKT, W = vm.getattr(o, 'bkts'), vm.getattr(o, 'wkts'), vm.getattr(o, 'ensemble_weights')
        vm.prove('histories for each member', len(BK) == len(WKT) == len(W) == len(now))
        for j, m in enumerate(E + [made[-1]]):
            at = [i for i, q in enumerate(now) if q is m]
            if not at:
                vm.prove('the one with the highest error goes', prune == 'age' or and_(*[err[j] >= q for q in err]))
                continue
            b = (B[j] if j < k else []) + [S.div(err[j], 1 - err[j])]
            w0 = S.div(1, 1 + S.exp(-kw['slope'] * (tt - (j + 1) - kw['crossing_point'])))
            ws = (Wk[j] if j < k else [])
            ws = ws + [S.div(w0, total(ws) + w0)]
            i = at[0]
            vm.prove('its normalised error is noted', same(list(BK[i]), b))
            vm.prove('and the sigmoid weight of this window', same(list(WKT[i]), ws))
            s = total([p * q for p, q in zip(b, ws)])
            vm.prove('it weighs the log of its inverse average error', eq(W[i], S.log(S.div(1, s + 1e-50))))
        vm.prove('the rows given are untouched', all(a is b for a, b in zip(kx.flat, X.flat)))
    return u


def u_nse_vote(k, nc, style, labels):
    def u(vm):
        o, base, fam, kw = nse(vm, style, k, nc)
        n = 2 if k < 2 else 1
        X = arr(vm, n, 1)
        p = vm.method(o, 'predict_proba', X)
        vm.prove('zeros before any training', p.shape == (n, 1) and all(vm.truth(eq(v, 0)) for v in p.flat))
        E, B, Wk, EW = history(vm, o, base, k, nc, labels)
        R = [[list(m.row('predict_proba', list(x))) for x in X] for m in E]
        for r in R:
            for p in r:
                vm.assume(total(p) > 0)
        p = vm.method(o, 'predict_proba', X)
        vm.prove('a row of votes per row', p.shape == (n, nc))
        for i in range(n):
            for c in range(nc):
                want = 0
                for j, m in enumerate(E):
                    q = m.of_label(list(X[i]), c)
                    want = want + ite(EW[j] > 0, EW[j] * S.div(q, total(R[j][i])), 0)
                vm.prove('the weighted probability of a label', eq(p[i, c], want))
        g = vm.method(o, 'predict', X)
        vm.prove('the label with the most votes', and_(*[or_(*[and_(eq(g[i], c), *[p[i, c] >= p[i, d] for d in range(nc)]) for c in range(nc)]) for i in range(n)]))
    return u


def u_nse_rows(n):
    def u(vm):
        o, base, fam, kw = nse(vm, 'sk', 0, 2, slope=0.5, crossing_point=10)
        try:
            unless_all_wrong(vm, o, 'partial_fit', arr(vm, 1, 1), vm.born(np.array([0])))
            vm.prove('the classes are needed first', False)
        except PyRaise as ex:
            vm.prove('the classes are needed first', ex.name == 'RuntimeError')
        X, y = arr(vm, n, 1), [i % 2 for i in range(n)]
        cut = 1 + vm.choose(n)
        r = unless_all_wrong(vm, o, 'partial_fit', X[:cut], vm.born(np.array(y[:cut])), classes=vm.born([0, 1]))
        vm.prove('returns itself', r is o)
        kx = X.copy()
        if cut < n:
            Z = X[cut:].copy()
            unless_all_wrong(vm, o, 'partial_fit', Z, vm.born(np.array(y[cut:])))
        q = list(vm.getattr(o, 'ensemble'))
        vm.prove('a member per full window', len(q) == n // 2)
        for j, m in enumerate(q):
            vm.prove('of its rows', len(m.told) == 1 and same(matrix(m.told[0][1]['X']), [list(x) for x in kx[2 * j:2 * j + 2]]) and same(list(m.told[0][1]['y']), y[2 * j:2 * j + 2]))
        vm.prove('reset returns itself', vm.method(o, 'reset') is o)
        vm.prove('reset forgets', not vm.getattr(o, 'ensemble') and vm.getattr(o, 'classes') is None)
        unless_all_wrong(vm, o, 'partial_fit', X[:1], vm.born(np.array(y[:1])), classes=vm.born([0, 1]))
        vm.prove('also the rows of the open window', not vm.getattr(o, 'ensemble'))
        x0 = X[0, 0]
        X[0, 0] = 77
        unless_all_wrong(vm, o, 'partial_fit', X[1:2] if n > 1 else kx[:1], vm.born(np.array([1])))
        m = vm.getattr(o, 'ensemble')[0]
        vm.prove('rows are kept, not views of the caller\'s array', eq(matrix(m.told[0][1]['X'])[0][0], x0))
    return u


# ---------------------------------------------------------------- Learn++
def learn_pp(m, y, nc, n_est, thr, log, pick, fit, says, unsure=lambda a, b: None):
    """one batch of Learn++ by definition; pick(D) -> train, test; fit(t, rows); says(t, rows) -> labels;
    returns the normalised errors"""
    D, err, t = [1.0 / m] * m, [], 0

    def wrong(D, rows, lab):
        s = sum(D[i] for i in rows)
        return sum(D[i] for i, l in zip(rows, lab) if l != y[i]) / s
    everything = list(range(m))
    while t < n_est:
        s = sum(D)
        if s == 0:
            break
        D = [d / s for d in D]
        if len(err) == t:
            err.append(1.0)
        while True:
            train, test = pick(D)
            fit(t, train)
            e = wrong(D, test, says(t, test))
            unsure(e, thr)
            if e >= thr:
                continue
            err[t] = e / (1 - e)
            lab = []
            A = [says(j, everything) for j in range(t + 1)]
            for i in everything:
                v = [0.0] * nc
                for j in range(t + 1):
                    v[A[j][i]] += log(1 / (err[j] + 1e-50))
                unsure(*sorted([-1.0] + v)[-2:])
                lab.append(v.index(max(v)))
            e = wrong(D, everything, lab)
            unsure(e, thr)
            if e < thr:
                break
        if t < n_est - 1:
            D = [d * (e / (1 - e)) if l == y[i] else d for i, (d, l) in enumerate(zip(D, lab))]
        t += 1
    return err


class Picks:
    """RandomState.choice(items, n, p): some of the items, weights noted"""
    def __init__(self, vm, top):
        self.vm, self.got, self.top = vm, [], top
        vm.hooks.setdefault('ext', {})['numpy.random.RandomState.choice'] = self.choice

    def choice(self, vm, o, items, size=None, replace=True, p=None):
        if len(self.got) >= 2 * self.top:
            raise PathEnd()
        p = [float(v) for v in p]
        ok = [i for i in range(len(p)) if p[i] > 0]
        r = [ok[vm.choose(len(ok)) if len(ok) > 1 else 0] for _ in range(size)]
        self.got.append((p, r))
        return vm.born(np.array([items[i] for i in r]))


def u_lpp(n_est, style, top, y, thr):
    def u(vm):
        import math
        vm.unroll_forks = 8
        fam, m = [], 2
        base = Learner(vm, fam, nclass=2, params=('X', 'y'))
        pk = Picks(vm, top)
        o = vm.new(vm.cls(*CLS['lpp']), base_estimator=base, n_estimators=n_est, n_ensembles=1, window_size=m, error_threshold=thr, random_state=1)
        X = arr(vm, m, 1)
        vm.method(o, 'partial_fit', X, vm.born(np.array(y)), classes=vm.born([0, 1]))
        ens = list(vm.getattr(o, 'ensembles')[0])
        pos, nfit = [0], {}

        def pick(D):
            p, train = pk.got[pos[0]]
            q, test = pk.got[pos[0] + 1]
            pos[0] += 2
            vm.prove('items are drawn by their weights', all(abs(a - b) < 1e-9 and abs(a - c) < 1e-9 for a, b, c in zip(D, p, q)))
            vm.prove('half of them each', len(train) == len(test) == m // 2)
            return train, test

        def fit(t, rows):
            k = nfit.get(t, 0)
            nfit[t] = k + 1
            how, a = ens[t].told[k]
            vm.prove('a hypothesis learns the drawn items', how == 'fit' and same(matrix(a['X']), [list(X[i]) for i in rows]) and same(list(a['y']), [y[i] for i in rows]))

        def says(t, rows):
            return [ens[t].row('predict', list(X[i]), nfit[t]) for i in rows]
        err = learn_pp(m, list(y), 2, n_est, thr, math.log, pick, fit, says)
        vm.prove('as many hypotheses as the algorithm makes', len(ens) == len(err) <= n_est)
        vm.prove('no other draw', pos[0] * 1 == len(pk.got))
        vm.prove('no other lesson', all(len(h.told) == nfit[t] for t, h in enumerate(ens)))
        w = list(vm.getattr(o, 'ensemble_weights')[0])
        vm.prove('their normalised errors', len(w) == len(err) and all(abs(float(a) - b) < 1e-9 for a, b in zip(w, err)))
        vm.prove('the base estimator is never trained', not base.told)
    return u


def u_lpp_vote(sizes):
    def u(vm):
        import math
        fam = []
        base = Learner(vm, fam, nclass=3, params=('X', 'y'))
        o = vm.new(vm.cls(*CLS['lpp']), base_estimator=base, window_size=2, random_state=1)
        X = arr(vm, 2 if sum(sizes) < 3 else 1, 1)
        p = vm.method(o, 'predict_proba', X)
        vm.prove('no votes before any training', all(vm.truth(eq(v, 0)) for v in p.flat))
        vm.setattr(o, 'classes', vm.born([0, 1, 2]))
        ens = [[base.pv_copy() for _ in range(k)] for k in sizes]
        err = [[vm.inp('e', 'real', 0) for _ in range(k)] for k in sizes]
        vm.setattr(o, 'ensembles', vm.born([vm.born(list(e)) for e in ens]))
        vm.setattr(o, 'ensemble_weights', vm.born([vm.born(list(e)) for e in err]))
        p = vm.method(o, 'predict_proba', X)
        g = vm.method(o, 'predict', X)
        vm.prove('a row of votes per row', p.shape == (len(X), 3) and len(g) == len(X))
        for i in range(len(X)):
            v = [0, 0, 0]
            for e, w in zip(ens, err):
                for m, q in zip(e, w):
                    c = m.row('predict', list(X[i]))
                    v[c] = v[c] + S.log(S.div(1, q + 1e-50))
            vm.prove('hypotheses vote by the log of their inverse error', and_(*[eq(p[i, c], v[c]) for c in range(3)]))
            vm.prove('the label with the most votes', or_(*[and_(eq(g[i], c), *[v[c] >= d for d in v]) for c in range(3)]))
    return u


def u_lpp_rows(n):
    def u(vm):
        fam = []
        vm.unroll_forks = 8
        base = Learner(vm, fam, nclass=1, params=('X', 'y'))
        Picks(vm, 100)
        o = vm.new(vm.cls(*CLS['lpp']), base_estimator=base, n_estimators=1, n_ensembles=2, window_size=2, random_state=1)
        X, y = arr(vm, n, 1), [0] * n
        try:
            vm.method(o, 'partial_fit', X, vm.born(np.array(y)))
            vm.prove('the classes are needed first', False)
        except PyRaise as ex:
            vm.prove('the classes are needed first', ex.name == 'RuntimeError')
        cut = 1 + vm.choose(n)
        r = vm.method(o, 'partial_fit', X[:cut], vm.born(np.array(y[:cut])), classes=vm.born([0]))
        vm.prove('returns itself', r is o)
        kx = [list(x) for x in X]
        if cut < n:
            vm.method(o, 'partial_fit', X[cut:], vm.born(np.array(y[cut:])), classes=vm.born([0]))
        q = list(vm.getattr(o, 'ensembles'))
        first = max(0, n // 2 - 2)
        vm.prove('an ensemble per full batch, the last n_ensembles', len(q) == n // 2 - first)
        for j, e in enumerate(q):
            j += first
            rows = [tuple(id(v) for v in r) for r in kx[2 * j:2 * j + 2]]
            vm.prove('taught rows of its batch', all(tuple(id(v) for v in r) in rows for h in e for _, a in h.told for r in matrix(a['X'])))
        now = [len(m.told) for m in fam]
        try:
            vm.method(o, 'partial_fit', X, vm.born(np.array(y)), classes=vm.born([0, 1]))
            vm.prove('other classes are rejected', False)
        except PyRaise as ex:
            vm.prove('other classes are rejected', ex.name == 'RuntimeError' and now == [len(m.told) for m in fam])
        vm.prove('reset returns itself and forgets', vm.method(o, 'reset') is o and not vm.getattr(o, 'ensembles') and not vm.getattr(o, 'ensemble_weights') and vm.getattr(o, 'classes') is None)
        vm.method(o, 'partial_fit', X[:1], vm.born(np.array(y[:1])), classes=vm.born([0]))
        vm.prove('also the rows of the open batch', not vm.getattr(o, 'ensembles'))
    return u


UNITS = []
for _k, _n in ((1, 1), (1, 2), (2, 2), (2, 3), (3, 3)):
    UNITS += [('dwm/period %d of %d' % (_k, _n), u_dwm(_k, _n, True)), ('dwm/between %d of %d' % (_k, _n), u_dwm(_k, _n, False))]
    UNITS += [('add/%s %d of %d' % (_p, _k, _n), u_add(_k, _n, _p)) for _p in ('weakest', 'oldest')]
for _m in ('dwm', 'add'):
    UNITS += [('%s/vote %d' % (_m, _k), u_vote(_m, _k)) for _k in (1, 2, 3)]
    UNITS += [('%s/rows %d' % (_m, _k), u_many(_m, _k)) for _k in (1, 3)] + [(_m + '/late', u_late(_m))]

for _s in ('sk', 'skm', 'own'):
    for _y in ((0, 1), (1, 2), (2, 2)):
        UNITS += [('awe/chunk %s %s %d of %d' % (_s, _y, _k, _n), u_awe(_s, _k, _n, _y, _l)) for _k, _n, _l in
                  ((0, 2, []), (1, 1, [[0, 1]]), (2, 2, [[0, 1], [1, 2]]))]
    UNITS += [('awe/new %s %s' % (_s, _y), u_awe_cv(_s, _y)) for _y in ((0, 0), (0, 1), (2, 1))]
UNITS += [('awe/rows %d' % _n, u_awe_rows(_n)) for _n in (1, 2, 5)] + [('awe/vote %d of %d' % (_v, _k), u_awe_vote(_k, _v)) for _k, _v in ((0, 2), (1, 1), (2, 1), (2, 2), (3, 2))]
UNITS += [('inc/%s %d of %d' % (_s, _n, _m), u_inc(_n, _m, _s)) for _s in ('weighted', 'plain') for _n, _m in ((1, 1), (5, 1), (5, 2), (6, 2))]

for _k, _p in ((0, None), (1, None), (2, None), (1, 'age'), (2, 'age'), (1, 'error'), (2, 'error')):
    for _y in ((0, 0), (0, 1), (1, 1)):
        UNITS.append(('nse/window %d %s %s' % (_k, _p, _y), u_nse(_k, _p, _y, 'own' if _p else 'sk')))
UNITS += [('nse/vote %s %s' % (_s, _l), u_nse_vote(len(_l), 3, _s, _l)) for _s in ('sk', 'own') for _l in ([[0, 1, 2]], [[0, 1, 2], [2, 1, 0]])]
UNITS += [('nse/vote some %s' % _l, u_nse_vote(len(_l), 3, 'sk', _l)) for _l in ([[1]], [[0, 2]], [[0, 1], [2]])]
UNITS += [('nse/rows %d' % _n, u_nse_rows(_n)) for _n in (1, 2, 5)]
for _y in ((0, 0), (0, 1)):
    for _t in (0.5, 0.6):
        UNITS += [('lpp/batch 1 %s %s' % (_y, _t), u_lpp(1, '', 2, _y, _t)), ('lpp/batch 2 %s %s' % (_y, _t), u_lpp(2, '', 2, _y, _t))]
UNITS += [('lpp/batch 3', u_lpp(3, '', 3, (0, 1), 0.7))]
UNITS += [('lpp/vote %s' % (_z,), u_lpp_vote(_z)) for _z in ((1,), (2,), (2, 1))] + [('lpp/rows %d' % _n, u_lpp_rows(_n)) for _n in (1, 3, 7)]


def cases(rnd, hints, tier):
    i = 0
    while True:
        i += 1
        yield dict(kind=('dwm', 'add', 'awe', 'nse', 'inc', 'lpp')[i % 6], seed=rnd.randrange(10 ** 9))


def run_case(case):
    import warnings
    from props.c18run import run
    warnings.simplefilter('ignore')
    return run(case)
