"""C14: naive Bayes and nearest-neighbour learners."""
import math
import numpy as np
from pv import sym as S
from pv.sym import eq, and_, or_, not_, implies, ite, Sym, Unsupported
from pv.vm import PathEnd, PyRaise
from props.c13 import Obs, _fn, tot, u_bayes

ID = 'C14'
BUDGET = 20
MAX_CASES = 700
B, U = 'bayes/naive_bayes.py', 'bayes/utils.py'
L = 'lazy/'
AO = 'trees/_attribute_observer/'
SW = 'utils/data_structures.py'
ASSUME = ['class labels are non-negative integers, declared if classes are given', 'attribute observers keep the contracts of C12, SlidingWindow those of C03, ADWIN those of C04',
          'sklearn KDTree.query returns the k nearest rows']
BOUNDED = ['batches of up to 3 rows of 2 attributes, 3 classes, windows of up to 4 rows with k up to 3 at a prediction', 'neighbour search itself: compared with brute force on generated windows']


def nb(vm, nominal=None):
    return vm.new(vm.cls(B, 'NaiveBayes'), **({} if nominal is None else dict(nominal_attributes=nominal)))


def rows(vm, n, d=2):
    X = np.empty((n, d), dtype=object)
    for i in range(n):
        for j in range(d):
            X[i, j] = vm.inp('x%d_%d' % (i, j), 'real')
    return vm.born(X)


def u_nb_fit(n):
    def u(vm):
        o = nb(vm)
        X = rows(vm, n)
        y = vm.born([i % 2 for i in range(n)])
        W = vm.born([vm.inp('w%d' % i, 'real', 0) for i in range(n)]) if vm.choose(2) else None
        keep = list(X.flat)
        log = []
        vm.contract(B, 'NaiveBayes', '_partial_fit', lambda vm, self, a, kw: log.append(list(a) + list(kw.values())))
        cl = vm.born([0, 1]) if vm.choose(2) else None
        r = vm.method(o, 'partial_fit', X, y, classes=cl, sample_weight=W)
        vm.prove('returns itself', r is o)
        j = 0
        for i in range(n):
            if W is not None and not vm.truth(W[i] > 0):
                continue
            vm.prove('every row with a weight is learned', j < len(log))
            x, yy, w = log[j]
            vm.prove('in order, with its own class and weight', and_(eq(x[0], X[i, 0]), eq(x[1], X[i, 1]), eq(yy, y[i]), eq(w, 1 if W is None else W[i])))
            j += 1
        vm.prove('nothing else is learned', j == len(log))
        vm.prove('arguments untouched', all(a is b for a, b in zip(keep, X.flat)))
        try:
            vm.method(o, 'partial_fit', X, y, sample_weight=vm.born([1.0] * (n + 1)))
            vm.prove('a wrong number of weights is rejected', False)
        except PyRaise as e:
            vm.prove('a wrong number of weights is rejected', e.name == 'ValueError' and len(log) == j)
    return u


def u_nb_one(vm):
    nom = vm.choose(2)
    o = nb(vm, vm.born([1]) if nom else None)
    fresh = vm.choose(2) == 0
    was = {} if fresh else {0: vm.inp('n0', 'real', 0), 1: vm.inp('n1', 'real', 0)}
    vm.setattr(o, '_observed_class_distribution', vm.born(dict(was)))
    old = Obs(vm, 0)
    if not fresh:
        vm.setattr(o, '_attribute_observers', vm.born({0: old}))
    log = []
    for f, c in (('nominal_attribute_class_observer.py', 'NominalAttributeClassObserver'), ('numeric_attribute_class_observer_gaussian.py', 'NumericAttributeClassObserverGaussian')):
        vm.contract(AO + f, c, 'update', lambda vm, self, a, kw: log.append((self, list(a) + list(kw.values()))))
    X = vm.born([vm.inp('x0', 'real'), vm.inp('x1', 'real')])
    y, w = vm.choose(3), vm.inp('w', 'real', 0)
    vm.assume(w > 0)
    vm.method(o, '_partial_fit', X, y, w)
    now = vm.getattr(o, '_observed_class_distribution')
    for c in range(3):
        vm.prove('class weights', eq(now.get(c, 0), was.get(c, 0) + (w if c == y else 0)))
    vm.prove('only observed classes', set(now) == set(was) | {y})
    obs = vm.getattr(o, '_attribute_observers')
    vm.prove('an observer per attribute', sorted(obs) == [0, 1])
    if not fresh:
        vm.prove('observers are kept', obs[0] is old)
    for i in (0, 1):
        ups = [tuple(a) for s, a in log if s is obs[i]] if obs[i] is not old else old.log
        vm.prove('every attribute is observed once', len(ups) == 1)
        a = ups[0]
        vm.prove('its own value, the class, the weight', and_(eq(a[0], X[i]), eq(a[1], y), eq(a[2], w)))
        if obs[i] is not old:
            vm.prove('nominal attributes are counted, the others are Gaussian', obs[i].cls.name == ('NominalAttributeClassObserver' if nom and i == 1 else 'NumericAttributeClassObserverGaussian'))
    vm.prove('no other observer is touched', len(log) + len(old.log) == 2)


def u_nb_proba(declared, empty):
    def u(vm):
        o = nb(vm)
        if declared:
            vm.setattr(o, '_classes', vm.born([0, 1, 2]) if vm.choose(2) else np.array([0, 1, 2], dtype=object))
        n = 2
        X = rows(vm, n)
        if empty:
            p = vm.method(o, 'predict_proba', X)
            vm.prove('nothing learned: a row of zeros per sample', len(p) == n and all(len(r) == 1 and r[0] == 0 for r in p))
            return
        st = vm.born({0: vm.inp('n0', 'real', 0), 2: vm.inp('n2', 'real', 0)})
        obs = vm.born({0: Obs(vm, 0), 1: Obs(vm, 1)})
        vm.setattr(o, '_observed_class_distribution', st)
        vm.setattr(o, '_attribute_observers', obs)
        V = []

        def votes(vm, self, a, kw):
            i = len(V)
            vm.prove('each row against the statistics', and_(eq(a[0][0], X[i, 0]), eq(a[0][1], X[i, 1]), a[1] is st, a[2] is obs))
            V.append(vm.born({c: vm.fresh('v', 'real', 0) for c in ((0, 2) if vm.choose(2) else (0, 1))}))
            return V[-1]
        vm.contracts[U + ':do_naive_bayes_prediction'] = votes
        p = vm.method(o, 'predict_proba', X)
        vm.prove('one row per sample', len(p) == n and len(V) == n)
        for i in range(n):
            s = tot(V[i].values())
            vm.prove('a column per class', len(p[i]) == (3 if declared else max(V[i]) + 1))
            for c in range(len(p[i])):
                vm.prove('votes normalised to probabilities', ite(s > 0, eq(p[i][c] * s, V[i].get(c, 0)), eq(p[i][c], 0)))
        vm.prove('prediction changes nothing', vm.getattr(o, '_observed_class_distribution') is st and vm.getattr(o, '_attribute_observers') is obs and all(not x.log for x in obs.values()))
    return u


def u_nb_predict(vm):
    o = nb(vm)
    X = rows(vm, 2)
    P = np.empty((2, 3), dtype=object)
    for i in range(2):
        for j in range(3):
            P[i, j] = vm.fresh('p', 'real', 0, 1)

    def proba(vm, self, a, kw):
        vm.prove('of these rows', a[0] is X)
        return P
    vm.contract(B, 'NaiveBayes', 'predict_proba', proba)
    argmaxes(vm, vm.method(o, 'predict', X), P)


def argmaxes(vm, r, P):
    vm.prove('one prediction per row', len(r) == len(P))
    for i in range(len(P)):
        for c in range(len(P[0])):
            vm.prove('the most probable class, the first of equals', implies(eq(r[i], c), and_(*[P[i, c] >= P[i, k] for k in range(len(P[0]))], *[P[i, c] > P[i, k] for k in range(c)])))


def u_nb_reset(vm):
    nom = vm.born([1])
    o = nb(vm, nom)
    vm.setattr(o, '_observed_class_distribution', vm.born({0: vm.inp('n', 'real', 0)}))
    vm.setattr(o, '_attribute_observers', vm.born({0: Obs(vm, 0)}))
    vm.setattr(o, '_classes', vm.born([0]))
    vm.contract('core/base.py', 'BaseEstimator', '_get_param_names', lambda vm, self, a, kw: vm.born(['nominal_attributes']))
    vm.method(o, 'reset')
    new = nb(vm, nom)
    vm.prove('as new', vm.getattr(o, '_observed_class_distribution') == {} and vm.getattr(o, '_attribute_observers') == {} and vm.getattr(o, '_classes') is None and vm.getattr(o, 'nominal_attributes') is nom
             and set(o.fields) == set(new.fields))


# ------------------------------------------------------------------ nearest neighbours
CL = {'KNNClassifier': 'knn_classifier.py', 'KNNADWINClassifier': 'knn_adwin.py', 'KNNRegressor': 'knn_regressor.py'}


class Win:
    """a sliding window: what add_sample / delete_oldest_sample / reset do is proved in C03"""
    def __init__(self, vm, X, y, cap=None):
        self.X, self.y, self.cap, self.log = list(X), list(y), cap, []

    def pv_getattr(self, vm, name):
        if name == 'add_sample':
            return _fn(lambda *a, **k: self.add(*(list(a) + [k[n] for n in ('X', 'y') if n in k])))
        if name == 'delete_oldest_sample':
            return _fn(lambda: self.log.append('delete'))
        if name == 'reset':
            return _fn(lambda: self.log.append('reset'))
        if name == 'size':
            return len(self.X)
        if name == 'features_buffer':
            return np.array(self.X, dtype=object)
        if name == 'targets_buffer':
            a = np.empty((len(self.y), 1), dtype=object)
            for i, v in enumerate(self.y):
                a[i, 0] = v
            return a
        raise Unsupported('window.' + name)

    def add(self, x, y):
        self.log.append(('add', x, y))


def knn(vm, cl, **kw):
    vm.contract(L + 'base_neighbors.py', 'BaseNeighbors', 'valid_metrics', lambda vm, self, a, kw: vm.born(['euclidean', 'manhattan']))
    return vm.new(vm.cls(L + CL[cl], cl), **kw)


def u_knn_new(cl):
    def u(vm):
        k, w, leaf = vm.inp('k', 'int', 1), vm.inp('window', 'int', 1), vm.inp('leaf', 'int', 1)
        o = knn(vm, cl, n_neighbors=k, max_window_size=w, leaf_size=leaf, metric='manhattan')
        vm.prove('parameters are kept', and_(eq(vm.getattr(o, 'n_neighbors'), k), eq(vm.getattr(o, 'max_window_size'), w), eq(vm.getattr(o, 'leaf_size'), leaf), vm.getattr(o, 'metric') == 'manhattan'))
        dw = vm.getattr(o, 'data_window')
        vm.prove('an empty window of that size', and_(eq(vm.getattr(dw, 'size'), 0), eq(vm.getattr(dw, 'window_size'), w)))
        for kw in (dict(metric='nonsense'),) + ((dict(aggregation_method='nonsense'),) if cl == 'KNNRegressor' else ()):
            try:
                knn(vm, cl, **kw)
                vm.prove('rejected', False)
            except PyRaise as e:
                vm.prove('unknown options are rejected', e.name == 'ValueError')
    return u


def u_knn_fit(cl, n):
    def u(vm):
        o = knn(vm, cl)
        win = Win(vm, [], [])
        vm.setattr(o, 'data_window', win)
        X = rows(vm, n)
        reg = cl == 'KNNRegressor'
        y = vm.born([vm.inp('y%d' % i, 'real') if reg else i % 2 for i in range(n)])
        kw = {}
        if not reg:
            vm.setattr(o, 'classes', vm.born([0, 3]) if vm.choose(2) else vm.born([]))
            before = set(vm.getattr(o, 'classes'))
            cl_ = vm.choose(3)
            given = [None, [1, 2], [0]][cl_]
            kw = {} if given is None else dict(classes=vm.born(list(given)))
        r = vm.method(o, 'partial_fit', X, y, **kw)
        vm.prove('returns itself', r is o)
        vm.prove('every row once', len(win.log) == n)
        for i in range(n):
            _, a, b = win.log[i]
            vm.prove('in order, with its own target', and_(eq(a[0], X[i, 0]), eq(a[1], X[i, 1]), eq(b, y[i])))
        if not reg:
            vm.prove('declared classes are remembered', set(vm.getattr(o, 'classes')) >= before | set(given or []) and set(vm.getattr(o, 'classes')) <= before | set(given or []) | {0, 1})
    return u


def u_adwin_fit(n):
    """each row enters the window, then its prediction feeds ADWIN; a change shrinks the window to ADWIN's width"""
    def u(vm):
        k = 3
        o = knn(vm, 'KNNADWINClassifier', n_neighbors=k)
        m = vm.choose(4)            # rows in the window before
        win = Win(vm, [[0.0, 0.0]] * m, [0] * m)
        events = []

        def add(x, y):
            events.append(('add', x, y))
            win.X.append(x)
            win.y.append(y)

        def delete():
            events.append('delete')
            win.X.pop(0)
            win.y.pop(0)

        class W2(Win):
            def pv_getattr(self, vm, name):
                if name == 'add_sample':
                    return _fn(lambda *a, **kw: add(*(list(a) + [kw[q] for q in ('X', 'y') if q in kw])))
                if name == 'delete_oldest_sample':
                    return _fn(lambda: delete())
                return Win.pv_getattr(self, vm, name)
        win.__class__ = W2
        width = vm.choose(m + n + 2)
        change = vm.choose(2) == 1

        class AD:
            def pv_getattr(self, vm, name):
                if name == 'add_element':
                    return _fn(lambda v: events.append(('adwin', v)))
                if name == 'detected_change':
                    def f():
                        events.append('asked')
                        return change
                    return _fn(f)
                if name == 'width':
                    return width
                raise Unsupported('adwin.' + name)
        vm.setattr(o, 'data_window', win)
        vm.setattr(o, 'adwin', AD())
        X = rows(vm, n)
        y = vm.born([1] * n)
        right = []

        def pred(vm, self, a, kw):
            events.append(('predict', a[0]))
            right.append(vm.choose(2))
            return np.array([right[-1]], dtype=object)
        vm.contract(L + CL['KNNClassifier'], 'KNNClassifier', 'predict', pred)
        vm.method(o, 'partial_fit', X, y)
        e, r = iter(events), iter(right)
        for i in range(n):
            q = next(e, None)
            vm.prove('the row enters the window', q[0] == 'add' and and_(eq(q[1][0], X[i, 0]), eq(q[1][1], X[i, 1]), q[2] == 1))
            want = 0
            q = next(e, None)
            if m + i + 1 >= k:
                vm.prove('is predicted', q[0] == 'predict' and len(q[1]) == 1 and and_(eq(q[1][0][0], X[i, 0]), eq(q[1][0][1], X[i, 1])))
                want = next(r)
                q = next(e, None)
            vm.prove('ADWIN is told whether the prediction was right', q[0] == 'adwin' and eq(q[1], want))
        rest = [q for q in e if q != 'asked']
        drop = max(0, m + n - width) if change and m + n >= k else 0
        vm.prove('a change shrinks the window to the width of ADWIN', rest == ['delete'] * drop)
    return u


def u_neighbors(vm):
    k, leaf = vm.inp('k', 'int', 1), vm.inp('leaf', 'int', 1)
    o = knn(vm, 'KNNClassifier', n_neighbors=k, leaf_size=leaf, metric='manhattan')
    F = object.__new__(Win)
    buf = rows(vm, 2)

    class W(Win):
        def pv_getattr(self, vm, name):
            if name == 'features_buffer':
                return buf
            return Win.pv_getattr(self, vm, name)
    vm.setattr(o, 'data_window', W(vm, [], []))
    X = rows(vm, 2)
    D, I = object(), object()
    seen = []

    class Tree:
        def pv_getattr(self, vm, name):
            if name == 'query':
                def f(X=None, k=1, **kw):
                    seen.append((X, k))
                    vm.prove('neighbours in order of distance', kw.get('return_distance', True) is True)
                    return (D, I)
                return _fn(f)
            raise Unsupported('KDTree.' + name)

    def mk(vm, data, leaf_size=40, metric='minkowski', **kw):
        vm.prove('a tree of the window with the chosen metric', and_(data is buf, eq(leaf_size, leaf), metric == 'manhattan', kw == {}))
        return Tree()
    vm.hooks.setdefault('ext', {})['sklearn.neighbors.KDTree'] = mk
    r = vm.method(o, '_get_neighbors', X)
    vm.prove('the k nearest neighbours of the rows', len(seen) == 1 and seen[0][0] is X and and_(eq(seen[0][1], k), r[0] is D, r[1] is I))


def u_knn_proba(declared):
    def u(vm):
        k = 1 + vm.choose(3)
        m = k - 1 + vm.choose(3)
        o = knn(vm, 'KNNClassifier', n_neighbors=k)
        labels = [(0, 2, 1, 0, 1)[i] for i in range(m)]
        if vm.choose(2):
            labels = [min(l, 1) for l in labels]
        win = Win(vm, [[0.0, 0.0]] * m, [float(l) for l in labels])
        vm.setattr(o, 'data_window', win)
        if declared:
            vm.setattr(o, 'classes', vm.born([0, 1, 2, 3]))
        n = 2
        X = rows(vm, n)
        idx = []

        def near(vm, self, a, kw):
            vm.prove('neighbours of these rows', a[0] is X)
            for i in range(n):
                at = vm.choose(m)
                idx.append([(at + j) % m for j in range(k)])
            return (None, np.array(idx))
        vm.contract(L + 'base_neighbors.py', 'BaseNeighbors', '_get_neighbors', near)
        p = vm.method(o, 'predict_proba', X)
        vm.prove('one row per sample', len(p) == n)
        vm.prove('the window is not touched', win.log == [])
        if m < k:
            vm.prove('too few samples: zeros', all(float(v) == 0.0 for r in p for v in r) and all(len(r) >= 1 for r in p))
            return
        width = max(labels + ([3] if declared else [])) + 1
        for i in range(n):
            vm.prove('a column per class', len(p[i]) == width)
            for c in range(width):
                vm.prove('fraction of the neighbours with that class', eq(p[i][c] * k, sum(1 for q in idx[i] if labels[q] == c)) if isinstance(p[i][c], Sym) else abs(p[i][c] * k - sum(1 for q in idx[i] if labels[q] == c)) < 1e-9)
    return u


def u_knn_predict(vm):
    o = knn(vm, 'KNNClassifier')
    X = rows(vm, 2)
    P = np.empty((2, 3), dtype=object)
    for i in range(2):
        for j in range(3):
            P[i, j] = vm.fresh('p', 'real', 0, 1)

    def proba(vm, self, a, kw):
        vm.prove('of these rows', a[0] is X)
        return P
    vm.contract(L + CL['KNNClassifier'], 'KNNClassifier', 'predict_proba', proba)
    argmaxes(vm, vm.method(o, 'predict', X), P)


def u_knn_value(agg):
    def u(vm):
        k = 1 + vm.choose(3)
        m = k - 1 + vm.choose(3)
        o = knn(vm, 'KNNRegressor', n_neighbors=k, aggregation_method=agg)
        y = [vm.inp('y%d' % i, 'real') for i in range(m)]
        win = Win(vm, [[0.0, 0.0]] * m, y)
        vm.setattr(o, 'data_window', win)
        n = 1 + vm.choose(2)
        X = rows(vm, n)
        idx = {}
        table = {}
        for i in range(n if m >= k else 0):
            at = vm.choose(m)
            table[i] = [(at + j) % m for j in range(k)]

        def near(vm, self, a, kw):
            out = []
            for r in a[0]:
                i = [j for j in range(n) if r[0] is X[j, 0] and r[1] is X[j, 1]]
                vm.prove('neighbours of the given rows', len(i) == 1)
                idx[i[0]] = table[i[0]]
                out.append(table[i[0]])
            return (None, np.array(out))
        vm.contract(L + 'base_neighbors.py', 'BaseNeighbors', '_get_neighbors', near)
        p = vm.method(o, 'predict', X)
        vm.prove('one prediction per row', len(p) == n)
        vm.prove('the window is not touched', win.log == [])
        for i in range(n):
            if m < k:
                vm.prove('too few samples: zero', eq(p[i], 0))
                continue
            v = [y[q] for q in table[i]]
            if agg == 'mean' or k < 3:
                vm.prove('mean (median) of the targets of its own neighbours', eq(p[i] * k, tot(v)))
            else:
                vm.prove('median of the targets of its own neighbours', and_(or_(*[eq(p[i], q) for q in v]), tot([ite(q <= p[i], 1, 0) for q in v]) >= 2, tot([ite(q >= p[i], 1, 0) for q in v]) >= 2))
    return u


def u_knn_reset(cl):
    def u(vm):
        o = knn(vm, cl)
        win = Win(vm, [[0.0, 0.0]], [1])
        vm.setattr(o, 'data_window', win)
        if cl != 'KNNRegressor':
            vm.setattr(o, 'classes', vm.born([0, 4]))
        old = None
        if cl == 'KNNADWINClassifier':
            old = vm.getattr(o, 'adwin')
            vm.setattr(old, '_width', 77)
        vm.method(o, 'reset')
        dw = vm.getattr(o, 'data_window')
        vm.prove('the window is emptied', win.log == ['reset'] if dw is win else eq(vm.getattr(dw, 'size'), 0))
        if cl != 'KNNRegressor':
            vm.prove('no classes', len(vm.getattr(o, 'classes')) == 0)
        if old is not None:
            vm.prove('a new ADWIN', eq(vm.getattr(vm.getattr(o, 'adwin'), 'width'), 0))
    return u


UNITS = [('NaiveBayes.partial_fit[%d rows]' % n, u_nb_fit(n)) for n in (1, 2, 3)]
UNITS += [('NaiveBayes one row', u_nb_one)]
UNITS += [('naive Bayes votes[%d observed]' % k, u_bayes(k)) for k in (0, 1, 2)]
UNITS += [('NaiveBayes.predict_proba[%s]' % ('declared' if d else 'seen'), u_nb_proba(d, False)) for d in (True, False)]
UNITS += [('NaiveBayes.predict_proba[empty]', u_nb_proba(False, True)), ('NaiveBayes.predict', u_nb_predict), ('NaiveBayes.reset', u_nb_reset)]
UNITS += [('%s.__init__' % c, u_knn_new(c)) for c in CL]
UNITS += [('%s.partial_fit[%d rows]' % (c, n), u_knn_fit(c, n)) for c in ('KNNClassifier', 'KNNRegressor') for n in (1, 2, 3)]
UNITS += [('KNNADWINClassifier.partial_fit[%d rows]' % n, u_adwin_fit(n)) for n in (1, 2)]
UNITS += [('_get_neighbors', u_neighbors)]
UNITS += [('KNNClassifier.predict_proba[%s]' % ('declared' if d else 'seen'), u_knn_proba(d)) for d in (True, False)]
UNITS += [('KNNClassifier.predict', u_knn_predict)]
UNITS += [('KNNRegressor.predict[%s]' % a, u_knn_value(a)) for a in ('mean', 'median')]
UNITS += [('%s.reset' % c, u_knn_reset(c)) for c in CL]


# ------------------------------------------------------------------ run time
def near(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def cases(rnd, hints, tier):
    while True:
        for kind in ('nb', 'knnc', 'knnr', 'nb', 'knna', 'edge'):
            yield dict(kind=kind, seed=rnd.randrange(10 ** 9))


def run_case(case):
    import random, warnings
    warnings.simplefilter('ignore')
    return globals()['r_' + case['kind']](random.Random(case['seed']), case)


def batches(rnd, n):
    out = []
    while n > 0:
        b = min(n, rnd.choice([1, 1, 2, 5, 20]))
        out.append(b)
        n -= b
    return out


def r_nb(rnd, case):
    from skmultiflow.bayes import NaiveBayes
    d, k, n = rnd.randint(1, 4), rnd.randint(2, 4), rnd.choice([3, 10, 40, 120])
    nom = [j for j in range(d) if rnd.random() < 0.4]
    rows_ = []
    for _ in range(n):
        y = rnd.randrange(k)
        rows_.append(([float(rnd.randrange(3) if rnd.random() < 0.7 else y) if j in nom else rnd.gauss(y, 1 + j) for j in range(d)], y))
    if rnd.random() < 0.2:
        rows_ = [([0.5 if j not in nom else x[j] for j in range(d)], y) if rnd.random() < 0.5 else (x, y) for x, y in rows_]
    o = NaiveBayes(nominal_attributes=nom) if nom or rnd.random() < 0.5 else NaiveBayes()
    what = 'NaiveBayes(nominal_attributes=%r)' % (nom,)
    declare = rnd.random() < 0.5
    wm = rnd.choice(['one', 'some'])
    seen, i = [], 0
    for b in batches(rnd, n):
        part = rows_[i:i + b]
        i += b
        X, y = np.array([p[0] for p in part]), np.array([p[1] for p in part])
        W = None if wm == 'one' else np.array([rnd.choice([1.0, 2.0, 0.5, 0.0, 3.25]) for _ in part])
        kx, ky = X.copy(), y.copy()
        cl = list(range(k)) if rnd.random() < 0.5 else np.arange(k)
        r = o.partial_fit(X, y, **(dict(classes=cl) if declare else {}), **({} if W is None else dict(sample_weight=W)))
        if r is not o:
            return what + ': partial_fit does not return the learner'
        if not (np.array_equal(kx, X) and np.array_equal(ky, y)):
            return what + ': partial_fit changed its arguments'
        seen += [(x, c, 1.0 if W is None else float(W[j])) for j, (x, c) in enumerate(part) if W is None or W[j] != 0]
        if rnd.random() < 0.3 or i >= n:
            Q = np.array([rows_[rnd.randrange(n)][0] for _ in range(rnd.choice([1, 3]))] + [[float(rnd.randrange(5)) for _ in range(d)]])
            msg = nb_look(o, seen, Q, nom, k if declare else None, '%s after %d rows' % (what, i))
            if msg:
                return msg
        if rnd.random() < 0.03:
            o.reset()
            seen = []
            declare = False
            what += ' reset after %d rows' % i
            if np.shape(o.predict_proba(X)) != (len(X), 1) or np.any(o.predict_proba(X)):
                return what + ': something is left'
    return None


def nb_look(o, seen, Q, nom, declared, what):
    P, C = o.predict_proba(Q), o.predict(Q)
    kq = Q.copy()
    if not np.array_equal(Q, kq):
        return what + ': prediction changed its argument'
    cls = sorted({c for _, c, _ in seen})
    width = declared or (max(cls) + 1 if cls else 1)
    if not cls:
        width = 1
    if np.shape(P) != (len(Q), width) or np.shape(C) != (len(Q),):
        return '%s: shapes %r %r for %d rows' % (what, np.shape(P), np.shape(C), len(Q))
    for q, p, c in zip(Q, P, C):
        v = {}
        total_ = sum(w for _, _, w in seen)
        for a in cls:
            mine = [(x, w) for x, y, w in seen if y == a]
            wa = sum(w for _, w in mine)
            v[a] = wa / total_
            for j in range(len(q)):
                if j in nom:
                    vals = {x[j] for x, _ in mine}
                    v[a] *= (sum(w for x, w in mine if x[j] == q[j]) + 1.0) / (wa + len(vals))
                else:
                    m = sum(w * x[j] for x, w in mine) / wa
                    var = sum(w * (x[j] - m) ** 2 for x, w in mine) / (wa - 1.0) if wa > 1 else 0.0
                    if 0 < var < 1e-12:
                        return None
                    if var > 0:
                        v[a] *= math.exp(-(q[j] - m) ** 2 / (2 * var)) / math.sqrt(2 * math.pi * var)
                    else:
                        if q[j] != m and near(q[j], m, 1e-12):
                            return None
                        v[a] *= 1.0 if q[j] == m else 0.0
        s = sum(v.values())
        if s and s < 1e-200:
            continue
        for a in range(width):
            want = v.get(a, 0.0) / s if s else 0.0
            if not near(float(p[a]), want, 1e-6):
                return '%s: probabilities of %r are %r, should be %r' % (what, list(q), list(p), {x: y / s if s else 0.0 for x, y in v.items()})
        if p[int(c)] != max(p):
            return '%s: class %r predicted with probabilities %r' % (what, c, list(p))
    again = o.predict_proba(Q)
    if not np.array_equal(again, P):
        return what + ': a second prediction differs'
    return None


METRICS = {'euclidean': lambda a, b: math.sqrt(sum((x - y) ** 2 for x, y in zip(a, b))), 'manhattan': lambda a, b: sum(abs(x - y) for x, y in zip(a, b)), 'chebyshev': lambda a, b: max(abs(x - y) for x, y in zip(a, b))}


def knearest(W, q, k, metric):
    """rows of the k nearest, or None if ties make them ambiguous"""
    D = sorted((METRICS[metric](x, q), i) for i, (x, _) in enumerate(W))
    if len(D) > k and near(D[k - 1][0], D[k][0], 1e-9):
        return None
    return [i for _, i in D[:k]]


def knn_rows(rnd, n, d, f):
    return [([round(rnd.uniform(-2, 2), 3) for _ in range(d)], None) for _ in range(n)]


def r_knnc(rnd, case, adwin=False):
    from skmultiflow.lazy import KNNClassifier
    d, k, nc = rnd.randint(1, 3), rnd.randint(1, 5), rnd.randint(2, 4)
    w = rnd.choice([k, k + 1, 10, 30])
    metric = rnd.choice(sorted(METRICS))
    o = KNNClassifier(n_neighbors=k, max_window_size=w, metric=metric, leaf_size=rnd.choice([1, 3, 30]))
    what = 'KNNClassifier(n_neighbors=%d, max_window_size=%d, metric=%r)' % (k, w, metric)
    win, i, declared = [], 0, set()
    seencl = set()
    for b in batches(rnd, rnd.choice([k, 15, 50])):
        X = np.array([[rnd.uniform(-2, 2) for _ in range(d)] for _ in range(b)])
        y = np.array([rnd.randrange(nc) for _ in range(b)])
        kw = {}
        if rnd.random() < 0.1:
            c = sorted({rnd.randrange(5), nc - 1})
            declared |= set(c)
            kw['classes'] = c
        kx = X.copy()
        if o.partial_fit(X, y, **kw) is not o:
            return what + ': partial_fit does not return the learner'
        if not np.array_equal(kx, X):
            return what + ': partial_fit changed its argument'
        win = (win + list(zip(X.tolist(), y.tolist())))[-w:]
        i += b
        Q = np.array([[rnd.uniform(-2, 2) for _ in range(d)] for _ in range(rnd.choice([1, 2, 4]))])
        P, C = o.predict_proba(Q), o.predict(Q)
        if len(P) != len(Q) or len(C) != len(Q):
            return '%s after %d rows: %d probabilities and %d predictions for %d rows' % (what, i, len(P), len(C), len(Q))
        if len(win) < k:
            if np.any(P) or np.any(C):
                return '%s with %d rows: %r' % (what, len(win), P)
            continue
        if P.shape[1] < max(declared | {c for _, c in win}) + 1:
            return '%s after %d rows: %d columns for the classes %r' % (what, i, P.shape[1], sorted(declared | {c for _, c in win}))
        for q, p, c in zip(Q, P, C):
            nn = knearest(win, q, k, metric)
            if nn is None:
                continue
            want = [sum(1 for j in nn if win[j][1] == a) / k for a in range(P.shape[1])]
            if not all(near(float(x), y_) for x, y_ in zip(p, want)):
                return '%s after %d rows: probabilities of %r are %r, should be %r' % (what, i, list(q), list(p), want)
            if p[int(c)] != max(p):
                return '%s: class %r predicted with probabilities %r' % (what, c, list(p))
        if rnd.random() < 0.05:
            if o.reset() is not o:
                return what + ': reset does not return the learner'
            win, declared = [], set()
            if np.shape(o.predict_proba(Q)) != (len(Q), 1):
                return what + ': something is left after reset'
            d = rnd.randint(1, 3)
    return None


def r_knna(rnd, case):
    from skmultiflow.lazy import KNNADWINClassifier
    from skmultiflow.drift_detection import ADWIN
    k, w = rnd.randint(1, 4), rnd.choice([30, 100, 400])
    o = KNNADWINClassifier(n_neighbors=k, max_window_size=w)
    what = 'KNNADWINClassifier(n_neighbors=%d, max_window_size=%d)' % (k, w)
    win, ad = [], ADWIN()
    n = rnd.choice([100, 250])
    b = rnd.choice([1, 4, 32])
    shift = rnd.randrange(40, n)
    drops = 0
    for t in range(0, n, b):
        X = np.array([[rnd.uniform(-2, 2)] for _ in range(b)])
        y = np.array([int(x[0] > 0) ^ (rnd.random() < (0.0 if t < shift else 0.9)) for x in X])
        for x, c in zip(X.tolist(), y.tolist()):
            win = (win + [(x, c)])[-w:]
            if len(win) >= k:
                nn = knearest(win, x, k, 'euclidean')
                if nn is None:
                    return None
                v = [sum(1 for j in nn if win[j][1] == a) for a in (0, 1)]
                ad.add_element(int((0 if v[0] >= v[1] else 1) == c))
            else:
                ad.add_element(0)
        if len(win) >= k and ad.detected_change() and ad.width < len(win):
            win = win[len(win) - ad.width:]
            drops += 1
        o.partial_fit(X, y)
        if o.data_window.size != len(win) or not np.allclose(np.ravel(o.data_window.features_buffer), np.ravel([x for x, _ in win])) or not np.array_equal(np.ravel(o.data_window.targets_buffer), [c for _, c in win]):
            return '%s after %d rows: the window holds %d rows, should hold %d' % (what, t + b, o.data_window.size, len(win))
    o.reset()
    if o.data_window.size or o.adwin.width or o.classes:
        return what + ': something is left after reset'
    return None


def r_knnr(rnd, case):
    from skmultiflow.lazy import KNNRegressor
    d, k = rnd.randint(1, 3), rnd.randint(1, 5)
    w = rnd.choice([k, k + 1, 10, 30])
    metric, agg = rnd.choice(sorted(METRICS)), rnd.choice(['mean', 'median'])
    o = KNNRegressor(n_neighbors=k, max_window_size=w, metric=metric, aggregation_method=agg, leaf_size=rnd.choice([1, 3, 30]))
    what = 'KNNRegressor(n_neighbors=%d, max_window_size=%d, metric=%r, aggregation_method=%r)' % (k, w, metric, agg)
    win, i = [], 0
    for b in batches(rnd, rnd.choice([k, 15, 50])):
        X = np.array([[rnd.uniform(-2, 2) for _ in range(d)] for _ in range(b)])
        y = np.array([rnd.uniform(-5, 5) for _ in range(b)])
        if o.partial_fit(X, y) is not o:
            return what + ': partial_fit does not return the learner'
        win = (win + list(zip(X.tolist(), y.tolist())))[-w:]
        i += b
        Q = np.array([[rnd.uniform(-2, 2) for _ in range(d)] for _ in range(rnd.choice([1, 2, 4]))])
        P = o.predict(Q)
        if np.shape(P) != (len(Q),):
            return '%s after %d rows: predictions of shape %r for %d rows' % (what, i, np.shape(P), len(Q))
        for q, p in zip(Q, P):
            if len(win) < k:
                want = 0.0
            else:
                nn = knearest(win, q, k, metric)
                if nn is None:
                    continue
                want = float((np.mean if agg == 'mean' else np.median)([win[j][1] for j in nn]))
            if not near(float(p), want):
                return '%s after %d rows: prediction of %r is %r, should be %r' % (what, i, list(q), p, want)
        if rnd.random() < 0.05:
            o.reset()
            win = []
            d = rnd.randint(1, 3)
    return None


def r_edge(rnd, case):
    from skmultiflow.bayes import NaiveBayes
    from skmultiflow.lazy import KNNClassifier, KNNRegressor, KNNADWINClassifier
    X, y = np.array([[1.0, 2.0]] * 3), np.array([0, 1, 0])
    try:
        NaiveBayes().partial_fit(X, y, sample_weight=np.ones(rnd.choice([2, 4])))
        return 'NaiveBayes accepts a wrong number of weights'
    except ValueError:
        pass
    big = list(range(rnd.choice([3, 40])))
    o = NaiveBayes(nominal_attributes=big)
    o.reset()
    if o.nominal_attributes != big:
        return 'NaiveBayes(nominal_attributes=%r).reset() leaves nominal_attributes=%r' % (big, o.nominal_attributes)
    for c, kw in ((KNNClassifier, dict(metric='nonsense')), (KNNADWINClassifier, dict(metric='nonsense')), (KNNRegressor, dict(metric='nonsense')), (KNNRegressor, dict(aggregation_method='mode'))):
        try:
            c(**kw)
            return '%s accepts %r' % (c.__name__, kw)
        except ValueError:
            pass
    return None
