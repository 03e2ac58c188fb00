"""Run-time half of C21: forests of stub trees against a reference written from the definition, and real forests."""
import copy
import hashlib
import numpy as np


class Stub:
    """a tree whose answers depend on everything it learnt; mostly right while x[1] > 0"""
    def __init__(self, kind, **kw):
        self.kind, self.kw = kind, kw
        self.reset()

    def reset(self):
        self.state, self.taught = b'', 0
        return self

    def new_instance(self):
        return Stub(self.kind, **self.kw)

    def learn(self, X, y, c, w):
        X, y, w = np.array(X, dtype=float), [float(v) for v in np.ravel(y)], [float(v) for v in np.ravel(w)]
        if X.ndim != 2 or len(X) != len(y) or len(w) != len(y):
            raise AssertionError('lesson of %r rows, %d labels, %d weights' % (X.shape, len(y), len(w)))
        self.state = hashlib.md5(self.state + repr((X.tolist(), y, w, c)).encode()).digest()
        self.taught += 1
        return self

    def partial_fit(self, X, y, classes=None, sample_weight=None):
        return self.learn(X, y, None if classes is None else sorted(int(v) for v in classes), sample_weight)

    def h(self, x, what):
        return int.from_bytes(hashlib.md5(self.state + repr((what, [float(v) for v in x])).encode()).digest()[:6], 'big') / 2.0 ** 48

    def one(self, x):
        if self.kind == 'r':
            return x[0] + (0.1 if x[1] > 0 else 4.0) * (self.h(x, 'r') - 0.5)
        good = (self.h(x, 'p') < 0.93) == (x[1] > 0)
        return int(x[0]) if good else (int(x[0]) + 1) % 3

    def predict(self, X):
        return np.array([self.one(x) for x in np.array(X, dtype=float)])

    def _get_votes_for_instance(self, x):
        n = int(self.h(x, 'n') * 4)
        if not self.taught or n == 0:
            return {}
        return {c: (0.0 if self.h(x, ('z', c)) < 0.3 else 3 * self.h(x, c)) for c in range(3) if self.h(x, ('in', c)) < 0.6}


class Gen(np.random.RandomState):
    """records the Poisson draws"""
    def __init__(self, seed):
        super().__init__(seed)
        self.log = []

    def poisson(self, lam=1.0, size=None):
        r = super().poisson(lam, size)
        self.log.append((lam, r))
        return r


def detector(q):
    """ADWIN of this delta, or for q > 1 one that signals after one in q histories of (rounded) values"""
    from skmultiflow.drift_detection import ADWIN
    from skmultiflow.drift_detection.base_drift_detector import BaseDriftDetector
    if q is None or q < 1:
        return None if q is None else ADWIN(q)

    class Bell(BaseDriftDetector):
        def __init__(self, q=q):
            super().__init__()
            self.q, self.state = q, b''

        def add_element(self, v):
            self.state = hashlib.md5(self.state + repr(round(float(v), 5) + 0.0).encode()).digest()
            self.in_concept_change = self.state[0] % self.q == 0

        def reset(self):
            super().reset()
            self.state = b''
    return Bell(q)


class Ref:
    def __init__(self, case):
        self.c, self.kind = case, case['kind']
        self.m = [self.member() for _ in range(case['M'])]
        self.drifts = self.warnings = 0

    def adwin(self, which):
        return detector(self.c[which])

    def ev(self):
        from skmultiflow.metrics import ClassificationPerformanceEvaluator
        from skmultiflow.metrics.measure_collection import RegressionMeasurements
        return ClassificationPerformanceEvaluator() if self.kind == 'c' else RegressionMeasurements()

    def member(self):
        return dict(tree=Stub(self.kind), ev=self.ev(), D=self.adwin('D'), W=self.adwin('W'), bg=None, n=0, mean=0.0, S=0.0)

    def learn(self, x, y, w, ks):
        for m, k in zip(self.m, ks):
            p = m['tree'].one(x)
            if self.kind == 'c':
                m['ev'].add_result(y, p, w)
            if k == 0:
                continue
            cl = [0, 1, 2] if self.kind == 'c' else None
            if self.kind == 'r':
                m['ev'].add_result(y, p)
                if m['bg']:
                    m['bg']['ev'].add_result(y, m['bg']['tree'].one(x))
            m['tree'].learn([x], [y], cl, [k * w])
            if m['bg']:
                m['bg']['tree'].learn([x], [y], cl, [k * w])
            if m['D'] is None:
                continue
            if self.kind == 'c':
                z = int(m['tree'].one(x) != y)
            else:
                v = {'mse': (y - p) ** 2, 'mae': abs(y - p), 'predictions': p}[self.c['crit']]
                m['n'] += 1
                if m['n'] == 1:
                    m['mean'], m['S'], z = v, 0.0, 0.0
                else:
                    new = m['mean'] + (v - m['mean']) / m['n']
                    m['S'] += (v - m['mean']) * (v - new)
                    m['mean'] = new
                    sd = (m['S'] / (m['n'] - 1)) ** 0.5
                    z = ((v - new) / sd + 3) / 6 if sd > 0 else 0.5
            if m['W'] is not None:
                m['W'].add_element(z)
                if m['W'].detected_change():
                    self.warnings += 1
                    m['bg'] = self.member()
                    m['W'] = self.adwin('W')
            m['D'].add_element(z)
            if m['D'].detected_change():
                self.drifts += 1
                if m['bg']:
                    b = m['bg']
                    m.update(tree=b['tree'], D=b['D'], W=b['W'], bg=None, ev=b['ev'] if self.kind == 'r' else self.ev())
                else:
                    m.update(tree=Stub(self.kind), D=self.adwin('D'), ev=self.ev())
                m['n'] = 0

    def votes(self, x):
        t = {}
        for m in self.m:
            v = m['tree']._get_votes_for_instance(x)
            s = sum(v.values())
            if s > 0:
                p = 1.0
                if self.c['weighted']:
                    p = m['ev'].accuracy_score() if self.c['metric'] == 'acc' else m['ev'].kappa_score()
                    p = p if p > 0 else 1.0
                for c in v:
                    t[c] = t.get(c, 0.0) + p * v[c] / s
        s = sum(t.values())
        return {c: v / s if s else v for c, v in t.items()}

    def values(self, X):
        P = np.array([m['tree'].predict(X) for m in self.m])
        if self.c['agg'] == 'median':
            return np.median(P, axis=0)
        if self.c['strat'] and len(P) > 1:
            e = np.array([m['ev'].get_mean_square_error() if self.c['strat'] == 'mse' else m['ev'].get_average_error() for m in self.m])
            if e.sum():
                return ((e.sum() - e)[:, None] * P).sum(axis=0) / (e.sum() - e).sum()
        return P.mean(axis=0)


def cases(rnd, hints, tier):
    n = 0
    while True:
        n += 1
        if n == 5:
            yield dict(seeds='c', M=4, seed=rnd.randint(0, 999))
            yield dict(seeds='r', M=4, seed=rnd.randint(0, 999))
        if n % 25 == 0:
            yield dict(real=rnd.choice('cr'), leaf=rnd.randrange(3), seed=rnd.randint(0, 9999), M=rnd.randint(1, 3), d=rnd.randint(1, 5), mf=rnd.choice(['auto', 'sqrt', 'log2', None, 1, 2, -1, 0.5, 1.0]), n=rnd.choice([40, 120, 250]))
            continue
        yield dict(kind=rnd.choice('cr'), M=rnd.randint(1, 4), lam=rnd.choice([0.4, 1, 6]), seed=rnd.randint(0, 99999), D=rnd.choice([None, 0.3, 0.05, 0.001, 17, 17, 7]), W=rnd.choice([None, 0.6, 0.3, 0.01, 5, 13]),
                   metric=rnd.choice(['acc', 'acc', 'kappa']), weighted=rnd.random() < .7, crit=rnd.choice(['mse', 'mae', 'predictions']), agg=rnd.choice(['mean', 'mean', 'median']),
                   strat=rnd.choice([None, 'mse', 'mae']), style=rnd.choice(['few', 'few', 'long']), data=rnd.randint(0, 999999))


def forest(case, gen):
    from skmultiflow.meta import AdaptiveRandomForestClassifier, AdaptiveRandomForestRegressor
    D, W = (detector(case[w]) for w in 'DW')
    kw = dict(n_estimators=case['M'], lambda_value=case['lam'], drift_detection_method=D, warning_detection_method=W, random_state=gen)
    if case['kind'] == 'c':
        return AdaptiveRandomForestClassifier(performance_metric=case['metric'], disable_weighted_vote=not case['weighted'], **kw)
    return AdaptiveRandomForestRegressor(aggregation_method=case['agg'], weighted_vote_strategy=case['strat'], drift_detection_criteria=case['crit'], **kw)


def run_case(case):
    import skmultiflow.meta.adaptive_random_forests as ac
    import skmultiflow.meta.adaptive_random_forest_regressor as ar
    if 'seeds' in case:
        return seeds(case)
    if 'real' in case:
        return real(case)
    keep = ac.ARFHoeffdingTreeClassifier, ar.ARFHoeffdingTreeRegressor
    ac.ARFHoeffdingTreeClassifier = lambda **kw: Stub('c', **kw)
    ar.ARFHoeffdingTreeRegressor = lambda **kw: Stub('r', **kw)
    try:
        return stubs(case)
    except AssertionError as e:
        return 'forest %r: %s' % (case, e)
    finally:
        ac.ARFHoeffdingTreeClassifier, ar.ARFHoeffdingTreeRegressor = keep


def stubs(case):
    import random
    rnd = random.Random(case['data'])
    kind, what = case['kind'], 'forest %r' % (case,)
    gen = Gen(case['seed'])
    o = forest(case, gen)
    ref = Ref(case)
    phase, told = 1, False
    for step in range(6 if case['style'] == 'few' else 130):
        n = rnd.choice([1, 1, 2, 3])
        if rnd.random() < (0.15 if n else 0.05):
            phase = -phase
        y = np.array([rnd.randrange(3) for _ in range(n)]) if kind == 'c' else np.array([rnd.uniform(-1, 1) for _ in range(n)])
        X = np.array([[float(v), float(phase), rnd.choice([0.0, rnd.random()])] for v in y])
        w = None
        if kind == 'c' and rnd.random() < .2:
            w = np.array([rnd.choice([0.0, 0.5, 1.0, 2.0]) for _ in range(n)])
        k = {}
        if kind == 'c':
            k['classes'] = [0, 1, 2]
        if w is not None:
            k['sample_weight'] = w
        kx, ky = X.copy(), y.copy()
        gen.log.clear()
        if o.partial_fit(X, y, **k) is not o:
            return what + ': partial_fit does not return the forest'
        if not (np.array_equal(kx, X) and np.array_equal(ky, y)):
            return what + ': partial_fit changed its arguments'
        live = [i for i in range(n) if w is None or w[i] != 0]
        if len(gen.log) != len(live) * case['M']:
            return '%s: %d draws for %d rows and %d trees' % (what, len(gen.log), len(live), case['M'])
        if any(l != case['lam'] for l, _ in gen.log):
            return what + ': drawn with another rate than lambda'
        for q, i in enumerate(live):
            ref.learn([float(v) for v in X[i]], int(y[i]) if kind == 'c' else float(y[i]), 1.0 if w is None else float(w[i]), [int(v) for _, v in gen.log[q * case['M']:(q + 1) * case['M']]])
        if rnd.random() < (0.2 if case['style'] == 'few' else 0.85):
            continue
        Q = np.array([[float(rnd.randrange(3)), rnd.choice([1.0, -1.0]), rnd.random()] for _ in range(rnd.choice([1, 2, 4]))])
        if kind == 'r':
            got, want = o.predict(Q), ref.values(Q)
            if np.shape(got) != np.shape(want) or not np.allclose(got, want, atol=1e-9):
                return '%s after %d calls (%d warnings, %d drifts): predict of %r is %r, should be %r' % (what, step + 1, ref.warnings, ref.drifts, Q.tolist(), np.array(got).tolist(), want.tolist())
            continue
        V = [ref.votes(x) for x in Q]
        width = 3
        want = np.array([[v.get(c, 0.0) for c in range(width)] for v in V])
        got = o.predict_proba(Q)
        if np.shape(got) != want.shape or not np.allclose(np.array(got, dtype=float), want, atol=1e-9):
            return '%s after %d calls (%d warnings, %d drifts): predict_proba of %r is %r, should be %r' % (what, step + 1, ref.warnings, ref.drifts, Q.tolist(), np.array(got).tolist(), want.tolist())
        p = o.predict(Q)
        if len(p) != len(Q) or any(want[i][int(p[i])] < max(want[i]) - 1e-9 for i in range(len(Q))):
            return '%s: predict %r, votes %r' % (what, p, want.tolist())
        if rnd.random() < 0.03:
            if o.reset() is not o:
                return what + ': reset does not return the forest'
            ref = Ref(case)
    return None


def real(case):
    """forests of real trees: probabilities, rows one by one, a reset forest repeats itself, the features of the leaves"""
    from skmultiflow.meta import AdaptiveRandomForestClassifier, AdaptiveRandomForestRegressor
    c = case['real'] == 'c'
    r = np.random.RandomState(case['seed'])
    d, n = case['d'], case['n']
    X = r.rand(n, d)
    y = (X[:, 0] > 0.5).astype(int) + (X[:, -1] > 0.7).astype(int) if c else X @ r.rand(d)
    what = 'forest %r' % (case,)
    if c:
        o = AdaptiveRandomForestClassifier(n_estimators=case['M'], max_features=case['mf'], leaf_prediction=['mc', 'nb', 'nba'][case['leaf']], random_state=case['seed'])
        fit = lambda m, a, b: m.partial_fit(X[a:b], y[a:b], classes=[0, 1, 2])
    else:
        o = AdaptiveRandomForestRegressor(n_estimators=case['M'], max_features=case['mf'], leaf_prediction=['mean', 'perceptron', 'mean'][case['leaf']], random_state=case['seed'])
        fit = lambda m, a, b: m.partial_fit(X[a:b], y[a:b])
    ans = lambda m: m.predict_proba(X[:9]) if c else m.predict(X[:9])
    two = copy.deepcopy(o)
    fit(o, 0, n)
    for i in range(n):
        fit(two, i, i + 1)
    A = ans(o)
    if not np.allclose(A, ans(two), atol=1e-12):
        return what + ': trained row by row it answers differently'
    if c:
        if A.shape != (9, 3) or (A < 0).any() or any(abs(s - 1) > 1e-9 and s != 0 for s in A.sum(axis=1)):
            return '%s: probabilities %r' % (what, A.tolist())
    if not np.array_equal(A, np.vstack([ans_one(o, x, c) for x in X[:9]]) if c else np.ravel([ans_one(o, x, c) for x in X[:9]])):
        return what + ': a row is answered differently in a batch'
    k = {'auto': round(d ** .5), 'sqrt': round(d ** .5), 'log2': round(np.log2(d)), None: d}.get(case['mf'], case['mf'])
    k = int(k * d) if isinstance(k, float) else k
    k = max(1, min(d, k + d if k < 0 else k))
    for m in o.ensemble:
        for leaf in leaves((m.classifier if c else m.estimator)._tree_root):
            f = [int(v) for v in getattr(leaf, 'feature_indices', [])]
            if hasattr(leaf, 'attribute_observers') and f and (len(f) != k or len(set(f)) != k or sorted(leaf.attribute_observers) != sorted(f)):
                return '%s: a leaf of %d features drew %r and watches %r' % (what, k, f, sorted(leaf.attribute_observers))
    o.reset()
    fit(o, 0, n)
    if not np.array_equal(ans(o), A):
        return what + ': after a reset the same stream gives another forest'
    return None


def ans_one(o, x, c):
    return o.predict_proba(np.array([x])) if c else o.predict(np.array([x]))


def leaves(node):
    if node is None:
        return []
    kids = [k for k in (getattr(node, '_children', None) or {}).values()] if hasattr(node, '_children') else []
    return [q for k in kids for q in leaves(k)] if kids else [node]


def seeds(case):
    """the trees draw their features independently of each other"""
    from skmultiflow.meta import AdaptiveRandomForestClassifier, AdaptiveRandomForestRegressor
    c = case['seeds'] == 'c'
    o = (AdaptiveRandomForestClassifier if c else AdaptiveRandomForestRegressor)(n_estimators=case['M'], max_features=6, random_state=case['seed'])
    X = np.arange(100.0).reshape(4, 25)
    y = np.array([0, 1, 0, 1])
    for _ in range(3):
        o.partial_fit(X, y, **(dict(classes=[0, 1]) if c else {}))
    drawn = [tuple(int(v) for q in leaves((m.classifier if c else m.estimator)._tree_root) for v in q.feature_indices) for m in o.ensemble]
    if len(drawn) == case['M'] and all(len(f) == 6 for f in drawn) and len(set(drawn)) == 1:
        return '%sforest with random_state=%d: every tree drew the features %r of 25' % ('[arf-same-seed] ' if c else '', case['seed'], drawn[0])
    return None
