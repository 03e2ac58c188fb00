"""Run-time half of C18: deterministic base estimators, references written from the definitions of the ensembles."""
import copy
import hashlib
import importlib
import random
import numpy as np
from props.ensrun import Memb


class Sk(Memb):
    """like scikit-learn: fit learns anew, columns and answers are the labels of the lesson"""
    def fit(self, X, y, sample_weight=None):
        self.reset()
        Memb.partial_fit(self, X, y, None, sample_weight)
        self.classes_ = np.unique(np.array(y).astype(int))
        return self

    partial_fit = property()

    def label(self, c):
        k = list(self.classes_)
        return c if c in k else k[c % len(k)]

    def predict(self, X):
        return np.array([self.label(self.one(x)) for x in np.array(X, dtype=float)])

    def predict_proba(self, X):
        r = []
        for x in np.array(X, dtype=float):
            p = np.array([0.05 + self.h(x, int(c)) for c in self.classes_])
            p[list(self.classes_).index(self.label(self.one(x)))] += 1
            r.append(p / p.sum())
        return np.array(r)

    def of(self, x, c):
        k = list(self.classes_)
        return self.predict_proba([x])[0][k.index(c)] if c in k else 0.0


class Plain(Sk):
    def fit(self, X, y):
        return Sk.fit(self, X, y)


class Own(Memb):
    """like skmultiflow: fit goes on learning, a column per label"""
    full = 0

    def fit(self, X, y, classes=None, sample_weight=None):
        return self.partial_fit(X, y, classes, sample_weight)

    def partial_fit(self, X, y, classes=None, sample_weight=None):
        Memb.partial_fit(self, X, np.array(y).astype(int), classes, sample_weight)
        if classes is not None:
            self.full = max([self.full] + [int(c) + 1 for c in classes])
        self.width = max(self.width, self.full)
        return self

    def reset(self):
        self.full = 0
        return Memb.reset(self)

    def predict_proba(self, X):
        r = []
        for x in np.array(X, dtype=float):
            p = np.array([0.05 + self.h(x, c) for c in range(self.width)])
            p[min(self.one(x), self.width - 1)] += 1
            r.append(p / p.sum())
        return np.array(r)

    def predict(self, X):
        return np.array([min(self.one(x), self.width - 1) for x in np.array(X, dtype=float)])

    def of(self, x, c):
        p = self.predict_proba([x])[0]
        return p[c] if c < len(p) else 0.0


class Missing(Own):
    def fit(self, X, y, classes=None, sample_weight=None):
        raise NotImplementedError


def first_best(v):
    """the lowest label of those within rounding of the highest"""
    top = max(v)
    return [c for c, x in enumerate(v) if x >= top - 1e-9 * max(1, abs(top))]


def batches(rnd, nc, o, hist, top, weights=True, classes=None):
    """calls of partial_fit: rows, labels, weights"""
    phase, first = 1, True
    for step in range(top):
        n = rnd.choice([1, 1, 2, 3, 7, 15])
        if rnd.random() < 0.2:
            phase = -phase
        y = np.array([rnd.randrange(nc) for _ in range(n)])
        X = np.array([[float(v), float(phase), round(rnd.uniform(-2, 2), 3)] for v in y])
        W = np.array([rnd.choice([0.5, 1.0, 2.0]) for _ in range(n)]) if weights and rnd.random() < 0.4 else None
        k = {} if W is None else dict(sample_weight=W)
        if classes is not None and (first or rnd.random() < 0.2):
            k['classes'] = np.array(classes) if rnd.random() < 0.5 else list(classes)
        first = False
        kx, ky = X.copy(), y.copy()
        if o.partial_fit(X, y, **k) is not o:
            raise AssertionError('partial_fit does not return the ensemble')
        hist.append('%d rows%s' % (n, '' if W is None else ' (weighted)'))
        if not np.array_equal(kx, X) or not np.array_equal(ky, y):
            raise AssertionError('partial_fit changed its arguments')
        X[:] = 99.0
        yield kx, y, W, 'classes' in k


def query(rnd, nc):
    y = [rnd.randrange(nc) for _ in range(rnd.choice([1, 2, 3]))]
    return np.array([[float(v), rnd.choice([1.0, -1.0]), round(rnd.uniform(-2, 2), 3)] for v in y])


def tie(v):
    s = sorted(v)
    return len(s) > 1 and s[-1] - s[-2] < 1e-9 * max(1.0, abs(s[-1]))


class Tie(Exception):
    """rounding decides: not claimed"""


# ------------------------------------------------------------------ experts
def r_experts(rnd, kind, C):
    nc = rnd.choice([2, 2, 3])
    n = rnd.choice([1, 2, 3, 5])
    base = Memb(nc, rnd.choice([0.55, 0.75, 0.93]))
    if kind == 'dwm':
        kw = dict(period=rnd.choice([1, 1, 2, 5]), beta=rnd.choice([0.5, 0.3, 0.83]), theta=rnd.choice([0.01, 0.2, 0.45]))
    else:
        kw = dict(beta=rnd.choice([0.8, 0.51]), gamma=rnd.choice([0.1, 0.37]), pruning=rnd.choice(['weakest', 'oldest']))
    o = C(base_estimator=base, n_estimators=n, **kw)
    what = '%s(n_estimators=%d, %s), %d classes' % (C.__name__, n, kw, nc)
    hist = []
    S = dict(e=[[copy.deepcopy(base), 1.0]], t=0)
    known = None
    for X, y, W, told in batches(rnd, nc, o, hist, rnd.choice([3, 8, 30]), classes=range(nc)):
        if told:
            known = list(range(nc))
        try:
            for j in range(len(X)):
                step(kind, S, X[j:j + 1], int(y[j]), known, None if W is None else W[j:j + 1], base, n, nc, **kw)
        except Tie:
            return None
        got = [(e.estimator, e.weight) for e in o.experts]
        if kind == 'dwm' or kw['pruning'] == 'oldest':
            ok = len(got) == len(S['e']) and all(a.state == m.state and abs(w - v) < 1e-9 * max(1, abs(v)) for (a, w), (m, v) in zip(got, S['e']))
        else:
            key = lambda p: (p[0].state, p[1])
            ok = len(got) == len(S['e']) and all(a.state == m.state and abs(w - v) < 1e-9 * max(1, abs(v)) for (a, w), (m, v) in zip(sorted(got, key=key), sorted(S['e'], key=key)))
        if not ok:
            return '%s after %s: experts (lessons, weight) %r, should be %r' % (what, hist[-20:], [(a.taught, w) for a, w in got], [(m.taught, w) for m, w in S['e']])
        Q = query(rnd, nc)
        p = np.asarray(o.predict(Q))
        if p.shape != (len(Q),):
            return '%s: predict of %d rows gives %r' % (what, len(Q), p)
        for x, c in zip(Q, p):
            v = [sum(w for m, w in S['e'] if m.one(x) == q) for q in range(nc)]
            if int(c) not in first_best(v):
                return '%s after %s: predict says %r with votes %r' % (what, hist[-20:], c, v)
        if rnd.random() < 0.05:
            if o.reset() is not o:
                return '%s: reset does not return the ensemble' % what
            S = dict(e=[[copy.deepcopy(base), 1.0]], t=0)
            known = None
            hist.append('reset')
            X0, y0 = np.array([[0.0, 1.0, 0.0]]), np.array([0])
            o.partial_fit(X0, y0, classes=list(range(nc)))
            known = list(range(nc))
            try:
                step(kind, S, X0, 0, known, None, base, n, nc, **kw)
            except Tie:
                return None
    if base.taught:
        return '%s: the base estimator was trained' % what
    return None


def step(kind, S, x, y, classes, w, base, n, nc, beta, period=None, theta=None, gamma=None, pruning=None):
    S['t'] += 1
    E = S['e']
    said = [int(m.predict(x)[0]) for m, _ in E]
    due = kind == 'add' or S['t'] % period == 0
    low = [v * beta if due and a != y else v for (_, v), a in zip(E, said)]
    use = low if kind == 'dwm' else [v for _, v in E]
    votes = [sum(v for v, a in zip(use, said) if a == c) for c in range(nc)]
    if due and tie(votes):
        raise Tie()
    wrong = first_best(votes)[0] != y
    if kind == 'dwm':
        if due:
            top = max(low)
            new = [[m, v / top] for (m, _), v in zip(E, low)]
            if any(abs(v - theta) < 1e-9 for _, v in new):
                raise Tie()
            kept = [p for p in new if p[1] >= theta]
            if wrong:
                if len(kept) == n:
                    weak = sorted(v for _, v in kept)
                    if len(weak) > 1 and weak[1] - weak[0] < 1e-9:
                        raise Tie()
                    kept = [p for p in kept if p[1] != weak[0]]
                kept.append([copy.deepcopy(base), 1.0])
            S['e'] = kept
    else:
        new = [[m, v] for (m, _), v in zip(E, low)]
        if wrong:
            t = sum(v for _, v in new)
            if len(new) >= n:
                if pruning == 'oldest':
                    new = new[1:]
                else:
                    weak = sorted(v for _, v in new)
                    if len(weak) > 1 and weak[1] - weak[0] < 1e-12 * max(1, weak[0]):
                        raise Tie()
                    new = [p for p in new if p[1] != weak[0]]
            new.append([copy.deepcopy(base), t * gamma])
        if S['t'] % 1000:
            t = sum(v for _, v in new)
            new = [[m, v / t] for m, v in new]
        S['e'] = new
    for m, _ in S['e']:
        m.partial_fit(x, [y], classes, w)


# ------------------------------------------------------------------ chunks
def chunks(buf, window):
    """(chunk, rest)"""
    while len(buf[0]) >= window:
        yield [b[:window] for b in buf]
        buf = [b[window:] for b in buf]


def r_awe(rnd, C, style=None):
    from sklearn.model_selection import KFold
    nc = rnd.choice([2, 2, 3])
    style = style or rnd.choice(['sk', 'sk', 'own', 'missing'])
    base = dict(sk=Sk, own=Own, missing=Missing)[style](nc, rnd.choice([0.7, 0.93]))
    k = dict(n_estimators=rnd.choice([1, 2, 4]), n_kept_estimators=rnd.choice([1, 2, 4]), window_size=rnd.choice([4, 6]), n_splits=rnd.choice([2, 3]))
    o = C(base_estimator=base, **k)
    shift = rnd.choice([0, 0, 1])
    what = '%s(%s, %s estimators), labels %s' % (C.__name__, k, style, list(range(shift, nc + shift)))
    m = k['window_size']
    buf, P, hist = [[], [], []], [], []
    if list(o.predict(query(rnd, nc))) != [0] * len(o.predict(query(rnd, nc))) and 0:
        return what
    for X, y, W, _ in batches(rnd, nc, Shifted(o, shift), hist, rnd.choice([4, 10])):
        y = y + shift
        X = X.copy()
        buf = [list(b) + list(v) for b, v in zip(buf, (X, y, np.ones(len(y)) if W is None else W))]
        while len(buf[0]) >= m:
            cx, cy, cw = [np.array(b[:m]) for b in buf]
            buf = [b[m:] for b in buf]
            cl = sorted(set(int(v) for v in cy))
            new = copy.deepcopy(base)
            if style == 'sk':
                new.fit(cx, cy, sample_weight=cw)
            elif style == 'own':
                new.fit(cx, cy, sample_weight=cw)
            else:
                new.partial_fit(cx, cy, cl, cw)
            share = [list(cy).count(c) / m for c in cl]
            r = sum(p * (1 - p) ** 2 for p in share)
            mse = lambda e, X, y, seen: np.mean([(1 - e.of(x, int(c))) ** 2 if c in seen else 1.0 for x, c in zip(X, y)])
            for p in P:
                p[1] = max(0.0, r - mse(p[0], cx, cy, p[2]))
            # own estimators are judged by one copy that goes on learning, fold after fold (known finding)
            err, cv = 0.0, copy.deepcopy(base)
            for a, b in KFold(n_splits=k['n_splits'], shuffle=True, random_state=0).split(cx):
                if style == 'missing':
                    cv.partial_fit(cx[a], cy[a], cl)
                else:
                    cv.fit(cx[a], cy[a])
                err += mse(cv, cx[b], cy[b], cl) / k['n_splits']
            w = max(0.0, r - err)
            if len(P) < k['n_kept_estimators']:
                P.append([new, w, cl])
            else:
                weak = sorted(p[1] for p in P)
                if len(weak) > 1 and weak[1] - weak[0] < 1e-12 and weak[0] < w + 1e-12:
                    return None
                if abs(weak[0] - w) < 1e-12 and w > 0:
                    return None
                if w > weak[0]:
                    P = [p for p in P if p[1] != weak[0]] + [[new, w, cl]]
        got = sorted([(e.estimator.state, e.weight, e.estimator.taught) for e in o.models_pool])
        want = sorted([(p[0].state, p[1], p[0].taught) for p in P])
        if len(got) != len(want) or any(a[0] != b[0] or abs(a[1] - b[1]) > 1e-9 for a, b in zip(got, want)):
            return '%s after %s: models (lessons, weight) %r, should be %r' % (what, hist, [a[1:][::-1] for a in got], [a[1:][::-1] for a in want])
        Q = query(rnd, nc)
        p = o.predict(Q)
        if not P:
            if list(p) != [0] * len(Q):
                return '%s: before the first chunk predict is %r' % (what, p)
            continue
        ws = sorted([q[1] for q in P], reverse=True)
        n = k['n_estimators']
        if len(ws) > n and ws[n - 1] - ws[n] < 1e-12:
            continue
        best = [q for q in P if q[1] >= ws[min(n, len(ws)) - 1]]
        for x, c in zip(Q, p):
            v = {}
            for e, w, _ in best:
                a = int(e.predict([x])[0])
                v[a] = v.get(a, 0.0) + w
            if v.get(int(c), -1) < max(v.values()) - 1e-9:
                return '%s after %s: predict says %r with votes %r' % (what, hist, c, v)
        if rnd.random() < 0.1:
            if o.reset() is not o:
                return '%s: reset does not return the ensemble' % what
            buf, P = [[], [], []], []
            hist.append('reset')
    return None


class Shifted:
    """labels moved up before the ensemble learns them"""
    def __init__(self, o, by):
        self.o, self.by = o, by

    def partial_fit(self, X, y, **k):
        X0 = X.copy()
        r = self.o.partial_fit(X0, y + self.by, **k)
        if not np.array_equal(X0, X):
            raise AssertionError('partial_fit changed its arguments')
        X0[:] = 77.0
        return self if r is self.o else r


def r_inc(rnd, C):
    plain = rnd.random() < 0.3
    base = (Plain if plain else Sk)(2, rnd.choice([0.6, 0.9]))
    m, n = rnd.choice([1, 3, 6]), rnd.choice([1, 2, 5])
    o = C(base_estimator=base, window_size=m, n_estimators=n)
    what = 'BatchIncrementalClassifier(window_size=%d, n_estimators=%d)' % (m, n)
    buf, P, hist = [[], [], []], [], []
    for X, y, W, _ in batches(rnd, 2, o, hist, rnd.choice([4, 12])):
        buf = [list(b) + list(v) for b, v in zip(buf, (X, y, np.ones(len(y)) if W is None else W))]
        while len(buf[0]) >= m:
            cx, cy, cw = [np.array(b[:m]) for b in buf]
            buf = [b[m:] for b in buf]
            new = copy.deepcopy(base)
            new.fit(cx, cy, **({} if plain else dict(sample_weight=cw)))
            P = (P + [new])[-n:]
        if [e.state for e in o.ensemble] != [e.state for e in P]:
            return '%s after %s: %d models, taught %r rows; should be %r, of the last full chunks' % (what, hist, len(o.ensemble), [e.taught for e in o.ensemble], [e.taught for e in P])
        Q = query(rnd, 2)
        share = [sum(int(e.predict([x])[0]) for e in P) / len(P) if P else 0.0 for x in Q]
        if not np.allclose(o.predict_proba(Q), share):
            return '%s after %s: predict_proba %r, should be %r' % (what, hist, o.predict_proba(Q), share)
        for s, c in zip(share, o.predict(Q)):
            if abs(s - 0.5) > 1e-9 and int(c) != int(s > 0.5) or s == 0.5 and len(P) in (2, 4) and int(c) != 1:
                return '%s after %s: predict says %r, a share of %r' % (what, hist, c, s)
        if rnd.random() < 0.1:
            if o.reset() is not o:
                return '%s: reset does not return the ensemble' % what
            buf, P = [[], [], []], []
            hist.append('reset')
    if base.taught:
        return '%s: the base estimator was trained' % what
    return None


def r_nse(rnd, C):
    nc = rnd.choice([2, 2, 3])
    style = rnd.choice(['sk', 'own'])
    base = dict(sk=Sk, own=Own)[style](nc, rnd.choice([0.7, 0.93]))
    k = dict(window_size=rnd.choice([3, 5, 8]), slope=rnd.choice([0.5, 2.0]), crossing_point=rnd.choice([1, 10]), n_estimators=rnd.choice([1, 2, 4]), pruning=rnd.choice([None, 'age', 'error']))
    o = C(base_estimator=base, **k)
    what = 'LearnPPNSEClassifier(%s, %s estimators), %d classes' % (k, style, nc)
    m = k['window_size']
    hist = []
    if np.any(o.predict_proba(query(rnd, nc))):
        return '%s: votes before any training' % what
    P, buf = [], [[], []]       # member, errors, sigmoids, weight

    def votes(x):
        v = np.zeros(nc)
        for e, b, s, w in P:
            if w > 0:
                v += w * np.array([e.of(x, c) for c in range(nc)])
        return v
    for X, y, _, _ in batches(rnd, nc, o, hist, rnd.choice([4, 12]), weights=False, classes=range(nc)):
        buf = [list(b) + list(v) for b, v in zip(buf, (X, y))]
        while len(buf[0]) >= m:
            cx, cy = [np.array(b[:m]) for b in buf]
            buf = [b[m:] for b in buf]
            D = np.ones(m) / m
            if P:
                V = [votes(x) for x in cx]
                if any(tie(v) and np.any(v) for v in V):
                    return None
                right = np.array([int(np.argmax(v)) == c for v, c in zip(V, cy)])
                D[right] = np.mean(~right) / m
                if D.sum() > 0:
                    D = D / D.sum()
            new = copy.deepcopy(base)
            if style == 'sk':
                new.fit(cx, cy)
            else:
                new.fit(cx, cy, classes=list(range(nc)))
            P.append([new, [], [], 0.0])
            t, errs = len(P), []
            for j, q in enumerate(P):
                e = float(D[q[0].predict(cx) != cy].sum())
                if abs(e - 0.5) < 1e-9 or abs(e - 1) < 1e-9:
                    return None             # rounding, or a member wrong on its whole window
                if j < t - 1:
                    e = min(e, 0.5)
                errs.append(e)
                q[1].append(e / (1 - e))
                s = 1 / (1 + np.exp(-k['slope'] * (t - (j + 1) - k['crossing_point'])))
                q[2].append(s / (sum(q[2]) + s))
                q[3] = np.log(1 / (sum(a * b for a, b in zip(q[1], q[2])) + 1e-50))
            if k['pruning'] and t > k['n_estimators']:
                if k['pruning'] == 'age':
                    P.pop(0)
                else:
                    if tie(errs):
                        return None
                    P.pop(int(np.argmax(errs)))
        if [e.state for e in o.ensemble] != [q[0].state for q in P] or not np.allclose(o.ensemble_weights, [q[3] for q in P]):
            return '%s after %s: members (lessons, weight) %r, should be %r' % (what, hist, list(zip([e.taught for e in o.ensemble], o.ensemble_weights)), [(q[0].taught, q[3]) for q in P])
        if not P:
            continue
        Q = query(rnd, nc)
        want, got = np.array([votes(x) for x in Q]), o.predict_proba(Q)
        if np.shape(got) != want.shape or not np.allclose(got, want):
            return '%s after %s: predict_proba %r, should be %r' % (what, hist, got.tolist(), want.tolist())
        for v, c in zip(want, o.predict(Q)):
            if int(c) not in first_best(v):
                return '%s after %s: predict says %r with votes %r' % (what, hist, c, v)
        if rnd.random() < 0.08:
            if o.reset() is not o:
                return '%s: reset does not return the ensemble' % what
            if o.classes is not None:
                return '%s: reset keeps the classes' % what
            P, buf = [], [[], []]
            hist.append('reset')
            o.partial_fit(np.zeros((1, 3)), np.array([0]), classes=list(range(nc)))
            buf = [[np.zeros(3)], [0]]
            if m == 1:
                return None
    if base.taught:
        return '%s: the base estimator was trained' % what
    return None


class FitOnly(Memb):
    def fit(self, X, y):
        self.reset()
        return Memb.partial_fit(self, X, y)

    partial_fit = property()


def r_lpp(rnd, C):
    from props.c18 import learn_pp
    nc = rnd.choice([1, 2, 3])
    base = FitOnly(nc, rnd.choice([0.75, 0.9]))
    seed = rnd.randrange(1000)
    k = dict(n_estimators=rnd.choice([1, 2, 4]), n_ensembles=rnd.choice([1, 2]), window_size=rnd.choice([4, 10]), error_threshold=rnd.choice([0.5, 0.47, 0.69]), random_state=seed)
    o = C(base_estimator=base, **k)
    what = 'LearnPPClassifier(%s), %d classes' % (k, nc)
    rs = np.random.RandomState(seed)
    m = k['window_size']
    P, buf, hist = [], [[], []], []
    if np.any(o.predict_proba(query(rnd, nc))):
        return '%s: votes before any training' % what
    log = lambda v: float(np.log(v))
    right = 0
    # rows stay learnable: more than half of the answers are right
    steps = rnd.choice([3, 8])
    for X, y, _, _ in batches(rnd, nc, Calm(o), hist, steps, weights=False, classes=range(nc)):
        X = X.copy()
        X[:, 1] = 1.0
        buf = [list(b) + list(v) for b, v in zip(buf, (X, y))]
        while len(buf[0]) >= m:
            cx, cy = [np.array(b[:m]) for b in buf]
            buf = [b[m:] for b in buf]
            ens, tries = [], [0]

            def pick(D):
                tries[0] += 1
                if tries[0] > 5000:
                    raise Tie()
                s = sum(D)
                return [list(map(int, rs.choice(np.linspace(0, m - 1, m), m // 2, p=np.array(D) / s))) for _ in range(2)]

            def fit(t, rows):
                if t == len(ens):
                    ens.append(copy.deepcopy(base))
                ens[t].fit(cx[rows], cy[rows])
            def unsure(a, b):
                if abs(a - b) < 1e-9 * max(1, abs(a)) and a != 0.0:
                    raise Tie()
            err = learn_pp(m, [int(v) for v in cy], nc, k['n_estimators'], k['error_threshold'], log, pick, fit, lambda t, rows: [ens[t].one(cx[i]) for i in rows], unsure)
            P = (P + [(ens, err)])[-k['n_ensembles']:]
        got = [[(e.taught, round(float(w), 9)) for e, w in zip(a, b)] for a, b in zip(o.ensembles, o.ensemble_weights)]
        want = [[(e.taught, round(float(w), 9)) for e, w in zip(a, b)] for a, b in P]
        if got != want or [[e.state for e in a] for a in o.ensembles] != [[e.state for e in a] for a, _ in P]:
            return '%s after %s: hypotheses (lessons, normalised error) %r, should be %r' % (what, hist, got, want)
        Q = query(rnd, nc)
        V = np.zeros((len(Q), nc))
        for a, b in P:
            for e, w in zip(a, b):
                for i, x in enumerate(Q):
                    V[i, e.one(x)] += np.log(1 / (w + 1e-50))
        got = o.predict_proba(Q)
        if np.shape(got) != V.shape or not np.allclose(got, V):
            return '%s after %s: predict_proba %r, should be %r' % (what, hist, np.array(got).tolist(), V.tolist())
        for v, c in zip(V, o.predict(Q)):
            if int(c) not in first_best(v):
                return '%s after %s: predict says %r with votes %r' % (what, hist, c, v)
    if base.taught:
        return '%s: the base estimator was trained' % what
    return None


class Calm(Shifted):
    """rows most members get right"""
    def __init__(self, o):
        Shifted.__init__(self, o, 0)

    def partial_fit(self, X, y, **k):
        X1 = X.copy()
        X1[:, 1] = 1.0
        r = self.o.partial_fit(X1, y, **k)
        X1[:] = 77.0
        return self if r is self.o else r


def r_known_cv():
    """the new model of AccuracyWeightedEnsemble is to be judged by models that never saw the fold they are tested on"""
    from skmultiflow.meta import AccuracyWeightedEnsembleClassifier
    seen = []

    class Spy(Own):
        def __init__(self):
            self.rows = []
            Own.__init__(self, 2)

        def partial_fit(self, X, y, classes=None, sample_weight=None):
            self.rows = self.rows + [tuple(x) for x in X]
            return Own.partial_fit(self, X, y, classes, sample_weight)

        def predict_proba(self, X):
            seen.append((len(X), sum(tuple(x) in self.rows for x in X)))
            return Own.predict_proba(self, X)
    o = AccuracyWeightedEnsembleClassifier(base_estimator=Spy(), window_size=6, n_splits=3)
    o.partial_fit(np.array([[float(i), 1.0, i / 7] for i in range(6)]), np.array([0, 1] * 3))
    bad = [s for s in seen if s[1]]
    if bad:
        return '[awe-cv] the cross-validated model of AccuracyWeightedEnsembleClassifier was tested on rows it had learned: (rows, learned before) %r' % seen
    return None


def run(case):
    kind = case['kind']
    if kind == 'awe-cv':
        return r_known_cv()
    from props.c18 import CLS
    rnd = random.Random(case['seed'])
    C = getattr(importlib.import_module('skmultiflow.' + CLS[kind][0][:-3].replace('/', '.')), CLS[kind][1])
    try:
        if kind in ('dwm', 'add'):
            return r_experts(rnd, kind, C)
        return dict(awe=r_awe, inc=r_inc, nse=r_nse, lpp=r_lpp)[kind](rnd, C)
    except Tie:
        return None
    except RuntimeError as e:
        if 'too weak' in str(e):        # a thousand failed attempts in a row: as documented
            return None
        raise
    except AssertionError as e:
        return '%s: %s' % (C.__name__, e)
