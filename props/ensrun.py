"""Run-time halves of the online ensembles: deterministic base estimators whose answers depend on everything they were
taught, and references for the ensembles written from their definitions."""
import hashlib
import numpy as np


class Memb:
    """answers are a function of the lessons and of the row; mostly right while x[1] > 0, mostly wrong else (x[0] is the label)"""
    _estimator_type = 'classifier'

    def __init__(self, nc=2, period=0.93, code=False):
        self.nc, self.period, self.code = nc, period, code
        self.reset()

    def reset(self):
        self.state, self.taught, self.width = b'', 0, 1
        return self

    def get_info(self):
        return 'Memb'

    def partial_fit(self, X, y, classes=None, sample_weight=None):
        X, y = np.array(X, dtype=float), [int(v) for v in np.ravel(np.array(y))]
        if X.ndim != 2 or len(X) != len(y):
            raise AssertionError('lesson of %r rows with %r labels' % (X.shape, len(y)))
        w = None if sample_weight is None else [float(v) for v in np.ravel(np.array(sample_weight, dtype=float))]
        if w is not None and len(w) != len(y):
            raise AssertionError('lesson of %d rows with %d weights' % (len(y), len(w)))
        c = None if classes is None else sorted(int(v) for v in classes)
        self.state = hashlib.md5(self.state + repr((X.tolist(), y, w, c)).encode()).digest()
        self.taught += len(y)
        self.width = max([self.width] + [v + 1 for v in y])
        return self

    def h(self, x, what):
        return int.from_bytes(hashlib.md5(self.state + repr((what, [float(v) for v in x])).encode()).digest()[:6], 'big') / 2.0 ** 48

    def one(self, x):
        if self.code:
            return int(self.h(x, 'p') < 0.5)
        good = (self.h(x, 'p') < self.period) == (x[1] > 0)
        return int(x[0]) if good else (int(x[0]) + 1) % self.nc

    def predict(self, X):
        return np.array([self.one(x) for x in np.array(X, dtype=float)])

    def predict_proba(self, X):
        r = []
        for x in np.array(X, dtype=float):
            p = [self.h(x, c) for c in range(2 if self.code else self.width)]
            r.append([0.0 if self.h(x, 'none') < 0.2 else 0.4 * v for v in p])
        return np.array(r)


class Group:
    """members with a detector each; the worst one goes after a detected rise"""
    def __init__(self, base, M, adwin=None):
        import copy
        from skmultiflow.drift_detection import ADWIN
        self.copy, self.adwin = copy.deepcopy, adwin or ADWIN
        base.reset()
        self.base, self.m, self.d, self.changes = base, [], [], 0
        self.grow(M)

    def grow(self, M):
        while len(self.m) < M:
            self.m.append(self.copy(self.base))
            self.d.append(self.adwin())

    def hear(self, i, errs):
        """the detector of member i hears of errs; whether it saw the error rise"""
        before = self.d[i].estimation
        for e in errs:
            self.d[i].add_element(e)
        return self.d[i].detected_change() and self.d[i].estimation > before

    def worst(self):
        self.changes += 1
        est = [d.estimation for d in self.d]
        i = est.index(max(est))
        if est[i] > 0:
            self.m[i].reset()
            self.d[i] = self.adwin()

    def proba(self, X, W, top):
        P = [m.predict_proba(X) for m in self.m]
        k = max(p.shape[1] for p in P)
        if k > top:
            return np.zeros((len(X), 1))
        R = np.zeros((len(X), k))
        for w, p in zip(W, P):
            if w is not None:
                R[:, :p.shape[1]] += w * p
        s = R.sum(axis=1, keepdims=True)
        return np.where(s > 0, R / np.where(s > 0, s, 1), R)


def rows(rnd, n, nc, d, phase=1):
    """rows whose first feature is their label, the second tells whether members get them right"""
    y = np.array([rnd.randrange(nc) for _ in range(n)])
    X = np.array([[float(v), float(phase)] + [round(rnd.uniform(-2, 2), 3) for _ in range(d - 2)] for v in y])
    return X, y


def run(rnd, o, make, learn, weights, what, nc, classes, top, code=False, may_weight=True, refproba=None):
    """o: the ensemble, make(): reference state, learn(ref, X, y, W): one call, weights(ref): vote weights"""
    d = 3
    Q, _ = rows(rnd, 2, nc, d)
    p = o.predict_proba(Q)
    if np.shape(p) != (2, 1) or np.any(p):
        return '%s: before any training predict_proba is %r' % (what, p)
    ref, first, hist = make(), True, []
    style = rnd.choice(['few', 'few', 'big', 'long'])
    phase = 1
    for step in range({'few': 4, 'big': 12, 'long': 150}[style]):
        n = rnd.choice({'few': [1, 1, 3, 20], 'big': [1, 20, 40], 'long': [1, 1, 2]}[style])
        if rnd.random() < (0.02 if style == 'long' else 0.15):
            phase = -phase
        X, y = rows(rnd, n, nc, d, phase)
        W = np.array([rnd.choice([0.5, 1.0, 2.0]) for _ in range(n)]) if may_weight and rnd.random() < 0.3 else None
        k = {} if W is None else dict(sample_weight=W)
        if first:
            try:
                o.partial_fit(X, y, **k)
                return '%s after %s: partial_fit without the classes is accepted' % (what, hist)
            except ValueError:
                pass
            cl = list(classes)
            rnd.shuffle(cl)
            k['classes'] = cl
        elif rnd.random() < 0.2:
            cl = list(classes)
            rnd.shuffle(cl)
            k['classes'] = cl
            if rnd.random() < 0.5:
                try:
                    o.partial_fit(X, y, **dict(k, classes=cl + [max(cl) + 1]))
                    return '%s after %s: other classes are accepted' % (what, hist)
                except ValueError:
                    pass
        first = False
        kx, ky = X.copy(), y.copy()
        try:
            if o.partial_fit(X, y, **k) is not o:
                return '%s: partial_fit does not return the ensemble' % what
        except AssertionError as e:
            return '%s after %s: %s' % (what, hist, e)
        hist.append('%d rows%s' % (n, '' if W is None else ' (weighted)'))
        if not np.array_equal(kx, X) or not np.array_equal(ky, y):
            return '%s: partial_fit changed its arguments' % what
        learn(ref, X, y, W)
        if style == 'long' and rnd.random() < 0.8:
            continue
        Q, _ = rows(rnd, rnd.choice([1, 2, 3]), nc, d)
        want = (refproba or (lambda r, Q: r.proba(Q, weights(r), top)))(ref, Q)
        got = o.predict_proba(Q)
        if np.shape(got) != want.shape or not np.allclose(got, want, atol=1e-9):
            return '%s after %s: predict_proba of %r is %r, should be %r' % (what, hist[-30:], Q.tolist(), np.array(got).tolist(), want.tolist())
        pred = o.predict(Q)
        if len(pred) != len(Q) or any(got[i][int(pred[i])] < max(got[i]) for i in range(len(Q))):
            return '%s after %s: predict %r, predict_proba %r' % (what, hist, pred, got)
        if rnd.random() < (0.004 if style == 'long' else 0.04):
            if o.reset() is not o:
                return '%s: reset does not return the ensemble' % what
            hist.append('reset')
            ref, first = make(), True
    return None
