"""Run-time half of C22: ensembles of stub learners against a reference written from the definition, and real ones."""
import copy
import hashlib
import itertools
import math
import random
import numpy as np
from props.c21run import Gen, detector


def stub():
    from skmultiflow.core import BaseSKMObject, ClassifierMixin

    class Stub(BaseSKMObject, ClassifierMixin):
        """answers depend on everything learnt; mostly right while some x > 5"""
        def __init__(self, nominal_attributes=None, wide=3):
            super().__init__()
            self.nominal_attributes, self.wide = nominal_attributes, wide
            self.reset()

        def reset(self):
            self.state = b''
            return self

        def partial_fit(self, X, y, classes=None, sample_weight=None):
            X, y, w = np.array(X, dtype=float), [int(v) for v in np.ravel(y)], [float(v) for v in np.ravel(sample_weight)]
            if X.ndim != 2 or len(X) != len(y) or len(w) != len(y):
                raise AssertionError('lesson of %r rows, %d labels, %d weights' % (X.shape, len(y), len(w)))
            n = self.nominal_attributes
            self.state = hashlib.md5(self.state + repr((X.tolist(), y, w, sorted(int(c) for c in classes), None if not n else [int(v) for v in n])).encode()).digest()
            return self

        def h(self, x, what):
            return int.from_bytes(hashlib.md5(self.state + repr((what, [float(v) for v in x])).encode()).digest()[:6], 'big') / 2.0 ** 48

        def proba(self, x):
            n = 1 + int(self.h(x, 'n') * self.wide)
            if self.h(x, 'none') < .1:
                return np.zeros(n)
            p = np.array([self.h(x, c) for c in range(n)])
            return p / p.sum()

        def one(self, x):
            true = int(min(x) * 10) % 10
            good = (self.h(x, 'p') < 0.95) == (max(x) > 5)
            return true if good else (true + 1) % 3

        def predict(self, X):
            return np.array([self.one(x) for x in np.array(X, dtype=float)])

        def predict_proba(self, X):
            return np.array([self.proba(x) for x in np.array(X, dtype=float)])
    return Stub


class Draws(Gen):
    """records the feature draws too"""
    def __init__(self, seed):
        super().__init__(seed)
        self.picked = []

    def choice(self, a, size=None, replace=True, p=None):
        r = super().choice(a, size, replace, p)
        self.picked.append((list(a) if not isinstance(a, (int, np.integer)) else list(range(a)), size, replace, [int(v) for v in np.ravel(r)]))
        return r


def size(mode, k, n):
    if mode == 'sqrtM1':
        k = int(np.round(math.sqrt(n)) + 1)
    elif mode == 'MsqrtM1':
        k = n - int(np.round(math.sqrt(n)) + 1)
    elif mode == 'percentage':
        q = (100.0 + k) / 100.0 if k < 0 else k / 100.0
        k = int(np.round(n * q))
        k = k + 1 if k < 2 else k
    if k < 0:
        k += n
    if k == 0 or k >= n:
        return n
    return 2 if k == 1 and n > 2 else k


def cases(rnd, hints, tier):
    n = 0
    while True:
        n += 1
        if n == 4:
            yield dict(first=1, n=6, k=3, M=4, seed=rnd.randint(0, 999))
        if n % 20 == 0:
            yield dict(real=rnd.choice(['nb', 'ht', 'ht']), seed=rnd.randint(0, 9999), M=rnd.randint(1, 4), d=rnd.randint(1, 6), method=rnd.choice(['randomsubspaces', 'randompatches', 'resampling']),
                       size=rnd.choice([20, 60, 90, 100]), n=rnd.choice([40, 120, 250]))
            continue
        mode = rnd.choice(['m', 'sqrtM1', 'MsqrtM1', 'percentage', 'percentage'])
        d = rnd.choice([1, 2, 3, 4, 5, 7, 12, 23])
        k = rnd.choice([0, 1, 2, 3, 6, -1]) if mode == 'm' else rnd.choice([60, 10, 30, 90, 100, -30])
        if d == 12 and 3 < size(mode, k, d) < 9:
            d = 5
        yield dict(M=rnd.choice([1, 2, 3, 4, 7]), d=d, mode=mode, size=k, method=rnd.choice(['randomsubspaces', 'randompatches', 'randompatches', 'resampling']), lam=rnd.choice([0.4, 1.0, 6.0]), seed=rnd.randint(0, 99999),
                   D=rnd.choice([0.3, 0.05, 0.001, 17, 17, 7]), W=rnd.choice([0.6, 0.3, 0.01, 5, 13]), drift=rnd.random() < .85, bg=rnd.random() < .7, weighted=rnd.random() < .7, nominal=rnd.random() < .4,
                   wide=rnd.choice([1, 3, 3]), style=rnd.choice(['few', 'few', 'long']), data=rnd.randint(0, 999999))


def run_case(case):
    if 'first' in case:
        return first(case)
    if 'real' in case:
        return real(case)
    return stubs(case)


def first(case):
    """the subspaces are drawn at random"""
    from skmultiflow.meta import StreamingRandomPatchesClassifier
    n, k, M = case['n'], case['k'], case['M']
    lex = sorted(itertools.combinations(range(n), k))[:M]
    for s in range(case['seed'], case['seed'] + 25):
        o = StreamingRandomPatchesClassifier(base_estimator=stub()(), n_estimators=M, subspace_mode='m', subspace_size=k, random_state=s)
        o.predict(np.zeros((1, n)))
        if sorted(tuple(sorted(int(v) for v in m.feature_indexes)) for m in o.ensemble) != lex:
            return None
    return '[srp-lexicographic] 25 ensembles of %d learners on %d of %d features, random_state=%d..: all use the subspaces %r and no others' % (M, k, n, case['seed'], lex)


def remap(f, nom):
    return [i for i, j in enumerate(f) if j in nom] or None if f is not None else nom or None


def stubs(case):
    from skmultiflow.meta import StreamingRandomPatchesClassifier
    from skmultiflow.metrics import ClassificationPerformanceEvaluator
    Stub = stub()
    rnd = random.Random(case['data'])
    what = 'ensemble %r' % (case,)
    gen, d, M = Draws(case['seed']), case['d'], case['M']
    nom = [i for i in range(d) if i % 2 == 0] if case['nominal'] else []
    base, DD, WW = Stub(wide=case['wide']), detector(case['D']), detector(case['W'])
    o = StreamingRandomPatchesClassifier(base_estimator=base, n_estimators=M, subspace_mode=case['mode'], subspace_size=case['size'], training_method=case['method'], lam=case['lam'], drift_detection_method=DD,
                                         warning_detection_method=WW, disable_weighted_vote=not case['weighted'], disable_drift_detection=not case['drift'], disable_background_learner=not case['bg'],
                                         nominal_attributes=list(nom) or None, random_state=gen)
    z = o.predict(np.zeros((2, d)))
    if len(z) != 2 or any(z):
        return what + ': %r before training' % (z,)
    want = d if case['method'] == 'resampling' else size(case['mode'], case['size'], d)
    fs = [None if m.feature_indexes is None else [int(v) for v in m.feature_indexes] for m in o.ensemble]
    if len(fs) != M:
        return '%s: %d learners' % (what, len(fs))
    if any((want != d) if f is None else (len(f) != want or len(set(f)) != want or min(f) < 0 or max(f) >= d) for f in fs):
        return '%s: features %r, should be %d of %d each' % (what, fs, want, d)
    if want != d and d <= 20 and len({tuple(sorted(f)) for f in fs}) != min(M, math.comb(d, want)):
        return '%s: repeated subspaces %r' % (what, fs)
    draw = case['method'] != 'randomsubspaces' or want == d
    ms = [dict(t=Stub(wide=case['wide']), nom=remap(f, nom), f=f, ev=ClassificationPerformanceEvaluator(), D=detector(case['D']), W=detector(case['W']), bg=None) for f in fs]
    tot = [0, 0]

    def see(m, x):
        return [float(v) for v in x] if m['f'] is None else [float(x[i]) for i in m['f']]

    def teach(m, x, y, w):
        m['t'].nominal_attributes = m['nom']
        m['t'].partial_fit([see(m, x)], [y], [0, 1, 2], [w])

    def redraw(m, q):
        """the features of the next draw"""
        if m['f'] is None:
            return None
        if not q:
            raise LookupError('no draw of features')
        pop, k, rep, r = q.pop(0)
        if pop != list(range(d)) or k != len(m['f']) or rep:
            raise LookupError('features drawn by choice(%r, %r, replace=%r)' % (pop, k, rep))
        return r

    phase = 1
    for step in range(6 if case['style'] == 'few' else 120):
        n = rnd.choice([1, 1, 2, 3])
        if rnd.random() < .15:
            phase = -phase
        y = np.array([rnd.randrange(3) for _ in range(n)])
        X = np.array([[v / 10 + .01 * rnd.random() + (9 if phase > 0 and q % 2 else 0) for q in range(d)] for v in y])
        w = np.array([rnd.choice([0.5, 1.0, 2.0]) for _ in range(n)]) if rnd.random() < .3 else None
        kx, ky = X.copy(), y.copy()
        gen.log.clear()
        gen.picked.clear()
        if o.partial_fit(X, y, classes=[0, 1, 2], **({} if w is None else dict(sample_weight=w))) is not o:
            return what + ': partial_fit does not return the ensemble'
        if not (np.array_equal(kx, X) and np.array_equal(ky, y)):
            return what + ': partial_fit changed its arguments'
        if len(gen.log) != (n * M if draw else 0) or any(l != case['lam'] for l, _ in gen.log):
            return '%s: %d Poisson draws for %d rows and %d learners, rates %r' % (what, len(gen.log), n, M, sorted({float(l) for l, _ in gen.log}))
        ks = [int(v) for _, v in gen.log] if draw else [1] * (n * M)
        q = list(gen.picked)
        try:
            for i in range(n):
                for j, m in enumerate(ms):
                    x, yy, ww, k = X[i], int(y[i]), 1.0 if w is None else float(w[i]), ks[i * M + j]
                    m['ev'].add_result(yy, int(np.argmax(m['t'].proba(see(m, x)))), ww)
                    if k == 0:
                        continue
                    teach(m, x, yy, k * ww)
                    err = int(m['t'].one(see(m, x)) != yy)
                    if m['bg']:
                        teach(m['bg'], x, yy, k * ww)
                    if not case['drift']:
                        continue
                    if case['bg']:
                        m['W'].add_element(err)
                        if m['W'].detected_change():
                            tot[0] += 1
                            f = redraw(m, q)
                            m['bg'] = dict(t=Stub(wide=case['wide']), nom=remap(f, nom), f=f, D=detector(case['D']), W=detector(case['W']))
                            m['W'] = detector(case['W'])
                    m['D'].add_element(err)
                    if m['D'].detected_change():
                        tot[1] += 1
                        m['ev'] = ClassificationPerformanceEvaluator()
                        if m['bg']:
                            m.update(m['bg'], bg=None)
                        else:
                            f = redraw(m, q)
                            m.update(t=Stub(wide=case['wide']), f=f, nom=remap(f, nom), D=detector(case['D']))
        except LookupError as ex:
            return '%s at call %d: %s' % (what, step + 1, ex)
        if q:
            return '%s at call %d: features drawn without a warning or drift' % (what, step + 1)
        if rnd.random() < (0.2 if case['style'] == 'few' else 0.85):
            continue
        Q = np.array([[rnd.random() for _ in range(d)] for _ in range(rnd.choice([1, 2, 4]))])
        V = []
        for x in Q:
            v = [0.0] * 3
            for m in ms:
                p = m['t'].proba(see(m, x))
                a = m['ev'].accuracy_score()
                for c, u in enumerate(p / p.sum() if p.sum() > 0 else p):
                    v[c] += u * (a if case['weighted'] and a > 0 else 1.0)
            V.append([u / sum(v) if sum(v) > 0 else 0.0 for u in v])
        V, P, p = np.array(V), np.array(o.predict_proba(Q), dtype=float), o.predict(Q)
        if P.ndim != 2 or len(P) != len(Q) or P.shape[1] > 3 or not np.allclose(np.pad(P, ((0, 0), (0, 3 - P.shape[1]))), V, atol=1e-9):
            return '%s after %d calls (%d warnings, %d drifts): predict_proba of %r is %r, should be %r' % (what, step + 1, tot[0], tot[1], Q.tolist(), P.tolist(), V.tolist())
        if len(p) != len(Q) or any(V[i][int(p[i])] < max(V[i]) - 1e-9 for i in range(len(Q))):
            return '%s: predict %r, votes %r' % (what, p, V.tolist())
    if base.state or getattr(DD, 'width', 0) or getattr(WW, 'width', 0) or getattr(DD, 'state', 0) or getattr(WW, 'state', 0):
        return what + ': the base estimator or the detectors of the user were used'
    if o.reset() is not o or o.ensemble is not None:
        return what + ': reset'
    return None


def real(case):
    from skmultiflow.meta import StreamingRandomPatchesClassifier
    from skmultiflow.bayes import NaiveBayes
    from skmultiflow.trees import HoeffdingTreeClassifier
    r = np.random.RandomState(case['seed'])
    d, n = case['d'], case['n']
    X = r.rand(n, d)
    y = (X[:, 0] > 0.5).astype(int) + (X[:, -1] > 0.7).astype(int)
    what = 'ensemble %r' % (case,)
    o = StreamingRandomPatchesClassifier(base_estimator=NaiveBayes() if case['real'] == 'nb' else HoeffdingTreeClassifier(grace_period=20), n_estimators=case['M'], subspace_size=case['size'], training_method=case['method'],
                                         random_state=case['seed'])
    fit = lambda m, a, b: m.partial_fit(X[a:b], y[a:b], classes=[0, 1, 2])
    two = copy.deepcopy(o)
    fit(o, 0, n)
    for i in range(n):
        fit(two, i, i + 1)
    A = o.predict_proba(X[:9])
    if not np.allclose(A, two.predict_proba(X[:9]), atol=1e-12):
        return what + ': trained row by row it answers differently'
    if A.shape[0] != 9 or (A < 0).any() or any(abs(s - 1) > 1e-9 and s != 0 for s in A.sum(axis=1)):
        return '%s: probabilities %r' % (what, A.tolist())
    B = np.zeros_like(A)
    for i in range(9):
        q = o.predict_proba(X[i:i + 1])[0]
        B[i, :len(q)] = q
    if not np.allclose(A, B, atol=1e-12):
        return what + ': a row is answered differently in a batch'
    o.reset()
    fit(o, 0, n)
    if not np.allclose(o.predict_proba(X[:9]), A, atol=1e-12):
        return what + ': after a reset the same stream gives another ensemble'
    return None
