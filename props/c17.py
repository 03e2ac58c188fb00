"""C17: online boosting ensembles."""
import numpy as np
from pv import sym as S
from pv.sym import eq, and_, or_, not_, implies, ite, Sym, Unsupported
from pv.vm import PathEnd, PyRaise
from props import c16
from props.learnmodel import Learner, arr, same, matrix
from props.ensrun import Memb, Group, run
from props.ensmodel import Detectors, Draws, mk, members, lesson, drift

ID = 'C17'
BUDGET = 20
MAX_CASES = 500
M_ = 'meta/'
CLS = {'boost': (M_ + 'online_boosting.py', 'OnlineBoostingClassifier'), 'ada': (M_ + 'online_adac2.py', 'OnlineAdaC2Classifier'),
       'rus': (M_ + 'online_rus_boost.py', 'OnlineRUSBoostClassifier'), 'csb': (M_ + 'online_csb2.py', 'OnlineCSB2Classifier')}
c16.CLS.update(CLS)
ASSUME = c16.ASSUME
BOUNDED = ['2 members, up to 2 rows per call, up to 2 lessons per draw (all values, weights, answers, sums and signals symbolic)', 'OnlineCSB2Classifier: the rates of members after the first are not claimed (known finding)']
ARR = {'boost': ('lam_sc', 'lam_sw', 'epsilon'), 'ada': ('lam_tp', 'lam_fn', 'lam_tn', 'lam_fp', 'lam_sum', 'wacc', 'werr'),
       'rus': ('lam_sc', 'lam_sw', 'lam_pos', 'lam_neg', 'epsilon'), 'csb': ('epsilon',)}
c16.OPTS['ada'] = c16.OPTS['csb'] = lambda vm: dict(cost_positive=vm.inp('cpos', 'real', 0.01), cost_negative=vm.inp('cneg', 'real', 0.01))
c16.OPTS['rus'] = lambda vm: dict(sampling_rate=vm.inp('rate', 'real', 0.01), algorithm=1)


class Sums:
    """the sums of lambda kept per member"""
    def __init__(self, M, zero=0):
        for a in ('lam_sc', 'lam_sw', 'epsilon', 'lam_tp', 'lam_fn', 'lam_tn', 'lam_fp', 'lam_sum', 'wacc', 'werr', 'lam_pos', 'lam_neg'):
            setattr(self, a, [zero] * M)
        self.n_pos = self.n_neg = 0


def rate(kind, s, i, lam, y, kw, D, T):
    """count the row for member i; the rate it is drawn with"""
    if kind in ('ada', 'csb'):
        s.lam_sum[i] = s.lam_sum[i] + lam
    if kind != 'rus':
        return lam
    if y == 1:
        s.lam_pos[i] = s.lam_pos[i] + lam
        s.n_pos = s.n_pos + 1
    else:
        s.lam_neg[i] = s.lam_neg[i] + lam
        s.n_neg = s.n_neg + 1
    C, p, n, a, b = kw['sampling_rate'], s.n_pos, s.n_neg, s.lam_pos[i], s.lam_neg[i]
    if kw['algorithm'] == 1:
        share = D((C + 1) * p, p + n)
        if y == 1:
            return lam * (D(a + b, a + b * (C * D(p, n))) * share) if T(n != 0) else 1
        return lam * (D(a + b, a + b * D(n, p * C)) * share) if T(p != 0) else 1
    if kw['algorithm'] == 2:
        return D(D(lam * p, p + n), D(a, a + b)) if y == 1 else D(D(lam * C * p, p + n), D(b, a + b))
    return lam if y == 1 else D(lam, C)


def after(kind, s, i, lam, y, pred, k, kw, D, T):
    """the lambda handed on, when member i was drawn k times and then said pred"""
    if kind == 'ada':
        if k == 0 or y not in (0, 1) or pred not in (0, 1):
            return lam
        c = kw['cost_positive'] if y == 1 else kw['cost_negative']
        a = {(1, 1): 'lam_tp', (0, 0): 'lam_tn', (0, 1): 'lam_fn', (1, 0): 'lam_fp'}[pred, y]
        getattr(s, a)[i] = getattr(s, a)[i] + c * lam
        s.wacc[i] = D(s.lam_tp[i] + s.lam_tn[i], s.lam_sum[i])
        s.werr[i] = D(s.lam_fp[i] + s.lam_fn[i], s.lam_sum[i])
        return D(c * lam, 2 * (s.wacc[i] if pred == y else s.werr[i]))
    if kind == 'boost' and k == 0:
        return lam
    if pred == y:
        s.lam_sc[i] = s.lam_sc[i] + lam
    else:
        s.lam_sw[i] = s.lam_sw[i] + lam
    s.epsilon[i] = D(s.lam_sw[i], s.lam_sw[i] + s.lam_sc[i])
    if pred != y:
        return D(lam, 2 * s.epsilon[i])
    return D(lam, 2 * (1 - s.epsilon[i]))


def follow(vm, kind, s, e, dr, X, y, W, kw, was):
    """every row and member: the rate, the lessons, the lambda handed on"""
    T = lambda c: vm.truth(c) if isinstance(c, Sym) else bool(c)
    d, pos = 0, list(was)
    for j in range(len(y)):
        lam = 1
        for i in range(len(e)):
            vm.prove('a draw for every row and member', d < len(dr.got))
            got, k = dr.got[d]
            d += 1
            want = rate(kind, s, i, lam, y[j], kw, S.div, T)
            if kind != 'csb' or i == 0:
                vm.prove('the rate of the draw', eq(got, want))
            for _ in range(k):
                vm.prove('as many lessons as drawn', pos[i] < len(e[i].told))
                lesson(vm, e[i].told[pos[i]], X[j], y[j], (0, 1), None if W is None else W[j])
                pos[i] += 1
            if kind != 'csb':
                lam = after(kind, s, i, lam, y[j], e[i].row('predict', list(X[j]), pos[i]), k, kw, S.div, T)
    vm.prove('no other draw', d == len(dr.got))
    vm.prove('no other lesson', all(pos[i] == len(e[i].told) for i in range(len(e))))


def u_step(kind, alg=1):
    """one row after any history"""
    def u(vm):
        M = 2
        kw = c16.opts(vm, kind)
        if kind == 'rus':
            kw['algorithm'] = alg
        o, base, fam, det, dr = mk(vm, *CLS[kind], M, top=2, drift_detection=False, **kw)
        e = members(vm, o, base, M)
        s = Sums(M)
        if kind != 'csb':
            for a in ARR[kind]:
                v = arr(vm, M, lo=0, name=a)
                for i in range(M):
                    if a == 'lam_sum' or kind == 'rus' and a in ('lam_pos', 'lam_neg'):
                        vm.assume(v[i] > 0)         # a row has been counted
                    if a == 'lam_sc':
                        vm.assume(v[i] > 0)
                vm.setattr(o, a, v)
                setattr(s, a, list(v))
            if kind == 'rus':
                for a in ('n_pos', 'n_neg'):
                    setattr(s, a, vm.inp(a, 'int', 1))
                    vm.setattr(o, a, getattr(s, a))
        was = [len(m.told) for m in e]
        X, y = arr(vm, 1, 2), [vm.choose(2)]
        W = arr(vm, 1, lo=0, name='w') if vm.choose(2) else None
        kx = X.copy()
        r = vm.method(o, 'partial_fit', X, vm.born(list(y)), **({} if W is None else dict(sample_weight=W)))
        vm.prove('returns itself', r is o)
        vm.prove('the same members', all(a is b for a, b in zip(e, vm.getattr(o, 'ensemble'))))
        follow(vm, kind, s, e, dr, X, y, W, kw, was)
        if kind != 'csb':
            for a in ARR[kind]:
                v = vm.getattr(o, a)
                vm.prove('the sums of every member (%s)' % a, and_(*[eq(v[i], getattr(s, a)[i]) for i in range(M)]))
        vm.prove('the base estimator is never trained', all(h == 'reset' for h, _ in base.told))
        vm.prove('arguments untouched', all(a is b for a, b in zip(kx.flat, X.flat)))
    return u


def u_start(kind, n, alg=1):
    """the first rows, from the beginning (batches as rows)"""
    def u(vm):
        M = 2
        kw = c16.opts(vm, kind)
        if kind == 'rus':
            kw['algorithm'] = alg
        o, base, fam, det, dr = mk(vm, *CLS[kind], M, first=False, drift_detection=False, **kw)
        dr.top = 2
        X, y = arr(vm, n, 2), [vm.choose(2) for _ in range(n)]
        s = Sums(M)
        vm.method(o, 'partial_fit', X, vm.born(list(y)), classes=vm.born([1, 0]))
        e = members(vm, o, base, M)
        follow(vm, kind, s, e, dr, X, y, None, kw, [sum(h == 'reset' for h, _ in m.told) for m in e])
    return u


def weights(kind):
    def w(vm, o, M):
        r = []
        T = lambda c: vm.truth(c) if isinstance(c, Sym) else bool(c)
        if kind == 'ada':
            a, b = arr(vm, M, lo=0, name='acc'), arr(vm, M, lo=0, name='err')
            vm.setattr(o, 'wacc', a)
            vm.setattr(o, 'werr', b)
        else:
            b = arr(vm, M, lo=0, hi=1, name='eps')
            a = [1 - x for x in b]
            vm.setattr(o, 'epsilon', b)
        for x, z in zip(a, b):
            if T(eq(z, 0)) or T(eq(x, 0)):
                r.append(None)
            else:
                r.append(S.log(S.div(x, z)))
        return r
    return w


UNITS = []
for _k in CLS:
    for _a in (1, 2, 3) if _k == 'rus' else (1,):
        _t = ' algorithm %d' % _a if _k == 'rus' else ''
        UNITS.append(('%s.partial_fit[any state]%s' % (CLS[_k][1], _t), u_step(_k, _a)))
        UNITS.append(('%s.partial_fit[first row]%s' % (CLS[_k][1], _t), u_start(_k, 1, _a)))
        if _k != 'csb':
            UNITS.append(('%s.partial_fit[first 2 rows]%s' % (CLS[_k][1], _t), u_start(_k, 2, _a)))
    if _k in ('boost', 'ada'):
        UNITS.append((CLS[_k][1] + ' drift', c16.u_online_drift(_k)))
        UNITS.append((CLS[_k][1] + ' detectors[3 rows]', c16.u_rounds(_k)))
    UNITS.append((CLS[_k][1] + ' classes', c16.u_classes(_k)))
    UNITS.append((CLS[_k][1] + ' size', c16.u_grow(_k)))
    UNITS.append((CLS[_k][1] + '.predict_proba[1 row]', c16.u_proba(_k, 1, (1, 3, 4), weights(_k))))
    UNITS.append((CLS[_k][1] + '.predict_proba[2 rows]', c16.u_proba(_k, 2, (2,), weights(_k))))
    UNITS.append((CLS[_k][1] + '.predict', c16.u_predict(_k)))
    UNITS.append((CLS[_k][1] + '.reset', c16.u_reset(_k)))


KNOWN = ('csb-rates', 'csb-drift', 'rus-drift')


def cases(rnd, hints, tier):
    i = 0
    while True:
        i += 1
        yield dict(kind=('boost', 'ada', 'rus', 'boost', 'ada', 'rus', 'csb')[i % 7], seed=rnd.randrange(10 ** 9))


def run_case(case):
    import warnings
    warnings.simplefilter('ignore')
    kind = case['kind']
    with np.errstate(all='warn'):       # the votes rely on numpy's warnings
        return r_known(kind) if kind in KNOWN else r_boost(case, kind)


def r_boost(case, kind):
    import random
    import importlib
    rnd = random.Random(case['seed'])
    C = getattr(importlib.import_module('skmultiflow.' + CLS[kind][0][:-3].replace('/', '.')), CLS[kind][1])
    nc = rnd.choice([2, 2, 3])
    M = 1 if kind == 'csb' else rnd.choice([1, 2, 3, 5])
    seed = rnd.randrange(1000)
    kw = dict(n_estimators=M, random_state=seed, drift_detection=kind in ('boost', 'ada') and rnd.random() < 0.8)
    base = Memb(nc, rnd.choice([0.6, 0.8, 0.93]))
    if rnd.random() < 0.3:
        base.partial_fit([[0.0, 1.0, 0.0]], [0])         # reset by the ensemble
    if kind in ('ada', 'csb'):
        kw.update(cost_positive=rnd.choice([1, 0.5, 2]), cost_negative=rnd.choice([0.1, 1, 1.5]))
    if kind == 'rus':
        kw.update(sampling_rate=rnd.choice([1, 2, 3, 0.5]), algorithm=rnd.choice([1, 2, 3]))
    what = '%s(%s), %d classes' % (C.__name__, ', '.join('%s=%r' % x for x in sorted(kw.items())), nc)
    o = C(base_estimator=base, **kw)

    def make():
        g = Group(Memb(nc, base.period), max(M, nc))
        g.rs = np.random.RandomState(seed)
        g.s = Sums(len(g.m), 0.0)
        return g

    def div(a, b):
        return a / b

    def learn(g, X, y, W):
        cl = list(range(nc))
        for j in range(len(X)):
            x, t, w = X[j:j + 1], int(y[j]), None if W is None else W[j:j + 1]
            rise, lam = False, 1
            for i, m in enumerate(g.m):
                k = g.rs.poisson(rate(kind, g.s, i, lam, t, kw, div, bool))
                for _ in range(k):
                    m.partial_fit(x, [t], cl, w)
                lam = after(kind, g.s, i, lam, t, int(m.predict(x)[0]), k, kw, div, bool)
                if kw['drift_detection']:
                    rise |= g.hear(i, [int(m.predict(x)[0] != t)])
            if rise:
                g.worst()

    def votes(g):
        r = []
        for i in range(len(g.m)):
            a, b = (g.s.wacc[i], g.s.werr[i]) if kind == 'ada' else (1 - g.s.epsilon[i], g.s.epsilon[i])
            r.append(np.log(a / b) if a > 0 and b > 0 else None)
        return r
    if kind == 'csb':
        return r_csb(rnd, o, base, nc, seed, what)
    return run(rnd, o, make, learn, votes, what, nc, range(nc), nc)


def r_csb(rnd, o, base, nc, seed, what):
    """rates and weights are not claimed: classes, lessons of a lone first member (rate 1), shapes"""
    from props.ensrun import rows
    o = type(o)(base_estimator=base, n_estimators=1, random_state=seed, drift_detection=False)
    ref, rs = Memb(nc, base.period), np.random.RandomState(seed)
    ref.reset()
    n = rnd.randint(1, 6)
    X, y = rows(rnd, n, 1, 3)
    W = np.array([rnd.choice([0.5, 2.0]) for _ in range(n)]) if rnd.random() < 0.5 else None
    o.partial_fit(X, y, classes=[0], **({} if W is None else dict(sample_weight=W)))
    for j in range(n):
        for _ in range(rs.poisson(1)):
            ref.partial_fit(X[j:j + 1], y[j:j + 1], [0], None if W is None else W[j:j + 1])
    if len(o.ensemble) != 1 or o.ensemble[0].state != ref.state:
        return '%s: the first member was not taught Poisson(1) times each of %d rows' % (what, n)
    o.reset()
    o.partial_fit(X, y, classes=list(range(nc)))
    if len(o.ensemble) != nc:
        return '%s: %d members for %d classes' % (what, len(o.ensemble), nc)
    P = o.predict_proba(X)
    if any(v > 1e-9 and abs(v - 1) > 1e-6 for v in np.sum(P, axis=1)):
        return '%s: predict_proba %r' % (what, P)
    return None


class Taped(np.random.RandomState):
    """notes the rates asked for; every draw is 1"""
    def poisson(self, lam=1.0, size=None):
        self.__dict__.setdefault('got', []).append(float(lam))
        return 1


class Says(Memb):
    resets = 0

    def __init__(self, what):
        self.what = what
        Memb.__init__(self)

    def reset(self):
        Says.resets += 1
        return Memb.reset(self)

    def one(self, x):
        return self.what(x)


def label(x):
    return int(x[0]) if x[1] > 0 else 1 - int(x[0])


def one(x):
    return 1


def r_known(kind):
    from props.ensrun import rows
    import random
    from skmultiflow import meta
    if kind == 'csb-rates':
        rs = Taped(1)
        o = meta.OnlineCSB2Classifier(base_estimator=Says(one), n_estimators=2, cost_positive=1, cost_negative=0.1, drift_detection=False, random_state=rs)
        o.partial_fit(np.array([[0.0, 1.0, 0.0]]), np.array([0]), classes=[0, 1])
        if abs(rs.got[1] - 0.1 / 1.1) > 1e-9:
            return 'OnlineCSB2Classifier: after a false positive (cost 0.1) of the first member the next one is drawn with rate %r, should be 0.1 / (1 + 0.1) [CSB2 rates]' % rs.got[1]
        return None
    C = meta.OnlineCSB2Classifier if kind == 'csb-drift' else meta.OnlineRUSBoostClassifier
    o = C(base_estimator=Says(label), n_estimators=1, random_state=1)
    rnd = random.Random(1)
    for phase in (1, -1):
        for _ in range(200):
            X, y = rows(rnd, 1, 2, 3, phase)
            if o.ensemble is None:
                o.partial_fit(X, y, classes=[0, 1])
                Says.resets = 0
            else:
                o.partial_fit(X, y)
    if Says.resets == 0:
        return '%s: all members right for 200 rows, then wrong for 200 rows, and none is ever replaced [detector fed hits]' % C.__name__
    return None
