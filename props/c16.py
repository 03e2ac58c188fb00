"""C16: online bagging ensembles."""
import numpy as np
from pv import sym as S
from pv.sym import eq, and_, or_, not_, implies, ite, Sym, Unsupported
from pv.vm import PathEnd, PyRaise
from props.learnmodel import Learner, arr, same, matrix
from props.ensrun import Memb, Group, run
from props.ensmodel import Detectors, Draws, mk, members, lesson, drift

ID = 'C16'
BUDGET = 20
MAX_CASES = 500
M_ = 'meta/'
CLS = {'oza': (M_ + 'oza_bagging.py', 'OzaBaggingClassifier'), 'ozad': (M_ + 'oza_bagging_adwin.py', 'OzaBaggingADWINClassifier'),
       'lev': (M_ + 'leverage_bagging.py', 'LeveragingBaggingClassifier'), 'uob': (M_ + 'online_under_over_bagging.py', 'OnlineUnderOverBaggingClassifier'),
       'smote': (M_ + 'online_smote_bagging.py', 'OnlineSMOTEBaggingClassifier')}
CLS16 = set(CLS)
ALG = ['leveraging_bag', 'leveraging_bag_me', 'leveraging_bag_half', 'leveraging_bag_wt', 'leveraging_subag']
ASSUME = ['base estimators: deep-copyable, partial_fit(X, y, classes, sample_weight), predict, predict_proba and reset, answers a function of what they were taught and of the row',
          'ADWIN keeps its contract (C04); numpy RandomState.poisson returns a non-negative integer', 'class labels are non-negative integers']
BOUNDED = ['2 members, up to 2 rows per call, up to 2 lessons per draw (all values, weights, answers, estimates and signals symbolic)', 'synthetic rows of SMOTE bagging: only their number and label are claimed']


def lams(kind, i, M, y, kw):
    a = S.div(i + 1, M)
    if kind in ('oza', 'ozad'):
        return [1]
    if kind == 'uob':
        return [a * kw['sampling_rate'] if y == 1 else a]
    if kind == 'smote':
        return [a * kw['sampling_rate'], (1 - a) * kw['sampling_rate']] if y == 1 else [1]
    raise KeyError(kind)


OPTS = {}


def opts(vm, kind):
    kw = {}
    if kind in OPTS:
        return OPTS[kind](vm)
    if kind in ('uob', 'smote'):
        kw = dict(sampling_rate=vm.inp('rate', 'real', 0))
    return kw


def u_rows(kind, n, top):
    """every row, member by member: as many lessons as drawn, with the right rate"""
    def u(vm):
        M = 2
        kw = opts(vm, kind)
        o, base, fam, det, dr = mk(vm, *CLS[kind], M, top=top, **kw, **({'drift_detection': False} if kind in ('uob', 'smote') else {}))
        if kind == 'smote':
            vm.contract(CLS[kind][0], CLS[kind][1], 'online_smote', lambda vm, self, a, k: vm.born(np.array([vm.fresh('s', 'real'), vm.fresh('s', 'real')], dtype=object)))
        e = members(vm, o, base, M)
        was = [len(m.told) for m in e]
        X = arr(vm, n, 2)
        y = [vm.choose(2) if kind in ('uob', 'smote') else i % 2 for i in range(n)]
        W = arr(vm, n, lo=0, name='w') if vm.choose(2) else None
        kx = X.copy()
        r = vm.method(o, 'partial_fit', X, vm.born(list(y)), **({} if W is None else dict(sample_weight=W)))
        vm.prove('returns itself', r is o)
        vm.prove('the same members', all(a is b for a, b in zip(e, vm.getattr(o, 'ensemble'))))
        d, pos = 0, list(was)
        for j in range(n):
            for i in range(M):
                L = lams(kind, i, M, y[j], kw)
                for q, want in enumerate(L):
                    vm.prove('a draw for every row and member', d < len(dr.got))
                    lam, k = dr.got[d]
                    d += 1
                    vm.prove('the rate of the draw', eq(lam, want))
                    for _ in range(k):
                        vm.prove('as many lessons as drawn', pos[i] < len(e[i].told))
                        t = e[i].told[pos[i]]
                        pos[i] += 1
                        w = None if W is None else W[j]
                        lesson(vm, t, X[j] if q == 0 else matrix(t[1]['X'])[0], y[j], (0, 1), w)
        vm.prove('no other draw', d == len(dr.got))
        vm.prove('no other lesson', all(pos[i] == len(e[i].told) for i in range(M)))
        vm.prove('the base estimator is never trained', all(h == 'reset' for h, _ in base.told))
        vm.prove('arguments untouched', all(a is b for a, b in zip(kx.flat, X.flat)))
    return u


def u_ozad(n, signals):
    """the batch is learned as drawn; every row's error feeds the member's detector"""
    def u(vm):
        M = 1 if signals and n > 1 else 2
        o, base, fam, det, dr = mk(vm, *CLS['ozad'], M, classes=(0, 1)[:M], top=1 if signals else 2, signals=signals)
        e = members(vm, o, base, M)
        was = [len(m.told) for m in e]
        old = list(vm.getattr(o, 'adwin_ensemble'))
        det.clear(old)
        X, y = arr(vm, n, 2), [vm.choose(M) for i in range(n)]
        W = arr(vm, n, lo=0, name='w') if not signals and vm.choose(2) else None
        vm.method(o, 'partial_fit', X, vm.born(list(y)), **({} if W is None else dict(sample_weight=W)))
        vm.prove('a draw per member', len(dr.got) == M)
        for i in range(M):
            lam, k = dr.got[i]
            vm.prove('the rate of the draw', eq(lam, 1))
            t = e[i].told[was[i]:was[i] + k]
            vm.prove('as many lessons as drawn', len(t) == k and all(h == 'partial_fit' and same(a['X'], X) and same(a['y'], y) for h, a in t))
            vm.prove('knowing the classes', all(a.get('classes') is not None and sorted(a['classes']) == [0, 1][:M] for _, a in t))
            vm.prove('and the weights', all((a.get('sample_weight') is None) if W is None else same(a['sample_weight'], W) for _, a in t))
            vm.prove('nothing more', [h for h, _ in e[i].told[was[i] + k:]] in ([], ['reset']))
            ev = det.of(old[i]).events
            vm.prove('the detector hears of every row', len(ev) == n)
            for j in range(n):
                p = e[i].row('predict', list(X[j]), was[i] + k)
                vm.prove('whether the trained member errs on it', eq(ev[j], 0 if p == y[j] else 1))
        drift(vm, e, det, old, was, o)
    return u


def u_online_drift(kind):
    def u(vm):
        M = 2
        kw = opts(vm, kind)
        o, base, fam, det, dr = mk(vm, *CLS[kind], M, top=2, signals=True, **kw)
        if kind == 'smote':
            vm.contract(CLS[kind][0], CLS[kind][1], 'online_smote', lambda vm, self, a, k: vm.born(np.array([vm.fresh('s', 'real'), vm.fresh('s', 'real')], dtype=object)))
        e = members(vm, o, base, M)
        was = [len(m.told) for m in e]
        old = list(vm.getattr(o, 'adwin_ensemble'))
        det.clear(old)
        X, y = arr(vm, 1, 2), vm.choose(2)
        if kind not in CLS16 or kind == 'smote' and y == 1:
            dr.top = 1
        vm.method(o, 'partial_fit', X, vm.born([y]))
        check_fed(vm, e, det, old, was, X[0], y)
        drift(vm, e, det, old, was, o)
    return u


def check_fed(vm, e, det, old, was, x, y, flip=False):
    for i in range(len(e)):
        ev = det.of(old[i]).events
        vm.prove('the detector hears of the row once', len(ev) == 1)
        told = len(e[i].told) - (1 if len(e[i].told) > was[i] and e[i].told[-1][0] == 'reset' else 0)
        p = e[i].row('predict', list(x), told)
        vm.prove('whether the trained member errs on it', eq(ev[0], (1 if p == y else 0) if flip else (0 if p == y else 1)))


def u_rounds(kind):
    """the detectors of a batch hear every row once, whoever is replaced in between"""
    def u(vm):
        o, base, fam, det, dr = mk(vm, *CLS[kind], 1 if kind != 'x' else 2, top=1, classes=(0,), **opts(vm, kind))
        e = members(vm, o, base, 1)
        old = list(vm.getattr(o, 'adwin_ensemble'))
        det.clear(old)
        X, y = arr(vm, 3, 2), [0, 1, 0]
        vm.method(o, 'partial_fit', X, vm.born(list(y)))
        ev = det.of(old[0]).events
        vm.prove('every row once', len(ev) == 3)
        for j in range(3):
            vm.prove('whether the member errs on it', eq(ev[j], 0 if e[0].row('predict', list(X[j])) == y[j] else 1))
    return u


def u_classes(kind):
    def u(vm):
        o, base, fam, det, dr = mk(vm, *CLS[kind], 2, first=False, **opts(vm, kind))
        X, y = arr(vm, 1, 2), vm.born([0])
        p = vm.method(o, 'predict_proba', X)
        vm.prove('zeros before any training', p.shape == (1, 1) and p[0, 0] == 0)
        try:
            vm.method(o, 'partial_fit', X, y)
            vm.prove('the classes are needed first', False)
        except PyRaise as ex:
            vm.prove('the classes are needed first', ex.name == 'ValueError')
        vm.method(o, 'partial_fit', X, y, classes=vm.born([0, 1]))
        dr.top = 2
        e = members(vm, o, base, 2)
        was = [len(m.told) for m in e]
        vm.method(o, 'partial_fit', X, y, classes=vm.born([1, 0]))
        now = [len(m.told) for m in e]
        try:
            vm.method(o, 'partial_fit', X, y, classes=vm.born([0, 1, 2]))
            vm.prove('other classes are rejected', False)
        except PyRaise as ex:
            vm.prove('other classes are rejected', ex.name == 'ValueError')
        vm.prove('and nothing is learned then', [len(m.told) for m in e] == now and sum(now) - sum(was) <= sum(k for _, k in dr.got))
    return u


def u_grow(kind):
    def u(vm):
        M = 1 + vm.choose(4)
        o, base, fam, det, dr = mk(vm, *CLS[kind], M, classes=(0, 1, 2), **opts(vm, kind))
        n = max(M, 3) if kind != 'lev' else M
        members(vm, o, base, n)
        if kind != 'oza':
            a = list(vm.getattr(o, 'adwin_ensemble'))
            vm.prove('a detector per member', len(a) == n and len({id(x) for x in a}) == n)
        vm.method(o, 'partial_fit', arr(vm, 1, 2), vm.born([1]))
        members(vm, o, base, n)
        if kind == 'oza':
            vm.prove('a draw per member', len(dr.got) == n)
    return u


def u_proba(kind, n, widths, weights=None):
    def u(vm):
        M = 2
        o, base, fam, det, dr = mk(vm, *CLS[kind], M, classes=(0, 1, 2) if kind == 'lev' else (0, 2), widths=widths, **opts(vm, kind))
        e = members(vm, o, base, M)
        W = weights(vm, o, M) if weights else [1] * M
        X = arr(vm, n, 2)
        was = [len(m.told) for m in e]
        p = vm.method(o, 'predict_proba', X)
        check_votes(vm, p, e, W, X, 3)
        vm.prove('predicting teaches nothing', [len(m.told) for m in e] == was)
    return u


def check_votes(vm, p, e, W, X, top):
    n, M = len(X), len(e)
    ws = [m.width() for m in e]
    vm.prove('a row per sample', len(p) == n)
    if max(ws) > top:
        vm.prove('members that know other classes: no answer', p.shape == (n, 1) and all(x == 0 for x in p.flat))
        return
    vm.prove('a column per class known to a member', p.shape == (n, max(ws)))
    for i in range(n):
        V = [0] * max(ws)
        for m, w in zip(e, W):
            if w is None:
                continue
            for c, v in enumerate(m.row('predict_proba', list(X[i]))):
                V[c] = V[c] + w * v
        s = sum(V[1:], V[0])
        for c in range(len(V)):
            vm.prove('votes added up and normalised', ite(s > 0, eq(p[i, c] * s, V[c]), eq(p[i, c], V[c])))


def u_predict(kind):
    def u(vm):
        o, base, fam, det, dr = mk(vm, *CLS[kind], 1, **opts(vm, kind))
        n = 1 + vm.choose(2)
        X = arr(vm, n, 2)
        P = arr(vm, n, 3, name='p')

        def proba(vm, self, a, kw):
            vm.prove('of these rows', a[0] is X)
            return P
        vm.contract(*CLS[kind if kind != 'ozad' else 'oza'], 'predict_proba', proba)
        r = vm.method(o, 'predict', X)
        vm.prove('a class per row', len(r) == n)
        for i in range(n):
            vm.prove('a class with the highest probability', and_(*[P[i, int(r[i])] >= P[i, c] for c in range(3)]))
    return u


def u_reset(kind):
    def u(vm):
        o, base, fam, det, dr = mk(vm, *CLS[kind], 2, top=2, signals=False, **opts(vm, kind))
        e = members(vm, o, base, 2)
        vm.method(o, 'partial_fit', arr(vm, 1, 2), vm.born([0]))
        if kind != 'oza':
            a = list(vm.getattr(o, 'adwin_ensemble'))
        r = vm.method(o, 'reset')
        vm.prove('returns itself', r is o)
        dr.top = 1
        X, y = arr(vm, 1, 2), vm.born([0])
        try:
            vm.method(o, 'partial_fit', X, y)
            vm.prove('the classes are needed again', False)
        except PyRaise as ex:
            vm.prove('the classes are needed again', ex.name == 'ValueError')
        vm.method(o, 'partial_fit', X, y, classes=vm.born([0, 1, 2, 3]))
        e2 = members(vm, o, base, 4 if kind != 'lev' else 2)
        vm.prove('new members', all(x is not z for x in e for z in e2) and all(h == 'reset' for m in e2 for h, _ in m.told))
        if kind != 'oza':
            a2 = list(vm.getattr(o, 'adwin_ensemble'))
            vm.prove('new detectors', all(x is not z for x in a for z in a2) and all(len(det.of(x).events) <= 1 for x in a2))
        if kind == 'lev':
            vm.prove('counts from zero', vm.getattr(o, 'n_detected_changes') == 0)
    return u


# ------------------------------------------------------------------ leveraging bagging
def u_lev(alg):
    def u(vm):
        M, w = 2, vm.inp('w', 'int', 0)
        o, base, fam, det, dr = mk(vm, *CLS['lev'], M, top=3 if alg in (0,) else 2, signals=False, idle=False, leverage_algorithm=ALG[alg], w=w, delta=0.01)
        e = members(vm, o, base, M)
        for m in e:
            m.told = m.told[:1]
        was = [len(m.told) for m in e]
        dr.got = []
        old = list(vm.getattr(o, 'adwin_ensemble'))
        det.clear(old)
        X, y = arr(vm, 1, 2), vm.choose(2)
        vm.ghost['draws'] = []
        r = vm.method(o, 'partial_fit', X, vm.born([y]))
        vm.prove('returns itself', r is o)
        draws = [x for x in vm.ghost.get('draws', [])]
        d = q = 0
        for i in range(M):
            if alg in (0, 3, 4):
                vm.prove('a draw per member', d < len(dr.got))
                lam, k = dr.got[d]
                d += 1
                vm.prove('the rate of the draw', eq(lam, w if alg == 0 else 1))
                k = k if alg == 0 else k + 1 if alg == 3 else min(k, 1)
            elif alg == 2:
                vm.prove('a draw per member', q < len(draws) and draws[q][1] == 'randint')
                k = ite(eq(draws[q][2], 1), 0, 1)
                q += 1
            else:
                p = e[i].row('predict', list(X[0]), was[i])
                k = 1
                if p == y:
                    est = det.of(old[i]).first
                    k = 0
                    if vm.truth(not_(eq(est, 1))):
                        vm.prove('a draw for a member that is right', q < len(draws))
                        k = ite(draws[q][2] < S.div(est, 1 - est), 1, 0)
                        q += 1
            t = e[i].told[was[i]:]
            vm.prove('as many lessons as drawn', eq(len(t), k))
            for x in t:
                lesson(vm, x, X[0], y, (0, 1), None)
            ev = det.of(old[i]).events
            vm.prove('the detector hears of the row once', len(ev) == 1)
            vm.prove('whether the trained member errs on it', eq(ev[0], 0 if e[i].row('predict', list(X[0])) == y else 1))
        vm.prove('no other draw', d == len(dr.got) and q == len(draws))
        vm.prove('no change counted', vm.getattr(o, 'n_detected_changes') == 0)
    return u


def u_lev_drift(vm):
    M = 2
    delta = vm.inp('delta', 'real', 0, 1)
    o, base, fam, det, dr = mk(vm, *CLS['lev'], M, top=1, signals=True, delta=delta)
    e = members(vm, o, base, M)
    vm.prove('detectors with the given confidence', and_(*[eq(det.of(a).delta, delta) for a in vm.getattr(o, 'adwin_ensemble')]))
    n0 = vm.inp('n0', 'int', 0)
    vm.setattr(o, 'n_detected_changes', n0)
    was = [len(m.told) for m in e]
    old = list(vm.getattr(o, 'adwin_ensemble'))
    det.clear(old)
    X, y = arr(vm, 1, 2), vm.choose(2)
    vm.method(o, 'partial_fit', X, vm.born([y]))
    check_fed(vm, e, det, old, was, X[0], y)
    reset = drift(vm, e, det, old, was, o)
    R = [det.of(d) for d in old]
    rise = or_(*[and_(bool(r.asked and r.asked[-1]), r.est > r.first) for r in R])
    vm.prove('changes are counted', eq(vm.getattr(o, 'n_detected_changes'), ite(rise, n0 + 1, n0)))
    for i, a in enumerate(vm.getattr(o, 'adwin_ensemble')):
        if reset[i]:
            vm.prove('the new detector has the given confidence', eq(det.of(a).delta, delta))


def u_codes(nc):
    """output codes: the members are trained on the code bit of the class and vote for the classes with that bit"""
    def u(vm):
        M = 2 if nc == 2 else 1
        bits = []
        vm.unroll_forks = 12

        def randint(vm, o, low, high=None, size=None, **k):
            b = vm.choose(2)
            bits.append(b)
            if len(bits) > (M + 1) * nc:      # one rejected code at most
                raise PathEnd()
            return b
        vm.hooks.setdefault('ext', {})['numpy.random.RandomState.randint'] = randint
        o, base, fam, det, dr = mk(vm, *CLS['lev'], M, first=False, enable_code_matrix=True)
        dr.top = 2
        X = arr(vm, 1, 2)
        p = vm.method(o, 'predict_proba', X)
        vm.prove('zeros before any training', p.shape == (1, 1) and p[0, 0] == 0)
        y = vm.choose(nc)
        vm.method(o, 'partial_fit', X, vm.born([y]), classes=vm.born(list(range(nc))))
        e = members(vm, o, base, M)
        C = np.array(vm.getattr(o, 'matrix_codes').tolist(), dtype=object)
        vm.prove('a code per member and class', C.shape == (M, nc) and all(b in (0, 1) for b in C.flat))
        for i in range(M):
            ones = int(sum(int(b) for b in C[i]))
            vm.prove('codes split the classes evenly', abs(ones - (nc - ones)) <= nc % 2)
            for h, a in e[i].told[1:]:
                lesson(vm, (h, a), X[0], int(C[i][y]), (0, 1), None, ' (code)')
            vm.prove('as many lessons as drawn', len(e[i].told) - 1 == dr.got[i][1])
            ev = det.of(vm.getattr(o, 'adwin_ensemble')[i]).events
            vm.prove('the detector hears whether the member errs on the code', len(ev) == 1 and eq(ev[0], 0 if e[i].row('predict', list(X[0])) == int(C[i][y]) else 1))
        Q = arr(vm, 1, 2, name='q')
        p = vm.method(o, 'predict_proba', Q)
        V = [0] * nc
        for i in range(M):
            pr = e[i].row('predict_proba', list(Q[0]))
            v = 1 if vm.truth(pr[1] > pr[0]) else 0
            for c in range(nc):
                V[c] += int(C[i][c]) == v
        s = sum(V)
        vm.prove('votes for the classes of that code', len(p) == 1 and and_(*[eq(p[0][c] * s, V[c]) if s else eq(p[0][c], 0) for c in range(nc)]))
    return u


def u_lev_new(vm):
    try:
        vm.new(vm.cls(*CLS['lev']), base_estimator=Learner(vm, []), leverage_algorithm='nonsense')
        vm.prove('unknown algorithms are rejected', False)
    except PyRaise as ex:
        vm.prove('unknown algorithms are rejected', ex.name == 'ValueError')


UNITS = []
for _k, _n, _t in (('oza', 1, 3), ('oza', 2, 2), ('uob', 1, 3), ('uob', 2, 2), ('smote', 1, 3)):
    UNITS.append(('%s.partial_fit[%d rows]' % (CLS[_k][1], _n), u_rows(_k, _n, _t)))
UNITS += [('OzaBaggingADWINClassifier %s[%d rows]' % ('drift' if g else 'lessons', n), u_ozad(n, g)) for n in (1, 2) for g in (False, True)]
UNITS += [('%s drift' % CLS[k][1], u_online_drift(k)) for k in ('uob', 'smote')]
UNITS += [('%s detectors[3 rows]' % CLS[k][1], u_rounds(k)) for k in ('uob', 'smote', 'ozad', 'lev')]
UNITS += [('LeveragingBaggingClassifier.partial_fit[%s]' % ALG[a], u_lev(a)) for a in range(5)]
UNITS += [('LeveragingBaggingClassifier drift', u_lev_drift), ('LeveragingBaggingClassifier.__init__', u_lev_new)]
UNITS += [('LeveragingBaggingClassifier codes[%d classes]' % n, u_codes(n)) for n in (2, 3)]
for _k in CLS:
    UNITS.append((CLS[_k][1] + ' classes', u_classes(_k)))
    UNITS.append((CLS[_k][1] + ' size', u_grow(_k)))
    UNITS.append((CLS[_k][1] + '.predict_proba[1 row]', u_proba(_k, 1, (1, 2, 3, 4))))
    UNITS.append((CLS[_k][1] + '.predict_proba[2 rows]', u_proba(_k, 2, (1, 3))))
    UNITS.append((CLS[_k][1] + '.predict', u_predict(_k)))
    UNITS.append((CLS[_k][1] + '.reset', u_reset(_k)))


def cases(rnd, hints, tier):
    i = 0
    while True:
        i += 1
        yield dict(kind=('oza', 'ozad', 'lev', 'uob', 'smote', 'code')[i % 6], seed=rnd.randrange(10 ** 9))


def run_case(case):
    import random
    import warnings
    import importlib
    warnings.simplefilter('ignore')
    if case['kind'] == 'synthetic':
        return r_synthetic()
    rnd = random.Random(case['seed'])
    kind = case['kind']
    code = kind == 'code'
    k = 'lev' if code else kind
    C = getattr(importlib.import_module('skmultiflow.' + CLS[k][0][:-3].replace('/', '.')), CLS[k][1])
    nc = rnd.choice([2, 2, 3, 4] if code else [2, 2, 3])
    M = rnd.choice([1, 2, 3, 5])
    seed = rnd.randrange(1000)
    kw = dict(n_estimators=M, random_state=seed)
    base = Memb(nc, rnd.choice([0.8, 0.93, 1.0]), code)
    if rnd.random() < 0.3:
        base.partial_fit([[0.0, 1.0, 0.0]], [0])         # reset by the ensemble
    if k in ('uob', 'smote'):
        kw['sampling_rate'] = rnd.choice([0.5, 1, 2, 3])
        kw['drift_detection'] = rnd.random() < 0.8
    if k == 'lev':
        kw.update(w=rnd.choice([0.5, 1, 6]), delta=rnd.choice([0.002, 0.1]), leverage_algorithm=rnd.choice(ALG), enable_code_matrix=code)
    what = '%s(%s), %d classes' % (C.__name__, ', '.join('%s=%r' % x for x in sorted(kw.items())), nc)
    o = C(base_estimator=base, **kw)
    const = np.array([1.0, 1.0, 0.25])
    if k == 'smote':
        def smote(self, k=5):
            return const
        C.online_smote, keep = smote, C.online_smote
    from skmultiflow.drift_detection import ADWIN

    def make():
        g = Group(Memb(nc, base.period, code), M if k == 'lev' else max(M, nc), (lambda: ADWIN(kw['delta'])) if k == 'lev' else None)
        g.rs = np.random.RandomState(seed)
        g.codes = None
        return g

    def learn(g, X, y, W):
        cl = list(range(nc))
        if k == 'ozad':
            rise = False
            for i, m in enumerate(g.m):
                for _ in range(g.rs.poisson(1)):
                    m.partial_fit(X, y, cl, W)
                rise |= g.hear(i, [int(p != t) for p, t in zip(m.predict(X), y)])
            if rise:
                g.worst()
            return
        for j in range(len(X)):
            x, t, w = X[j:j + 1], int(y[j]), None if W is None else W[j:j + 1]
            rise = False
            if code and g.codes is None:
                g.codes = codes(g.rs, len(g.m), nc)
            for i, m in enumerate(g.m):
                a = (i + 1) / len(g.m)
                lab, know = (g.codes[i][t], [0, 1]) if code else (t, cl)
                if k == 'lev':
                    n, w = lever(g, i, kw['leverage_algorithm'], kw['w'], x, t), None
                elif k == 'oza':
                    n = g.rs.poisson(1)
                elif k == 'uob':
                    n = g.rs.poisson(a * kw['sampling_rate'] if t == 1 else a)
                else:
                    n = g.rs.poisson(a * kw['sampling_rate'] if t == 1 else 1)
                for _ in range(n):
                    m.partial_fit(x, [lab], know, w)
                if k == 'smote' and t == 1:
                    for _ in range(g.rs.poisson((1 - a) * kw['sampling_rate'])):
                        m.partial_fit([smote(o)], [lab], know, w)
                if k == 'lev' or kw.get('drift_detection'):
                    rise |= g.hear(i, [int(m.predict(x)[0] != lab)])
            if rise:
                g.worst()

    def code_votes(g, Q):
        R = np.zeros((len(Q), nc))
        for r in range(len(Q)):
            for i, m in enumerate(g.m):
                p = m.predict_proba(Q)[r]
                for c in range(nc):
                    R[r][c] += g.codes[i][c] == int(p[1] > p[0])
            if R[r].sum():
                R[r] /= R[r].sum()
        return R
    try:
        return run(rnd, o, make, learn, lambda g: [1] * len(g.m), what, nc, range(nc), nc, refproba=code_votes if code else None, may_weight=k != 'lev')
    finally:
        if k == 'smote':
            C.online_smote = keep


def r_synthetic():
    from skmultiflow.meta import OnlineSMOTEBaggingClassifier
    o = OnlineSMOTEBaggingClassifier(base_estimator=Memb(), n_estimators=1, random_state=1)
    o.pos_samples = [np.array([9.0, 9.0]), np.array([0.0, 1.0]), np.array([0.0, 0.0])]
    s = o.online_smote(k=1)
    if abs(s[0]) > 1e-9 or not -1e-9 <= s[1] <= 1 + 1e-9:
        return 'online_smote(k=1) at (0, 0) with the nearest positive row (0, 1) gives %r, not a point between them [synthetic rows]' % (s.tolist(),)
    return None


def lever(g, i, alg, w, x, t):
    if alg == 'leveraging_bag':
        return g.rs.poisson(w)
    if alg == 'leveraging_bag_half':
        return 0 if g.rs.randint(2) == 1 else 1
    if alg == 'leveraging_bag_wt':
        return 1 + g.rs.poisson(1)
    if alg == 'leveraging_subag':
        return min(1, g.rs.poisson(1))
    e = g.d[i].estimation
    if g.m[i].predict(x)[0] != t:
        return 1
    return int(e != 1 and g.rs.rand() < e / (1 - e))


def codes(rs, M, nc):
    C = []
    for i in range(M):
        while True:
            c = []
            for j in range(nc):
                c.append(1 - c[0] if j == 1 and nc == 2 else rs.randint(2))
            if abs(2 * sum(c) - nc) <= nc % 2:
                break
        C.append(c)
    return C
