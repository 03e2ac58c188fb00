"""C06: the regression measurements report the errors of exactly the results they cover; batch multi-label scores."""
import math
import numpy as np
from pv import sym as S
from pv.sym import eq, and_, or_, not_, implies, ite, toreal, sqrt, Sym

ID = 'C06'
BUDGET = 8
MAX_CASES = 3000
F = 'metrics/measure_collection.py'
ASSUME = ['every result of a multi-target evaluator has the same number of targets']
BOUNDED = ['1..3 targets, 1..3 queued window entries in the proofs (arbitrary values); more at run time']


def vec(vm, nm, T):
    a = np.empty(T, dtype=object)
    for j in range(T):
        a[j] = vm.inp('%s%d' % (nm, j))
    return vm.born(a)


def sabs(x):
    return ite(x >= 0, x, -x)


SCORES = {'single': ('get_mean_square_error', 'get_average_error'),
          'multi': ('get_average_mean_square_error', 'get_average_absolute_error', 'get_average_root_mean_square_error')}
CLS = {('single', False): 'RegressionMeasurements', ('single', True): 'WindowRegressionMeasurements',
       ('multi', False): 'MultiTargetRegressionMeasurements', ('multi', True): 'WindowMultiTargetRegressionMeasurements'}


def total(rs, f):
    out = toreal(0)
    for r in rs:
        out = out + f(r)
    return out


def check(vm, o, kind, T, sq, ab, n, label):
    """sq, ab: per-target sums of squared and absolute errors over n covered results"""
    m = [vm.method(o, k) for k in SCORES[kind]]
    nn = toreal(n)
    if kind == 'single':
        vm.prove(label + ': mean squared error', eq(m[0], sq[0] / nn))
        vm.prove(label + ': mean absolute error', eq(m[1], ab[0] / nn))
    else:
        vm.prove(label + ': average MSE', eq(m[0], total(sq, lambda x: x / nn) / T))
        vm.prove(label + ': average MAE', eq(m[1], total(ab, lambda x: x / nn) / T))
        vm.prove(label + ': average RMSE', eq(m[2], total(sq, lambda x: sqrt(x / nn)) / T))


def u_new(kind, win):
    def u(vm):
        kw = dict(window_size=3) if win else {}
        o = vm.new(vm.cls(F, CLS[kind, win]), **kw)
        T = 2
        for rnd in range(2):
            for k in SCORES[kind]:
                vm.prove('no result yet', eq(vm.method(o, k), 0))
            vm.prove('nothing last', vm.method(o, 'get_last') == (None, None))
            res = []
            for i in range(3):
                if kind == 'single':
                    y, p = vm.inp('y%d%d' % (rnd, i)), vm.inp('p%d%d' % (rnd, i))
                    res.append([(y, p)])
                else:
                    y, p = vec(vm, 'y%d%d' % (rnd, i), T), vec(vm, 'p%d%d' % (rnd, i), T)
                    res.append([(y[j], p[j]) for j in range(T)])
                vm.method(o, 'add_result', y, p)
                a, b = vm.method(o, 'get_last')
                vm.prove('last', (a is y or S.is_same(a, y)) and (b is p or S.is_same(b, p)))
                sq = [total([r[j] for r in res], lambda r: (r[0] - r[1]) * (r[0] - r[1])) for j in range(len(res[0]))]
                ab = [total([r[j] for r in res], lambda r: sabs(r[0] - r[1])) for j in range(len(res[0]))]
                check(vm, o, kind, T, sq, ab, i + 1, 'after %d' % (i + 1))
            if rnd == 0:
                vm.method(o, 'reset')
    return u


def u_step(kind, T):
    """cumulative measurements: one more result on an arbitrary history"""
    def u(vm):
        o = vm.new(vm.cls(F, CLS[kind, False]))
        n = vm.inp('n', 'int', 1)
        if kind == 'single':
            sq, ab = [vm.inp('sq', 'real', 0)], [vm.inp('ab', 'real', 0)]
            o.fields.update(total_square_error=sq[0], average_error=ab[0])
            y, p = vm.inp('y'), vm.inp('p')
            ys, ps = [y], [p]
        else:
            S1, S2 = vec(vm, 'sq', T), vec(vm, 'ab', T)
            for x in list(S1) + list(S2):
                vm.assume(x >= 0)
            sq, ab = list(S1), list(S2)
            o.fields.update(total_square_error=S1, average_error=S2, n_targets=T)
            y, p = vec(vm, 'y', T), vec(vm, 'p', T)
            ys, ps = list(y), list(p)
        o.fields['sample_count'] = n
        vm.method(o, 'add_result', y, p)
        sq = [a + (b - c) * (b - c) for a, b, c in zip(sq, ys, ps)]
        ab = [a + sabs(b - c) for a, b, c in zip(ab, ys, ps)]
        vm.prove('samples', eq(o.fields['sample_count'], n + 1))
        check(vm, o, kind, T, sq, ab, n + 1, 'step')
        if kind == 'multi':
            vm.prove('arguments untouched', and_(*[eq(a, b) for a, b in zip(list(y) + list(p), ys + ps)]))
    return u


def u_win(kind, T, L, full):
    """windowed measurements with L covered results"""
    def u(vm):
        o = vm.new(vm.cls(F, CLS[kind, True]), window_size=L if full else L + 1)
        sqs, abs_ = [], []
        for i in range(L):
            sqs.append([vm.inp('sq%d_%d' % (i, j), 'real', 0) for j in range(T)])
            abs_.append([vm.inp('ab%d_%d' % (i, j), 'real', 0) for j in range(T)])

        def pack(r):
            if kind == 'single':
                return r[0]
            a = np.empty(T, dtype=object)
            a[:] = r
            return vm.born(a)
        for buf, data, tot in (('total_square_error_correction', sqs, 'total_square_error'), ('average_error_correction', abs_, 'average_error')):
            b = o.fields[buf]
            for r in data:
                b.fields['buffer'].append(pack([-x for x in r]))
            b.fields['current_size'] = L
            o.fields[tot] = pack([total([r[j] for r in data], lambda x: x) for j in range(T)])
        if kind == 'multi':
            o.fields['n_targets'] = T
            y, p = vec(vm, 'y', T), vec(vm, 'p', T)
            ys, ps = list(y), list(p)
        else:
            y, p = vm.inp('y'), vm.inp('p')
            ys, ps = [y], [p]
        vm.method(o, 'add_result', y, p)
        keep = 1 if full else 0
        sqs.append([(b - c) * (b - c) for b, c in zip(ys, ps)])
        abs_.append([sabs(b - c) for b, c in zip(ys, ps)])
        n = L if full else L + 1
        sq = [total([r[j] for r in sqs[keep:]], lambda x: x) for j in range(T)]
        ab = [total([r[j] for r in abs_[keep:]], lambda x: x) for j in range(T)]
        cnt = vm.getattr(o, 'sample_count' if kind == 'single' else '_sample_count')
        vm.prove('covered results', eq(cnt, n))
        check(vm, o, kind, T, sq, ab, n, 'window')
    return u


def u_batch(N, L):
    def u(vm):
        t, p = np.empty((N, L), dtype=object), np.empty((N, L), dtype=object)
        for a, nm in ((t, 't'), (p, 'p')):
            for i in range(N):
                for j in range(L):
                    a[i, j] = vm.inp('%s%d%d' % (nm, i, j), 'int', 0, 1)
        t, p = vm.born(t), vm.born(p)
        m = vm.load(F)
        same = lambda i: [eq(t[i, j], p[i, j]) for j in range(L)]
        h = vm.call(m.get('hamming_score'), [t, p], {})
        vm.prove('hamming', eq(h * (N * L), total([x for i in range(N) for x in same(i)], lambda c: ite(c, toreal(1), toreal(0)))))
        e = vm.call(m.get('exact_match'), [t, p], {})
        vm.prove('exact match', eq(e * N, total(range(N), lambda i: ite(and_(*same(i)), toreal(1), toreal(0)))))
        g = vm.call(m.get('j_index'), [t, p], {})
        want = toreal(0)
        for i in range(N):
            inter = total(range(L), lambda j: ite(and_(eq(t[i, j], 1), eq(p[i, j], 1)), toreal(1), toreal(0)))
            union = total(range(L), lambda j: ite(or_(eq(t[i, j], 1), eq(p[i, j], 1)), toreal(1), toreal(0)))
            want = want + ite(union > 0, inter / ite(union > 0, union, toreal(1)), toreal(1))
        vm.prove('jaccard', eq(g * N, want))
    return u


UNITS = [('%s.init/reset' % CLS[k, w], u_new(k, w)) for k in ('single', 'multi') for w in (False, True)]
UNITS += [('%s.add_result[%d]' % (CLS[k, False], T), u_step(k, T)) for k, T in (('single', 1), ('multi', 1), ('multi', 2), ('multi', 3))]
UNITS += [('%s.add_result[%d,%d,%s]' % (CLS[k, True], T, L, f), u_win(k, T, L, f)) for k, T, L, f in
          (('single', 1, 1, True), ('single', 1, 3, True), ('single', 1, 2, False), ('multi', 2, 1, True), ('multi', 2, 3, True), ('multi', 3, 2, False))]
UNITS += [('batch scores[%d,%d]' % a, u_batch(*a)) for a in ((1, 2), (2, 2), (2, 3))]


# ------------------------------------------------------------------ run time
def cases(rnd, hints, tier):
    while True:
        if rnd.random() < .15:
            N, L = rnd.randint(1, 6), rnd.randint(1, 5)
            t = [[rnd.randint(0, 1) for _ in range(L)] for _ in range(N)]
            p = [[b if rnd.random() < .7 else 1 - b for b in r] for r in t]
            yield dict(kind='batch', t=t, p=p, aslist=rnd.random() < .5)
            continue
        T = rnd.choice([0, 0, 1, 2, 3, 5])
        n = rnd.choice([1, 3, 10, 40, 120])
        sc = rnd.choice([1, 1, 1000, 1e-3])
        v = lambda: round(rnd.gauss(0, 1) * sc, 3)
        rs = []
        for _ in range(n):
            y = [v() for _ in range(max(T, 1))]
            p = [a if rnd.random() < .2 else v() for a in y]
            rs.append([y, p])
        yield dict(kind='multi' if T else 'single', window=rnd.choice([0, 0, 1, 2, 7, 50]), results=rs, reset=rnd.choice([0, 0, 11]))


def near(a, b, sc=1.0):
    return abs(a - b) <= 1e-7 * (abs(sc) + abs(a) + abs(b)) + 1e-12


def run_case(case):
    import skmultiflow.metrics as M
    import skmultiflow.metrics.measure_collection as mc
    if case['kind'] == 'batch':
        t, p = case['t'], case['p']
        a = (t, p) if case['aslist'] else (np.array(t), np.array(p))
        N, L = len(t), len(t[0])
        exp = dict(hamming_score=sum(x == y for r, s in zip(t, p) for x, y in zip(r, s)) / N / L, exact_match=sum(r == s for r, s in zip(t, p)) / N)
        j = 0.0
        for r, s in zip(t, p):
            u = sum(x | y for x, y in zip(r, s))
            j += sum(x & y for x, y in zip(r, s)) / u if u else 1.0
        exp['j_index'] = j / N
        for k, v in exp.items():
            g = getattr(mc, k)(*a)
            if not near(g, v):
                return '%s(%s, %s) = %r, expected %r' % (k, t, p, g, v)
        return None
    W, kind = case['window'], case['kind']
    o = getattr(mc, CLS[kind, bool(W)])(*([W] if W else []))
    hist = []
    for i, (y, p) in enumerate(case['results']):
        if case['reset'] and i and i % case['reset'] == 0:
            o.reset()
            hist = []
            if any(getattr(o, k)() != 0 for k in SCORES[kind]) or o.get_last() != (None, None):
                return '%s.reset: %s' % (CLS[kind, bool(W)], o.get_info())
        a, b = (y[0], p[0]) if kind == 'single' else (np.array(y), np.array(p))
        o.add_result(a, b)
        hist.append((y, p))
        big = sum((u - v) ** 2 for r in hist for u, v in zip(*r))
        if W:
            hist = hist[-W:]
        n, T = len(hist), len(y)
        sq = [sum((r[0][j] - r[1][j]) ** 2 for r in hist) / n for j in range(T)]
        ab = [sum(abs(r[0][j] - r[1][j]) for r in hist) / n for j in range(T)]
        exp = [sum(sq) / T, sum(ab) / T, sum(math.sqrt(x) for x in sq) / T]
        where = '%s(window %s) after %s: ' % (CLS[kind, bool(W)], W, case['results'][:i + 1][-12:])
        for k, v in zip(SCORES[kind], exp):
            g = getattr(o, k)()
            tol = 1e-3 if 'root' in k else 1e-7
            if not abs(g - v) <= tol * (1 + abs(v)) * max(1.0, big ** .5 * 1e-6):
                return where + '%s() %r, expected %r' % (k, g, v)
        if getattr(o, 'sample_count', n) != n:
            return where + 'covers %r results, expected %d' % (o.sample_count, n)
        la, lb = o.get_last()
        if not (np.array_equal(la, a) and np.array_equal(lb, b)):
            return where + 'get_last %r' % ((la, lb),)
    return None
