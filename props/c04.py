"""C04: ADWIN and KSWIN keep exactly the suffix of the stream they report on."""
import math
import numpy as np
from pv import sym as S
from pv.sym import eq, and_, or_, not_, implies, iff, ite, sqrt, log, toreal, Sym, PathEnd
from pv.vm import Obj

ID = 'C04'
BUDGET = 10
MAX_CASES = 4000
F = 'drift_detection/adwin.py'
M = 5
ASSUME = ['KSWIN: scipy.stats.ks_2samp is trusted; its arguments and the use of its result are checked']
BOUNDED = ['ADWIN.add_element/delete_element/detected_change: window structures of at most 4 rows of buckets (arbitrary contents), larger ones at run time only']


def vis(it):
    """the live buckets of a row: [(total, variance)], oldest first"""
    k = it.fields['bucket_size_row']
    return [(it.fields['bucket_total'][j], it.fields['bucket_variance'][j]) for j in range(k)]


def rows(o, vm):
    out, it, prev = [], o.fields['list_row_bucket'].fields['_first'], None
    while it is not None:
        out.append(vis(it))
        vm.prove('back link', it.fields['previous'] is prev)
        prev, it = it, it.fields['next']
        if len(out) > 12:
            vm.prove('list is finite', False)
    vm.prove('tail link', o.fields['list_row_bucket'].fields['_last'] is prev)
    return out


def arbitrary(vm, sizes, **kw):
    """an ADWIN whose rows hold sizes[i] buckets of 2**i elements each, arbitrary contents, consistent with the window"""
    c = vm.cls(F, 'ADWIN')
    o = vm.new(c, delta=vm.inp('delta', 'real', 0, 1))
    vm.assume(o.fields['delta'] > 0)
    ls = o.fields['list_row_bucket']
    view = []
    for i, k in enumerate(sizes):
        if i:
            vm.method(ls, 'add_to_tail')
        it = ls.fields['_last']
        row = []
        for j in range(k):
            t, v = vm.inp('t%d_%d' % (i, j)), vm.inp('v%d_%d' % (i, j), 'real', 0)
            vm.method(it, 'insert_bucket', t, v)
            row.append((t, v))
        view.append(row)
    W = sum(k << i for i, k in enumerate(sizes))
    T = 0
    for r in view:
        for t, v in r:
            T = T + t
    o.fields.update(_width=W, _total=T, _variance=vm.inp('variance', 'real', 0), last_bucket_row=len(sizes) - 1,
                    bucket_number=sum(sizes), mint_time=vm.inp('time', 'int', 0), mint_clock=vm.inp('clock', 'int', 1), _n_detections=vm.inp('n_det', 'int', 0))
    o.fields['bucket_num_max'] = 1000
    return o, view, W, T


def same_view(vm, got, want, label):
    vm.prove(label + ': number of rows', len(got) == len(want))
    for i, (a, b) in enumerate(zip(got, want)):
        vm.prove('%s: buckets in row %d' % (label, i), len(a) == len(b))
        for j, (x, y) in enumerate(zip(a, b)):
            vm.prove('%s: total of bucket %d,%d' % (label, i, j), eq(x[0], y[0]))
            vm.prove('%s: variance of bucket %d,%d' % (label, i, j), eq(x[1], y[1]))


def insert_spec(view, v):
    view = [list(r) for r in view]
    view[0].append((v, 0))
    i = 0
    while len(view[i]) > M:
        if i + 1 == len(view):
            view.append([])
        (t0, v0), (t1, v1) = view[i][:2]
        n = 1 << i
        inc = toreal(n * n) * (t0 / n - t1 / n) * (t0 / n - t1 / n) / (2 * n)
        # as implemented: the variance of the older bucket is not carried over (known finding)
        view[i + 1].append((t0 + t1, v1 + inc))
        view[i] = view[i][2:]
        i += 1
    return view


def u_new(vm):
    d = vm.inp('delta')
    o = vm.new(vm.cls(F, 'ADWIN'), delta=d)
    vm.prove('empty', and_(eq(vm.getattr(o, 'width'), 0), eq(vm.getattr(o, 'total'), 0), eq(vm.getattr(o, 'estimation'), 0),
                           eq(vm.getattr(o, 'n_detections'), 0), eq(o.fields['delta'], d), not_(o.fields['in_concept_change'])))
    same_view(vm, rows(o, vm), [[]], 'new')
    # reset of a used detector
    p, view, W, T = arbitrary(vm, [3, 2])
    dd = p.fields['delta']
    vm.method(p, 'reset')
    vm.prove('reset', and_(eq(vm.getattr(p, 'width'), 0), eq(vm.getattr(p, 'total'), 0), eq(vm.getattr(p, 'n_detections'), 0),
                           eq(p.fields['delta'], dd), eq(p.fields['_variance'], 0), eq(p.fields['mint_time'], 0), not_(p.fields['in_concept_change'])))
    same_view(vm, rows(p, vm), [[]], 'reset')
    vm.prove('no warning zone', not_(vm.method(p, 'detected_warning_zone')))


def u_add(sizes):
    def u(vm):
        o, view, W, T = arbitrary(vm, sizes)
        V = o.fields['_variance']
        x = vm.inp('x')
        vm.method(o, 'add_element', x)
        vm.prove('width', eq(vm.getattr(o, 'width'), W + 1))
        vm.prove('total', eq(vm.getattr(o, 'total'), T + x))
        vm.prove('estimation', eq(vm.getattr(o, 'estimation'), (T + x) / (W + 1)))
        inc = 0 if W == 0 else toreal(W) * (x - T / W) * (x - T / W) / (W + 1)
        vm.prove('variance', eq(vm.getattr(o, 'variance'), (V + inc) / (W + 1)))
        want = insert_spec(view, x)
        same_view(vm, rows(o, vm), want, 'buckets')
        vm.prove('last row', eq(o.fields['last_bucket_row'], len(want) - 1))
        s = 0
        for r in rows(o, vm):
            for t, _ in r:
                s = s + t
        vm.prove('bucket totals add up to the window total', eq(s, T + x))
        vm.prove('bucket sizes add up to the width', sum(len(r) << i for i, r in enumerate(rows(o, vm))) == W + 1)
    return u


def delete_spec(vm, view, W, T, V):
    view = [list(r) for r in view]
    i = len(view) - 1
    n1 = 1 << i
    t, v = view[i].pop(0)
    if not view[i] and i:
        view.pop()
    W2, T2 = W - n1, T - t
    d = t / n1 - T2 / W2
    V2 = V - (v + toreal(n1 * W2) * d * d / W)
    return view, W2, T2, V2, n1


def u_delete(sizes):
    def u(vm):
        o, view, W, T = arbitrary(vm, sizes)
        V = o.fields['_variance']
        r = vm.method(o, 'delete_element')
        want, W2, T2, V2, n1 = delete_spec(vm, view, W, T, V)
        vm.prove('number of dropped elements', eq(r, n1))
        vm.prove('width', eq(vm.getattr(o, 'width'), W2))
        vm.prove('total', eq(vm.getattr(o, 'total'), T2))
        vm.prove('variance', eq(o.fields['_variance'], V2))
        same_view(vm, rows(o, vm), want, 'buckets')
        vm.prove('last row', eq(o.fields['last_bucket_row'], len(want) - 1))
    return u


def u_cut(vm):
    """the comparison of two sub-windows"""
    o, view, W, T = arbitrary(vm, [5, 4])
    n = vm.inp('W', 'int', 11)
    o.fields['_width'] = n
    n0 = vm.inp('n0', 'int', 5)
    n1 = vm.inp('n1', 'int', 5)
    vm.assume(eq(n0 + n1, n))
    u0, u1 = vm.inp('u0'), vm.inp('u1')
    d = u0 / n0 - u1 / n1
    vm.assume(log(n) >= 2)                       # ln 11 > 2
    vm.assume(log(2 * log(n) / o.fields['delta']) >= 1)   # ln 4 > 1
    r = vm.method(o, '__bln_cut_expression', n0, n1, u0, u1, vm.inp('w0'), vm.inp('w1'), d, o.fields['delta'])
    var = o.fields['_variance'] / n
    dd = log(2 * log(n) / o.fields['delta'])
    m = 1 / toreal(n0 - 4) + 1 / toreal(n1 - 4)
    eps = sqrt(2 * m * var * dd) + toreal(2) / 3 * dd * m
    vm.prove('cut iff the means differ by more than epsilon', iff(r, or_(d > eps, -d > eps)))


def u_detect(sizes):
    """detected_change against the contracts of the cut expression and delete_element"""
    def u(vm):
        o, view, W, T = arbitrary(vm, sizes)
        st = dict(view=view, W=W, T=T, cut=0, asked=[], fired=0)
        log_ = []

        def expect(view, W, T):
            """the splits looked at, oldest first, as (n0, u0); the last bucket of every row is skipped as implemented (known finding)"""
            n0, u0, out = 0, 0, []
            for i in range(len(view) - 1, -1, -1):
                for k in range(len(view[i]) - 1):
                    n0 += 1 << i
                    u0 = u0 + view[i][k][0]
                    if n0 >= 5 and W - n0 >= 5:
                        out.append((n0, u0))
            return out

        st['todo'] = expect(view, W, T)

        def cut(vm, self, args, kw):
            n0, n1, u0, u1, v0, v1, d, delta = args
            vm.prove('a split is left to look at', len(st['todo']) > 0)
            e0, eu = st['todo'].pop(0)
            vm.prove('sub-window sizes', and_(eq(n0, e0), eq(n1, st['W'] - e0)))
            vm.prove('sub-window sums', and_(eq(u0, eu), eq(u1, st['T'] - eu)))
            vm.prove('difference of means', or_(eq(d, eu / e0 - (st['T'] - eu) / (st['W'] - e0)), eq(-d, eu / e0 - (st['T'] - eu) / (st['W'] - e0))))
            vm.prove('delta', eq(delta, o.fields['delta']))
            if st['fired'] < 2 and vm.choose(2):
                st['fired'] += 1
                st['pending'] = True
                return True
            return False

        def delete(vm, self, args, kw):
            vm.prove('elements are dropped only after a cut', st.pop('pending', False))
            v, W2, T2, V2, n1 = delete_spec(vm, st['view'], st['W'], st['T'], o.fields['_variance'])
            it = o.fields['list_row_bucket'].fields['_last']
            vm.method(it, 'remove_bucket')
            if len(v) < len(st['view']):
                vm.method(o.fields['list_row_bucket'], 'remove_from_tail')
                o.fields['last_bucket_row'] -= 1
            o.fields.update(_width=W2, _total=T2, _variance=V2)
            st.update(view=v, W=W2, T=T2, todo=expect(v, W2, T2))
            return n1
        vm.unroll_forks = 100
        vm.contract(F, 'ADWIN', '__bln_cut_expression', cut)
        vm.contract(F, 'ADWIN', 'delete_element', delete)
        t, clk, nd, mw = o.fields['mint_time'], o.fields['mint_clock'], o.fields['_n_detections'], o.fields['mdbl_width']
        r = vm.method(o, 'detected_change')
        due = vm.truth(and_(eq((t + 1) % clk, 0), W > 10))
        if due:
            vm.prove('every split was looked at after the last cut', len(st['todo']) == 0)
        else:
            vm.prove('no split is looked at outside the clock', st['fired'] == 0 and st['todo'] == expect(view, W, T))
        vm.prove('change iff something was dropped', eq(r, st['fired'] > 0))
        vm.prove('flag', eq(o.fields['in_concept_change'], r))
        vm.prove('detections counted', eq(vm.getattr(o, 'n_detections'), nd + (1 if st['fired'] else 0)))
        vm.prove('time', eq(o.fields['mint_time'], t + 1))
        vm.prove('width and total', and_(eq(vm.getattr(o, 'width'), st['W']), eq(vm.getattr(o, 'total'), st['T'])))
        same_view(vm, rows(o, vm), st['view'], 'buckets')
    return u


SIZES_ADD = [[k] for k in range(6)] + [[5, k] for k in range(1, 6)] + [[5, 5, k] for k in range(1, 6)] + [[5, 5, 5, k] for k in (1, 4, 5)] + [[4, 5, 5], [2, 3, 1, 4]]
SIZES_DEL = [[5, 1], [4, 2], [5, 5], [3, 4, 1], [4, 4, 3], [4, 5, 5, 1], [5, 4, 4, 2]]
SIZES_DET = [[4, 4], [5, 3], [5, 5], [2, 1], [4, 4, 1], [5, 4, 2]]
UNITS = [('ADWIN.__init__/reset', u_new)]
UNITS += [('ADWIN.add_element%s' % s, u_add(s)) for s in SIZES_ADD]
UNITS += [('ADWIN.delete_element%s' % s, u_delete(s)) for s in SIZES_DEL]
UNITS += [('ADWIN.cut_expression', u_cut)]
UNITS += [('ADWIN.detected_change%s' % s, u_detect(s)) for s in SIZES_DET]


# ------------------------------------------------------------------ KSWIN
KF = 'drift_detection/kswin.py'


def u_kswin(L, w, k, lone=False):
    """a window of L values, window size w, statistic size k"""
    def u(vm):
        alpha = vm.inp('alpha', 'real', 0, 1)
        o = vm.new(vm.cls(KF, 'KSWIN'), alpha=alpha, window_size=w, stat_size=k)
        vm.prove('new window is empty', and_(o.fields['window'].shape == (0,), not_(vm.method(o, 'detected_change'))))
        W = [vm.inp('w%d' % i) for i in range(L)]
        o.fields['window'] = vm.born(np.array(W + [None], dtype=object)[:-1])
        o.fields['change_detected'] = vm.inp('changed', 'bool')
        x = vm.inp('x')
        seen = {}

        def choice(vm, pool, size, *rest, **kw):
            if rest or set(kw) - {'replace'}:
                raise S.Unsupported('choice with p')
            seen['pool'] = list(pool)
            seen['choices'] = seen.get('choices', 0) + 1
            out = [vm.fresh('pick') for _ in range(size)]
            r = np.empty(size, dtype=object)
            r[:] = out
            seen['picked'] = out
            return vm.born(r)

        def ks(vm, *args, **kw):
            seen['ks'] = (list(args[0]), list(args[1]))
            seen['st'], seen['p'] = vm.fresh('st'), vm.fresh('p')
            return (seen['st'], seen['p'])
        vm.hooks['ext'] = {'numpy.random.choice': choice, 'scipy.stats.ks_2samp': ks}
        vm.method(o, 'add_element', x)
        got = list(o.fields['window'])
        ch = vm.method(o, 'detected_change')
        if L < w:
            want, flag = W + [x], False
            vm.prove('no test before the window is full', 'ks' not in seen)
        else:
            V = W[1:]
            vm.prove('one test', 'ks' in seen)
            same = lambda a, b: and_(len(a) == len(b), *[eq(p, q) for p, q in zip(a, b)])
            vm.prove('sample drawn from the older part', and_(seen['choices'] == 1, same(seen['pool'], V[:-k]), len(seen['picked']) == k))
            a, b = seen['ks']
            vm.prove('compared with the newest part', or_(and_(same(a, seen['picked']), same(b, V[-k:])), and_(same(b, seen['picked']), same(a, V[-k:]))))
            flag = vm.truth(and_(seen['p'] <= alpha, seen['st'] > 0.1))
            want = (V[-k:] if flag else V) + [x]
        vm.prove('flag', eq(ch, flag))
        vm.prove('window', and_(len(got) == len(want), *[eq(a, b) for a, b in zip(got, want)]))
        vm.method(o, 'reset')
        vm.prove('reset', and_(o.fields['window'].shape == (0,), not_(vm.method(o, 'detected_change'))))
    return u


def u_kswin_bad(vm):
    from pv.sym import PyRaise
    a, w, k = vm.inp('alpha'), vm.inp('w', 'int'), vm.inp('k', 'int')
    try:
        vm.new(vm.cls(KF, 'KSWIN'), alpha=a, window_size=w, stat_size=k)
    except PyRaise as e:
        vm.prove('ValueError', e.name == 'ValueError')
        vm.prove('rejected only if invalid', or_(a < 0, a > 1, w < 0, w < k))
        return
    vm.prove('accepted only if valid', and_(a >= 0, a <= 1, w >= 0, w >= k))


UNITS += [('KSWIN.add_element[%d/%d,%d]' % a, u_kswin(*a)) for a in ((0, 4, 2), (3, 4, 2), (4, 4, 2), (6, 6, 2), (3, 3, 1))]
UNITS += [('KSWIN.__init__', u_kswin_bad)]
BOUNDED.append('KSWIN.add_element: window sizes up to 6 (arbitrary contents); larger ones at run time only')


# ------------------------------------------------------------------ run time
def stream(rnd):
    n = rnd.choice([40, 100, 300, 700, 1500])
    kind = rnd.choice(['bern', 'gauss', 'const', 'steps', 'ramp'])
    xs = []
    p, base = rnd.random(), rnd.choice([0, 0, 10, -3])
    seg = rnd.choice([50, 64, 100, 200, 500])
    for i in range(n):
        if i % seg == 0:
            p = rnd.random()
        if kind == 'bern':
            xs.append(int(rnd.random() < p))
        elif kind == 'gauss':
            xs.append(base + 5 * p + rnd.gauss(0, 1))
        elif kind == 'const':
            xs.append(base + p)
        elif kind == 'steps':
            xs.append(base + (1 if (i // seg) % 2 else 0) * 3 + rnd.choice([0, .5]))
        else:
            xs.append(base + i * .01 + rnd.random())
    return xs


def cases(rnd, hints, tier):
    while True:
        if rnd.random() < .75:
            yield dict(cls='ADWIN', delta=rnd.choice([.002, .002, .05, .5, .99, 1e-6]), xs=stream(rnd), ask=rnd.choice([1, 1, 1, 2, 7]),
                       clock=rnd.choice([32, 32, 1, 5]), reset=rnd.choice([0, 0, 0, 57]))
        else:
            w = rnd.choice([5, 10, 30, 60])
            yield dict(cls='KSWIN', alpha=rnd.choice([.005, .05, .5, 0.0001]), w=w, k=rnd.choice([1, 2, max(1, w // 4), w // 2]), xs=stream(rnd)[:300], seed=rnd.randrange(1000),
                       reset=rnd.choice([0, 0, 70]))


class Ref:
    """window as raw elements in exponential buckets"""
    def __init__(self, delta, clock):
        self.rows, self.delta, self.t, self.clock, self.V, self.n_det = [[]], delta, 0, clock, 0.0, 0

    @property
    def elems(self):
        return [x for r in reversed(self.rows) for b in r for x in b[0]]

    def add(self, x):
        W = sum(len(r) << i for i, r in enumerate(self.rows))
        if W:
            mean = math.fsum(self.elems) / W
            self.V += W * (x - mean) ** 2 / (W + 1)
        self.rows[0].append(([x], 0.0))
        i = 0
        while len(self.rows[i]) > M:
            if i + 1 == len(self.rows):
                self.rows.append([])
            (a, va), (b, vb) = self.rows[i][:2]
            n = 1 << i
            self.rows[i + 1].append((a + b, vb + n / 2 * (sum(a) / n - sum(b) / n) ** 2))
            self.rows[i] = self.rows[i][2:]
            i += 1

    def splits(self):
        """looked-at split sizes, oldest first; the last bucket of every row is left out as implemented (known finding)"""
        n0, u0 = 0, 0.0
        for i in range(len(self.rows) - 1, -1, -1):
            for b, _ in self.rows[i][:-1]:
                n0 += 1 << i
                u0 += sum(b)
                yield n0, u0

    def detect(self):
        self.t += 1
        change, near = False, False
        if self.t % self.clock == 0 and len(self.elems) > 10:
            again = True
            while again:
                again = False
                el = self.elems
                W, T = len(el), sum(el)
                v = self.V / W
                dd = math.log(2 * math.log(W) / self.delta)
                for n0, u0 in self.splits():
                    n1, u1 = W - n0, T - u0
                    if n0 < 5 or n1 < 5:
                        continue
                    m = 1 / (n0 - 4) + 1 / (n1 - 4)
                    arg = 2 * m * v * dd
                    if arg < 0:
                        if arg < -1e-12:
                            continue          # numpy yields nan, which never exceeds
                        near = True
                        continue
                    eps = math.sqrt(arg) + 2 / 3 * dd * m
                    d = abs(u0 / n0 - u1 / n1)
                    if abs(d - eps) < 1e-9 * (1 + abs(eps)):
                        near = True
                    if d > eps:
                        change = again = True
                        i = len(self.rows) - 1
                        b, vb = self.rows[i].pop(0)
                        if not self.rows[i] and i:
                            self.rows.pop()
                        rest = self.elems
                        n = len(b)
                        self.V -= vb + n * len(rest) * (sum(b) / n - sum(rest) / len(rest)) ** 2 / W
                        break
        self.n_det += change
        return change, near


def close(a, b, sc=1.0):
    return abs(a - b) <= 1e-6 * (abs(sc) + abs(a) + abs(b))


def run_case(case):
    if case['cls'] == 'KSWIN':
        return run_kswin(case)
    from skmultiflow.drift_detection import ADWIN
    if case.get('finding'):
        return finding(case)
    with np.errstate(all='ignore'):
        o = ADWIN(delta=case['delta'])
        o.set_clock(case['clock'])
        r = Ref(case['delta'], case['clock'])
        cut = False
        for i, x in enumerate(case['xs']):
            if case['reset'] and i and i % case['reset'] == 0:
                o.reset()
                if o.width or o.total or o.estimation or o.n_detections or o.detected_change():
                    return 'ADWIN.reset after element %d leaves width %r total %r' % (i, o.width, o.total)
                o = ADWIN(delta=case['delta']) if i % 2 else o
                o.reset()
                if o.delta != case['delta']:
                    return 'ADWIN.reset lost delta: %r' % o.delta
                o.set_clock(case['clock'])
                r, cut = Ref(case['delta'], case['clock']), False
            o.add_element(x)
            r.add(x)
            el = r.elems
            where = 'ADWIN(delta=%r) after element %d of %s: ' % (case['delta'], i, case['xs'][:i + 1] if i < 60 else '%d elements' % len(case['xs']))
            if o.width != len(el):
                return where + 'width %r, window has %d elements' % (o.width, len(el))
            if el != case['xs'][max(0, i + 1 - len(el)):i + 1] and not case['reset']:
                return 'internal'
            sc = sum(abs(e) for e in el)
            if not close(o.total, sum(el), sc) or not close(o.estimation, sum(el) / len(el), 1):
                return where + 'total %r estimation %r, window sums to %r' % (o.total, o.estimation, sum(el))
            if not cut:
                v = float(np.var(np.array(el, dtype=float)))
                if not close(o.variance, v, 1):
                    return where + 'variance %r, window variance %r' % (o.variance, v)
            if i % case['ask'] == 0:
                a = bool(o.detected_change())
                b, near = r.detect()
                if near:
                    return None
                if a != b or o.n_detections != r.n_det:
                    return where + 'detected_change() %r, rule says %r (detections %d/%d)' % (a, b, o.n_detections, r.n_det)
                cut |= b
                if o.width != len(r.elems) or o.detected_warning_zone():
                    return where + 'width after detection %r, expected %d' % (o.width, len(r.elems))
    return None


def run_kswin(case):
    import skmultiflow.drift_detection.kswin as mod
    from skmultiflow.drift_detection import KSWIN
    import scipy.stats
    rec = []
    orig = scipy.stats.ks_2samp

    def ks(*a, **k):
        r = orig(*a, **k)
        rec.append((np.array(a[0]), np.array(a[1]), r))
        return r
    scipy.stats.ks_2samp = ks
    keep = getattr(mod, 'ks_2samp', None)
    try:
        np.random.seed(case['seed'])
        o = KSWIN(alpha=case['alpha'], window_size=case['w'], stat_size=case['k'])
        win = []
        for i, x in enumerate(case['xs']):
            if case['reset'] and i and i % case['reset'] == 0:
                o.reset()
                win = []
                if len(o.window) or o.detected_change():
                    return 'KSWIN.reset leaves %d elements' % len(o.window)
            del rec[:]
            o.add_element(x)
            where = 'KSWIN(alpha=%r, window_size=%d, stat_size=%d) after element %d: ' % (case['alpha'], case['w'], case['k'], i)
            ch = False
            if len(win) >= case['w']:
                win = win[1:]
                if len(rec) != 1:
                    return where + '%d KS tests' % len(rec) if keep is None else None
                a, b, res = rec[0]
                if len(a) == len(b) and list(a) == win[-case['k']:] and list(b) != win[-case['k']:]:
                    a, b = b, a
                old = win[:-case['k']]
                if list(b) != win[-case['k']:] or len(a) != case['k'] or any(v not in old for v in a):
                    return where + 'KS test compared %s with %s; window %s' % (a, b, win)
                if res[1] <= case['alpha'] and res[0] > .1:
                    ch = True
                    win = win[-case['k']:]
            elif rec:
                return where + 'tested before the window was full'
            win = win + [x]
            if bool(o.detected_change()) != ch or list(o.window) != win:
                return where + 'detected_change() %r, expected %r; window of %d, expected %d' % (o.detected_change(), ch, len(o.window), len(win))
    finally:
        scipy.stats.ks_2samp = orig
    return None


def finding(case):
    from skmultiflow.drift_detection import ADWIN
    if case['finding'] == 'variance':
        o = ADWIN(delta=.002)
        seen = []
        for x in case['xs']:
            o.add_element(x)
            seen.append(x)
            o.detected_change()
        v = float(np.var(seen[-o.width:]))
        if not close(o.variance, v):
            return '[variance after a cut] variance %r, window variance %r' % (o.variance, v)
    if case['finding'] == 'splits':
        # a split that the published rule acts on but that lies behind the last bucket of a row
        o = ADWIN(delta=case['delta'])
        for x in case['xs']:
            o.add_element(x)
            ch = o.detected_change()
        el = case['xs']
        W, T, v = len(el), sum(el), float(np.var(el))
        dd = math.log(2 * math.log(W) / case['delta'])
        hit = False
        ref = Ref(case['delta'], 32)
        for x in el:
            ref.add(x)
        bounds, n = [], 0
        for i in range(len(ref.rows) - 1, -1, -1):
            for _ in ref.rows[i]:
                n += 1 << i
                bounds.append(n)
        for n0 in [b for b in bounds if 5 <= b <= W - 5]:
            u0 = sum(el[:n0])
            m = 1 / (n0 - 4) + 1 / (W - n0 - 4)
            hit |= abs(u0 / n0 - (T - u0) / (W - n0)) > math.sqrt(2 * m * v * dd) + 2 / 3 * dd * m
        if hit and not ch and o.width == W:
            return '[splits skipped] no change reported although a split at a bucket boundary exceeds the bound'
    return None
