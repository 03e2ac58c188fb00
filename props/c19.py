"""C19: stream transforms (windowed scalers, missing values, one-hot groups) and pipelines."""
import itertools
import numpy as np
from pv import sym as S
from pv.sym import eq, and_, or_, not_, Sym, Unsupported
from pv.vm import PyRaise
from props.learnmodel import fn, arr, same

ID = 'C19'
BUDGET = 22
MAX_CASES = 5000
T = 'transform/'
SS, MM, MV, OH = T + 'windowed_standard_scaler.py', T + 'windowed_minmax_scaler.py', T + 'missing_values_cleaner.py', T + 'one_hot_to_categorical.py'
PL, IH = 'core/pipeline.py', 'core/instance_header.py'
ASSUME = ['real arithmetic; scaled values are compared up to rounding at run time', 'numpy nan-statistics, numpy.median and scipy.stats.mode follow their definitions',
          'categorical groups are runs of consecutive columns in ascending order']
BOUNDED = ['windows of up to 3 rows, batches of up to 2 rows of up to 2 features, groups of up to 3 columns, pipelines of up to 2 transforms in the proofs (all values symbolic)']
KIND = {'std': (SS, 'WindowedStandardScaler'), 'minmax': (MM, 'WindowedMinmaxScaler')}


def tot(xs):
    r = 0
    for x in xs:
        r = r + x
    return r


def rows_of(X):
    return [list(r) for r in X]


def given(vm, X, aslist):
    return vm.born([vm.born(list(r)) for r in X]) if aslist else X


def untouched(vm, G, want):
    vm.prove('the given samples are left alone', and_(len(G) == len(want), *[same(list(g), w) for g, w in zip(G, want)]))


def window(vm, o):
    q = vm.method(vm.getattr(o, 'window'), 'get_queue')
    return [list(r) for r in q]


def window_is(vm, o, want, what='the window holds the newest samples as given'):
    w = window(vm, o)
    ok = len(w) == len(want)
    for a, b in zip(w, want):
        ok = and_(ok, len(a) == len(b), *[(eq(x, y) if isinstance(x, Sym) or isinstance(y, Sym) else (x == y or (x != x and y != y))) for x, y in zip(a, b)])
    vm.prove(what, ok)


def scaled(kind, x, col, out):
    """out is the scaled value of x for the window column"""
    if kind == 'std':
        n = len(col)
        if not n:
            return eq(out, x)
        m = S.div(tot(col), n)
        v = S.div(tot([(c - m) * (c - m) for c in col]), n)
        # out * std = x - m, with std >= 0 the root of v (1 if v is 0)
        d = x - m
        return S.ite(eq(v, 0), eq(out, d), and_(eq(out * out * v, d * d), S.ite(d >= 0, out >= 0, out <= 0)))
    lo, hi = (col[0], col[0]) if col else (0, 1)
    for c in col[1:]:
        lo, hi = S.smin(lo, c), S.smax(hi, c)
    # known finding: the value is mapped back to the original range
    return S.ite(eq(lo, hi), eq(out, 0), or_(eq(out * (hi - lo), x - lo), eq(out, x)))


def u_scaler(kind, w, m, r, c, aslist=False, meth='transform'):
    def u(vm):
        o = vm.new(vm.cls(*KIND[kind]), w)
        win = []
        if m:
            P = arr(vm, m, c, name='p')
            vm.prove('partial_fit returns self', vm.method(o, 'partial_fit', P) is o)
            win = rows_of(P)[-w:]
            untouched(vm, P, rows_of(P))
        X = arr(vm, r, c)
        want = rows_of(X)
        G = given(vm, X, aslist)
        out = vm.method(o, meth, G)
        untouched(vm, G, want)
        vm.prove('one row of the same width per sample', and_(len(out) == r, *[len(list(q)) == c for q in out]))
        for i, x in enumerate(want):
            for j in range(c):
                vm.prove('sample %d feature %d is scaled by the window before it' % (i, j), scaled(kind, x[j], [q[j] for q in win], out[i][j]))
            win = (win + [x])[-w:]
        window_is(vm, o, win)
    return u


def u_scaler_fit(kind, w):
    """partial_fit keeps the values, not references"""
    def u(vm):
        o = vm.new(vm.cls(*KIND[kind]), w)
        P = arr(vm, 2, 2, name='p')
        want = rows_of(P)
        vm.method(o, 'partial_fit', P)
        vm.method(o, 'partial_fit', P[0:1])
        P[0, 0] = vm.inp('later', 'real')
        window_is(vm, o, (want + [want[0]])[-w:])
        vm.prove('reset returns self', vm.method(o, 'reset') is o)
        window_is(vm, o, [], 'reset empties the window')
        vm.prove('reset keeps the size', eq(vm.getattr(vm.getattr(o, 'window'), 'max_size'), w))
    return u


NAN = float('nan')


def isnan(x):
    return not isinstance(x, Sym) and x != x


def cell(vm, name, codes):
    """a missing or ordinary value; (value, missing)"""
    k = vm.choose(2 + len(codes)) if codes else vm.choose(2)
    if k == 0:
        x = vm.inp(name, 'real')
        vm.assume(and_(*[not_(eq(x, c)) for c in codes] or [True]))
        return x, False
    if k == 1:
        return NAN, True
    return codes[k - 2], True


def substitute(strategy, col, new):
    """the replacement is x (as a condition on x)"""
    if strategy == 'zero':
        return lambda x: eq(x, 0)
    obs = [v for v in col if not isnan(v)]
    if strategy == 'custom' or not obs:
        return lambda x: eq(x, new)
    n = len(obs)
    if strategy == 'mean':
        return lambda x: eq(x * n, tot(obs))
    if strategy == 'median':
        s = list(obs)
        for r in range(n):
            for i in range(r % 2, n - 1, 2):
                s[i], s[i + 1] = S.smin(s[i], s[i + 1]), S.smax(s[i], s[i + 1])
        return lambda x: eq(x, s[n // 2]) if n % 2 else eq(x * 2, s[n // 2 - 1] + s[n // 2])

    def mode(x):
        cnt = [tot([S.ite(eq(a, b), 1, 0) for b in obs]) for a in obs]
        top = cnt[0]
        for c in cnt[1:]:
            top = S.smax(top, c)
        return and_(or_(*[and_(eq(x, a), eq(c, top)) for a, c in zip(obs, cnt)]), *[or_(x <= a, not_(eq(c, top))) for a, c in zip(obs, cnt)])
    return mode


def u_clean(strategy, w, m, r, c, codes, aslist=False, meth='transform'):
    """codes: missing value parameter (None: the default)"""
    def u(vm):
        new = vm.inp('new_value', 'real')
        cs = [] if codes is None else (list(codes) if isinstance(codes, list) else [codes])
        kw = {} if codes is None else dict(missing_value=vm.born(list(codes)) if isinstance(codes, list) else codes)
        o = vm.new(vm.cls(MV, 'MissingValuesCleaner'), strategy=strategy, window_size=w, new_value=new, **kw)
        keeps = strategy in ('mean', 'median', 'mode')

        def batch(n, name):
            X = np.empty((n, c), dtype=object)
            miss = {}
            for i in range(n):
                for j in range(c):
                    X[i, j], miss[i, j] = cell(vm, '%s%d_%d' % (name, i, j), cs)
            return vm.born(X), miss
        win = []
        if m:
            P, miss = batch(m, 'p')
            before = rows_of(P)
            vm.prove('partial_fit returns self', vm.method(o, 'partial_fit', P) is o)
            nan_same(vm, P, before)
            win = [[NAN if miss[i, j] else before[i][j] for j in range(c)] for i in range(m)][-w:]
        X, miss = batch(r, 'x')
        want = rows_of(X)
        G = given(vm, X, aslist)
        out = vm.method(o, meth, G)
        nan_same(vm, G, want)
        vm.prove('one row of the same width per sample', and_(len(out) == r, *[len(list(q)) == c for q in out]))
        for i, x in enumerate(want):
            win = (win + [[NAN if miss[i, j] else x[j] for j in range(c)]])[-w:]
            for j in range(c):
                if not miss[i, j]:
                    vm.prove('observed values stay', eq(out[i][j], x[j]))
                else:
                    vm.prove('a missing value gets the replacement of the strategy', not isnan(out[i][j]) and substitute(strategy, [q[j] for q in win], new)(out[i][j]))
        if keeps:
            window_is(vm, o, win, 'the window holds the observed values of the newest samples')
    return u


def nan_same(vm, G, want):
    ok = len(G) == len(want)
    for g, w in zip(G, want):
        g = list(g)
        ok = and_(ok, len(g) == len(w), *[(eq(x, y) if isinstance(x, Sym) or isinstance(y, Sym) else (x == y or (x != x and y != y))) for x, y in zip(g, w)])
    vm.prove('the given samples are left alone', ok)


def u_onehot(layout, r, meth='transform'):
    """layout: widths of the groups, 1 for a column of its own"""
    def u(vm):
        vm.unroll_forks = 30
        groups, at = [], 0
        for k, g in layout:
            if g:
                groups.append(list(range(at, at + k)))
            at += k
        o = vm.new(vm.cls(OH, 'OneHotToCategorical'), vm.born([vm.born(list(g)) for g in groups]))
        X = arr(vm, r, at)
        want = rows_of(X)
        out = vm.method(o, meth, X)
        untouched(vm, X, want)
        vm.prove('one row per sample, one column per group or other feature', and_(len(out) == r, *[len(list(q)) == len(layout) for q in out]))
        for i, x in enumerate(want):
            at = 0
            for j, (k, g) in enumerate(layout):
                if not g:
                    vm.prove('other features stay, in order', eq(out[i][j], x[at]))
                else:
                    v = k
                    for q in reversed(range(k)):
                        v = S.ite(eq(x[at + q], 1), q, v)
                    vm.prove('a group becomes the position of its 1', eq(out[i][j], v))
                at += k
    return u


class Step:
    """a transform or a learner of a pipeline: what it is asked is recorded, its answers are new tokens"""
    def __init__(self, log, name, methods, classes=()):
        self.log, self.name, self.methods, self.classes = log, name, methods, set(classes)

    def pv_getattr(self, vm, name):
        if name not in self.methods:
            raise PyRaise('AttributeError', (name,))
        params = ['X', 'y'] if name != 'transform' and name != 'predict' else ['X']
        if name in self.classes:
            params.append('classes')

        def call(*a, **k):
            got = dict(zip(params, a))
            for n, v in k.items():
                if n not in params or n in got:
                    raise PyRaise('TypeError', ('unexpected argument',))
                got[n] = v
            if len(a) > len(params):
                raise PyRaise('TypeError', ('too many arguments',))
            self.log.append((self.name, name, got))
            if name in ('fit', 'partial_fit'):
                return self
            return Token(self.log, len(self.log) - 1)
        return fn(call, params)


class Token:
    """an opaque result"""
    def __init__(self, log, no):
        self.log, self.no = log, no

    def pv_getattr(self, vm, name):
        raise PyRaise('AttributeError', (name,))


STYLES = {   # methods, those that take classes
    'skm': (('transform', 'partial_fit', 'partial_fit_transform'), ()),
    'skmc': (('transform', 'partial_fit', 'partial_fit_transform', 'fit'), ('partial_fit', 'partial_fit_transform')),
    'own': (('transform', 'partial_fit', 'fit'), ()),
    'ownc': (('transform', 'partial_fit', 'fit'), ('partial_fit',)),
    'sk': (('transform', 'fit_transform', 'fit', 'partial_fit'), ()),
    None: None}
LEARN = {'clf': (('fit', 'partial_fit', 'predict'), ('partial_fit',)), 'reg': (('fit', 'partial_fit', 'predict'), ()),
         'pfp': (('fit', 'partial_fit', 'predict', 'partial_fit_predict'), ('partial_fit',)), None: None}


def u_pipe(styles, last, what):
    def u(vm):
        log = []
        steps = [('t%d' % i, None if s is None else Step(log, 't%d' % i, *STYLES[s])) for i, s in enumerate(styles)]
        steps.append(('end', None if last is None else Step(log, 'end', *LEARN[last])))
        given_steps = vm.born(list(steps))
        pipe = vm.new(vm.cls(PL, 'Pipeline'), given_steps)
        vm.prove('the pipeline is active', vm.getattr(pipe, 'active') is True)
        named = vm.method(pipe, 'named_steps')
        vm.prove('named_steps maps every name to its step', and_(len(named) == len(steps), *[named[n] is s for n, s in steps]))
        X, y, cl = Token(log, 'X'), Token(log, 'y'), Token(log, 'classes')
        if what == 'predict':
            ret = vm.method(pipe, 'predict', X)
        elif what == 'partial_fit':
            wc = vm.choose(2)
            ret = vm.method(pipe, 'partial_fit', X, y, classes=cl) if wc else vm.method(pipe, 'partial_fit', X, y)
            cl = cl if wc else None
        else:
            ret = vm.method(pipe, what, X, y)
        # the steps in order, each fed with the result of the one before
        k, at = 0, X
        def entry(i):
            return log[i] if i < len(log) else (None, None, {})

        def fed(e, name, methods, x, withy, classes):
            ok = e[0] == name and e[1] in methods and e[2].get('X') is x
            if withy:
                ok = ok and e[2].get('y') is y
            if what == 'partial_fit' and classes:
                ok = ok and e[2].get('classes') is cl
            return ok
        for (n, s), st in zip(steps[:-1], styles):
            if s is None:
                continue
            meths, tc = STYLES[st]
            if what == 'predict':
                vm.prove('%s only transforms' % n, fed(entry(k), n, ('transform',), at, False, False))
            else:
                pre = 'partial_' if what != 'fit' else ''
                m = entry(k)[1]
                both, one = pre + 'fit_transform', pre + 'fit'
                if both in meths:
                    vm.prove('%s learns and transforms' % n, fed(entry(k), n, (both,), at, True, both in tc))
                else:
                    vm.prove('%s learns' % n, fed(entry(k), n, (one,), at, True, one in tc))
                    k += 1
                    vm.prove('%s then transforms the same samples' % n, fed(entry(k), n, ('transform',), at, False, False))
            at = Token(log, k)
            # tokens are compared by identity: find the one handed on
            nxt = entry(k + 1)[2].get('X') if k + 1 < len(log) else None
            if nxt is not None and getattr(nxt, 'no', None) == k:
                at = nxt
            k += 1
        if last is not None:
            meths, tc = LEARN[last]
            if what == 'predict':
                vm.prove('the learner predicts for the transformed samples', fed(entry(k), 'end', ('predict',), at, False, False))
                vm.prove('its predictions are returned', getattr(ret, 'no', None) == k)
            elif what == 'partial_fit_predict':
                if what in meths:
                    vm.prove('the learner learns and predicts', fed(entry(k), 'end', (what,), at, True, False))
                else:
                    vm.prove('the learner learns', fed(entry(k), 'end', ('partial_fit',), at, True, False))
                    k += 1
                    vm.prove('the learner predicts', fed(entry(k), 'end', ('predict',), at, False, False))
                vm.prove('its predictions are returned', getattr(ret, 'no', None) == k)
            else:
                vm.prove('the learner learns the transformed samples', fed(entry(k), 'end', (what,), at, True, what in tc))
            k += 1
        if what in ('fit', 'partial_fit'):
            vm.prove('%s returns self' % what, ret is pipe)
        vm.prove('nothing else is asked', len(log) == k)
        vm.prove('the steps stay', and_(len(given_steps) == len(steps), *[a is b for a, b in zip(given_steps, steps)]))
    return u


def u_pipe_valid(vm):
    log = []
    fits = [m for m in ('fit', 'fit_transform', 'partial_fit', 'partial_fit_transform') if vm.choose(2)]
    tr = vm.choose(2) == 1
    learn = vm.choose(2) == 1
    s = Step(log, 't', tuple(fits) + (('transform',) if tr else ()))
    e = Step(log, 'end', ('predict',) + (('partial_fit',) if learn else ()))
    try:
        pipe = vm.new(vm.cls(PL, 'Pipeline'), vm.born([('t', s), ('end', e)]))
    except PyRaise as x:
        vm.prove('only steps that cannot learn or transform are rejected', x.name == 'TypeError' and not (fits and tr) if hasattr(x, 'name') else not (fits and tr))
        return
    vm.prove('steps that cannot learn or transform are rejected', bool(fits) and tr)
    vm.prove('active says whether the last step can learn', vm.getattr(pipe, 'active') is learn)
    vm.prove('nothing is asked', not log)


def u_header(n):
    def u(vm):
        h = vm.born(['a%d' % i for i in range(n)])
        o = vm.new(vm.cls(IH, 'InstanceHeader'), h)
        for i in range(-2, n + 2):
            r = vm.method(o, 'get_header_label_at', i)
            vm.prove('the label at the index, or None', r == (h[i] if 0 <= i < n else None))
    return u


UNITS = []
for kind in ('std', 'minmax'):
    for w, m, r, c in [(3, 0, 1, 2), (3, 1, 1, 2), (3, 2, 1, 1), (1, 1, 2, 1), (2, 3, 2, 1), (2, 0, 2, 2)]:
        UNITS.append(('%s w%d m%d r%d c%d' % (kind, w, m, r, c), u_scaler(kind, w, m, r, c)))
    UNITS.append(('%s list' % kind, u_scaler(kind, 2, 1, 2, 1, True)))
    UNITS.append(('%s partial_fit_transform' % kind, u_scaler(kind, 2, 1, 2, 1, False, 'partial_fit_transform')))
    UNITS.append(('%s fit' % kind, u_scaler_fit(kind, 2)))
for st in ('zero', 'mean', 'median', 'mode', 'custom'):
    for w, m, r, c, codes in [(2, 0, 2, 1, None), (2, 1, 1, 2, None), (3, 2, 1, 1, -47), (2, 0, 2, 1, [-47.0, 5]), (1, 0, 2, 1, -1)]:
        UNITS.append(('clean %s w%d m%d r%d c%d %s' % (st, w, m, r, c, codes), u_clean(st, w, m, r, c, codes)))
    UNITS.append(('clean %s list' % st, u_clean(st, 3, 0, 3, 1, None, True)))
    UNITS.append(('clean %s partial_fit_transform' % st, u_clean(st, 2, 1, 1, 1, -47, False, 'partial_fit_transform')))
C1, G2, G3 = (1, False), (2, True), (3, True)
for nm, lay, r in [('g2', [G2], 2), ('1g2', [C1, G2], 1), ('g2-1', [G2, C1], 1), ('1g2-1-g2', [C1, G2, C1, G2], 1), ('g2g3', [G2, G3], 1), ('g3-1-1', [G3, C1, C1], 1), ('g1', [(1, True), G2], 1), ('none', [C1, C1], 2)]:
    UNITS.append(('onehot %s' % nm, u_onehot(lay, r)))
UNITS.append(('onehot partial_fit_transform', u_onehot([C1, G2, C1], 2, 'partial_fit_transform')))
for what in ('predict', 'fit', 'partial_fit', 'partial_fit_predict'):
    for sts in [(), ('skm',), ('skmc', None), (None, 'own'), ('ownc', 'skm'), ('sk', 'skmc')]:
        if what == 'fit' and 'skm' in sts:
            continue
        for last in ('clf', 'reg', 'pfp', None):
            if last is None and what in ('predict', 'partial_fit_predict') or last == 'pfp' and what != 'partial_fit_predict':
                continue
            UNITS.append(('pipe %s %s %s' % (what, '+'.join(map(str, sts)), last), u_pipe(sts, last, what)))
UNITS.append(('pipe validation', u_pipe_valid))
UNITS.append(('header', u_header(3)))

from props.c19run import cases, run_case    # noqa: E402,F401
