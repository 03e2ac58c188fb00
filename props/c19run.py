"""Run-time half of C19."""
import numpy as np

VALS = [0.0, 1.0, 2.0, 0.5, -1.0, 3.25, 7.0, -47.0]
NAN = float('nan')


def num(rnd):
    return rnd.choice(VALS) if rnd.random() < .7 else rnd.randint(-2000, 2000) / 8


def cases(rnd, hints, tier):
    while True:
        k = rnd.random()
        c = rnd.randint(1, 4)
        if k < .45:
            kind = rnd.choice(['std', 'std', 'minmax'])
        elif k < .75:
            kind = 'clean'
        elif k < .88:
            kind = 'onehot'
        else:
            kind = 'pipe'
        if kind == 'onehot':
            lay = [[rnd.randint(1, 4), True] if rnd.random() < .5 else [1, False] for _ in range(rnd.randint(1, 5))]
            X = []
            for _ in range(rnd.randint(1, 4)):
                row = []
                for w, g in lay:
                    if g:
                        v = [0] * w
                        if rnd.random() < .9:
                            v[rnd.randrange(w)] = 1
                        if rnd.random() < .1:
                            v[rnd.randrange(w)] = 1
                        row += v
                    else:
                        row.append(num(rnd))
                X.append(row)
            yield dict(kind=kind, lay=lay, X=X, dtype=rnd.choice(['float', 'float', 'int']))
            continue
        const = rnd.random() < .2
        ops = []
        n = rnd.randint(1, 8)
        code = rnd.choice([None, None, -47, [-47.0, 7], [NAN], [2]])
        base = [num(rnd) for _ in range(c)]
        for _ in range(n):
            X = [[base[j] if const and rnd.random() < .8 else num(rnd) for j in range(c)] for _ in range(rnd.randint(1, 4))]
            if kind == 'clean' or rnd.random() < .1:
                X = [[NAN if rnd.random() < .25 else v for v in r] for r in X]
            op = rnd.choice(['transform', 'transform', 'partial_fit_transform', 'partial_fit', 'reset'] if rnd.random() < .5 else ['transform'])
            if kind == 'pipe':
                op = rnd.choice(['predict', 'partial_fit', 'partial_fit', 'partial_fit_predict'])
                X = [[0.0 if v != v else v for v in r] for r in X]
            ops.append([op, X, rnd.choice(['array', 'array', 'list', 'int', 'reuse'])])
        case = dict(kind=kind, c=c, w=rnd.choice([1, 2, 3, 5, 10, 200]), ops=ops)
        if kind == 'clean':
            case.update(strategy=rnd.choice(['zero', 'mean', 'median', 'mode', 'custom']), code=code, new=rnd.choice([1, -3.5]))
        if kind == 'pipe':
            case.update(steps=[rnd.choice(['std', 'minmax', 'clean', 'onehot', None]) for _ in range(rnd.randint(0, 3))])
        yield case


class Ref:
    """scalers and the cleaner, from their definitions"""
    def __init__(self, kind, w, strategy='zero', codes=(), new=1):
        self.kind, self.w, self.strategy, self.codes, self.new = kind, w, strategy, codes, new
        self.win = []

    def mask(self, row):
        if self.kind != 'clean':
            return list(row)
        return [NAN if v != v or v in self.codes else v for v in row]

    def fit(self, X):
        for r in X:
            self.win = (self.win + [self.mask(r)])[-self.w:]

    def one(self, x, j):
        """the acceptable values"""
        col = [r[j] for r in self.win]
        obs = [v for v in col if v == v]
        if self.kind == 'std':
            if not col:
                return [x]
            if not obs:
                return [NAN]
            m = sum(obs) / len(obs)
            s = (sum((v - m) ** 2 for v in obs) / len(obs)) ** .5
            return [(x - m) / (s or 1)]
        if self.kind == 'minmax':
            if col and not obs:
                return [NAN]
            lo, hi = (min(obs), max(obs)) if col else (0.0, 1.0)
            return [0.0] if lo == hi else [(x - lo) / (hi - lo), x]
        if x == x and x not in self.codes:
            return [x]
        if self.strategy == 'zero':
            return [0]
        if self.strategy == 'custom' or not obs:
            return [self.new]
        if self.strategy == 'mean':
            return [sum(obs) / len(obs)]
        s = sorted(obs)
        if self.strategy == 'median':
            return [(s[(len(s) - 1) // 2] + s[len(s) // 2]) / 2]
        top = max(s.count(v) for v in s)
        return [min(v for v in s if s.count(v) == top)]

    def transform(self, X):
        out = []
        for r in X:
            if self.kind == 'clean':
                self.fit([r])
            out.append([self.one(v, j) for j, v in enumerate(r)])
            if self.kind != 'clean':
                self.fit([r])
        return out


def close(a, b):
    return a == b or (a != a and b != b) or abs(a - b) <= 1e-9 * max(1, abs(a), abs(b)) * 1e3


def make(case):
    from skmultiflow.transform import WindowedStandardScaler, WindowedMinmaxScaler, MissingValuesCleaner
    k = case['kind']
    if k == 'std':
        return WindowedStandardScaler(case['w']), Ref(k, case['w'])
    if k == 'minmax':
        return WindowedMinmaxScaler(window_size=case['w']), Ref(k, case['w'])
    code = case['code']
    kw = {} if code is None else dict(missing_value=code)
    codes = [] if code is None else (code if isinstance(code, list) else [code])
    return MissingValuesCleaner(strategy=case['strategy'], window_size=case['w'], new_value=case['new'], **kw), Ref(k, case['w'], case['strategy'], codes, case['new'])


def run_onehot(case):
    from skmultiflow.transform import OneHotToCategorical
    groups, at = [], 0
    for w, g in case['lay']:
        if g:
            groups.append(list(range(at, at + w)))
        at += w
    X = np.array(case['X'], dtype=case['dtype'])
    Y = X.copy()
    for t in range(2):
        o = OneHotToCategorical([list(g) for g in groups]) if not t else o
        out = np.array(o.transform(X))
        if not (X == Y).all():
            return 'OneHotToCategorical changed the given samples'
        for i, r in enumerate(X):
            want, at = [], 0
            for w, g in case['lay']:
                if g:
                    ones = [q for q in range(w) if r[at + q] == 1]
                    want.append(ones[0] if ones else w)
                else:
                    want.append(r[at])
                at += w
            if out.shape != (len(X), len(want)) or list(out[i]) != want:
                return 'OneHotToCategorical(%s): row %s became %s, expected %s' % (groups, list(r), out[i].tolist() if i < len(out) else None, want)
    return None


class Rec:
    def __init__(self):
        self.log = []

    def partial_fit(self, X, y, classes=None):
        self.log.append(('fit', np.array(X).tolist(), list(y), classes))
        return self

    def predict(self, X):
        self.log.append(('predict', np.array(X).tolist()))
        return np.arange(len(X))

    def get_info(self):
        return 'Rec'


def run_pipe(case):
    """a pipeline does what its steps, called one after the other, do"""
    from skmultiflow.transform import WindowedStandardScaler, WindowedMinmaxScaler, MissingValuesCleaner, OneHotToCategorical
    from skmultiflow.core import Pipeline
    mk = {'std': lambda: WindowedStandardScaler(case['w']), 'minmax': lambda: WindowedMinmaxScaler(case['w']), None: lambda: None,
          'clean': lambda: MissingValuesCleaner(-47, 'mean', case['w']), 'onehot': lambda: OneHotToCategorical([[0]])}
    A, B = [mk[s]() for s in case['steps']], [mk[s]() for s in case['steps']]
    ra, rb = Rec(), Rec()
    pipe = Pipeline([('s%d' % i, a) for i, a in enumerate(A)] + [('end', ra)])
    for op, X, how in case['ops']:
        X = np.array(X)
        Y = X.copy()
        y = list(range(len(X)))
        if op == 'predict':
            got = pipe.predict(X)
        elif op == 'partial_fit':
            got = pipe.partial_fit(X, y, classes=[0, 1, 2])
        else:
            got = pipe.partial_fit_predict(X, y)
        if not (X == Y).all():
            return 'pipeline %s: %s changed the given samples' % (case['steps'], op)
        Z = Y
        for b in B:
            if b is not None:
                Z = b.transform(Z) if op == 'predict' else b.partial_fit_transform(Z, y)
        if op != 'predict':
            rb.partial_fit(Z, y, [0, 1, 2] if op == 'partial_fit' else None)
        if op != 'partial_fit':
            rb.predict(Z)
            if list(got) != list(range(len(X))):
                return 'pipeline %s: %s returned %r' % (case['steps'], op, got)
        elif got is not pipe:
            return 'pipeline %s: partial_fit returned %r' % (case['steps'], got)
        if repr(ra.log) != repr(rb.log):
            return 'pipeline %s: after %s the learner saw %s, expected %s' % (case['steps'], op, ra.log[-2:], rb.log[-2:])
    return None


def run_case(case):
    if case['kind'] == 'onehot':
        return run_onehot(case)
    if case['kind'] == 'pipe':
        return run_pipe(case)
    o, ref = make(case)
    desc = '%s(%s)' % (type(o).__name__, ', '.join('%s=%r' % (k, v) for k, v in case.items() if k not in ('ops', 'kind', 'c')))
    hold = np.zeros((8, case['c']))
    known = None
    for n, (op, X, how) in enumerate(case['ops']):
        if op == 'reset':
            if o.reset() is not o:
                return desc + ': reset does not return self'
            ref = make(case)[1]
            continue
        if how == 'int' and all(v == v for r in X for v in r):
            X = [[int(v) for v in r] for r in X]
            arg = np.array(X, dtype=int)
        elif how == 'list':
            arg = [list(r) for r in X]
        elif how == 'reuse':
            arg = hold[:len(X)]
            arg[:] = X
        else:
            arg = np.array(X, dtype=float)
        out = getattr(o, op)(arg)
        if not np.array_equal(np.array(arg, dtype=float), np.array(X, dtype=float), equal_nan=True):
            return '%s: %s changed the given samples %s' % (desc, op, X)
        if op == 'partial_fit':
            if out is not o:
                return desc + ': partial_fit does not return self'
            ref.fit(X)
            continue
        before = [list(r) for r in ref.win]
        want = ref.transform(X)
        out = np.array(out, dtype=float)
        if out.shape != (len(want), case['c']):
            return '%s: %s of %d rows gave %r' % (desc, op, len(want), out.shape)
        for i, r in enumerate(want):
            for j, vs in enumerate(r):
                if not any(close(out[i][j], v) for v in vs):
                    return '%s: call %d (%s), row %d of %s, window before the call %s: feature %d became %r, expected %r' % (desc, n, op, i, X, before[-6:], j, out[i][j], vs[0])
                if len(vs) > 1 and not close(out[i][j], vs[0]):
                    known = '[minmax-identity] %s: row %s, window before the call %s: feature %d became %r, expected %r' % (desc, X[i], before[-6:], j, out[i][j], vs[0])
    return known
