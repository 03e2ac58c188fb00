"""C15: multi-output learners - binary relevance and chains."""
import itertools
import numpy as np
from pv import sym as S
from pv.sym import eq, and_, or_, not_, implies, ite, Sym, Unsupported
from pv.vm import PathEnd, PyRaise
from props.learnmodel import Learner, arr, same

ID = 'C15'
BUDGET = 20
MAX_CASES = 800
M = 'meta/'
CLS = {'mo': (M + 'multi_output_learner.py', 'MultiOutputLearner'), 'cc': (M + 'classifier_chains.py', 'ClassifierChain'),
       'pcc': (M + 'classifier_chains.py', 'ProbabilisticClassifierChain'), 'mcc': (M + 'classifier_chains.py', 'MonteCarloClassifierChain'),
       'rc': (M + 'regressor_chains.py', 'RegressorChain')}
ASSUME = ['base estimators are deep-copyable, answer with one prediction per row as a function of what they were taught and of the row, and do not keep or change the arrays they are given',
          'numpy RandomState.shuffle permutes its argument, choice draws an element of non-zero probability', 'probabilistic chains: binary targets, members give a probability for each of the two labels']
BOUNDED = ['up to 3 targets, 2 rows of 2 features per call and two calls; Monte Carlo chains with up to 2 samples (all values, answers, permutations and draws symbolic)']
PARAMS = [('X', 'y', 'classes', 'sample_weight'), ('X', 'y', 'classes'), ('X', 'y', 'sample_weight'), ('X', 'y')]


def build(vm, kind, base, order=None, **kw):
    if order is not None:
        kw['order'] = order
    if kind != 'mo':
        kw['random_state'] = 1
    return vm.new(vm.cls(*CLS[kind]), base_estimator=base, **kw)


def chain_of(vm, o, kind, L):
    if kind == 'mo':
        return list(range(L))
    c = [int(x) for x in vm.getattr(o, 'chain')]
    vm.prove('the chain visits every target once', sorted(c) == list(range(L)))
    return c


def members(vm, o, fam, base, L):
    e = list(vm.getattr(o, 'ensemble'))
    vm.prove('a member per target', len(e) == L and len({id(m) for m in e}) == L and all(isinstance(m, Learner) for m in e))
    vm.prove('members are copies of the base estimator', all(m is not base for m in e))
    return e


def inputs(kind, X, Y, chain, j):
    """what member j of the chain must be shown"""
    if kind == 'mo':
        return X
    return np.concatenate([X, Y[:, chain[:j]]], axis=1) if j else X


def last(vm, m, how, X, y, given, kind, params, what, before):
    vm.prove(what + ': every member learns once', len(m.told) == before + 1)
    h, a = m.told[-1]
    vm.prove(what + ': as a new learner or going on', h in how)
    vm.prove(what + ': the rows it has to see', same(a['X'], X))
    vm.prove(what + ': its own target', same(np.ravel(np.array(a['y'], dtype=object)), y))
    for n in ('classes', 'sample_weight'):
        g = a.get(n)
        if kind == 'mo' and n in params and given[n] is not None:
            vm.prove(what + ': ' + n + ' passed on', g is not None and same(g, given[n]))
        else:
            vm.prove(what + ': nothing made up for ' + n, g is None or (given[n] is not None and same(g, given[n])))


def u_learn(kind, L, order=None):
    def u(vm):
        params = PARAMS[vm.choose(4)] if kind == 'mo' else PARAMS[0]
        fam = []
        base = Learner(vm, fam, 'real' if kind == 'rc' else 'class', params)
        o = build(vm, kind, base, order)
        n = 1 + vm.choose(2)
        X, Y = arr(vm, n, 2), arr(vm, n, L, name='y')
        kx, ky = X.copy(), Y.copy()
        given = dict(classes=None, sample_weight=None)
        if vm.choose(2):
            given['sample_weight'] = arr(vm, n, lo=0, name='w')
            if kind != 'rc':
                given['classes'] = vm.born([0, 1])
        kw = {k: v for k, v in given.items() if kind != 'rc' or k != 'classes'}
        first = ('fit', 'partial_fit')[vm.choose(2)]
        r = vm.method(o, first, X, Y, **kw)
        vm.prove('returns itself', r is o)
        e = members(vm, o, fam, base, L)
        chain = chain_of(vm, o, kind, L)
        if order is None:
            vm.prove('targets are taken as they come', chain == list(range(L)))
        for j in range(L):
            last(vm, e[j], ('fit', 'partial_fit'), inputs(kind, X, Y, chain, j), Y[:, chain[j]], given, kind, params, 'first batch', 0)
        vm.prove('the base estimator is never trained', not base.told and not base.asked)
        X2, Y2 = arr(vm, 1, 2, name='u'), arr(vm, 1, L, name='v')
        second = ('fit', 'partial_fit')[vm.choose(2)]
        g2 = dict(classes=None, sample_weight=None)
        vm.method(o, second, X2, Y2)
        e2 = members(vm, o, fam, base, L)
        c2 = chain_of(vm, o, kind, L)
        if second == 'partial_fit':
            vm.prove('learning goes on with the same members', all(a is b for a, b in zip(e, e2)))
            vm.prove('and the same chain', chain == c2)
        for j in range(L):
            new = second == 'fit' and e2[j] is not e[j]
            if second == 'fit':
                vm.prove('fit starts over', new or e2[j].told[-1][0] == 'fit')
            last(vm, e2[j], ('partial_fit',) if second == 'partial_fit' else ('fit', 'partial_fit'), inputs(kind, X2, Y2, c2, j), Y2[:, c2[j]], g2, kind, params, 'second batch', 0 if new else 1)
        vm.prove('the base estimator is never trained', not base.told and not base.asked)
        vm.prove('arguments untouched', all(a is b for a, b in zip(kx.flat, X.flat)) and all(a is b for a, b in zip(ky.flat, Y.flat)))
    return u


def trained(vm, kind, L, order=None, nclass=2, **kw):
    fam = []
    base = Learner(vm, fam, 'real' if kind == 'rc' else 'class')
    o = build(vm, kind, base, order, **kw)
    vm.method(o, 'fit', arr(vm, 1, 2, name='t'), arr(vm, 1, L, name='y'))
    e = members(vm, o, fam, base, L)
    return o, base, e, chain_of(vm, o, kind, L)


def u_predict(kind, L, how, order=None):
    def u(vm):
        o, base, e, chain = trained(vm, kind, L, order)
        n = 1 + vm.choose(2)
        X = arr(vm, n, 2)
        kx = X.copy()
        told = [len(m.told) for m in e]
        out = vm.method(o, how, X)
        vm.prove('a row per sample, a column per target', out.shape == (n, L))
        for i in range(n):
            x = list(X[i])
            for j in range(L):
                v = e[j].row(how, x)
                v = v[1] if how == 'predict_proba' else v
                vm.prove('the answer for a target is its own member\'s', eq(out[i, chain[j]], v))
                if kind != 'mo':
                    x = x + [v]
        vm.prove('predicting teaches nothing', [len(m.told) for m in e] == told and not base.told and not base.asked)
        vm.prove('arguments untouched', all(a is b for a, b in zip(kx.flat, X.flat)))
    return u


def joint(e, x, y):
    """probability of the labels y (in chain order)"""
    p, x = 1, list(x)
    for j, v in enumerate(y):
        p = p * e[j].row('predict_proba', x)[v]
        x = x + [v]
    return p


def u_pcc(L, order=None, n=1):
    def u(vm):
        o, base, e, chain = trained(vm, 'pcc', L, order)
        X = arr(vm, n, 2)
        told = [len(m.told) for m in e]
        out = vm.method(o, 'predict', X)
        vm.prove('a row per sample, a column per target', out.shape == (n, L))
        for i in range(n):
            y = [out[i, chain[j]] for j in range(L)]
            vm.prove('labels', all(v in (0, 1) for v in y))
            best = joint(e, X[i], [int(v) for v in y])
            for b in itertools.product((0, 1), repeat=L):
                vm.prove('no other combination of labels is more probable', joint(e, X[i], b) <= best)
        vm.prove('predicting teaches nothing', [len(m.told) for m in e] == told and not base.told)
    return u


def u_mcc(L, samples, arg):
    def u(vm):
        o, base, e, chain = trained(vm, 'mcc', L, None, **({} if arg else dict(M=samples)))
        X = arr(vm, 1, 2)
        vm.ghost.pop('choice_p', None)
        told = [len(m.told) for m in e]
        out = vm.method(o, 'predict', X, **(dict(M=samples) if arg else {}))
        d = vm.ghost.get('choice_p', [])
        vm.prove('as many samples as asked for', len(d) == samples * L)
        cands = []
        for m in range(samples):
            x, y = list(X[0]), []
            for j in range(L):
                v, p = d[m * L + j]
                vm.prove('labels are drawn from the conditional probabilities', p is not None and same(p, e[j].row('predict_proba', x)))
                y.append(v)
                x.append(v)
            cands.append(y)
        x, g = list(X[0]), []
        for j in range(L):
            g.append(e[j].row('predict', x))
            x.append(g[-1])
        cands.append(g)
        vm.prove('a row per sample, a column per target', out.shape == (1, L))
        y = [out[0, chain[j]] for j in range(L)]
        vm.prove('labels', all(v in (0, 1) for v in y))
        y = [int(v) for v in y]
        vm.prove('the answer is the greedy one or one of the samples', y in cands)
        for c in cands:
            vm.prove('and none of them is more probable', joint(e, X[0], c) <= joint(e, X[0], y))
        vm.prove('predicting teaches nothing', [len(m.told) for m in e] == told and not base.told)
    return u


def u_reset(kind):
    def u(vm):
        o, base, e, chain = trained(vm, kind, 2)
        fam = base.fam
        vm.method(o, 'reset')
        vm.prove('the base estimator is kept', vm.getattr(o, 'base_estimator') is base and not base.told)
        X, Y = arr(vm, 1, 2), arr(vm, 1, 3, name='z')
        told = [len(m.told) for m in e]
        vm.method(o, 'partial_fit', X, Y)
        e2 = members(vm, o, fam, base, 3)
        vm.prove('new members after a reset', all(a is not b for a in e for b in e2) and [len(m.told) for m in e] == told)
        for j in range(3):
            last(vm, e2[j], ('fit', 'partial_fit'), inputs(kind, X, Y, [0, 1, 2], j), Y[:, j], dict(classes=None, sample_weight=None), kind, PARAMS[0], 'after a reset', 0)
    return u


def u_type(vm):
    kind = ('class', 'real')[vm.choose(2)]
    o = build(vm, 'mo', Learner(vm, [], kind))
    vm.prove('a multi-output learner is what its base estimator is', vm.getattr(o, '_estimator_type') == ('regressor' if kind == 'real' else 'classifier'))


UNITS = [('MultiOutputLearner type', u_type)]
for _k in ('mo', 'cc', 'rc'):
    for _L in (1, 2, 3):
        for _o in (None, 'random') if _k != 'mo' and _L > 1 else (None,):
            _t = '%s[%d targets%s]' % ('%s', _L, ', random order' if _o else '')
            UNITS.append((_t % (CLS[_k][1] + ' learning'), u_learn(_k, _L, _o)))
            UNITS.append((_t % (CLS[_k][1] + '.predict'), u_predict(_k, _L, 'predict', _o)))
            if _k != 'rc':
                UNITS.append((_t % (CLS[_k][1] + '.predict_proba'), u_predict(_k, _L, 'predict_proba', _o)))
UNITS += [('ProbabilisticClassifierChain.predict[%d targets]' % n, u_pcc(n)) for n in (1, 2, 3)]
UNITS += [('ProbabilisticClassifierChain.predict[2 targets, random order]', u_pcc(2, 'random')), ('ProbabilisticClassifierChain.predict[2 rows]', u_pcc(1, None, 2))]
UNITS += [('MonteCarloClassifierChain.predict[%d targets, %d samples%s]' % (n, m, ' as argument' if a else ''), u_mcc(n, m, a)) for n, m, a in ((1, 2, 0), (2, 1, 0), (2, 1, 1), (2, 2, 0), (2, 0, 1))]
UNITS += [(CLS[k][1] + '.reset', u_reset(k)) for k in CLS]


# ------------------------------------------------------------------ run time
class Rec:
    """a learner whose answers tell everything it was taught, in order"""
    _estimator_type = 'classifier'

    def __init__(self, kind='class', seed=0, flaw=None):
        self.kind, self.seed, self.state, self.n = kind, seed, b'', 0
        if kind == 'real':
            self._estimator_type = 'regressor'

    def _h(self, *a):
        import hashlib
        m = hashlib.sha256(self.state)
        for x in a:
            m.update(repr(x).encode())
        return int.from_bytes(m.digest()[:6], 'big') / 2.0 ** 48

    def _tell(self, how, X, y, c, w):
        import hashlib
        rows = [[float(v) for v in r] for r in np.asarray(X)]
        self.state = hashlib.sha256(self.state + repr((how, rows, [float(v) for v in np.ravel(y)], None if c is None else [float(v) for v in c], None if w is None else [float(v) for v in w])).encode()).digest()
        self.n += 1
        return self

    def learn(self, how, X, y, c=None, w=None):
        if how == 'fit':
            self.state = b''
        return self._tell('t', X, y, c, w)

    def predict(self, X):
        if self.kind == 'real':
            return np.array([round(self._h('g', [float(v) for v in r]) * 10 - 5, 6) for r in np.asarray(X)])
        return np.array([int(self._h('c', [float(v) for v in r]) * 2) for r in np.asarray(X)])

    def predict_proba(self, X):
        p = np.array([round(self._h('p', [float(v) for v in r]), 6) for r in np.asarray(X)])
        return np.column_stack([1 - p, p])

    def reset(self):
        self.state = b''
        return self


class RecBoth(Rec):
    def fit(self, X, y, classes=None, sample_weight=None):
        return self.learn('fit', X, y, classes, sample_weight)

    def partial_fit(self, X, y, classes=None, sample_weight=None):
        return self.learn('partial_fit', X, y, classes, sample_weight)


class RecClasses(Rec):
    def fit(self, X, y, classes=None):
        return self.learn('fit', X, y, classes)

    def partial_fit(self, X, y, classes=None):
        return self.learn('partial_fit', X, y, classes)


class RecWeight(Rec):
    def fit(self, X, y, sample_weight=None):
        return self.learn('fit', X, y, None, sample_weight)

    def partial_fit(self, X, y, sample_weight=None):
        return self.learn('partial_fit', X, y, None, sample_weight)


class RecPlain(Rec):
    def fit(self, X, y):
        return self.learn('fit', X, y)

    def partial_fit(self, X, y):
        return self.learn('partial_fit', X, y)


RECS = [RecBoth, RecClasses, RecWeight, RecPlain]


class Tap:
    """the learner's own random numbers, noting what was chosen"""
    def __init__(self, rs):
        self.rs, self.got = rs, []

    def __getattr__(self, name):
        f = getattr(self.rs, name)
        if name != 'choice':
            return f

        def g(*a, **k):
            r = f(*a, **k)
            self.got.extend(int(v) for v in np.ravel(r))
            return r
        return g


def cases(rnd, hints, tier):
    i = 0
    while True:
        i += 1
        yield dict(kind=('mo', 'cc', 'rc', 'pcc', 'mcc')[i % 5], seed=rnd.randrange(10 ** 9))


def run_case(case):
    import random
    import warnings
    warnings.simplefilter('ignore')
    rnd = random.Random(case['seed'])
    if rnd.random() < 0.03:
        return r_edge(rnd)
    return r_multi(rnd, case['kind'])


def r_edge(rnd):
    from skmultiflow.meta import MultiOutputLearner, ClassifierChain, ProbabilisticClassifierChain, RegressorChain
    for kind in ('class', 'real'):
        o = MultiOutputLearner(RecBoth(kind))
        if o._estimator_type != RecBoth(kind)._estimator_type:
            return 'MultiOutputLearner of a %s is a %s' % (RecBoth(kind)._estimator_type, o._estimator_type)
    for C in (ClassifierChain, ProbabilisticClassifierChain, RegressorChain):
        s0, seen = rnd.randrange(10 ** 6), set()
        for s in range(s0, s0 + 6):
            cs = [tuple(int(v) for v in C(RecBoth(), order='random', random_state=s).fit(np.zeros((1, 2)), np.zeros((1, 7))).chain) for _ in range(2)]
            if cs[0] != cs[1]:
                return '%s(order="random", random_state=%d): chains %r' % (C.__name__, s, cs)
            seen.add(cs[0])
        if seen == {tuple(range(7))}:
            return '%s(order="random"): the targets are taken in order for the seeds %d to %d' % (C.__name__, s0, s0 + 5)
    return None


def r_multi(rnd, kind):
    import copy
    from skmultiflow import meta
    C = getattr(meta, CLS[kind][1])
    cls = rnd.choice(RECS)
    base = cls('real' if kind == 'rc' or (kind == 'mo' and rnd.random() < 0.3) else 'class')
    if rnd.random() < 0.2:
        base.state = b'pre-trained'
    L, d = rnd.randint(1, 5 if kind != 'pcc' else 4), rnd.randint(1, 3)
    kw = {}
    if kind in ('cc', 'rc', 'pcc'):
        kw['order'] = rnd.choice([None, 'random'])
    if kind != 'mo':
        kw['random_state'] = rnd.randrange(1000)
    if kind == 'mcc' and rnd.random() < 0.7:
        kw['M'] = rnd.choice([0, 1, 3, 8])
    o = C(base, **kw) if rnd.random() < 0.5 else C(base_estimator=base, **kw)
    what = '%s(%s, %s)' % (C.__name__, cls.__name__, ', '.join('%s=%r' % x for x in sorted(kw.items())))
    state0 = base.state
    ref = chain = None
    hist = []
    for step in range(rnd.choice([1, 3, 6])):
        n = rnd.choice([1, 1, 2, 5])
        X = np.array([[round(rnd.uniform(-2, 2), 3) for _ in range(d)] for _ in range(n)])
        Y = np.array([[rnd.uniform(-2, 2) if base.kind == 'real' else float(rnd.randrange(2)) for _ in range(L)] for _ in range(n)])
        how = 'partial_fit' if rnd.random() < 0.85 else 'fit'
        c = w = None
        if rnd.random() < 0.4:
            w = np.array([rnd.choice([0.5, 1.0, 2.0]) for _ in range(n)])
        if kind != 'rc' and rnd.random() < 0.5:
            c = [0, 1]
        k = {}
        if w is not None:
            k['sample_weight'] = w
        if c is not None:
            k['classes'] = c
        kx, ky = X.copy(), Y.copy()
        if getattr(o, how)(X, Y, **k) is not o:
            return '%s: %s does not return the learner' % (what, how)
        hist.append('%s of %d rows' % (how, n))
        if not np.array_equal(kx, X) or not np.array_equal(ky, Y):
            return '%s: %s changed its arguments' % (what, how)
        if base.state != state0 or base.n:
            return '%s: %s trained the base estimator itself' % (what, how)
        fresh = ref is None or how == 'fit'
        if fresh:
            ref = [copy.deepcopy(base) for _ in range(L)]
            chain = list(range(L)) if kind == 'mo' else [int(v) for v in o.chain]
            if sorted(chain) != list(range(L)) or (kw.get('order') is None and chain != list(range(L))):
                return '%s: chain %r for %d targets' % (what, chain, L)
        for j in range(L):
            XX = X if kind == 'mo' else np.column_stack([X] + [Y[:, q] for q in chain[:j]])
            ref[j].learn('fit' if fresh else 'partial_fit', XX, Y[:, chain[j]], c if kind == 'mo' and cls in (RecBoth, RecClasses) else None, w if kind == 'mo' and cls in (RecBoth, RecWeight) else None)
        Q = np.array([[round(rnd.uniform(-2, 2), 3) for _ in range(d)] for _ in range(rnd.choice([1, 2, 3]))])
        kq = Q.copy()
        tap = None
        if kind == 'mcc' and hasattr(o, '_random_state'):
            if not isinstance(o._random_state, Tap):
                o._random_state = Tap(o._random_state)
            tap = o._random_state
        for m in ('predict', 'predict_proba'):
            if m == 'predict_proba' and kind == 'rc':
                continue
            if tap:
                tap.got = []
            mk = {}
            if kind == 'mcc' and m == 'predict' and rnd.random() < 0.5:
                mk['M'] = rnd.choice([0, 2, 5])
            out = getattr(o, m)(Q, **mk)
            if np.shape(out) != (len(Q), L):
                return '%s: %s of %d rows gives the shape %r' % (what, m, len(Q), np.shape(out))
            got = list(tap.got) if tap else []
            for i, q in enumerate(Q):
                row = [float(out[i][chain[j]]) for j in range(L)]
                greedy, x = [], list(q)
                for j in range(L):
                    v = float(getattr(ref[j], m)(np.array([x]))[0] if m == 'predict' else ref[j].predict_proba(np.array([x]))[0][1])
                    greedy.append(v)
                    if kind != 'mo':
                        x.append(v)
                where = '%s after %s: %s of %r' % (what, ', '.join(hist), m, list(q))
                if m == 'predict' and kind in ('pcc', 'mcc'):
                    if any(v not in (0, 1) for v in row):
                        return '%s is %r' % (where, row)

                    def P(y):
                        p, x = 1.0, list(q)
                        for j, v in enumerate(y):
                            p *= ref[j].predict_proba(np.array([x]))[0][int(v)]
                            x.append(float(v))
                        return p
                    mine = P(row)
                    if kind == 'pcc':
                        cand = list(itertools.product((0, 1), repeat=L))
                    else:
                        cand = [greedy]
                        MM = mk.get('M', kw.get('M', 10))
                        if len(got) == len(Q) * MM * L:
                            cand += [got[(i * MM + s) * L:(i * MM + s + 1) * L] for s in range(MM)]
                        if [int(v) for v in row] not in [[int(v) for v in y] for y in cand] and len(cand) == MM + 1:
                            return '%s is %r in chain order, neither the greedy answer nor one of the samples %r' % (where, row, cand)
                    for y in cand:
                        if P(y) > mine * (1 + 1e-9) + 1e-15:
                            return '%s is %r in chain order with probability %r; %r has %r' % (where, row, mine, list(y), P(y))
                elif any(abs(a - b) > 1e-9 for a, b in zip(row, greedy)):
                    return '%s is %r in chain order, should be %r' % (where, row, greedy)
            if not np.array_equal(kq, Q):
                return '%s: %s changed its argument' % (what, m)
        if rnd.random() < 0.1:
            o.reset()
            hist.append('reset')
            ref = None
            L, d = rnd.randint(1, 4), rnd.randint(1, 3)
    return None
