"""C20: half-space trees (anomaly detection)."""
import itertools
import numpy as np
from pv import sym as S
from pv.sym import eq, and_, or_, not_, implies, Sym, Unsupported
from pv.vm import PyRaise
from props.learnmodel import fn, arr, same

ID = 'C20'
BUDGET = 22
MAX_CASES = 4000
F = 'anomaly_detection/half_space_trees.py'
ASSUME = ['numpy RandomState draws lie in their documented ranges and are a function of the seed and the calls made', 'sklearn.preprocessing.normalize follows its definition',
          'real arithmetic']
BOUNDED = ['whole trees: depth up to 3 with arbitrary splits and masses (single nodes above arbitrary subtrees: any depth), up to 3 trees, 2 rows and 3 features in the proofs']


def hcls(vm, n):
    return vm.cls(F, n)


class Sub:
    """an arbitrary subtree"""
    def pv_getattr(self, vm, name):
        raise Unsupported('the inside of an arbitrary subtree')


def tree_obj(vm, depth, d, limit, root, learning=None):
    t = vm.make(hcls(vm, 'HalfSpaceTree'), dict(max_depth=depth, n_features=d, size_limit=limit, is_learning_phase_on=learning, random_state=None, _random_state=None, root=root))
    return t


def node(vm, name, depth, left=None, right=None, attr=0, internal=True):
    n = vm.new(hcls(vm, 'HalfSpaceTreeNode'), left=left, right=right, split_value=vm.inp(name + '_cut', 'real'), split_attribute=attr, depth=depth, internal_node=internal)
    l, r = vm.inp(name + '_l', 'int', 0), vm.inp(name + '_r', 'int', 0)
    vm.setattr(n, 'left_mass', l)
    vm.setattr(n, 'right_mass', r)
    return n


def full(vm, maxd, depth=1, name='n', attrs=None, k=0):
    if depth == maxd:
        return node(vm, name, depth, internal=False, attr=-1)
    return node(vm, name, depth, full(vm, maxd, depth + 1, name + 'a', k=k + 1), full(vm, maxd, depth + 1, name + 'b', k=k + 2), attr=k % 2)


def walk(vm, n):
    if n is None:
        return []
    return [n] + walk(vm, vm.getattr(n, 'left')) + walk(vm, vm.getattr(n, 'right'))


def g(vm, n, *names):
    r = tuple(vm.getattr(n, x) for x in names)
    return r[0] if len(r) == 1 else r


def on_path(vm, n, x):
    """[(node, condition that x reaches it)]"""
    out = [(n, True)]
    if vm.getattr(n, 'left') is not None:
        right = x[g(vm, n, 'split_attribute')] > g(vm, n, 'split_value')
        out += [(m, and_(not_(right), c)) for m, c in on_path(vm, g(vm, n, 'left'), x)]
        out += [(m, and_(right, c)) for m, c in on_path(vm, g(vm, n, 'right'), x)]
    return out


def shape(vm, ns):
    return [(n, g(vm, n, 'left', 'right', 'split_value', 'split_attribute', 'depth', 'internal_node')) for n in ns]


def shape_kept(vm, sh):
    ok = True
    for n, (l, r, v, a, d, i) in sh:
        ok = and_(ok, g(vm, n, 'left') is l, g(vm, n, 'right') is r, eq(g(vm, n, 'split_value'), v), g(vm, n, 'split_attribute') == a, g(vm, n, 'depth') == d, g(vm, n, 'internal_node') == i)
    vm.prove('the structure of the tree stays', ok)


def score(vm, n, x, limit):
    r, d = g(vm, n, 'right_mass', 'depth')
    here = r * 2 ** d
    if g(vm, n, 'left') is None:
        return here
    right = x[g(vm, n, 'split_attribute')] > g(vm, n, 'split_value')
    deeper = S.ite(right, score(vm, g(vm, n, 'right'), x, limit), score(vm, g(vm, n, 'left'), x, limit))
    return S.ite(r <= limit, here, deeper)


def u_mass(maxd):
    def u(vm):
        ref = vm.choose(2) == 1
        root = full(vm, maxd)
        t = tree_obj(vm, maxd, 2, 5, root, True)
        x = arr(vm, 2)
        ns = walk(vm, root)
        before = [g(vm, n, 'left_mass', 'right_mass') for n in ns]
        sh = shape(vm, ns)
        xs = list(x)
        vm.method(t, 'update_mass', x, ref)
        reach = {id(n): c for n, c in on_path(vm, root, x)}
        for i, (n, (l, r)) in enumerate(zip(ns, before)):
            k = S.ite(reach[id(n)], 1, 0)
            vm.prove('node %d: the mass of the window grows by one on the path of the sample only' % i, and_(eq(g(vm, n, 'left_mass'), l + (0 if ref else k)), eq(g(vm, n, 'right_mass'), r + (k if ref else 0))))
        shape_kept(vm, sh)
        vm.prove('the sample stays', same(x, xs))
    return u


def u_mass_ind(vm):
    """one node above arbitrary subtrees: any depth by induction"""
    ref = vm.choose(2) == 1
    leaf = vm.choose(2) == 1
    a, b = Sub(), Sub()
    maxd = vm.inp('max_depth', 'int', 1)
    depth = vm.inp('depth', 'int', 1)
    vm.assume(eq(depth, maxd) if leaf else depth < maxd)
    n = node(vm, 'n', depth, None if leaf else a, None if leaf else b, attr=1, internal=not leaf)
    l, r, cut = g(vm, n, 'left_mass', 'right_mass', 'split_value')
    t = tree_obj(vm, maxd, 2, 5, n, True)
    x = arr(vm, 2)
    log = []

    def sub(vm, self, args, kw):
        if args[1] is n:
            return NotImplemented
        log.append(args)
    vm.contract(F, 'HalfSpaceTree', '_update_mass', sub)
    vm.method(t, 'update_mass', x, ref)
    vm.prove('one mass grows by one', and_(eq(g(vm, n, 'left_mass'), l + (0 if ref else 1)), eq(g(vm, n, 'right_mass'), r + (1 if ref else 0))))
    if leaf:
        vm.prove('a leaf hands nothing on', not [c for c in log if c[1] is not None])
    else:
        vm.prove('exactly one subtree gets the sample', len(log) == 1 and log[0][0] is x and log[0][2] is ref)
        vm.prove('values above the cut go right, others left', and_(implies(x[1] > cut, log[0][1] is b), implies(x[1] <= cut, log[0][1] is a)))


def u_score(maxd):
    def u(vm):
        root = full(vm, maxd)
        limit = vm.inp('size_limit', 'real', 0)
        t = tree_obj(vm, maxd, 2, limit, root, False)
        ns = walk(vm, root)
        before = [g(vm, n, 'left_mass', 'right_mass') for n in ns]
        x = arr(vm, 2)
        s = vm.method(t, 'anomaly_score', x)
        vm.prove('the score is the reference mass times 2^depth where the walk ends', eq(s, score(vm, root, x, limit)))
        vm.prove('scoring changes no mass', and_(*[and_(eq(g(vm, n, 'left_mass'), l), eq(g(vm, n, 'right_mass'), r)) for n, (l, r) in zip(ns, before)]))
    return u


def u_score_ind(vm):
    leaf = vm.choose(2) == 1
    a, b = Sub(), Sub()
    d = vm.choose(3) + 1
    limit = vm.inp('size_limit', 'real', 0)
    n = node(vm, 'n', d, None if leaf else a, None if leaf else b, attr=0, internal=not leaf)
    t = tree_obj(vm, 9, 2, limit, n, False)
    x = arr(vm, 2)
    sa, sb = vm.inp('score_left', 'real', 0), vm.inp('score_right', 'real', 0)
    ok = [True]

    def sub(vm, self, args, kw):
        if args[0] is n:
            return NotImplemented
        ok[0] = ok[0] and args[1] is x
        return sa if args[0] is a else sb
    vm.contract(F, 'HalfSpaceTree', '_anomaly_score', sub)
    s = vm.method(t, 'anomaly_score', x)
    r, cut = g(vm, n, 'right_mass', 'split_value')
    here = r * 2 ** d
    vm.prove('the subtree gets the same sample', ok[0])
    vm.prove('the score of the node', eq(s, here if leaf else S.ite(r <= limit, here, S.ite(x[0] > cut, sb, sa))))


def u_model(maxd):
    def u(vm):
        root = full(vm, maxd)
        t = tree_obj(vm, maxd, 2, 5, root, True)
        ns = walk(vm, root)
        before = [g(vm, n, 'left_mass', 'right_mass') for n in ns]
        sh = shape(vm, ns)
        vm.method(t, 'update_model', root)
        for n, (l, r) in zip(ns, before):
            vm.prove('the latest masses become the reference, counting starts anew', and_(eq(g(vm, n, 'right_mass'), l), eq(g(vm, n, 'left_mass'), 0)))
        shape_kept(vm, sh)
    return u


def u_model_ind(vm):
    a, b = Sub(), Sub()
    n = node(vm, 'n', 1, a, b)
    l = g(vm, n, 'left_mass')
    t = tree_obj(vm, 9, 2, 5, n, True)
    log = []

    def sub(vm, self, args, kw):
        if args[0] is n:
            return NotImplemented
        log.append(args[0])
    vm.contract(F, 'HalfSpaceTree', 'update_model', sub)
    vm.method(t, 'update_model', n)
    vm.prove('the latest masses become the reference', and_(eq(g(vm, n, 'right_mass'), l), eq(g(vm, n, 'left_mass'), 0)))
    vm.prove('both subtrees are updated once', len(log) == 2 and a in log and b in log)


def u_votes(r, learning):
    def u(vm):
        root = full(vm, 2)
        limit, mx = vm.inp('size_limit', 'real', 0), vm.inp('max_score', 'real', 0)
        vm.assume(mx > 0)
        t = tree_obj(vm, 2, 2, limit, root, learning)
        X = arr(vm, r, 2)
        rows = [list(q) for q in X]
        out = vm.method(t, 'predict_proba', X, mx)
        vm.prove('one row per sample', len(out) == r and all(len(list(q)) == 2 for q in out))
        for x, p in zip(rows, out):
            q = S.div(1, 2) if learning else S.div(score(vm, root, x, limit), mx)
            vm.prove('normal: score over the largest score; anomaly: the rest; even while learning', and_(eq(p[0], q), eq(p[1], 1 - q)))
        vm.prove('the samples stay', and_(*[same(list(a), b) for a, b in zip(X, rows)]))
    return u


def u_build(maxd, d):
    def u(vm):
        lo, hi = [vm.inp('lo%d' % j, 'real') for j in range(d)], [vm.inp('hi%d' % j, 'real') for j in range(d)]
        for j in range(d):
            vm.assume(lo[j] < hi[j])
        rs = vm.inp('seed', 'int', 0)
        t = vm.new(hcls(vm, 'HalfSpaceTree'), maxd, d, 5, vm.born(list(lo)), vm.born(list(hi)), rs)
        cur = [list(lo), list(hi)]     # the ranges as narrowed so far (known finding: the lower end is not restored)

        def check(n, depth, low, high):
            vm.prove('depth', eq(g(vm, n, 'depth'), depth))
            vm.prove('no mass yet', and_(eq(g(vm, n, 'left_mass'), 0), eq(g(vm, n, 'right_mass'), 0)))
            l, r = g(vm, n, 'left', 'right')
            if depth == maxd:
                vm.prove('leaves at the given depth', l is None and r is None and g(vm, n, 'internal_node') is False)
                return
            vm.prove('inner nodes above', l is not None and r is not None and g(vm, n, 'internal_node') is True)
            a, p = g(vm, n, 'split_attribute', 'split_value')
            if isinstance(a, Sym):
                vm.prove('an attribute of the data', and_(a >= 0, a < d))
                a = vm.pick_index(a, d)
            vm.prove('an attribute of the data', 0 <= a < d)
            mid = S.div(low[a] + high[a], 2)
            kmid = S.div(cur[0][a] + cur[1][a], 2)
            vm.prove('the middle of the range of the node', or_(eq(p, mid), eq(p, kmid)))
            keep = cur[1][a]
            cur[1][a] = kmid
            check(l, depth + 1, low, high[:a] + [mid] + high[a + 1:])
            cur[1][a] = keep
            cur[0][a] = kmid
            check(r, depth + 1, low[:a] + [mid] + low[a + 1:], high)
        check(vm.getattr(t, 'root'), 1, list(lo), list(hi))
        vm.prove('starts learning', vm.getattr(t, 'is_learning_phase_on') is True)
    return u


class TreeModel:
    def __init__(self, log, i, proba=None):
        self.log, self.i, self.proba, self.learning = log, i, proba, True
        self.root = ('root', i)

    def pv_getattr(self, vm, name):
        if name == 'root':
            return self.root
        if name == 'is_learning_phase_on':
            return self.learning
        if name == 'update_mass':
            return fn(lambda X, is_reference_window: self.log.append((self.i, 'mass', X, is_reference_window)), ['X', 'is_reference_window'])
        if name == 'update_model':
            return fn(lambda node: self.log.append((self.i, 'model', node)), ['node'])
        if name == 'predict_proba':
            def pp(X, max_score):
                self.log.append((self.i, 'proba', X, max_score))
                return vm.born(self.proba.copy())
            return fn(pp, ['X', 'max_score'])
        raise PyRaise('AttributeError', (name,))

    def pv_setattr(self, vm, name, v):
        if name == 'is_learning_phase_on':
            self.learning = v
        else:
            raise Unsupported('tree.' + name)


def ens(vm, M, w=250, **kw):
    kw = dict(dict(depth=4, size_limit=5, anomaly_threshold=vm.inp('threshold', 'real', 0, 1)), **kw)
    return vm.new(hcls(vm, 'HalfSpaceTrees'), window_size=w, n_estimators=M, **kw)


def u_step(M, w, r):
    """rows seen by the ensemble: which window they count for, when the profile changes"""
    def u(vm):
        o = ens(vm, M, w)
        log = []
        T = [TreeModel(log, i) for i in range(M)]
        n = vm.inp('samples_seen', 'int', 1)
        on = vm.choose(2) == 1
        vm.assume(n <= w + 1 if on else n >= w + 2)      # (kept by this unit)
        for t in T:
            t.learning = on
        vm.setattr(o, 'ensemble', vm.born(list(T)))
        vm.setattr(o, 'samples_seen', n)
        vm.setattr(o, 'n_features', 2)
        vm.setattr(o, 'is_learning_phase_on', on)
        X = arr(vm, r, 2)
        rows = [list(q) for q in X]
        vm.prove('partial_fit returns self', vm.method(o, 'partial_fit', X) is o)
        vm.prove('the samples stay', and_(*[same(list(a), b) for a, b in zip(X, rows)]))
        vm.prove('every sample is counted', eq(vm.getattr(o, 'samples_seen'), n + r))
        last = n + r - 1
        vm.prove('trees learn until a sample after the first window', and_(*[eq(t.learning, and_(on, last <= w)) for t in T]))
        for i in range(M):
            ev = [e for e in log if e[0] == i]
            k = 0
            ok = True
            for j, x in enumerate(rows):
                if k >= len(ev) or ev[k][1] != 'mass':
                    ok = False
                    break
                ok = and_(ok, same(list(ev[k][2]), x), eq(ev[k][3], n + j < w))
                k += 1
                due = eq((n + j) % w, 0)
                if k < len(ev) and ev[k][1] == 'model':
                    ok = and_(ok, due, ev[k][2] is T[i].root)
                    k += 1
                else:
                    ok = and_(ok, not_(due))
            vm.prove('tree %d: every sample in order, for the reference in the first window only; the profile is replaced every window_size samples' % i, and_(ok, k == len(ev)))
    return u


def u_first(M, r):
    """the first call builds the trees"""
    def u(vm):
        seed = vm.inp('seed', 'int', 0)
        o = ens(vm, M, 250, random_state=seed, size_limit=7, depth=4)
        vm.prove('no trees yet', len(vm.getattr(o, 'ensemble')) == 0)
        built, log = [], []
        D = 2

        def mk(vm, self, args, kw):
            names = ['max_depth', 'n_features', 'size_limit', 'min_values', 'max_values', 'random_state']
            a = dict(zip(names, args), **kw)
            a['min_values'], a['max_values'] = list(a['min_values']), list(a['max_values'])
            built.append(a)
            return TreeModel(log, len(built) - 1)
        vm.contracts['%s:HalfSpaceTree' % F] = mk
        X = arr(vm, r, D)
        vm.method(o, 'partial_fit', X)
        vm.prove('n_estimators trees', len(built) == M and len(vm.getattr(o, 'ensemble')) == M)
        draws = [d[2] for d in vm.ghost.get('draws', []) if d[1] == 'uniform']
        vm.prove('one draw per tree and feature', len(draws) == M * D)
        rs = vm.getattr(o, '_random_state')
        for i, a in enumerate(built):
            vm.prove('tree %d has the parameters of the ensemble' % i, and_(eq(a['max_depth'], 4), eq(a['n_features'], D), eq(a['size_limit'], 7), a['random_state'] is rs, len(a['min_values']) == D, len(a['max_values']) == D))
            for j in range(D):
                s = draws[i * D + j]
                half = 2 * S.smax(s, 1 - s)
                vm.prove('tree %d: the range of feature %d is s-+2max(s,1-s)' % (i, j), and_(eq(a['min_values'][j], s - half), eq(a['max_values'][j], s + half)))
        vm.prove('all samples seen', eq(vm.getattr(o, 'samples_seen'), r))
        vm.method(o, 'partial_fit', X)
        vm.prove('trees are built once', len(built) == M)
        vm.prove('reset returns self', vm.method(o, 'reset') is o)
        vm.prove('reset drops the trees', and_(len(vm.getattr(o, 'ensemble')) == 0, eq(vm.getattr(o, 'samples_seen'), 0), vm.getattr(o, 'is_learning_phase_on') is True, eq(vm.getattr(o, 'size_limit'), 7)))
    return u


def u_predict(M, r):
    def u(vm):
        o = ens(vm, M, 10, depth=3)
        th = vm.getattr(o, 'anomaly_threshold')
        log = []
        T = []
        for i in range(M):
            P = np.empty((r, 2), dtype=object)
            for q in range(r):
                P[q, 0] = vm.inp('p%d_%d' % (i, q), 'real', 0, 1)
                P[q, 1] = 1 - P[q, 0]
            T.append(TreeModel(log, i, P))
        vm.setattr(o, 'ensemble', vm.born(list(T)))
        X = arr(vm, r, 2)
        rows = [list(q) for q in X]
        mean = []
        for q in range(r):
            s = 0
            for t in T:
                s = s + t.proba[q, 0]
            mean.append(S.div(s, M))
        out = vm.method(o, 'predict_proba', X)
        vm.prove('every tree is asked about the samples once, with the largest score', and_(len(log) == M, *[and_(e[0] == i, eq(e[3], 10 * 2 ** 3), *[same(list(a), b) for a, b in zip(e[2], rows)]) for i, e in enumerate(log)]))
        vm.prove('one row per sample', len(out) == r)
        for q in range(r):
            vm.prove('sample %d: the mean over the trees' % q, and_(eq(out[q][0], mean[q]), eq(out[q][1], 1 - mean[q])))
        pred = vm.method(o, 'predict', X)
        vm.prove('one prediction per sample', len(pred) == r)
        for q in range(r):
            vm.prove('sample %d is an anomaly if its probability exceeds the threshold' % q, eq(pred[q], S.ite(1 - mean[q] > th, 1, 0)))
        vm.prove('the samples stay', and_(*[same(list(a), b) for a, b in zip(X, rows)]))
        vm.prove('predicting teaches nothing', all(e[1] == 'proba' for e in log))
    return u


def u_untrained(vm):
    o = ens(vm, 3)
    X = arr(vm, 2, 2)
    P = vm.method(o, 'predict_proba', X)
    vm.prove('zeros before training', and_(P.shape == (2, 2), *[eq(v, 0) for v in P.flat]))
    vm.prove('nothing is an anomaly before training', and_(*[eq(v, 0) for v in vm.method(o, 'predict', X)]))


UNITS = [('mass depth %d' % k, u_mass(k)) for k in (1, 2, 3)] + [('mass node', u_mass_ind)]
UNITS += [('score depth %d' % k, u_score(k)) for k in (1, 2, 3)] + [('score node', u_score_ind)]
UNITS += [('model depth %d' % k, u_model(k)) for k in (1, 2)] + [('model node', u_model_ind)]
UNITS += [('votes learning', u_votes(2, True)), ('votes', u_votes(2, False))]
UNITS += [('build depth %d features %d' % (k, d), u_build(k, d)) for k, d in ((1, 2), (2, 2), (3, 2), (3, 3))]
UNITS += [('step M%d w%d r%d' % a, u_step(*a)) for a in ((2, 1, 1), (2, 3, 1), (1, 4, 2), (3, 250, 1))]
UNITS += [('first M%d r%d' % a, u_first(*a)) for a in ((1, 1), (2, 2))]
UNITS += [('predict M%d r%d' % a, u_predict(*a)) for a in ((1, 1), (2, 2), (3, 1), (3, 2))]
UNITS += [('untrained', u_untrained)]

from props.c20run import cases, run_case    # noqa: E402,F401
