"""C03: bounded windows hold exactly the newest elements, in arrival order, and hand back the evicted ones."""
import z3
import numpy as np
from pv import sym as S
from pv.sym import eq, and_, implies, Sym, ite, smax, lift, mk
from pv.symseq import SymList, SymMat, SymVec
from pv.vm import Obj

ID = 'C03'
BUDGET = 8
F = 'utils/data_structures.py'
ASSUME = ['capacity >= 1; elements are opaque tokens (proof) or arbitrary values (run time)']
BOUNDED = ['FastComplexBuffer.add_element: the width/ndim normalisation of the batch is checked on generated batches only; its queue loop has the same contract as FastBuffer',
           'SlidingWindow: proved for 1..3 features and 1..2 targets (column count is concrete, row count and capacity symbolic)']


def seq_is(X, f, n):
    """the symbolic list X is [f(0), ..., f(n-1)]"""
    if isinstance(X, list):
        return and_(eq(n, len(X)), *[eq(x, f(i)) for i, x in enumerate(X)])
    a = z3.FreshConst(S.I, 'a')
    st, nn = lift(X.start), lift(n)
    body = z3.Select(X.arr, a) == lift(f(Sym(a - st)))
    return and_(eq(X.n, n), Sym(z3.ForAll([a], z3.Implies(z3.And(a >= st, a < st + nn), body), patterns=[z3.Select(X.arr, a)])))


def idx_terms(vm, L):
    if L['n'] is not None:
        return [('i', L['idx'])]
    out = []
    for loc, e in L['entry'].items():
        if loc[0] == 'local' and S.kind(e) == 'int':
            v = vm.loc_get(loc, L['env'])
            if S.kind(v) == 'int':
                out.append((loc[1], v - e))
    return out


def queue_cands(O, m, E, k, mx, buf):
    C = lambda a: ite(a < m, O.at(a), E.at(a - m))

    def hook(vm, L):
        out = []
        for nm, t in idx_terms(vm, L):
            out.append(('idx %s in range' % nm, lambda t=t: and_(t >= 0, t <= k), False))
        for loc in sorted(L['info'].mods, key=str):
            if loc[0] != 'cont':
                continue
            X = vm.loc_get(loc, L['env'])
            if not isinstance(X, SymList):
                continue
            for nm, t in idx_terms(vm, L):
                drop = smax(m + t - mx, 0)
                out.append(('%s suffix by %s' % (loc, nm), lambda X=X, t=t, drop=drop: seq_is(X, lambda a: C(a + drop), m + t - drop), False))
                out.append(('%s prefix by %s' % (loc, nm), lambda X=X, drop=drop: seq_is(X, C, drop), False))
        for loc in sorted(L['info'].mods, key=str):
            if loc[0] == 'field':
                out.append(('%s = len(buffer)' % (loc,), lambda loc=loc: eq(vm.loc_get(loc, L['env']), buf().n), False))
                for nm, t in idx_terms(vm, L):
                    out.append(('%s = entry + %s' % (loc, nm), lambda loc=loc, t=t: eq(vm.loc_get(loc, L['env']), L['entry'][loc] + t), False))
        return out
    return hook, C


def mkbuf(vm, cls):
    c = vm.cls(F, cls)
    mx = vm.inp('max_size', 'int', 1)
    o = vm.new(c, mx) if cls == 'FastBuffer' else vm.new(c, mx, 2)
    B = SymList.fresh(vm, 'old', 'int')
    vm.assume(B.n <= mx)
    vm.prove('new buffer is empty', and_(eq(len(o.fields['buffer']), 0), eq(o.fields['current_size'], 0), eq(o.fields['max_size'], mx)))
    o.fields['buffer'] = B
    o.fields['current_size'] = B.n
    return o, B, mx


def u_add(cls):
    def u(vm):
        o, B, mx = mkbuf(vm, cls)
        O = B.pv_copy()
        m = B.n
        E = SymList.fresh(vm, 'new', 'int')
        k = E.n
        hook, C = queue_cands(O, m, E, k, mx, lambda: o.fields['buffer'])
        vm.hooks['cands'] = [hook]
        r = vm.method(o, 'add_element', E)
        drop = smax(m + k - mx, 0)
        vm.prove('contents are the newest max_size', seq_is(o.fields['buffer'], lambda a: C(a + drop), m + k - drop))
        vm.prove('current_size', eq(o.fields['current_size'], m + k - drop))
        vm.prove('capacity respected', o.fields['current_size'] <= mx)
        if r is None:
            vm.prove('None only when nothing was evicted', eq(drop, 0))
        else:
            vm.prove('evicted elements, oldest first', seq_is(r, C, drop))
        vm.prove('get_queue', vm.method(o, 'get_queue') is o.fields['buffer'])
        vm.prove('frame max_size', eq(o.fields['max_size'], mx))
    return u


def u_next(cls):
    def u(vm):
        o, B, mx = mkbuf(vm, cls)
        O = B.pv_copy()
        m = B.n
        full, empty, size = vm.method(o, 'is_full'), vm.method(o, 'is_empty'), vm.method(o, 'get_current_size')
        vm.prove('is_full', S.iff(full, eq(m, mx)))
        vm.prove('is_empty', S.iff(empty, eq(m, 0)))
        vm.prove('size', eq(size, m))
        pk = vm.method(o, 'peek')
        r = vm.method(o, 'get_next_element')
        if r is None:
            vm.prove('None only when empty', and_(eq(m, 0), pk is None))
            vm.prove('unchanged', and_(eq(o.fields['buffer'].n, 0), eq(o.fields['current_size'], 0)))
        else:
            vm.prove('oldest element', and_(m > 0, eq(r, O.at(0)), eq(pk, O.at(0))))
            vm.prove('rest kept in order', seq_is(o.fields['buffer'], lambda a: O.at(a + 1), m - 1))
            vm.prove('current_size', eq(o.fields['current_size'], m - 1))
        vm.prove('frame max_size', eq(o.fields['max_size'], mx))
    return u


def u_clear(cls):
    def u(vm):
        o, B, mx = mkbuf(vm, cls)
        vm.method(o, 'clear_queue')
        b = o.fields['buffer']
        vm.prove('empty', eq(len(b) if isinstance(b, list) else b.n, 0))
        vm.prove('size 0', eq(o.fields['current_size'], 0))
        vm.prove('capacity kept', eq(o.fields['max_size'], mx))
    return u


def u_complex(rows, as_list):
    """FastComplexBuffer with concrete row width 2 and `rows` rows, symbolic contents, buffer of concrete size."""
    def u(vm):
        c = vm.cls(F, 'FastComplexBuffer')
        size = vm.choose(4)
        cap = vm.inp('max_size', 'int', 1)
        vm.assume(cap >= size)
        o = vm.new(c, cap, 2)
        old = [vm.born([vm.inp('o%d_%d' % (i, j)) for j in range(2)]) for i in range(size)]
        o.fields['buffer'] = vm.born(list(old))
        o.fields['current_size'] = size
        data = [[vm.inp('n%d_%d' % (i, j)) for j in range(2)] for i in range(rows)]
        if as_list:
            arg = vm.born(list(data[0])) if rows == 1 else vm.born([vm.born(list(r)) for r in data])
        else:
            from pv.ext import toarr
            arg = vm.born(toarr(vm, data[0] if rows == 1 else data))
        r = vm.method(o, 'add_element', arg)
        allr = old + data
        tot = size + rows
        buf = o.fields['buffer']
        vm.prove('size', eq(o.fields['current_size'], S.smin(tot, cap)))
        vm.prove('len', eq(len(buf), S.smin(tot, cap)))
        keep = len(buf)
        flat = lambda x: [v for q in x for v in q]
        vm.prove('newest rows', and_(*[eq(a, b) for a, b in zip(flat(buf), flat(allr[tot - keep:]))]))
        if r is None:
            vm.prove('none evicted', tot <= cap)
        else:
            vm.prove('evicted rows', and_(eq(len(r), tot - keep), *[eq(a, b) for a, b in zip(flat(r), flat(allr[:tot - keep]))]))
    return u


# ------------------------------------------------------------------ SlidingWindow
def mkwin(vm, nf, nt):
    c = vm.cls(F, 'SlidingWindow')
    w = vm.inp('window_size', 'int', 1)
    o = vm.new(c, w)
    n = vm.inp('n', 'int', 0)
    vm.assume(n <= w)
    X, Y = SymMat.fresh(vm, 'X', n, nf), SymMat.fresh(vm, 'Y', n, nt)
    vm.prove('a new window is empty', eq(vm.getattr(o, 'size'), 0))
    o.fields.update(_n_features=nf, _n_targets=nt, _X_queue=X, _y_queue=Y, _is_initialized=True)
    return o, w, n, X, Y


def arr2(vm, name, m):
    a = np.empty((1, m), dtype=object)
    for j in range(m):
        a[0, j] = vm.inp('%s%d' % (name, j))
    return vm.born(a)


def mat_is(vm, M, f, n, label):
    vm.prove(label + ' rows', eq(M.n, n))
    i = vm.fresh('row', 'int')
    vm.assume(and_(i >= 0, i < n))
    for j in range(len(M.cols)):
        vm.prove('%s col %d' % (label, j), eq(M.at(i, j), f(i, j)))


def u_win(nf, nt):
    def u(vm):
        o, w, n, X, Y = mkwin(vm, nf, nt)
        X0, Y0 = X.pv_copy(), Y.pv_copy()
        x, y = arr2(vm, 'x', nf), arr2(vm, 'y', nt)
        vm.method(o, 'add_sample', x, y)
        drop = smax(n + 1 - w, 0)
        QX, QY = vm.getattr(o, 'features_buffer'), vm.getattr(o, 'targets_buffer')
        vm.prove('size', eq(vm.getattr(o, 'size'), n + 1 - drop))
        tot = n + 1
        mat_is(vm, QX, lambda i, j: ite(i + drop < n, X0.at(i + drop, j), x[0, j]), tot - drop, 'features')
        mat_is(vm, QY, lambda i, j: ite(i + drop < n, Y0.at(i + drop, j), y[0, j]), tot - drop, 'targets')
        vm.prove('meta', and_(eq(vm.getattr(o, 'n_features'), nf), eq(vm.getattr(o, 'n_targets'), nt), eq(o.fields['window_size'], w)))
    return u


def u_win_first(vm):
    nf, nt = 2, 1
    c = vm.cls(F, 'SlidingWindow')
    w = vm.inp('window_size', 'int', 1)
    o = vm.new(c, w)
    if vm.choose(2):
        # after a reset of a used window
        o.fields.update(_n_features=5, _n_targets=2, _X_queue=SymMat.fresh(vm, 'X', 3, 5), _y_queue=SymMat.fresh(vm, 'Y', 3, 2), _is_initialized=True)
        vm.method(o, 'reset')
        vm.prove('reset empties', eq(vm.getattr(o, 'size'), 0))
        vm.prove('reset keeps capacity', eq(o.fields['window_size'], w))
    x, y = arr2(vm, 'x', nf), arr2(vm, 'y', nt)
    vm.method(o, 'add_sample', x, y)
    QX, QY = vm.getattr(o, 'features_buffer'), vm.getattr(o, 'targets_buffer')
    vm.prove('one row', and_(eq(vm.getattr(o, 'size'), 1), QX.shape == (1, nf), QY.shape == (1, nt)))
    vm.prove('row', and_(*[eq(a, b) for a, b in zip(list(QX[0]) + list(QY[0]), list(x[0]) + list(y[0]))]))
    vm.prove('meta', and_(eq(vm.getattr(o, 'n_features'), nf), eq(vm.getattr(o, 'n_targets'), nt)))


def u_win_bad(vm):
    o, w, n, X, Y = mkwin(vm, 2, 1)
    from pv.sym import PyRaise
    try:
        vm.method(o, 'add_sample', arr2(vm, 'x', 3), arr2(vm, 'y', 1))
    except PyRaise as e:
        vm.prove('ValueError for a different number of features', e.name == 'ValueError')
        vm.prove('window untouched', and_(o.fields['_X_queue'] is X, o.fields['_y_queue'] is Y))
        return
    vm.prove('inconsistent row rejected', False)


def u_win_del(vm):
    o, w, n, X, Y = mkwin(vm, 2, 1)
    X0, Y0 = X.pv_copy(), Y.pv_copy()
    vm.method(o, 'delete_oldest_sample')
    QX, QY = o.fields['_X_queue'], o.fields['_y_queue']
    if vm.truth(n > 0):
        mat_is(vm, QX, lambda i, j: X0.at(i + 1, j), n - 1, 'features')
        mat_is(vm, QY, lambda i, j: Y0.at(i + 1, j), n - 1, 'targets')
    else:
        vm.prove('still empty', and_(eq(QX.n, 0), eq(QY.n, 0)))


UNITS = [('FastBuffer.add_element', u_add('FastBuffer')), ('FastBuffer.get_next_element', u_next('FastBuffer')),
         ('FastBuffer.clear_queue', u_clear('FastBuffer')), ('FastComplexBuffer.get_next_element', u_next('FastComplexBuffer')),
         ('FastComplexBuffer.clear_queue', u_clear('FastComplexBuffer'))]
UNITS += [('FastComplexBuffer.add_element[%d rows,%s]' % (r, 'list' if l else 'array'), u_complex(r, l)) for r in (1, 2, 3) for l in (True, False)]
UNITS += [('SlidingWindow.add_sample[%d,%d]' % (f, t), u_win(f, t)) for f, t in ((1, 1), (2, 1), (3, 2))]
UNITS += [('SlidingWindow.first', u_win_first), ('SlidingWindow.inconsistent', u_win_bad), ('SlidingWindow.delete_oldest_sample', u_win_del)]


# ------------------------------------------------------------------ run time
def cases(rnd, hints, tier):
    while True:
        cap = rnd.choice([1, 2, 3, 5, 8, 20])
        ops = []
        kind = rnd.choice(['FastBuffer', 'FastBuffer', 'FastComplexBuffer', 'SlidingWindow'])
        t = 0
        for _ in range(rnd.randint(1, 30)):
            r = rnd.random()
            if r < .7:
                k = rnd.randint(1, cap * 2 + 1) if kind != 'SlidingWindow' else 1
                if kind == 'FastBuffer' and rnd.random() < .1:
                    k = 0
                ops.append(['add', list(range(t, t + k)), rnd.random() < .5])
                t += k
            elif r < .85:
                ops.append(['next'])
            elif r < .9:
                ops.append(['clear'])
            else:
                ops.append(['peek'])
        yield dict(kind=kind, cap=cap, ops=ops)


def run_case(case):
    from skmultiflow.utils.data_structures import FastBuffer, FastComplexBuffer, SlidingWindow
    cap, kind = case['cap'], case['kind']
    q = []
    desc = '%s(capacity %d) after %s: ' % (kind, cap, case['ops'])
    if kind == 'SlidingWindow':
        o = SlidingWindow(cap)
        for op in case['ops']:
            if op[0] == 'add':
                t = op[1][0]
                o.add_sample(np.array([[t, t + .5, -t]]), np.array([[t % 3, t]]))
                q = (q + [t])[-cap:]
            elif op[0] == 'next':
                o.delete_oldest_sample()
                q = q[1:]
            elif op[0] == 'clear':
                o.reset()
                q = []
            if o.size != len(q):
                return desc + 'size %d, expected %d' % (o.size, len(q))
            if q:
                if o.features_buffer.tolist() != [[t, t + .5, -t] for t in q] or o.targets_buffer.tolist() != [[t % 3, t] for t in q]:
                    return desc + 'window holds %s / %s, expected tokens %s' % (o.features_buffer.tolist(), o.targets_buffer.tolist(), q)
        return None
    cx = kind == 'FastComplexBuffer'
    o = FastComplexBuffer(cap, 2) if cx else FastBuffer(cap)
    enc = (lambda t: [t, t * 2]) if cx else (lambda t: t)
    for op in case['ops']:
        if op[0] == 'add':
            new = [enc(t) for t in op[1]]
            if cx and not new:
                continue
            arg = new
            if cx:
                if len(new) == 1:
                    arg = new[0]
                if op[2]:
                    arg = np.array(arg)
            r = o.add_element(arg)
            ev = (q + new)[:max(0, len(q) + len(new) - cap)]
            q = (q + new)[-cap:]
            if (r is None and ev) or (r is not None and list(r) != ev):
                return desc + 'add returned %r, evicted elements are %r' % (r, ev)
        elif op[0] == 'next':
            r = o.get_next_element()
            e = q.pop(0) if q else None
            if r != e:
                return desc + 'get_next_element returned %r, oldest is %r' % (r, e)
        elif op[0] == 'clear':
            o.clear_queue()
            q = []
        else:
            if o.peek() != (q[0] if q else None):
                return desc + 'peek %r' % (o.peek(),)
        if list(o.get_queue()) != q or o.get_current_size() != len(q) or o.is_full() != (len(q) == cap) or o.is_empty() != (not q):
            return desc + 'queue %r size %r, expected %r' % (o.get_queue(), o.get_current_size(), q)
    return None
