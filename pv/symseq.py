"""Sequences of symbolic length: Python lists, numpy vectors and matrices with symbolic row count."""
import z3
import numpy as np

from . import sym as S
from .sym import Sym, Unsupported, PyRaise, lift, mk, kind, toreal
from . import vm as V

SORT = {'real': S.R, 'int': S.I, 'bool': S.B}


def elem(k, v):
    e = lift(v)
    if k == 'real':
        return lift(toreal(v))
    if k == 'int' and z3.is_bool(e):
        return S.num(e)
    if k == 'int' and e.sort() == S.R:
        raise Unsupported('real stored in an int sequence')
    return e


def isym(v):
    return lift(v)


class SymList:
    """A Python list of numbers: elements arr[start .. start+n)."""
    def __init__(self, arr, start, n, k):
        self.arr, self.start, self.n, self.k = arr, start, n, k

    @staticmethod
    def fresh(vm, name, k='real', n=None):
        arr = vm.fresh_array(name, k)
        if n is None:
            n = vm.fresh(name + '_len', 'int', 0, inp=True)
        return vm.born(SymList(arr, 0, n, k))

    def at(self, i):
        """element i (no bounds check; for specs)"""
        return mk(z3.Select(self.arr, isym(self.start + i)))

    def pv_copy(self):
        return SymList(self.arr, self.start, self.n, self.k)

    def pv_len(self, vm):
        return self.n

    def pv_truth(self, vm):
        return self.n > 0

    def pv_type(self):
        return list

    def pv_isinstance(self, vm, t):
        return t is list

    def pv_symiter(self, vm):
        snap = self
        return self.n, (lambda i: snap.at(i))

    def _idx(self, vm, k):
        if isinstance(k, Sym) or isinstance(k, int):
            if isinstance(k, int) and k < 0 or isinstance(k, Sym) and not vm.known(lift(k) >= 0):
                if vm.truth(k < 0):
                    k = k + self.n
            if vm.truth(S.or_(k < 0, k >= self.n)):
                raise PyRaise('IndexError', ('list index out of range',))
            return k
        raise Unsupported('list index %r' % (k,))

    def pv_getitem(self, vm, k):
        if isinstance(k, slice):
            return self._slice(vm, k)
        return self.at(self._idx(vm, k))

    def _bounds(self, vm, k):
        if k.step not in (None, 1):
            raise Unsupported('slice step')
        lo = 0 if k.start is None else k.start
        hi = self.n if k.stop is None else k.stop
        def clamp(x):
            x = S.ite(x < 0, S.smax(x + self.n, 0), x)
            return S.smin(x, self.n)
        lo, hi = clamp(lo), clamp(hi)
        return lo, S.smax(hi, lo)

    def _slice(self, vm, k):
        lo, hi = self._bounds(vm, k)
        return vm.born(SymList(self.arr, self.start + lo, hi - lo, self.k))

    def pv_setitem(self, vm, k, v):
        vm.log_mut(self, 'set', v)
        i = self._idx(vm, k)
        self.arr = z3.Store(self.arr, isym(self.start + i), elem(self.k, v))

    def pv_delitem(self, vm, k):
        vm.log_mut(self, 'del')
        if isinstance(k, slice):
            lo, hi = self._bounds(vm, k)
            if vm.truth(S.eq(lo, 0)):
                self.start, self.n = self.start + hi, self.n - hi
                return
            if vm.truth(S.eq(hi, self.n)):
                self.n = lo
                return
            raise Unsupported('del of an inner slice')
        if k == 0:
            self._pop0(vm)
        else:
            raise Unsupported('del of an inner element')

    def _pop0(self, vm):
        if vm.truth(self.n <= 0):
            raise PyRaise('IndexError', ('pop from empty list',))
        v = self.at(0)
        self.start, self.n = self.start + 1, self.n - 1
        return v

    def _append(self, vm, v):
        if self.k == 'int' and kind(v) == 'real':
            raise Unsupported('int list receives a real')
        self.arr = z3.Store(self.arr, isym(self.start + self.n), elem(self.k, v))
        self.n = self.n + 1

    def pv_getattr(self, vm, name):
        from .ext import _method
        if name == 'append':
            def f(v):
                vm.log_mut(self, 'append', v)
                self._append(vm, v)
            return _method(f)
        if name == 'pop':
            def f(i=-1):
                vm.log_mut(self, 'pop')
                if i == 0:
                    return self._pop0(vm)
                if i == -1:
                    if vm.truth(self.n <= 0):
                        raise PyRaise('IndexError', ('pop from empty list',))
                    self.n = self.n - 1
                    return self.at(self.n)
                raise Unsupported('pop of an inner element')
            return _method(f)
        if name == 'extend':
            def f(o):
                vm.log_mut(self, 'append', None)
                if isinstance(o, SymList):
                    # arr' = lambda a. a < end ? arr[a] : o.arr[a - end + o.start]
                    a = z3.Int('ext_a')
                    end = self.start + self.n
                    old, oarr, ost = self.arr, o.arr, o.start
                    self.arr = z3.Lambda([a], z3.If(a < isym(end), z3.Select(old, a), z3.Select(oarr, a - isym(end) + isym(ost))))
                    self.n = self.n + o.n
                    return
                for v in vm.iterate(o):
                    self._append(vm, v)
            return _method(f)
        if name == 'clear':
            def f():
                vm.log_mut(self, 'clear')
                self.n = 0
            return _method(f)
        if name == 'copy':
            return _method(lambda: vm.born(self.pv_copy()))
        if name in ('ndim', 'shape', 'size', 'dtype'):
            raise PyRaise('AttributeError', (name,))
        raise Unsupported('list.%s on a symbolic list' % name)

    def pv_havoc(self, vm, shapes):
        self.arr = vm.fresh_array('hl', self.k)
        self.start = vm.fresh('hl_start', 'int')
        self.n = vm.fresh('hl_len', 'int', 0)

    def pv_binop(self, vm, t, o, rev):
        if t == 'Add' and not rev:
            r = vm.born(self.pv_copy())
            vm.call(r.pv_getattr(vm, 'extend'), [o], {})
            return r
        raise Unsupported('operator on symbolic list')

    def pv_toarray(self, vm):
        return vm.born(SymVec(self.arr, self.start, self.n, self.k))

    def pv_tolist(self, vm):
        return vm.born(self.pv_copy())


class SymVec(SymList):
    """numpy 1-D array of symbolic length (fixed length; no append)."""
    @staticmethod
    def full(vm, n, val):
        k = kind(val)
        return SymVec(z3.K(S.I, elem(k, val)), 0, n, k)

    def pv_copy(self):
        return SymVec(self.arr, self.start, self.n, self.k)

    def pv_type(self):
        return V.Ext('numpy.ndarray')

    def pv_isinstance(self, vm, t):
        return isinstance(t, V.Ext) and t.path == 'numpy.ndarray'

    def pv_getattr(self, vm, name):
        from .ext import _method
        if name == 'shape':
            return (self.n,)
        if name == 'ndim':
            return 1
        if name == 'size':
            return self.n
        if name == 'tolist':
            return _method(lambda: vm.born(SymList(self.arr, self.start, self.n, self.k)))
        if name in ('flatten', 'ravel', 'copy'):
            return _method(lambda: vm.born(self.pv_copy()))
        if name == 'astype':
            return _method(lambda t, **k: self)
        if name in ('append',):
            raise PyRaise('AttributeError', (name,))
        raise Unsupported('ndarray.%s (symbolic length)' % name)

    def pv_delitem(self, vm, k):
        raise PyRaise('ValueError', ('cannot delete array elements',))

    def _slice(self, vm, k):
        lo, hi = self._bounds(vm, k)
        r = SymVec(self.arr, self.start + lo, hi - lo, self.k)
        r.readonly = True
        return vm.born(r)

    def pv_setitem(self, vm, k, v):
        if getattr(self, 'readonly', False):
            raise Unsupported('store through a slice of a symbolic array')
        if isinstance(k, slice):
            raise Unsupported('slice store into symbolic vector')
        return super().pv_setitem(vm, k, v)

    def pv_havoc(self, vm, shapes):
        self.arr = vm.fresh_array('hv', self.k)

    def pv_binop(self, vm, t, o, rev):
        raise Unsupported('operator on symbolic vector')

    def pv_toarray(self, vm):
        return self


class SymMat:
    """numpy 2-D array: symbolic number of rows, concrete number of columns (one z3 array per column)."""
    def __init__(self, cols, start, n, k='real'):
        self.cols, self.start, self.n, self.k = list(cols), start, n, k
        self.readonly = False

    @staticmethod
    def full(vm, n, m, val):
        return SymMat([z3.K(S.I, elem('real', val)) for _ in range(m)], 0, n)

    @staticmethod
    def fresh(vm, name, n, m):
        return vm.born(SymMat([vm.fresh_array('%s_%d' % (name, j)) for j in range(m)], 0, n))

    def at(self, i, j):
        return mk(z3.Select(self.cols[j], isym(self.start + i)))

    def row(self, i):
        return [self.at(i, j) for j in range(len(self.cols))]

    def pv_copy(self):
        return SymMat(self.cols, self.start, self.n)

    def pv_len(self, vm):
        return self.n

    def pv_isinstance(self, vm, t):
        return isinstance(t, V.Ext) and t.path == 'numpy.ndarray'

    def pv_type(self):
        return V.Ext('numpy.ndarray')

    def pv_symiter(self, vm):
        return self.n, (lambda i: self._rowarr(vm, i))

    def _rowarr(self, vm, i):
        a = np.empty(len(self.cols), dtype=object)
        for j in range(len(self.cols)):
            a[j] = self.at(i, j)
        a = vm.born(a)
        return a

    def _ri(self, vm, k):
        if isinstance(k, int) and k < 0:
            k = k + self.n
        if vm.truth(S.or_(k < 0, k >= self.n)):
            raise PyRaise('IndexError', ('index out of bounds',))
        return k

    def pv_getitem(self, vm, k):
        if not isinstance(k, tuple):
            k = (k,)
        r = k[0]
        c = k[1] if len(k) > 1 else slice(None)
        m = len(self.cols)
        if isinstance(c, Sym):
            c = vm.pick_index(c, m)
        if isinstance(r, slice):
            if isinstance(c, slice):
                cs = list(range(m))[slice(*[vm.pick_bound(x, m) if isinstance(x, Sym) else x for x in (c.start, c.stop, c.step)])]
            elif isinstance(c, int):
                lo, hi = SymList._bounds(self, vm, r)
                out = SymVec(self.cols[c], self.start + lo, hi - lo, self.k)
                out.readonly = True
                return vm.born(out)
            else:
                raise Unsupported('fancy column index')
            lo, hi = SymList._bounds(self, vm, r)
            out = SymMat([self.cols[j] for j in cs], self.start + lo, hi - lo)
            out.readonly = True
            return vm.born(out)
        i = self._ri(vm, r)
        if isinstance(c, slice):
            return self._rowarr(vm, i)[slice(*[vm.pick_bound(x, m) if isinstance(x, Sym) else x for x in (c.start, c.stop, c.step)])]
        if isinstance(c, int):
            if not -m <= c < m:
                raise PyRaise('IndexError', ('column',))
            return self.at(i, c % m)
        raise Unsupported('matrix index')

    def pv_setitem(self, vm, k, v):
        if self.readonly:
            raise Unsupported('store through a slice of a symbolic matrix')
        vm.log_mut(self, 'set')
        if not isinstance(k, tuple):
            k = (k, slice(None))
        r, c = k
        m = len(self.cols)
        if isinstance(c, Sym):
            c = vm.pick_index(c, m)
        if isinstance(r, slice):
            raise Unsupported('row-slice store')
        i = isym(self.start + self._ri(vm, r))
        if isinstance(c, slice):
            cs = list(range(m))[slice(*[vm.pick_bound(x, m) if isinstance(x, Sym) else x for x in (c.start, c.stop, c.step)])]
            vals = vm.iterate(v) if isinstance(v, (list, tuple, np.ndarray)) else [v] * len(cs)
            if len(vals) == 1 and len(cs) != 1:
                vals = vals * len(cs)
            if len(vals) != len(cs):
                raise PyRaise('ValueError', ('could not broadcast',))
            for j, x in zip(cs, vals):
                self.cols[j] = z3.Store(self.cols[j], i, elem('real', x))
            return
        if not -m <= c < m:
            raise PyRaise('IndexError', ('column',))
        self.cols[c % m] = z3.Store(self.cols[c % m], i, elem('real', v))

    def pv_getattr(self, vm, name):
        from .ext import _method
        if name == 'shape':
            return (self.n, len(self.cols))
        if name == 'ndim':
            return 2
        if name == 'size':
            return self.n * len(self.cols)
        if name in ('flatten', 'ravel'):
            def f():
                if len(self.cols) != 1:
                    raise Unsupported('flatten of a wide matrix')
                return vm.born(SymVec(self.cols[0], self.start, self.n, self.k))
            return _method(f)
        if name == 'astype':
            return _method(lambda t, **k: self)
        if name == 'copy':
            return _method(lambda: vm.born(self.pv_copy()))
        if name == 'dtype':
            return S.Opaque('dtype')
        if name == 'append':
            raise PyRaise('AttributeError', (name,))
        raise Unsupported('ndarray.%s (symbolic rows)' % name)

    def pv_havoc(self, vm, shapes):
        self.cols = [vm.fresh_array('hm') for _ in self.cols]

    def pv_toarray(self, vm):
        return self


def _vstack(vm, xs):
    from .ext import toarr
    xs = vm.iterate(xs)
    if isinstance(xs[0], SymMat):
        if len(xs) != 2:
            raise Unsupported('vstack')
        a, b = xs[0], xs[1]
        if isinstance(b, (SymMat, SymVec)):
            raise Unsupported('vstack of two symbolic matrices')
        b = toarr(vm, b)
        if not isinstance(b, np.ndarray):
            b = toarr(vm, [b])
        if b.ndim == 1:
            b = b.reshape(1, -1)
        if b.shape[1] != len(a.cols):
            raise PyRaise('ValueError', ('dimension mismatch',))
        r = a.pv_copy()
        for q in range(b.shape[0]):
            for j in range(len(r.cols)):
                r.cols[j] = z3.Store(r.cols[j], isym(r.start + r.n), elem('real', b[q, j]))
            r.n = r.n + 1
        return vm.born(r)
    arrs = [toarr(vm, x) for x in xs]
    arrs = [a.reshape(1, -1) if a.ndim == 1 else a for a in arrs]
    try:
        return vm.born(np.vstack(arrs))
    except ValueError as e:
        raise PyRaise('ValueError', e.args)


def install():
    from .ext import EXT
    EXT['numpy.vstack'] = _vstack
    old = EXT['numpy.delete']

    def delete(vm, a, i, axis=None):
        if isinstance(a, SymMat):
            if axis == 0 and i == 0:
                if vm.truth(a.n <= 0):
                    raise PyRaise('IndexError', ('delete',))
                return vm.born(SymMat(a.cols, a.start + 1, a.n - 1))
            raise Unsupported('np.delete on a symbolic matrix')
        return old(vm, a, i, axis)
    EXT['numpy.delete'] = delete
    EXT['numpy.concatenate.sym'] = None


install()


def promote(vm, lst, env, shapes):
    """A native list that a symbolic loop appends to becomes a SymList everywhere it is referenced."""
    kinds = {s[1] for s in shapes if isinstance(s, tuple) and s[1] is not None} | {vm.shape(x) for x in lst}
    if not kinds <= {'int', 'real', 'bool'}:
        raise Unsupported('symbolic loop builds a list of %s' % kinds)
    k = 'real' if 'real' in kinds else 'int' if 'int' in kinds else 'bool'
    s = SymList(vm.fresh_array('pl', k), 0, len(lst), k)
    for i, x in enumerate(lst):
        s.arr = z3.Store(s.arr, i, elem(k, x))
    b = vm.births.get(id(lst), 0)
    vm.births[id(s)] = b
    vm.keep.append(s)
    vm.births[id(lst)] = -b
    e = env
    while e is not None:
        for n, v in e.vars.items():
            if v is lst:
                e.vars[n] = s
        e = e.parent
    for o in vm.keep:
        if isinstance(o, V.Obj):
            for n, v in o.fields.items():
                if v is lst:
                    o.fields[n] = s
    return s


def forall(f, lo, hi):
    """for all integers a in [lo,hi): f(Sym a)"""
    a = z3.FreshConst(S.I, 'q')
    body = f(Sym(a))
    return Sym(z3.ForAll([a], z3.Implies(z3.And(a >= isym(lo), a < isym(hi)), lift(S.truth(body)) if not isinstance(S.truth(body), bool) else z3.BoolVal(S.truth(body)))))
