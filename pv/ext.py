"""Models of builtins, numpy and other external libraries (the assumed contracts)."""
import ast
import builtins
import math
import sys

import numpy as np
import z3

from . import sym as S
from .sym import Sym, Opaque, Unsupported, PyRaise, PathEnd, conc, kind, lift, mk
from . import vm as V

CONSTS = {
    'numpy.pi': math.pi, 'math.pi': math.pi, 'numpy.inf': S.INF, 'numpy.Inf': S.INF, 'math.inf': S.INF,
    'numpy.nan': float('nan'), 'numpy.NaN': float('nan'), 'numpy.newaxis': None, 'math.e': math.e, 'numpy.e': math.e,
    'sys.float_info.max': sys.float_info.max, 'sys.float_info.min': sys.float_info.min,
    'sys.maxsize': sys.maxsize, 'sys.float_info.epsilon': sys.float_info.epsilon,
}
_NOOP_PREFIX = ('warnings.', 'logging.')


class Fn:
    """A modelled builtin/external function (callable with the VM as first argument)."""
    def __init__(self, name, f):
        self.name, self.f = name, f

    def __repr__(self):
        return '<model %s>' % self.name


EXT = {}


def ext(*names):
    def d(f):
        for n in names:
            EXT[n] = f
        return f
    return d


BUILTINS = {}


def builtin(name):
    def d(f):
        BUILTINS[name] = Fn(name, f)
        return f
    return d


def ext_call(vm, e, args, kw):
    p = e.path
    f = vm.hooks.get('ext', {}).get(p) or EXT.get(p)
    if f is not None:
        if not p.startswith('builtins.'):
            vm.assumed.add('external:' + p)
        if kw and p.startswith('numpy.'):
            extra = set(kw) - _IGNORABLE - _params(f)
            if extra:
                raise Unsupported('%s with %s' % (p, sorted(extra)))
        return f(vm, *args, **kw)
    if p.startswith(_NOOP_PREFIX):
        return None
    # fully concrete numpy/math/copy call: run it
    root = p.split('.')[0]
    if root in ('numpy', 'math') and 'random' not in p and not _has_sym(args) and not _has_sym(list(kw.values())):
        mod = np if root == 'numpy' else math
        fn = mod
        for a in p.split('.')[1:]:
            fn = getattr(fn, a)
        try:
            r = fn(*args, **kw)
        except (ValueError, ZeroDivisionError, TypeError, IndexError, OverflowError) as ex:
            raise PyRaise(type(ex).__name__, ex.args)
        if isinstance(r, np.ndarray):
            vm.born(r)
        return conc(r)
    if p in ('os.path.basename', 'os.path.splitext', 'os.path.join', 'os.path.dirname') and not _has_sym(args):
        import os
        return getattr(os.path, p.split('.')[-1])(*args)
    raise Unsupported('external call %s' % p)


_IGNORABLE = {'dtype', 'order', 'copy', 'subok', 'kind', 'assume_unique'}       # (keywords a model may leave to **k)
_PARAMS = {}


def _params(f):
    if f not in _PARAMS:
        import inspect
        _PARAMS[f] = {n for n, q in inspect.signature(f).parameters.items() if q.kind != q.VAR_KEYWORD}
    return _PARAMS[f]


def _has_sym(vs):
    for v in vs:
        if isinstance(v, (Sym, V.Obj, V.SymRange)) or hasattr(v, 'pv_getitem'):
            return True
        if isinstance(v, (list, tuple)) and _has_sym(v):
            return True
        if isinstance(v, dict) and _has_sym(list(v.values())):
            return True
        if isinstance(v, np.ndarray) and v.dtype == object:
            return True
    return False


def native_call(vm, f, args, kw):
    if isinstance(f, type) and issubclass(f, BaseException):
        return ('exc', f.__name__, tuple(args))
    if isinstance(f, Fn):
        return f.f(vm, *args, **kw)
    if getattr(f, 'pv_model', False):
        return f(*args, **kw)
    nm = getattr(f, '__name__', None)
    if nm in BUILTINS and getattr(builtins, nm, None) is f:
        return BUILTINS[nm].f(vm, *args, **kw)
    deep = [list(a.flat) if isinstance(a, np.ndarray) and a.dtype == object else a for a in list(args) + list(kw.values())]
    if _has_sym(deep):
        raise Unsupported('native call %r with symbolic arguments' % f)
    try:
        r = f(*args, **kw)
    except (ValueError, TypeError, KeyError, IndexError, ZeroDivisionError, AttributeError, StopIteration) as ex:
        raise PyRaise(type(ex).__name__, ex.args)
    if isinstance(r, (list, dict)):
        vm.born(r)
    return r


# Fn objects are callable as far as VM.call is concerned
Fn.__call__ = lambda self, *a, **k: self.f(S.vm(), *a, **k)
Fn.pv_model = True


def _method(f):
    f.pv_model = True
    return f


# ------------------------------------------------------------------ builtins

@builtin('print')
def _print(vm, *a, **k):
    return None


@builtin('len')
def _len(vm, x):
    f = getattr(x, 'pv_len', None)
    if f:
        return f(vm)
    if isinstance(x, V.Obj) and isinstance(x.cls, V.ClassVal) and x.cls.lookup('__len__'):
        return vm.method(x, '__len__')
    if isinstance(x, V.SymRange):
        return S.smax(x.hi - x.lo, 0)
    if isinstance(x, (Sym, int, float, bool)) or x is None:
        raise PyRaise('TypeError', ('object has no len()',))
    if isinstance(x, V.Obj):
        raise PyRaise('TypeError', ('object has no len()',))
    return len(x)


@builtin('range')
def _range(vm, *a):
    a = [conc(x) for x in a]
    if any(isinstance(x, Sym) for x in a):
        if any(kind(x) == 'real' for x in a):
            raise PyRaise('TypeError', ('float in range',))
        if len(a) == 1:
            return V.SymRange(0, a[0])
        if len(a) == 2:
            return V.SymRange(a[0], a[1])
        if len(a) == 3 and a[2] == 1:
            return V.SymRange(a[0], a[1])
        raise Unsupported('range with symbolic step')
    if any(isinstance(x, float) for x in a):
        raise PyRaise('TypeError', ('float in range',))
    return range(*a)


@builtin('abs')
def _abs(vm, x):
    if isinstance(x, np.ndarray):
        return vmap(vm, lambda v: abs(v), x)
    return abs(x)


@builtin('int')
def _int(vm, x=0):
    if isinstance(x, Sym):
        return S.toint(x)
    if isinstance(x, np.ndarray) and x.size == 1:
        return _int(vm, x.reshape(-1)[0])
    try:
        return int(x)
    except (ValueError, TypeError, OverflowError) as e:
        raise PyRaise(type(e).__name__, e.args)


@builtin('float')
def _float(vm, x=0.0):
    if isinstance(x, Sym):
        return S.toreal(x)
    if isinstance(x, np.ndarray) and x.size == 1:
        return _float(vm, x.reshape(-1)[0])
    try:
        return float(x)
    except (ValueError, TypeError) as e:
        raise PyRaise(type(e).__name__, e.args)


@builtin('bool')
def _bool(vm, x=False):
    if isinstance(x, Sym):
        return S.truth(x)
    return vm.truth(x)


@builtin('str')
def _str(vm, x=''):
    if isinstance(x, str):
        return x
    if isinstance(x, (int, float, bool)) or x is None:
        return str(x)
    return Opaque('str')


@builtin('repr')
def _repr(vm, x=''):
    return Opaque('repr')


@builtin('id')
def _id(vm, x):
    raise Unsupported('id()')


def _minmax(vm, args, kw, pick):
    key = kw.pop('key', None)
    default = kw.pop('default', NotImplemented)
    if len(args) == 1:
        seq = vm.iterate(args[0])
    else:
        seq = list(args)
    if not seq:
        if default is not NotImplemented:
            return default
        raise PyRaise('ValueError', ('empty sequence',))
    if key is None:
        if all(kind(x) for x in seq) and not any(S._isinf(conc(x)) for x in seq):
            r = seq[0]
            for x in seq[1:]:
                r = pick(r, x)
            return r
        keys = seq
    else:
        keys = [vm.call(key, [x], {}) for x in seq]
    bi = 0
    for i in range(1, len(seq)):
        c = vm.compare(ast.Gt() if pick is S.smax else ast.Lt(), keys[i], keys[bi])
        if vm.truth(c):
            bi = i
    return seq[bi]


@builtin('max')
def _max(vm, *a, **k):
    return _minmax(vm, a, k, S.smax)


@builtin('min')
def _min(vm, *a, **k):
    return _minmax(vm, a, k, S.smin)


@builtin('sum')
def _sum(vm, x, start=0):
    f = getattr(x, 'pv_sum', None)
    if f:
        return f(vm) + start
    r = start
    for v in vm.iterate(x):
        r = vm.binop(ast.Add(), r, v)
    return r


@builtin('any')
def _any(vm, x):
    return S.or_(*[S.truth(v) if isinstance(v, Sym) else vm.truth(v) for v in vm.iterate(x)]) if vm.iterate(x) else False


@builtin('all')
def _all(vm, x):
    return S.and_(*[S.truth(v) if isinstance(v, Sym) else vm.truth(v) for v in vm.iterate(x)]) if vm.iterate(x) else True


@builtin('list')
def _list(vm, x=()):
    f = getattr(x, 'pv_tolist', None)
    if f:
        return f(vm)
    return vm.born(list(vm.iterate(x)))


@builtin('tuple')
def _tuple(vm, x=()):
    return tuple(vm.iterate(x))


@builtin('dict')
def _dict(vm, x=None, **kw):
    d = vm.born({})
    if x is not None:
        if isinstance(x, dict):
            d.update(x)
        else:
            for k, v in vm.iterate(x):
                vm.setitem(d, k, v)
    d.update(kw)
    return d


@builtin('set')
def _set(vm, x=()):
    vals = vm.iterate(x)
    if any(isinstance(v, Sym) for v in vals):
        raise Unsupported('symbolic set')
    return set(vals)


@builtin('enumerate')
def _enumerate(vm, x, start=0):
    n, elem = vm.sym_iter(x)
    if n is not None:
        return SymSeq(n, lambda i: (start + i, elem(i)))
    return [(start + i, v) for i, v in enumerate(vm.iterate(x))]


@builtin('zip')
def _zip(vm, *xs):
    its = [vm.sym_iter(x) for x in xs]
    if any(n is not None for n, _ in its):
        if not all(n is not None for n, _ in its):
            raise Unsupported('zip of symbolic and concrete')
        n = its[0][0]
        for m, _ in its[1:]:
            n = S.smin(n, m)
        return SymSeq(n, lambda i: tuple(e(i) for _, e in its))
    return list(zip(*[vm.iterate(x) for x in xs]))


@builtin('map')
def _map(vm, f, *xs):
    return [vm.call(f, list(t), {}) for t in zip(*[vm.iterate(x) for x in xs])]


@builtin('filter')
def _filter(vm, f, xs):
    return [x for x in vm.iterate(xs) if vm.truth(vm.call(f, [x], {}) if f is not None else x)]


@builtin('reversed')
def _reversed(vm, x):
    return list(reversed(vm.iterate(x)))


@builtin('sorted')
def _sorted(vm, x, key=None, reverse=False):
    seq = vm.iterate(x)
    keys = [vm.call(key, [v], {}) if key is not None else v for v in seq]
    if any(isinstance(k, (V.Obj,)) for k in keys) or _has_sym(keys):
        # insertion sort with forking comparisons (stable)
        out = []
        for v, k in zip(seq, keys):
            j = len(out)
            while j > 0:
                a, b = (out[j - 1][1], k)
                lt = vm.compare(ast.Lt(), b, a) if not reverse else vm.compare(ast.Lt(), a, b)
                if vm.truth(lt):
                    j -= 1
                else:
                    break
            out.insert(j, (v, k))
        return vm.born([v for v, _ in out])
    idx = sorted(range(len(seq)), key=lambda i: keys[i], reverse=bool(reverse))
    return vm.born([seq[i] for i in idx])


@builtin('round')
def _round(vm, x, nd=None):
    if isinstance(x, Sym):
        raise Unsupported('round of symbolic value')
    return round(x, nd) if nd is not None else round(x)


@builtin('hasattr')
def _hasattr(vm, o, name):
    if isinstance(o, Sym):
        return name in ('real', 'imag', '__add__', '__float__')
    try:
        vm.getattr(o, name)
        return True
    except PyRaise as e:
        if e.name == 'AttributeError':
            return False
        raise


@builtin('getattr')
def _getattr(vm, o, name, *d):
    try:
        return vm.getattr(o, name)
    except PyRaise as e:
        if e.name == 'AttributeError' and d:
            return d[0]
        raise


@builtin('setattr')
def _setattr(vm, o, name, v):
    vm.setattr(o, name, v)


@builtin('callable')
def _callable(vm, o):
    return isinstance(o, (V.FuncVal, V.Bound, V.ClassVal, Fn)) or (callable(o) and not isinstance(o, V.Obj))


@builtin('type')
def _type(vm, o, *r):
    if isinstance(o, V.Obj):
        return o.cls
    if isinstance(o, Sym):
        return BUILTINS[{'int': 'int', 'real': 'float', 'bool': 'bool'}[o.kind]]
    f = getattr(o, 'pv_type', None)
    if f:
        return f
    if isinstance(o, np.ndarray):
        return V.Ext('numpy.ndarray')
    return BUILTINS.get(type(o).__name__, type(o))


@builtin('isinstance')
def _isinstance(vm, o, t):
    if isinstance(t, tuple):
        return any(_isinstance(vm, o, x) for x in t)
    if isinstance(t, Fn):
        t = getattr(builtins, t.name)
        if t is type and isinstance(o, V.ClassVal):
            return True
    f = getattr(o, 'pv_isinstance', None)
    if f:
        return f(vm, t)
    if isinstance(t, type):
        if isinstance(o, Sym):
            k = o.kind
            return (t is int and k in ('int', 'bool')) or (t is float and k == 'real') or (t is bool and k == 'bool') or t is object
        if isinstance(o, (V.Obj, V.ClassVal, V.FuncVal, V.Bound, V.Ext)):
            return t is object
        if isinstance(o, Opaque):
            raise Unsupported('isinstance of opaque')
        return isinstance(conc(o), t)
    if isinstance(t, V.ClassVal):
        return isinstance(o, V.Obj) and isinstance(o.cls, V.ClassVal) and t in o.cls.mro()
    if isinstance(t, V.Ext):
        p = t.path
        if p in ('numpy.ndarray',):
            return isinstance(o, np.ndarray)
        if p in ('numbers.Number', 'numbers.Real'):
            return isinstance(o, Sym) or isinstance(o, (int, float))
        if p in ('numbers.Integral', 'numpy.integer'):
            return kind(o) in ('int', 'bool')
        if p in ('numpy.floating', 'numpy.float64', 'numpy.float'):
            return kind(o) == 'real'
        if isinstance(o, V.Obj) and isinstance(o.cls, V.Ext):
            return o.cls.path == p
        if isinstance(o, V.Obj) and isinstance(o.cls, V.ClassVal):
            return any(isinstance(b, V.Ext) and b.path == p for c in o.cls.mro() for b in c.bases)
        if p == 'collections.deque':
            return False
        if p.startswith('collections.') or p.startswith('pandas.') or p.startswith('numpy.') or p.startswith('sklearn.') or p.startswith('typing.'):
            if isinstance(o, (Sym, int, float, str, list, dict, tuple, np.ndarray, V.Obj)) or o is None:
                if p.endswith('Iterable'):
                    return isinstance(o, (list, dict, tuple, str, np.ndarray))
                return False
    raise Unsupported('isinstance(%r, %r)' % (type(o), t))


@builtin('issubclass')
def _issubclass(vm, c, t):
    if isinstance(c, V.ClassVal) and isinstance(t, V.ClassVal):
        return t in c.mro()
    raise Unsupported('issubclass')


@builtin('iter')
def _iter(vm, x):
    return Iter(vm.iterate(x))


class Iter:
    def __init__(self, xs):
        self.xs, self.i = xs, 0

    def pv_iterate(self, vm):
        r = self.xs[self.i:]
        self.i = len(self.xs)
        return r


@builtin('next')
def _next(vm, it, *d):
    if isinstance(it, list):
        it = Iter(it)
    if isinstance(it, Iter):
        if it.i < len(it.xs):
            it.i += 1
            return it.xs[it.i - 1]
        if d:
            return d[0]
        raise PyRaise('StopIteration', ())
    raise Unsupported('next()')


@builtin('divmod')
def _divmod(vm, a, b):
    return (S.floordiv(a, b), S.mod(a, b))


@builtin('pow')
def _pow(vm, a, b):
    return S.power(a, b)


class SymSeq:
    """A read-only sequence of symbolic length given by an element function."""
    def __init__(self, n, elem):
        self.n, self.elem = n, elem

    def pv_symiter(self, vm):
        return self.n, self.elem

    def pv_len(self, vm):
        return self.n


# ------------------------------------------------------------------ native attribute access

LIST_MUT = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse'}
DEQUE_MUT = {'popleft', 'appendleft'}
DICT_MUT = {'pop', 'update', 'clear', 'setdefault', 'popitem'}


def native_getattr(vm, o, name):
    f = getattr(o, 'pv_getattr', None)
    if f:
        return f(vm, name)
    if o is object and name == '__init__':
        return object.__init__
    if isinstance(o, (V.FuncVal, V.Bound)) and name == 'deprecated_original':
        raise PyRaise('AttributeError', (name,))
    if isinstance(o, list):
        if name == 'maxlen' and isinstance(o, Deque):
            return o.maxlen
        if name in LIST_MUT or (name in DEQUE_MUT and isinstance(o, Deque)):
            @_method
            def m(*a, **k):
                vm.log_mut(o, name, a[-1] if a else None)
                if name == 'pop' and a and isinstance(a[0], Sym):
                    a = (vm.pick_index(a[0], len(o)),)
                if name == 'remove':
                    for i, x in enumerate(o):
                        if vm.truth(x is a[0] or vm.compare(ast.Eq(), x, a[0])):
                            del o[i]
                            return
                    raise PyRaise('ValueError', ('list.remove(x): x not in list',))
                if name == 'extend':
                    o.extend(vm.iterate(a[0]))
                    return
                if name == 'sort':
                    o[:] = _sorted(vm, o, **k)
                    return
                try:
                    return getattr(o, name)(*a, **k)
                except (IndexError, TypeError, ValueError) as e:
                    raise PyRaise(type(e).__name__, e.args)
            return m
        if name == 'index':
            @_method
            def m(x):
                for i, y in enumerate(o):
                    if vm.truth(y is x or vm.compare(ast.Eq(), x, y)):
                        return i
                raise PyRaise('ValueError', ('not in list',))
            return m
        if name == 'copy':
            return _method(lambda: vm.born(list(o)))
        if name == 'count':
            return _method(lambda x: sum_([S.ite(S.truth(vm.compare(ast.Eq(), x, y)), 1, 0) for y in o]))
    if isinstance(o, dict):
        if name == 'get':
            @_method
            def m(k, d=None):
                r = vm.dict_find(o, k)
                return d if r is None else o[r[0]]
            return m
        if name == 'keys':
            return _method(lambda: [k.s if isinstance(k, V.SKey) else k for k in o])
        if name == 'values':
            return _method(lambda: list(o.values()))
        if name == 'items':
            return _method(lambda: [((k.s if isinstance(k, V.SKey) else k), v) for k, v in o.items()])
        if name == 'copy':
            return _method(lambda: vm.born(dict(o)))
        if name in DICT_MUT:
            @_method
            def m(*a, **k):
                vm.log_mut(o, name)
                if name == 'pop':
                    r = vm.dict_find(o, a[0])
                    if r is None:
                        if len(a) > 1:
                            return a[1]
                        raise PyRaise('KeyError', (a[0],))
                    return o.pop(r[0])
                if name == 'setdefault':
                    r = vm.dict_find(o, a[0])
                    if r is not None:
                        return o[r[0]]
                    vm.setitem(o, a[0], a[1] if len(a) > 1 else None)
                    return a[1] if len(a) > 1 else None
                if name == 'update':
                    src = a[0] if a else {}
                    items = src.items() if isinstance(src, dict) else vm.iterate(src)
                    for kk, v in items:
                        vm.setitem(o, kk.s if isinstance(kk, V.SKey) else kk, v)
                    for kk, v in k.items():
                        vm.setitem(o, kk, v)
                    return
                return getattr(o, name)(*a, **k)
            return m
    if isinstance(o, np.ndarray):
        return arr_getattr(vm, o, name)
    if isinstance(o, (Sym, int, float, bool)):
        if name in ('astype',):
            return _method(lambda t=None, **k: _cast(vm, o, t))
        if name == 'item':
            return _method(lambda: o)
        if name == 'copy':
            return _method(lambda: o)
        if name in ('ndim',):
            # python scalars have no ndim
            raise PyRaise('AttributeError', (name,))
        if isinstance(o, Sym):
            if name in ('shape', 'append', '__len__', '__iter__', 'partial_fit', 'size'):
                raise PyRaise('AttributeError', (name,))
            raise Unsupported('attribute %s of a number' % name)
    if isinstance(o, Opaque):
        return _method(lambda *a, **k: Opaque(name))
    if isinstance(o, PyRaise):
        raise Unsupported('exception attribute')
    if isinstance(o, str):
        if name in ('format', 'join'):
            return _method(lambda *a, **k: Opaque('str') if _has_sym(a) or any(isinstance(x, Opaque) for x in a) else getattr(o, name)(*a, **k))
    if isinstance(o, str) or isinstance(o, (tuple, set, frozenset, dict, list)):
        if not hasattr(o, name):
            raise PyRaise('AttributeError', (name,))
        return getattr(o, name)
    if o is None or isinstance(o, (int, float)):
        if hasattr(o, name):
            return getattr(o, name)
        raise PyRaise('AttributeError', ("%s has no attribute %s" % (type(o).__name__, name),))
    if isinstance(o, (V.FuncVal, V.Bound)):
        raise PyRaise('AttributeError', (name,))
    raise Unsupported('attribute %s of %r' % (name, type(o)))


def sum_(xs):
    r = 0
    for x in xs:
        r = r + x
    return r


def ext_getattr(vm, o, name):
    p = '%s.%s' % (o.cls.path if isinstance(o.cls, V.Ext) else o.cls, name)
    f = vm.hooks.get('ext', {}).get(p) or EXT.get(p)
    if f is None:
        raise Unsupported('external attribute %s' % p)
    vm.assumed.add('external:' + p)
    return _method(lambda *a, **k: f(vm, o, *a, **k))


# ------------------------------------------------------------------ numpy on object arrays

def toarr(vm, v):
    """-> object ndarray (or scalar left alone)"""
    if isinstance(v, np.ndarray):
        return v if v.dtype == object else v.astype(object)
    if isinstance(v, (list, tuple)):
        items = [toarr(vm, x) for x in v]
        if items and any(isinstance(x, np.ndarray) for x in items):
            shp = [x.shape if isinstance(x, np.ndarray) else None for x in items]
            if all(s == shp[0] for s in shp):
                a = np.empty((len(items),) + shp[0], dtype=object)
                for i, x in enumerate(items):
                    a[i] = x
                return a
        a = np.empty((len(items),), dtype=object)
        for i, x in enumerate(items):
            a[i] = x
        return a
    return v


def vmap(vm, f, *xs):
    xs = [toarr(vm, x) if isinstance(x, (np.ndarray, list, tuple)) else x for x in xs]
    arrs = [x for x in xs if isinstance(x, np.ndarray)]
    if not arrs:
        return f(*xs)
    try:
        shape = np.broadcast_shapes(*[a.shape for a in arrs])
    except ValueError as e:
        raise PyRaise('ValueError', e.args)
    bs = [np.broadcast_to(x, shape) if isinstance(x, np.ndarray) else x for x in xs]
    out = np.empty(shape, dtype=object)
    for ix in np.ndindex(*shape):
        out[ix] = f(*[b[ix] if isinstance(b, np.ndarray) else b for b in bs])
    return vm.born(out)


def arr_binop(vm, t, a, b):
    cls = getattr(ast, t)()
    return vmap(vm, lambda x, y: vm.binop(cls, x, y), a, b)


def arr_compare(vm, t, a, b):
    cls = getattr(ast, t)()
    if a is None or b is None:
        return vmap(vm, lambda x: vm.compare(cls, x, None), a if a is not None else b)
    return vmap(vm, lambda x, y: vm.compare(cls, x, y), a, b)


def _is_boolmask(k):
    if isinstance(k, np.ndarray) and k.size and k.dtype == object:
        return all(isinstance(x, (bool, np.bool_)) or (isinstance(x, Sym) and x.kind == 'bool') for x in k.reshape(-1))
    return isinstance(k, np.ndarray) and k.dtype == bool


def norm_index(vm, o, k):
    """make an index native: symbolic ints fork, symbolic boolean masks fork elementwise"""
    if not isinstance(k, tuple):
        k = (k,)
    out = []
    ax = 0
    for x in k:
        if x is None or x is Ellipsis:
            out.append(x)
            continue
        if ax >= o.ndim:
            raise PyRaise('IndexError', ('too many indices',))
        n = o.shape[ax]
        if isinstance(x, Sym):
            x = vm.pick_index(x, n)
        elif isinstance(x, slice):
            x = slice(*[vm.pick_bound(y, n) if isinstance(y, Sym) else conc(y) for y in (x.start, x.stop, x.step)])
        elif isinstance(x, (np.ndarray, list)):
            a = toarr(vm, x)
            if _is_boolmask(a):
                x = np.array([vm.truth(v) for v in a.reshape(-1)], dtype=bool).reshape(a.shape)
                ax += a.ndim - 1
            else:
                x = np.array([vm.pick_index(v, n) if isinstance(v, Sym) else int(v) for v in a.reshape(-1)], dtype=int).reshape(a.shape)
        else:
            x = conc(x)
            if isinstance(x, float):
                raise PyRaise('IndexError', ('only integers...',))
            if isinstance(x, bool):
                raise Unsupported('boolean index')
            if isinstance(x, int) and not -n <= x < n:
                raise PyRaise('IndexError', ('index out of bounds',))
        ax += 1
        out.append(x)
    return tuple(out)


def arr_getitem(vm, o, k):
    try:
        r = o[norm_index(vm, o, k)]
    except (IndexError, TypeError) as e:
        raise PyRaise(type(e).__name__, e.args)
    if isinstance(r, np.ndarray):
        if r.base is None:
            vm.born(r)
        else:
            vm.keep.append(r)
        return r
    return conc(r)


def arr_setitem(vm, o, k, v):
    k = norm_index(vm, o, k)
    if o.dtype != object:
        if _has_sym([v]):
            raise Unsupported('symbolic store into a native array')
        o[k] = v
        return
    if isinstance(v, (list, tuple, np.ndarray)):
        v = toarr(vm, v)
    try:
        o[k] = v
    except (ValueError, IndexError, TypeError) as e:
        raise PyRaise(type(e).__name__, e.args)


def _axis_reduce(vm, a, axis, f):
    a = toarr(vm, a)
    if not isinstance(a, np.ndarray):
        return f([a])
    if axis is None:
        return f(list(a.reshape(-1)))
    if axis < 0:
        axis += a.ndim
    moved = np.moveaxis(a, axis, -1)
    if moved.ndim == 1:
        return f(list(moved))
    out = np.empty(moved.shape[:-1], dtype=object)
    for ix in np.ndindex(*out.shape):
        out[ix] = f(list(moved[ix]))
    return vm.born(out)


def _cast(vm, v, t):
    if isinstance(t, Fn):
        t = getattr(builtins, t.name)
    if isinstance(t, V.Ext):
        t = {'int': int, 'int32': int, 'int64': int, 'float': float, 'float64': float, 'float32': float, 'bool': bool, 'bool_': bool}.get(t.path.split('.')[-1], t)
    if t is None:
        return v
    if isinstance(t, str):
        t = {'int': int, 'float': float, 'bool': bool}.get(t, t)
    if t is int:
        return _int(vm, v)
    if t is float:
        return _float(vm, v)
    if t is bool:
        return _bool(vm, v)
    if t is object or isinstance(t, V.Ext) and t.path == 'numpy.dtype_instance':
        return v        # (the dtype of an array of arbitrary numbers)
    raise Unsupported('cast to %r' % (t,))


def arr_getattr(vm, o, name):
    if name == 'shape':
        return tuple(int(x) for x in o.shape)
    if name in ('ndim', 'size'):
        return int(getattr(o, name))
    if name == 'T':
        return o.T
    if name == 'dtype':
        return V.Ext('numpy.dtype_instance')
    if name in ('sum', 'mean', 'max', 'min', 'argmax', 'argmin', 'any', 'all', 'dot', 'cumsum', 'std', 'var', 'prod'):
        return _method(lambda *a, **k: EXT['numpy.' + name](vm, o, *a, **k))
    if name in ('flatten',):
        return _method(lambda *a, **k: vm.born(o.reshape(-1).copy()))
    if name == 'ravel':
        return _method(lambda *a, **k: o.reshape(-1))
    if name == 'reshape':
        def rs(*a):
            a = a[0] if len(a) == 1 else a
            try:
                r = o.reshape(a)
            except ValueError as e:
                raise PyRaise('ValueError', e.args)
            vm.keep.append(r)
            return r
        return _method(rs)
    if name == 'copy':
        return _method(lambda *a, **k: vm.born(o.copy()))
    if name == 'tolist':
        def tl(x):
            return vm.born([tl(y) if isinstance(y, np.ndarray) else conc(y) for y in x])
        return _method(lambda: tl(o))
    if name == 'astype':
        return _method(lambda t, **k: vmap(vm, lambda v: _cast(vm, v, t), o))
    if name == 'fill':
        def fill(v):
            vm.log_mut(o, 'set', v)
            o[...] = v
        return _method(fill)
    if name == 'resize':
        def resize(*a, refcheck=True):
            n = a[0] if len(a) == 1 else a
            if o.base is not None:
                raise PyRaise('ValueError', ('cannot resize this array: it does not own its data',))
            if o.dtype != object:
                o.resize(n, refcheck=False)
                return
            vm.log_mut(o, 'set', None)
            was = o.size
            o.resize(n, refcheck=False)
            o.reshape(-1)[was:] = 0.0
        return _method(resize)
    if name == 'item':
        return _method(lambda: o.reshape(-1)[0])
    if name in ('__len__',):
        return _method(lambda: len(o))
    if not hasattr(np.ndarray, name):
        raise PyRaise('AttributeError', (name,))
    raise Unsupported('ndarray.%s' % name)


@ext('array.array')
def _pyarray(vm, code, init=()):
    return vm.born([v if isinstance(v, Sym) or code != 'd' else float(v) for v in vm.iterate(init)])


@ext('numpy.array', 'numpy.asarray', 'numpy.ascontiguousarray', 'numpy.asanyarray', 'numpy.asfarray')
def _nparray(vm, x, dtype=None, copy=True, **k):
    f = getattr(x, 'pv_toarray', None)
    if f:
        return f(vm)
    if isinstance(x, np.ndarray):
        r = x.copy() if copy else x
    elif isinstance(x, (list, tuple)):
        r = toarr(vm, [y if not hasattr(y, 'pv_toarray') else y.pv_toarray(vm) for y in x])
    elif isinstance(x, V.SymRange):
        raise Unsupported('array of symbolic range')
    elif isinstance(x, range):
        r = toarr(vm, list(x))
    elif isinstance(x, (Sym, int, float, bool)):
        r = np.empty((), dtype=object)
        r[()] = x
    else:
        raise Unsupported('np.array(%r)' % type(x))
    if dtype is not None:
        return vmap(vm, lambda v: _cast(vm, v, dtype), r)
    if not isinstance(x, np.ndarray) or copy:
        vm.born(r)
    return r


def _shape(vm, s):
    if isinstance(s, (list, tuple)):
        return tuple(conc(x) for x in s)
    return (conc(s),)


def _full(vm, shape, val):
    shape = _shape(vm, shape)
    if any(isinstance(x, Sym) for x in shape):
        from .symseq import SymMat, SymVec
        if len(shape) == 2 and not isinstance(shape[1], Sym):
            return vm.born(SymMat.full(vm, shape[0], shape[1], val))
        if len(shape) == 1:
            return vm.born(SymVec.full(vm, shape[0], val))
        raise Unsupported('array of symbolic shape')
    if any(isinstance(x, float) for x in shape):
        raise PyRaise('TypeError', ('float shape',))
    a = np.empty(shape, dtype=object)
    for ix in np.ndindex(*shape):
        a[ix] = val
    return vm.born(a)


def _zero_of(vm, dtype, v):
    return _cast(vm, v, dtype) if dtype is not None else float(v)


@ext('numpy.zeros', 'numpy.empty')
def _zeros(vm, shape, dtype=None, **k):
    return _full(vm, shape, _zero_of(vm, dtype, 0))


@ext('numpy.ones')
def _ones(vm, shape, dtype=None, **k):
    return _full(vm, shape, _zero_of(vm, dtype, 1))


@ext('numpy.full')
def _npfull(vm, shape, val, dtype=None, **k):
    return _full(vm, shape, val)


@ext('numpy.zeros_like')
def _zeros_like(vm, a, dtype=None, **k):
    a = toarr(vm, a)
    return _full(vm, a.shape, 0.0)


@ext('numpy.ones_like')
def _ones_like(vm, a, dtype=None, **k):
    a = toarr(vm, a)
    return _full(vm, a.shape, 1.0)


@ext('numpy.arange')
def _arange(vm, *a, **k):
    if _has_sym(a):
        if len(a) <= 2 and all(S.kind(x) == 'int' for x in a):
            from .symseq import SymVec
            lo, hi = (0, a[0]) if len(a) == 1 else a
            q = z3.Int('arange_i')
            return vm.born(SymVec(z3.Lambda([q], q + lift(lo)), 0, S.smax(hi - lo, 0), 'int'))
        raise Unsupported('symbolic arange')
    return vm.born(np.arange(*a).astype(object))


@ext('numpy.sum')
def _npsum(vm, a, axis=None, **k):
    f = getattr(a, 'pv_sum', None)
    if f:
        return f(vm)
    return _axis_reduce(vm, a, axis, lambda xs: sum_([S.toint(x) if kind(x) == 'bool' and isinstance(x, Sym) else (int(x) if isinstance(x, bool) else x) for x in xs]) if xs else 0.0)


@ext('numpy.size')
def _npsize(vm, a):
    if isinstance(a, (Sym, int, float)):
        return 1
    if isinstance(a, np.ndarray):
        return int(a.size)
    if isinstance(a, (list, tuple)) and not any(isinstance(v, (list, tuple, np.ndarray)) for v in a):
        return len(a)
    raise Unsupported('numpy.size of %r' % type(a))


@ext('numpy.average')
def _npaverage(vm, a, axis=None, weights=None):
    if weights is None:
        return _npmean(vm, a, axis)
    w = list(weights) if isinstance(weights, (list, tuple)) else weights
    w = np.array(w, dtype=object)
    a = np.array(a, dtype=object)
    if w.ndim != 1 or a.ndim not in (1, 2) or axis not in (None, 0, -1, 1) or (a.ndim == 2 and axis is None):
        raise Unsupported('weighted average')
    rows = [list(a)] if a.ndim == 1 else [list(r) for r in (a.T if axis == 0 else a)]
    t = sum_(list(w))
    if vm.truth(S.eq(t, 0)):
        raise PyRaise('ZeroDivisionError', ("Weights sum to zero, can't be normalized",))
    if any(len(r) != len(w) for r in rows):
        raise PyRaise('TypeError', ('shapes of weights and data differ',))
    out = [S.div(sum_([x * y for x, y in zip(r, w)]), t) for r in rows]
    if a.ndim == 1:
        return out[0]
    r = np.empty(len(out), dtype=object)
    for i, v in enumerate(out):
        r[i] = v
    return vm.born(r)


@ext('numpy.mean')
def _npmean(vm, a, axis=None, **k):
    f = getattr(a, 'pv_mean', None)
    if f:
        return f(vm)
    return _axis_reduce(vm, a, axis, lambda xs: S.div(sum_(xs), len(xs)))


@ext('numpy.prod')
def _npprod(vm, a, axis=None, **k):
    def p(xs):
        r = 1
        for x in xs:
            r = r * x
        return r
    return _axis_reduce(vm, a, axis, p)


@ext('numpy.var')
def _npvar(vm, a, axis=None, ddof=0, **k):
    def f(xs):
        m = S.div(sum_(xs), len(xs))
        return S.div(sum_([(x - m) * (x - m) for x in xs]), len(xs) - ddof)
    return _axis_reduce(vm, a, axis, f)


@ext('numpy.std')
def _npstd(vm, a, axis=None, ddof=0, **k):
    v = _npvar(vm, a, axis, ddof)
    return vmap(vm, S.sqrt, v) if isinstance(v, np.ndarray) else S.sqrt(v)


def _red(vm, xs, pick):
    if not xs:
        raise PyRaise('ValueError', ('zero-size array',))
    r = xs[0]
    for x in xs[1:]:
        r = pick(r, x)
    return r


@ext('numpy.max', 'numpy.amax')
def _npmax(vm, a, axis=None, **k):
    if axis is not None and not isinstance(a, (np.ndarray, list, tuple)):
        raise PyRaise('AxisError', ('axis out of bounds',))
    return _axis_reduce(vm, a, axis, lambda xs: _red(vm, xs, S.smax))


@ext('numpy.min', 'numpy.amin')
def _npmin(vm, a, axis=None, **k):
    return _axis_reduce(vm, a, axis, lambda xs: _red(vm, xs, S.smin))


def _arg(vm, xs, t):
    bi = 0
    for i in range(1, len(xs)):
        if vm.truth(vm.compare(t, xs[i], xs[bi])):
            bi = i
    return bi


@ext('numpy.argmax')
def _npargmax(vm, a, axis=None, **k):
    return _axis_reduce(vm, a, axis, lambda xs: _arg(vm, xs, ast.Gt()))


def _sorted_terms(xs):
    """the values in ascending order as terms (odd-even transposition network, no forks)"""
    xs = list(xs)
    for r in range(len(xs)):
        for i in range(r % 2, len(xs) - 1, 2):
            a, b = xs[i], xs[i + 1]
            xs[i], xs[i + 1] = S.smin(a, b), S.smax(a, b)
    return xs


@ext('numpy.median')
def _npmedian(vm, a, axis=None, **k):
    def f(xs):
        if not xs:
            raise Unsupported('median of nothing')
        s = _sorted_terms(xs)
        n = len(s)
        return s[n // 2] if n % 2 else S.div(s[n // 2 - 1] + s[n // 2], 2)
    return _axis_reduce(vm, a, axis, f)


def _drop_nan(xs):
    return [x for x in xs if isinstance(x, Sym) or x == x]


def _nanred(name, empty=float('nan')):
    @ext('numpy.nan' + name)
    def f(vm, a, axis=None, **k):
        def g(xs):
            ys = _drop_nan(xs)
            if not ys:
                return empty
            r = np.empty(len(ys), dtype=object)
            r[:] = ys
            return EXT['numpy.' + name](vm, r, **k)
        return _axis_reduce(vm, a, axis, g)


for _nm in ('mean', 'std', 'var', 'median', 'max', 'min'):
    _nanred(_nm)
_nanred('sum', 0.0)


@ext('scipy.stats.mode')
def _mode(vm, a, axis=0, nan_policy='propagate', keepdims=False):
    """the most frequent value, the smallest of several; (value, count)"""
    a = toarr(vm, a)
    if a.ndim != 1:
        raise Unsupported('mode of a matrix')
    xs = list(a)
    ys = _drop_nan(xs)
    if len(ys) < len(xs) and nan_policy != 'omit':
        raise Unsupported('mode with nan')
    if not ys:
        return (float('nan'), 0)
    best, cnt = None, None
    for i, x in enumerate(ys):
        c = sum_([ite_int(S.eq(x, y)) for y in ys])
        if best is None:
            best, cnt = x, c
        else:
            better = S.or_(c > cnt, S.and_(S.eq(c, cnt), x < best))
            best, cnt = S.ite(better, x, best), S.ite(better, c, cnt)
    return (best, cnt)


def ite_int(b):
    return S.ite(b, 1, 0)


@ext('numpy.isin', 'numpy.in1d')
def _npisin(vm, a, test, invert=False, **k):
    def one(v):
        t = list(toarr(vm, test).reshape(-1))
        r = S.or_(*[S.eq(v, x) for x in t if isinstance(x, Sym) or x == x] or [False]) if isinstance(v, Sym) or v == v else False
        r = vm.truth(r)
        return (not r) if invert else r
    return vmap(vm, one, toarr(vm, a))


@ext('numpy.unique')
def _npunique(vm, a, return_index=False, return_inverse=False, return_counts=False, **k):
    if k:
        raise Unsupported('numpy.unique with options')
    out, at = [], []
    for i, x in enumerate(toarr(vm, a).ravel()):
        j = 0
        while j < len(out) and vm.truth(vm.compare(ast.Lt(), out[j], x)):
            j += 1
        if j == len(out) or not vm.truth(vm.compare(ast.Eq(), out[j], x)):
            out.insert(j, x)
            at.insert(j, [])
        at[j].append(i)
    r = np.empty(len(out), dtype=object)
    for i, x in enumerate(out):
        r[i] = x
    res = [vm.born(r)]
    if return_index:
        res.append(vm.born(np.array([p[0] for p in at], dtype=int)))
    if return_inverse:
        inv = np.empty(sum(map(len, at)), dtype=int)
        for j, p in enumerate(at):
            inv[p] = j
        res.append(vm.born(inv))
    if return_counts:
        res.append(vm.born(np.array([len(p) for p in at], dtype=int)))
    return tuple(res) if len(res) > 1 else res[0]


@ext('numpy.flatnonzero')
def _flatnonzero(vm, a):
    a = toarr(vm, a).ravel()
    return vm.born(np.array([i for i in range(len(a)) if vm.truth(a[i])], dtype=int))


@ext('numpy.broadcast_to')
def _broadcast_to(vm, a, shape, **k):
    shape = tuple(shape) if isinstance(shape, (tuple, list)) else (shape,)
    if any(isinstance(x, Sym) for x in shape):
        raise Unsupported('broadcast_to a symbolic shape')
    a = toarr(vm, a)
    if not isinstance(a, np.ndarray):
        z = np.empty((), dtype=object)
        z[()] = a
        a = z
    try:
        return vm.born(np.broadcast_to(a, shape).copy())
    except ValueError as e:
        raise PyRaise('ValueError', e.args)


@ext('numpy.linalg.norm')
def _norm(vm, x, ord=None, axis=None, keepdims=False):
    x = toarr(vm, x)
    if ord == 1 and (axis is not None or x.ndim == 1):
        f = lambda xs: sum_([S.ite(v < 0, -v, v) if isinstance(v, Sym) else abs(v) for v in xs])
    elif ord in (None, 2) and (axis is not None or x.ndim == 1):
        f = lambda xs: S.sqrt(sum_([v * v for v in xs]))
    else:
        raise Unsupported('matrix norm')
    r = _axis_reduce(vm, x, axis, f)
    if keepdims:
        if axis is None:
            raise Unsupported('norm with keepdims')
        r = np.expand_dims(r, axis)
    return vm.born(r) if isinstance(r, np.ndarray) else r


@ext('numpy.argmin')
def _npargmin(vm, a, axis=None, **k):
    return _axis_reduce(vm, a, axis, lambda xs: _arg(vm, xs, ast.Lt()))


@ext('numpy.any')
def _npany(vm, a, axis=None, **k):
    return _axis_reduce(vm, a, axis, lambda xs: S.or_(*[S.truth(x) for x in xs]))


@ext('numpy.all')
def _npall(vm, a, axis=None, **k):
    return _axis_reduce(vm, a, axis, lambda xs: S.and_(*[S.truth(x) for x in xs]))


@ext('numpy.dot', 'numpy.inner')
def _npdot(vm, a, b):
    a, b = toarr(vm, a), toarr(vm, b)
    if a.ndim == 1 and b.ndim == 1:
        return sum_([x * y for x, y in zip(a, b)])
    raise Unsupported('np.dot of matrices')


@ext('numpy.cumsum')
def _npcumsum(vm, a, **k):
    a = toarr(vm, a)
    out = np.empty(a.shape, dtype=object)
    r = 0
    for i, x in enumerate(a.reshape(-1)):
        r = r + x
        out.reshape(-1)[i] = r
    return vm.born(out)


def _unary(f):
    def g(vm, a, **k):
        if isinstance(a, (np.ndarray, list, tuple)):
            return vmap(vm, f, a)
        return f(a)
    return g


def _msqrt(v):
    if isinstance(v, Sym):
        if S.vm().branch(lift(v) < 0):
            raise PyRaise('ValueError', ('math domain error',))
    elif v < 0:
        raise PyRaise('ValueError', ('math domain error',))
    return S.sqrt(v)


def _npsqrt(v):
    if isinstance(v, Sym):
        if S.vm().branch(lift(v) < 0):
            raise PyRaise('NaNProduced', ('sqrt of a negative number',))
    elif v < 0:
        return float('nan')
    return S.sqrt(v)


def _mlog(v):
    if isinstance(v, Sym):
        if S.vm().branch(lift(v) <= 0):
            raise PyRaise('ValueError', ('math domain error',))
    elif v <= 0:
        raise PyRaise('ValueError', ('math domain error',))
    return S.log(v)


def _mlog2(v):
    if isinstance(v, Sym):
        if S.vm().branch(lift(v) <= 0):
            raise PyRaise('ValueError', ('math domain error',))
    return S.log2(v)


EXT['math.sqrt'] = _unary(_msqrt)
EXT['numpy.sqrt'] = _unary(_npsqrt)


def _log_any(vm, x, base=None):
    if base is None:
        return _unary(_mlog)(vm, x)
    if base == 2:
        return _unary(_mlog2)(vm, x)
    return S.div(_mlog(x), _mlog(base))


EXT['math.log'] = _log_any


def _nplog(vm, x):
    try:
        return _log_any(vm, x)
    except PyRaise as e:
        if vm.npwarn and e.name == 'ValueError':
            raise PyRaise('RuntimeWarning', ('divide by zero or invalid value in log',))
        raise


EXT['numpy.log'] = _nplog


class _CatchWarnings:
    def __init__(self, vm):
        self.was = vm.npwarn

    def pv_exit(self, vm):
        vm.npwarn = self.was


@ext('warnings.catch_warnings')
def _catch_warnings(vm, *a, **k):
    return _CatchWarnings(vm)


@ext('warnings.filterwarnings', 'warnings.simplefilter')
def _filterwarnings(vm, action='default', *a, **k):
    vm.npwarn = action == 'error'
EXT['math.log2'] = _unary(_mlog2)
EXT['numpy.log2'] = _unary(_mlog2)
EXT['math.exp'] = _unary(S.exp)
EXT['numpy.exp'] = _unary(S.exp)
EXT['numpy.abs'] = _unary(abs)
EXT['numpy.absolute'] = _unary(abs)
EXT['numpy.fabs'] = _unary(abs)
EXT['math.fabs'] = _unary(abs)
EXT['numpy.square'] = _unary(lambda v: v * v)


def _trig(name):
    f = getattr(math, name)

    def g(v):
        v = conc(v)
        if isinstance(v, Sym):
            r = S.ufun(name, v)
            if name in ('sin', 'cos'):
                S.vm().axiom(z3.And(r.e >= -1, r.e <= 1))
            return r
        return f(v)
    return g


for _n in ('sin', 'cos', 'tan', 'erf', 'tanh'):
    EXT['math.' + _n] = _unary(_trig(_n))
    if _n != 'erf':
        EXT['numpy.' + _n] = _unary(_trig(_n))


@ext('math.pow', 'numpy.power', 'numpy.float_power')
def _nppow(vm, a, b):
    return vmap(vm, S.power, a, b) if isinstance(a, (np.ndarray, list)) or isinstance(b, (np.ndarray, list)) else S.power(S.toreal(a), b)


@ext('math.floor')
def _floor(vm, x):
    return S.floor(x)


@ext('numpy.floor')
def _npfloor(vm, x):
    return vmap(vm, lambda v: S.toreal(S.floor(v)), x)


@ext('math.ceil')
def _ceil(vm, x):
    return -S.floor(-x)


@ext('numpy.ceil')
def _npceil(vm, x):
    return vmap(vm, lambda v: S.toreal(-S.floor(-v)), x)


@ext('numpy.maximum')
def _npmaximum(vm, a, b):
    return vmap(vm, S.smax, a, b)


@ext('numpy.minimum')
def _npminimum(vm, a, b):
    return vmap(vm, S.smin, a, b)


@ext('numpy.isnan', 'math.isnan')
def _isnan(vm, x):
    return vmap(vm, lambda v: (not isinstance(v, Sym)) and v != v, x)


@ext('numpy.isinf', 'math.isinf')
def _isinf(vm, x):
    return vmap(vm, lambda v: S._isinf(conc(v)), x)


@ext('numpy.isscalar')
def _isscalar(vm, x):
    return isinstance(x, (Sym, int, float, str, bool))


@ext('numpy.where')
def _npwhere(vm, c, *ab):
    if len(ab) == 2:
        return vmap(vm, lambda q, a, b: S.ite(q, a, b), c, *ab)
    c = toarr(vm, c)
    if c.ndim != 1:
        raise Unsupported('np.where on matrix')
    idx = [i for i, v in enumerate(c) if vm.truth(v)]
    a = np.empty(len(idx), dtype=object)
    a[:] = idx
    return (vm.born(a),)


@ext('numpy.ndim')
def _npndim(vm, x):
    x = toarr(vm, x)
    return x.ndim if isinstance(x, np.ndarray) else 0


@ext('numpy.append')
def _npappend(vm, a, b, axis=None):
    a, b = toarr(vm, a), toarr(vm, b)
    if axis is None:
        b = b if isinstance(b, np.ndarray) else toarr(vm, [b])
        return vm.born(np.concatenate([a.reshape(-1), b.reshape(-1)]))
    return vm.born(np.concatenate([a, b], axis=axis))


@ext('numpy.concatenate')
def _npconcat(vm, xs, axis=0):
    try:
        return vm.born(np.concatenate([toarr(vm, x) for x in xs], axis=axis))
    except ValueError as e:
        raise PyRaise('ValueError', e.args)


@ext('numpy.vstack')
def _npvstack(vm, xs):
    xs = [toarr(vm, x) for x in vm.iterate(xs)]
    try:
        return vm.born(np.concatenate([x.reshape(1, -1) if x.ndim < 2 else x for x in xs], axis=0))
    except ValueError as e:
        raise PyRaise('ValueError', e.args)


@ext('numpy.delete')
def _npdelete(vm, a, i, axis=None):
    a = toarr(vm, a)
    if isinstance(i, Sym):
        i = vm.pick_index(i, a.shape[axis or 0])
    return vm.born(np.delete(a, i, axis=axis))


@ext('numpy.array_equal')
def _nparray_equal(vm, a, b):
    a, b = toarr(vm, a), toarr(vm, b)
    if a.shape != b.shape:
        return False
    return S.and_(*[vm.compare(ast.Eq(), x, y) for x, y in zip(a.reshape(-1), b.reshape(-1))])


@ext('numpy.float64', 'numpy.float32', 'numpy.float')
def _npf64(vm, x=0.0):
    return _float(vm, x)


@ext('numpy.int64', 'numpy.int32', 'numpy.int')
def _npi64(vm, x=0):
    return _int(vm, x)


@ext('copy.deepcopy', 'copy.copy')
def _copy(vm, x):
    if isinstance(x, (Sym, int, float, str, bool)) or x is None:
        return x
    if isinstance(x, list):
        return vm.born([_copy(vm, y) for y in x])
    if isinstance(x, dict):
        return vm.born({k: _copy(vm, v) for k, v in x.items()})
    if isinstance(x, np.ndarray):
        return vm.born(x.copy())
    if isinstance(x, V.Obj):
        return vm.born(V.Obj(x.cls, {k: _copy(vm, v) for k, v in x.fields.items()}))
    if isinstance(x, tuple):
        return tuple(_copy(vm, y) for y in x)
    if isinstance(x, (V.ClassVal, V.FuncVal)):
        return x
    f = getattr(x, 'pv_copy', None)
    if f:
        return vm.born(f())
    raise Unsupported('deepcopy of %r' % type(x))


class CounterModel(dict):
    """collections.Counter built from a mapping: missing counts are 0, + and - keep positive counts only"""
    def pv_getitem(self, vm, k):
        r = vm.dict_find(self, k)
        return 0 if r is None else dict.__getitem__(self, r[0])

    def pv_binop(self, vm, t, o, rev):
        if t not in ('Add', 'Sub') or not isinstance(o, CounterModel):
            raise Unsupported('Counter ' + t)
        a, b = (o, self) if rev else (self, o)
        r = CounterModel()
        for k in list(a) + [k for k in b if k not in a]:
            x, y = dict.get(a, k, 0), dict.get(b, k, 0)
            v = x + y if t == 'Add' else x - y
            if vm.truth(v > 0):
                dict.__setitem__(r, k, v)
        return vm.born(r)


@ext('collections.Counter')
def _counter(vm, x=None):
    r = CounterModel()
    if x is not None:
        if not isinstance(x, dict):
            raise Unsupported('Counter of a sequence')
        dict.update(r, x)
    return vm.born(r)


@ext('collections.defaultdict')
def _defaultdict(vm, f=None, *a):
    class DD(dict):
        default_factory = None
    d = DD()
    d.default_factory = f
    return vm.born(d)


class Deque(list):
    maxlen = None

    def popleft(self):
        return self.pop(0)

    def appendleft(self, x):
        self.insert(0, x)

    def append(self, x):
        list.append(self, x)
        if self.maxlen is not None and len(self) > self.maxlen:
            del self[0]


@ext('collections.deque')
def _deque(vm, it=(), maxlen=None):
    d = Deque()
    if maxlen is not None:
        m = conc(maxlen)
        if isinstance(m, Sym):
            raise Unsupported('deque of symbolic length')
        d.maxlen = m
    for x in vm.iterate(it) if it != () else ():
        d.append(x)
    return vm.born(d)


@ext('collections.OrderedDict')
def _od(vm, *a, **k):
    return _dict(vm, *a, **k)


@ext('itertools.zip_longest')
def _zip_longest(vm, *its, fillvalue=None):
    import itertools
    return list(itertools.zip_longest(*[list(vm.iterate(i)) for i in its], fillvalue=fillvalue))


@ext('operator.itemgetter')
def _itemgetter(vm, i):
    return _method(lambda x: vm.getitem(x, i))


@ext('numpy.ravel')
def _npravel(vm, a, order='C'):
    if isinstance(a, np.ndarray) and order == 'C':
        return vm.born(a.ravel())
    return vm.call(vm.getattr(a, 'ravel'), [], {})


@ext('operator.attrgetter')
def _attrgetter(vm, i):
    return _method(lambda x: vm.getattr(x, i))


# ------------------------------------------------------------------ random numbers (assumed contract of numpy.random.RandomState)

def rng(vm, name='rng', **f):
    o = V.Obj(V.Ext('numpy.random.RandomState'), dict(f))
    vm.born(o)
    return o


def _draw(vm, o, what, k, lo=None, hi=None, strict=True):
    pos = o.fields.get('pos') if isinstance(o, V.Obj) else None
    if vm.ghost.get('replay') and isinstance(pos, int) and isinstance(o.fields.get('seed'), int):
        # the draw is a function of the seed and of the calls made before it
        sig = o.fields.get('trace', ()) + ((what, str(lo), str(hi)),)
        tab = vm.ghost.setdefault('draw_table', {})
        key = (o.fields['seed'], sig)
        s = tab.get(key)
        if s is None:
            s = tab[key] = vm.fresh('draw_%s' % what, k, inp=True)
        o.fields['pos'] = pos + 1
        o.fields['trace'] = sig
    else:
        s = vm.fresh('draw_%s' % what, k, inp=True)
    if lo is not None:
        vm.assume(s >= lo)
    if hi is not None:
        vm.assume(s < hi if strict else s <= hi)
    vm.ghost.setdefault('draws', []).append((o, what, s))
    return s


@ext('numpy.random.RandomState')
def _rs(vm, seed=None):
    return rng(vm, seed=seed, pos=0)


@ext('numpy.random.RandomState.rand')
def _rs_rand(vm, o, *shape):
    if not shape:
        return _draw(vm, o, 'rand', 'real', 0, 1)
    if any(isinstance(x, Sym) for x in shape):
        raise Unsupported('rand of symbolic shape')
    a = np.empty(shape, dtype=object)
    for ix in np.ndindex(*shape):
        a[ix] = _draw(vm, o, 'rand', 'real', 0, 1)
    return vm.born(a)


@ext('numpy.random.RandomState.random_sample')
def _rs_random_sample(vm, o, size=None):
    return _rs_rand(vm, o) if size is None else _rs_rand(vm, o, *_shape(vm, size))


@ext('numpy.random.RandomState.uniform')
def _rs_uniform(vm, o, low=0.0, high=1.0, size=None):
    if size is None:
        u = _draw(vm, o, 'uniform', 'real')
        vm.assume(u >= low)
        vm.assume(S.or_(u < high, S.and_(low == high, u == low)) if S.issym(low, high) else u <= high)
        return u
    raise Unsupported('uniform with size')


@ext('numpy.random.RandomState.randint')
def _rs_randint(vm, o, low, high=None, size=None, **k):
    if high is None:
        low, high = 0, low
    if size is None:
        return _draw(vm, o, 'randint', 'int', low, high)
    shp = _shape(vm, size)
    a = np.empty(shp, dtype=object)
    for ix in np.ndindex(*shp):
        a[ix] = _draw(vm, o, 'randint', 'int', low, high)
    return vm.born(a)


@ext('numpy.random.RandomState.normal')
def _rs_normal(vm, o, loc=0.0, scale=1.0, size=None):
    if size is None:
        return _draw(vm, o, 'normal', 'real')
    raise Unsupported('normal with size')


@ext('numpy.random.RandomState.randn')
def _rs_randn(vm, o, *shape):
    if not shape:
        return _draw(vm, o, 'randn', 'real')
    a = np.empty(shape, dtype=object)
    for ix in np.ndindex(*shape):
        a[ix] = _draw(vm, o, 'randn', 'real')
    return vm.born(a)


@ext('numpy.random.RandomState.poisson')
def _rs_poisson(vm, o, lam=1.0, size=None):
    if size is None:
        return _draw(vm, o, 'poisson', 'int', 0)
    raise Unsupported('poisson with size')


@ext('numpy.random.RandomState.permutation')
def _rs_perm(vm, o, n):
    raise Unsupported('permutation')


@ext('numpy.random.RandomState.shuffle')
def _rs_shuffle(vm, o, x):
    """assumed contract: leaves some permutation of the elements in place"""
    n = len(x)
    pool = [x[i] if not isinstance(x, np.ndarray) or x.ndim == 1 else x[i].copy() for i in range(n)]
    for i in range(n):
        x[i] = pool.pop(vm.choose(len(pool)) if len(pool) > 1 else 0)


@ext('numpy.random.RandomState.choice')
def _rs_choice(vm, o, a, size=None, replace=True, p=None):
    """assumed contract: elements of the population (of range(a)), none of probability zero when p is given"""
    pop = list(range(conc(a))) if not isinstance(a, (list, tuple, range, np.ndarray)) else list(a)
    if p is not None and len(p) != len(pop):
        raise PyRaise('ValueError', ("'a' and 'p' must have same size",))

    def one():
        if not pop:
            raise PyRaise('ValueError', ("'a' cannot be empty",))
        i = vm.choose(len(pop))
        if p is not None:
            vm.assume(p[i] > 0)
        v = pop[i]
        if not replace:
            del pop[i]
        vm.ghost.setdefault('draws', []).append((o, 'choice', v))
        vm.ghost.setdefault('choice_p', []).append((v, None if p is None else list(p)))
        return v
    if size is None:
        return one()
    shp = _shape(vm, size)
    r = np.empty(shp, dtype=object)
    for ix in np.ndindex(*shp):
        r[ix] = one()
    return vm.born(r)


@ext('numpy.column_stack')
def _column_stack(vm, xs):
    cols = []
    for x in xs:
        x = toarr(vm, x)
        cols.append(x.reshape(-1, 1) if x.ndim == 1 else x)
    if len({c.shape[0] for c in cols}) > 1:
        raise PyRaise('ValueError', ('dimensions must match',))
    return vm.born(np.concatenate(cols, axis=1))


@ext('numpy.argsort')
def _argsort(vm, a, axis=-1, **k):
    a = toarr(vm, a)
    if a.ndim != 1:
        raise Unsupported('argsort of a matrix')
    idx = []
    for i in range(len(a)):
        j = len(idx)
        while j and vm.truth(vm.compare(ast.Lt(), a[i], a[idx[j - 1]])):
            j -= 1
        idx.insert(j, i)
    return vm.born(np.array(idx, dtype=int))


class _Param:
    POSITIONAL_ONLY, POSITIONAL_OR_KEYWORD, VAR_POSITIONAL, KEYWORD_ONLY, VAR_KEYWORD = range(5)

    def __init__(self, name, kind=1):
        self.name, self.kind = name, kind

    def pv_getattr(self, vm, name):
        if name in ('name', 'kind') or name.isupper() and hasattr(self, name):
            return getattr(self, name)
        raise Unsupported('parameter.' + name)


class _Signature:
    def __init__(self, params):
        self.params = [p if isinstance(p, _Param) else _Param(p) for p in params]

    def pv_getattr(self, vm, name):
        if name == 'parameters':
            return vm.born({p.name: p for p in self.params})
        raise Unsupported('signature.' + name)


@ext('inspect.signature')
def _signature(vm, f):
    names = getattr(f, 'pv_params', None)
    func, skip = (f.func, 1) if isinstance(f, V.Bound) else (f, 0)
    if names is None and isinstance(func, V.FuncVal):
        a = func.node.args
        names = [_Param(x.arg, 0) for x in a.posonlyargs] + [_Param(x.arg) for x in a.args]
        names = names[skip:] + ([_Param(a.vararg.arg, 2)] if a.vararg else []) + [_Param(x.arg, 3) for x in a.kwonlyargs] + ([_Param(a.kwarg.arg, 4)] if a.kwarg else [])
    if names is None:
        raise Unsupported('inspect.signature of %r' % type(f))
    return _Signature(names)


@ext('numpy.copy')
def _npcopy(vm, a, **k):
    return vm.born(toarr(vm, a).copy())


@ext('sklearn.preprocessing.normalize')
def _normalize(vm, X, norm='l2', axis=1, **k):
    if norm not in ('l1', 'max') or axis != 1:
        raise Unsupported('normalize with norm %s' % norm)
    A = toarr(vm, X)
    out = np.empty(A.shape, dtype=object)
    for i, r in enumerate(A):
        mags = [S.ite(v >= 0, v, -v) for v in r]
        t = sum_(mags) if norm == 'l1' else _red(vm, mags, S.smax)
        z = vm.truth(S.eq(t, 0))
        for j, v in enumerate(r):
            out[i, j] = v if z else S.div(v, t)
    return vm.born(out)


@ext('sklearn.utils.tosequence')
def _tosequence(vm, x):
    if isinstance(x, (list, tuple)):
        return x
    if isinstance(x, np.ndarray):
        return toarr(vm, x)
    raise Unsupported('tosequence of %r' % type(x))
