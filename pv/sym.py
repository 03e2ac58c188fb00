"""Symbolic scalar values.

A Sym wraps a z3 Int / Real / Bool term and overloads the Python operators, so that the
interpreter (vm.py) and the specifications (props/*.py) can both be ordinary Python
expressions.  Python floats are mathematical reals, Python ints mathematical integers
(assumption A-ARITH in DESIGN.md).
"""
import math
from fractions import Fraction
import numbers

import z3

CUR = [None]            # the running VM


class Unsupported(Exception):
    """The interpreted code is outside the verifier's subset."""


class PathEnd(BaseException):
    """This path is finished (infeasible, or its continuation is covered elsewhere)."""


class Restart(BaseException):
    """Exploration has to start again (loop information changed)."""


class PyRaise(Exception):
    """An exception raised by the interpreted program."""
    def __init__(self, name, args=(), obj=None):
        super().__init__(name)
        self.name = name
        self.eargs = args
        self.obj = obj


def vm():
    return CUR[0]


INF = float('inf')
_UF = {}


def uf(name, *sorts):
    key = (name,) + tuple(str(s) for s in sorts)
    if key not in _UF:
        _UF[key] = z3.Function(name, *sorts)
    return _UF[key]


R, I, B = z3.RealSort(), z3.IntSort(), z3.BoolSort()


def is_num(v):
    return isinstance(v, (bool, numbers.Number)) or type(v).__module__ == 'numpy' and hasattr(v, 'item') and getattr(v, 'ndim', 1) == 0


def conc(v):
    """numpy scalar -> python scalar"""
    if type(v).__module__ == 'numpy' and hasattr(v, 'item') and getattr(v, 'ndim', 1) == 0:
        return v.item()
    return v


def lift(v):
    if isinstance(v, Sym):
        return v.e
    v = conc(v)
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, float):
        if v != v or v in (INF, -INF):
            raise Unsupported('non-finite float in a symbolic operation')
        return z3.RealVal(repr(v)) if v != int(v) or abs(v) > 1e15 else z3.RealVal(int(v))
    if isinstance(v, Fraction):
        return z3.RealVal(v)
    if isinstance(v, z3.ExprRef):
        return v
    raise Unsupported('cannot lift %r' % (type(v),))


def num(e):
    """arith term (booleans become 0/1)"""
    if z3.is_bool(e):
        if z3.is_true(e):
            return z3.IntVal(1)
        if z3.is_false(e):
            return z3.IntVal(0)
        return z3.If(e, z3.IntVal(1), z3.IntVal(0))
    return e


def pair(a, b):
    a, b = num(lift(a)), num(lift(b))
    if a.sort() != b.sort():
        if a.sort() == I:
            a = z3.ToReal(a) if not z3.is_int_value(a) else z3.RealVal(a.as_long())
        if b.sort() == I:
            b = z3.ToReal(b) if not z3.is_int_value(b) else z3.RealVal(b.as_long())
    return a, b


def mk(e):
    """Wrap, turning literals back into Python values."""
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    if z3.is_int_value(e):
        return e.as_long()
    return Sym(e)


def _isinf(v):
    return isinstance(v, float) and v in (INF, -INF)


def _isnan(v):
    return isinstance(v, float) and v != v


class Sym:
    __slots__ = ('e',)
    __array_ufunc__ = None   # numpy scalars defer to us

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return 'Sym(%s)' % str(self.e)[:200]

    # -- kinds
    @property
    def kind(self):
        s = self.e.sort()
        return 'bool' if s == B else 'int' if s == I else 'real' if s == R else str(s)

    # -- arithmetic
    def __add__(self, o):
        o = conc(o)
        if _isinf(o) or _isnan(o):
            return o
        if not isinstance(o, Sym) and not is_num(o):
            return NotImplemented
        a, b = pair(self, o)
        return mk(a + b)
    __radd__ = __add__

    def __sub__(self, o):
        o = conc(o)
        if _isinf(o) or _isnan(o):
            return -o
        if not isinstance(o, Sym) and not is_num(o):
            return NotImplemented
        a, b = pair(self, o)
        return mk(a - b)

    def __rsub__(self, o):
        o = conc(o)
        if _isinf(o) or _isnan(o):
            return o
        if not is_num(o):
            return NotImplemented
        a, b = pair(o, self)
        return mk(a - b)

    def __mul__(self, o):
        o = conc(o)
        if _isinf(o):
            if self > 0:
                return o
            if self < 0:
                return -o
            return float('nan')
        if _isnan(o):
            return o
        if not isinstance(o, Sym) and not is_num(o):
            return NotImplemented
        a, b = pair(self, o)
        return mk(z3.simplify(a * b) if (not isinstance(o, Sym)) else a * b)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = conc(o)
        if _isinf(o):
            return 0.0
        if not isinstance(o, Sym) and not is_num(o):
            return NotImplemented
        return div(self, o)

    def __rtruediv__(self, o):
        o = conc(o)
        if not is_num(o):
            return NotImplemented
        if _isinf(o):
            if self > 0:
                return o
            if self < 0:
                return -o
            vm().zero_division()
        return div(o, self)

    def __floordiv__(self, o):
        return floordiv(self, o)

    def __rfloordiv__(self, o):
        return floordiv(o, self)

    def __mod__(self, o):
        return mod(self, o)

    def __rmod__(self, o):
        return mod(o, self)

    def __neg__(self):
        return mk(-num(self.e))

    def __pos__(self):
        return mk(num(self.e))

    def __abs__(self):
        e = num(self.e)
        return mk(z3.If(e >= 0, e, -e))

    def __pow__(self, o):
        return power(self, o)

    def __rpow__(self, o):
        return power(o, self)

    # -- comparison
    def _cmp(self, o, f, onpos, onneg):
        o = conc(o)
        if _isnan(o):
            return False
        if _isinf(o):
            return onpos if o > 0 else onneg
        if not isinstance(o, Sym) and not is_num(o):
            return NotImplemented
        a, b = pair(self, o)
        return mk(z3.simplify(f(a, b)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, True, False)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, True, False)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, False, True)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, False, True)

    def __eq__(self, o):
        o = conc(o)
        if isinstance(o, Sym) or is_num(o):
            if isinstance(o, complex):
                raise Unsupported('complex')
            if _isnan(o) or _isinf(o):
                return False
            ea, eb = self.e, lift(o)
            if z3.is_bool(ea) and z3.is_bool(eb):
                return mk(z3.simplify(ea == eb))
            if ea.sort() == eb.sort():
                return mk(z3.simplify(ea == eb))
            a, b = pair(self, o)
            return mk(z3.simplify(a == b))
        if isinstance(o, Opaque):
            return NotImplemented
        if hasattr(o, '__array__'):
            return NotImplemented
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return not_(r)

    __hash__ = None

    def __bool__(self):
        e = self.e
        if not z3.is_bool(e):
            e = num(e) != 0
        return vm().branch(e)

    def __and__(self, o):
        return and_(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return or_(self, o)
    __ror__ = __or__

    def __xor__(self, o):
        return ne(truth(self), truth(o))

    def __invert__(self):
        if z3.is_bool(self.e):
            return not_(self)
        return -self - 1

    def __index__(self):
        v = vm().concretize(self)
        return v

    def __int__(self):
        raise Unsupported('native int() of symbolic value')

    def __float__(self):
        raise Unsupported('native float() of symbolic value')

    # numpy object-array ufunc hooks
    def sqrt(self):
        return sqrt(self)

    def log(self):
        return log(self)

    def exp(self):
        return exp(self)

    def item(self):
        return self

    def copy(self):
        return self


class Opaque:
    """A value about which nothing is known (strings of messages and the like)."""
    def __init__(self, what=''):
        self.what = what

    def __repr__(self):
        return 'Opaque(%s)' % self.what


# ---------------------------------------------------------------- operations usable in specs

def issym(*vs):
    return any(isinstance(v, Sym) for v in vs)


def div(a, b):
    a, b = conc(a), conc(b)
    if not issym(a, b):
        if b == 0 and getattr(vm(), 'npwarn', False):
            vm().zero_division()
        return a / b
    if not issym(b):
        if b == 0:
            vm().zero_division()
        x = num(lift(a))
        if x.sort() == I:
            x = z3.ToReal(x)
        d = lift(b)
        if d.sort() == I:
            d = z3.RealVal(d.as_long())
        return mk(x / d)
    y = num(lift(b))
    vm().nonzero(y)
    x = num(lift(a))
    if x.sort() == I:
        x = z3.ToReal(x) if not z3.is_int_value(x) else z3.RealVal(x.as_long())
    if y.sort() == I:
        y = z3.ToReal(y)
    return mk(x / y)


def floordiv(a, b):
    a, b = conc(a), conc(b)
    if not issym(a, b):
        return a // b
    x, y = num(lift(a)), num(lift(b))
    if issym(b):
        vm().nonzero(y)
    elif b == 0:
        vm().zero_division()
    if x.sort() == I and y.sort() == I:
        if not issym(b) and b > 0:
            return mk(x / y)
        if vm().branch(y > 0):
            return mk(x / y)
        # python floors; z3 div rounds so that the remainder is non-negative
        return mk(-z3.If(x % (-y) == 0, x / (-y), x / (-y) + 1) if False else (-x) / (-y))
    q = div(Sym(x) if not isinstance(a, Sym) else a, b)
    return mk(z3.ToReal(z3.ToInt(lift(q))))


def mod(a, b):
    a, b = conc(a), conc(b)
    if not issym(a, b):
        return a % b
    x, y = num(lift(a)), num(lift(b))
    if issym(b):
        vm().nonzero(y)
    elif b == 0:
        vm().zero_division()
    if x.sort() == I and y.sort() == I:
        if not issym(b) and b > 0 or vm().branch(y > 0):
            return mk(x % y)
        return mk(-((-x) % (-y)))
    return a - b * floordiv(a, b)


def power(a, b):
    a, b = conc(a), conc(b)
    if not issym(a, b):
        return a ** b
    if not issym(b):
        if isinstance(b, float) and b == int(b) and abs(b) <= 4:
            b = int(b)
            a = toreal(a)
        if isinstance(b, int) and 0 <= b <= 4:
            r = 1
            for _ in range(b):
                r = a * r if not isinstance(r, int) else (a if r == 1 else a * r)
            return r if b else (1 if kind(a) == 'int' else 1.0)
        if isinstance(b, int) and -4 <= b < 0:
            return div(1.0, power(a, -b))
        if b == 0.5:
            return sqrt(a)
    x, y = toreal(a), toreal(b)
    if not issym(a) and a > 0:
        r = uf('pow', R, R, R)(lift(x), lift(y))
        vm().axiom(r > 0)
        return Sym(r)
    return Sym(uf('pow', R, R, R)(lift(x), lift(y)))


def kind(v):
    if isinstance(v, Sym):
        return v.kind
    v = conc(v)
    if isinstance(v, bool):
        return 'bool'
    if isinstance(v, int):
        return 'int'
    if isinstance(v, (float, Fraction)):
        return 'real'
    return None


def toreal(v):
    if isinstance(v, Sym):
        e = num(v.e)
        return Sym(z3.ToReal(e)) if e.sort() == I else Sym(e)
    v = conc(v)
    return float(v) if not isinstance(v, Fraction) else v


def toint(v):
    """Python int(): truncation towards zero."""
    if isinstance(v, Sym):
        e = num(v.e)
        if e.sort() == I:
            return mk(e)
        if z3.is_to_real(e):
            return mk(e.arg(0))
        return mk(z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e)))
    return int(v)


def floor(v):
    if isinstance(v, Sym):
        e = num(v.e)
        return mk(e) if e.sort() == I else mk(z3.ToInt(e))
    return math.floor(v)


def sqrt(v):
    v = conc(v)
    if not isinstance(v, Sym):
        return math.sqrt(v)
    x = lift(toreal(v))
    r = uf('sqrt', R, R)(x)
    vm().axiom(z3.Implies(x >= 0, z3.And(r >= 0, r * r == x)))
    return Sym(r)


def _log_laws(f, x, r):
    """f(a*b) = f(a)+f(b), f(a/b) = f(a)-f(b) for positive a, b: instances for the argument at hand"""
    if z3.is_app_of(x, z3.Z3_OP_DIV):
        a, b = x.children()
        vm().axiom(z3.Implies(z3.And(a > 0, b > 0), r == f(a) - f(b)))
    elif z3.is_app_of(x, z3.Z3_OP_MUL) and x.num_args() == 2:
        a, b = x.children()
        vm().axiom(z3.Implies(z3.And(a > 0, b > 0), r == f(a) + f(b)))


def log(v):
    v = conc(v)
    if not isinstance(v, Sym):
        return math.log(v)
    x = lift(toreal(v))
    r = uf('log', R, R)(x)
    _log_laws(uf('log', R, R), x, r)
    vm().axiom(z3.Implies(x == 1, r == 0))
    vm().axiom(z3.Implies(x > 1, r > 0))
    vm().axiom(z3.Implies(z3.And(x > 0, x < 1), r < 0))
    return Sym(r)


def log2(v):
    v = conc(v)
    if not isinstance(v, Sym):
        return math.log2(v)
    x = lift(toreal(v))
    r = uf('log2', R, R)(x)
    _log_laws(uf('log2', R, R), x, r)
    vm().axiom(z3.Implies(x == 1, r == 0))
    vm().axiom(z3.Implies(x > 1, r > 0))
    vm().axiom(z3.Implies(z3.And(x > 0, x < 1), r < 0))
    return Sym(r)


def exp(v):
    v = conc(v)
    if not isinstance(v, Sym):
        try:
            return math.exp(v)
        except OverflowError:
            return INF
    x = lift(toreal(v))
    r = uf('exp', R, R)(x)
    vm().axiom(z3.And(r > 0, z3.Implies(x == 0, r == 1)))
    return Sym(r)


def ufun(name, *args):
    """An uninterpreted real function of real arguments (assumed deterministic)."""
    return Sym(uf(name, *([R] * len(args) + [R]))(*[lift(toreal(a)) for a in args]))


# ---- logic helpers (no forking)

def truth(v):
    if isinstance(v, Sym):
        return v if z3.is_bool(v.e) else mk(v.e != 0)
    return bool(v)


def and_(*vs):
    out = []
    for v in vs:
        v = truth(v)
        if isinstance(v, Sym):
            out.append(v.e)
        elif not v:
            return False
    if not out:
        return True
    return mk(z3.And(*out)) if len(out) > 1 else Sym(out[0])


def or_(*vs):
    out = []
    for v in vs:
        v = truth(v)
        if isinstance(v, Sym):
            out.append(v.e)
        elif v:
            return True
    if not out:
        return False
    return mk(z3.Or(*out)) if len(out) > 1 else Sym(out[0])


def not_(v):
    v = truth(v)
    return mk(z3.simplify(z3.Not(v.e))) if isinstance(v, Sym) else not v


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    return eq(truth(a), truth(b))


def ite(c, a, b):
    c = truth(c)
    if not isinstance(c, Sym):
        return a if c else b
    if _isinf(a) or _isinf(b):
        return a if c else b        # forks
    if isinstance(lift(a), z3.BoolRef) and isinstance(lift(b), z3.BoolRef):
        return mk(z3.If(c.e, lift(a), lift(b)))
    x, y = pair(a, b)
    return mk(z3.If(c.e, x, y))


def smax(a, b):
    if not issym(a, b):
        return max(a, b)
    return ite(b > a, b, a)


def smin(a, b):
    if not issym(a, b):
        return min(a, b)
    return ite(b < a, b, a)


def eq(a, b):
    """Spec equality: exact in proofs, tolerant when both sides are concrete floats."""
    a, b = conc(a), conc(b)
    if issym(a, b):
        return a == b if isinstance(a, Sym) else b == a
    if isinstance(a, float) or isinstance(b, float):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            if a == b or (a != a and b != b):
                return True
            return math.isclose(a, b, rel_tol=1e-7, abs_tol=1e-9)
    return a == b


def ne(a, b):
    return not_(eq(a, b))
