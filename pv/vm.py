"""A deductive verifier for a subset of Python.

Functions are taken from /repo's current source text (ast), executed symbolically over z3
terms, all paths explored by re-execution with decision prefixes.  Calls to functions
under contract use the contract; other repo functions are inlined from their source;
loops with a symbolic trip count are cut with inductive invariants (contract supplied
and/or Houdini-filtered candidates).  Everything outside the subset raises Unsupported.
"""
import ast
import builtins
import os
import time

import numpy as np
import z3

from . import sym as S
from .sym import Sym, Opaque, Unsupported, PathEnd, Restart, PyRaise, lift, mk, num, conc, kind
from .pyx import strip_pyx

REPO = os.environ.get('PV_REPO', '/repo')
SRC = os.path.join(REPO, 'src', 'skmultiflow')


# --------------------------------------------------------------------------- values

class ClassVal:
    def __init__(self, name, module, bases, d):
        self.name, self.module, self.bases, self.dict = name, module, bases, d
        self._mro = None

    def mro(self):
        if self._mro is None:
            seqs = [b.mro() for b in self.bases if isinstance(b, ClassVal)]
            seqs = [list(s) for s in seqs] + [[b for b in self.bases if isinstance(b, ClassVal)]]
            out = [self]
            seqs = [s for s in seqs if s]
            while seqs:
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                else:
                    raise Unsupported('mro of ' + self.name)
                out.append(h)
                seqs = [[x for x in s if x is not h] for s in seqs]
                seqs = [s for s in seqs if s]
            self._mro = out
        return self._mro

    def lookup(self, name):
        for c in self.mro():
            if name in c.dict:
                return c.dict[name]
        return None

    def __repr__(self):
        return '<class %s>' % self.name


class FuncVal:
    def __init__(self, node, module, cls=None, env=None, decos=()):
        self.node, self.module, self.cls, self.env = node, module, cls, env
        self.decos = decos
        self.name = getattr(node, 'name', '<lambda>')

    @property
    def qual(self):
        return '%s:%s%s' % (self.module.rel, (self.cls.name + '.') if self.cls else '', self.name)

    def __repr__(self):
        return '<fn %s>' % self.qual


class Obj:
    def __init__(self, cls, fields=None, serial=None):
        self.cls, self.fields, self.serial = cls, dict(fields or {}), serial

    def __repr__(self):
        return '<obj %s#%s>' % (getattr(self.cls, 'name', self.cls), self.serial)


class Bound:
    def __init__(self, obj, func):
        self.obj, self.func = obj, func


class Ext:
    """Something imported from outside the repository (dotted name)."""
    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return '<ext %s>' % self.path

    def __eq__(self, o):
        return isinstance(o, Ext) and o.path == self.path

    def __hash__(self):
        return hash(self.path)


class Super:
    def __init__(self, obj, cls):
        self.obj, self.cls = obj, cls


class ModRef:
    def __init__(self, module):
        self.module = module


class SKey:
    """A symbolic dictionary key inside a native dict (keys are pairwise distinct on the path)."""
    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return 'SKey(%r)' % self.s


class SymRange:
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi


class Env:
    def __init__(self, vars=None, parent=None, func=None):
        self.vars = {} if vars is None else vars
        self.parent = parent
        self.func = func
        self.globals_decl = ()


class Poison:
    def __init__(self, why):
        self.why = why


class Stream(object):
    pass


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


# --------------------------------------------------------------------------- modules

class Module:
    def __init__(self, vm, name, path, rel, text=None):
        self.vm, self.name, self.path, self.rel = vm, name, path, rel
        src = text if text is not None else open(path, encoding='utf-8').read()
        if path.endswith('.pyx'):
            src = strip_pyx(src)
        self.source = src
        self.tree = ast.parse(src)
        self.names = {}
        self.cache = {}
        self.is_pkg = os.path.basename(path) == '__init__.py'
        self._scan(self.tree.body)

    def _scan(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                self.names[st.name] = st
            elif isinstance(st, ast.Import):
                for a in st.names:
                    self.names[a.asname or a.name.split('.')[0]] = ('import', a.name if a.asname else a.name.split('.')[0])
            elif isinstance(st, ast.ImportFrom):
                mod = self._absmod(st)
                for a in st.names:
                    self.names[a.asname or a.name] = ('from', mod, a.name)
            elif isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                self.names[st.targets[0].id] = ('assign', st.value)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value:
                self.names[st.target.id] = ('assign', st.value)
            elif isinstance(st, ast.Try):
                self._scan(st.body)
            elif isinstance(st, ast.If):
                self._scan(st.body)

    def _absmod(self, st):
        if st.level == 0:
            return st.module
        parts = self.name.split('.')
        if not self.is_pkg:
            parts = parts[:-1]
        if st.level > 1:
            parts = parts[:-(st.level - 1)]
        return '.'.join(parts + ([st.module] if st.module else []))

    def has(self, name):
        return name in self.names

    def get(self, name):
        if name in self.cache:
            v = self.cache[name]
            return v
        d = self.names[name]
        if isinstance(d, ast.FunctionDef):
            v = FuncVal(d, self, decos=[_deco(x) for x in d.decorator_list])
        elif isinstance(d, ast.ClassDef):
            v = self._mkclass(d)
        elif d[0] == 'import':
            v = self.vm.import_module(d[1])
        elif d[0] == 'from':
            v = self.vm.import_from(d[1], d[2])
        else:
            v = self.vm.in_module_eval(self, d[1])
        self.cache[name] = v
        return v

    def _mkclass(self, d, nested=False):
        bases = []
        for b in d.bases:
            try:
                bases.append(self.vm.in_module_eval(self, b))
            except Unsupported:
                bases.append(Ext('?'))
        c = ClassVal(d.name, self, bases, {})
        if not nested:
            self.cache[d.name] = c
        env = Env({}, None)
        env.module = self
        for st in d.body:
            if isinstance(st, ast.FunctionDef):
                decos = [_deco(x) for x in st.decorator_list]
                f = FuncVal(st, self, cls=c, decos=decos)
                if any(x.endswith('.setter') for x in decos):
                    c.dict['__set__' + st.name] = f
                elif any(x.endswith('.deleter') for x in decos):
                    c.dict['__del__' + st.name] = f
                else:
                    c.dict[st.name] = f
            elif isinstance(st, ast.ClassDef):
                c.dict[st.name] = self._mkclass(st, nested=True)
            elif isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                try:
                    c.dict[st.targets[0].id] = self.vm.eval_in(self, st.value, dict(c.dict))
                except Unsupported as e:
                    c.dict[st.targets[0].id] = Poison(str(e))
            elif isinstance(st, ast.AnnAssign) and st.value is not None:
                try:
                    c.dict[st.target.id] = self.vm.eval_in(self, st.value, dict(c.dict))
                except Unsupported as e:
                    c.dict[st.target.id] = Poison(str(e))
        return c


def _deco(x):
    try:
        return ast.unparse(x)
    except Exception:
        return '?'


EXC = {n: getattr(builtins, n) for n in dir(builtins)
       if isinstance(getattr(builtins, n), type) and issubclass(getattr(builtins, n), BaseException)}


class Failure:
    """An undischarged obligation."""
    def __init__(self, unit, label, status, model, path, detail=''):
        self.unit, self.label, self.status = unit, label, status
        self.model, self.path, self.detail = model, path, detail

    def __repr__(self):
        return 'Failure(%s/%s %s %s)' % (self.unit, self.label, self.status, self.model)


class LoopInfo:
    def __init__(self):
        self.cut = False
        self.mods = {}       # loc -> set of shapes
        self.dropped = set()


# --------------------------------------------------------------------------- the VM

class VM:
    FEAS_MS = 1000
    classic_loops = False
    PROVE_MS = 20000

    def __init__(self):
        self.modules = {}
        self.contracts = {}        # qual -> fn(vm, self_or_None, args, kwargs)
        self.hooks = {}            # misc hooks set by units
        self.stats = dict(paths=0, solver_s=0.0, checks=0, obligations=0, discharged=0,
                          by={}, loops=0)
        self.functions = set()     # quals interpreted
        self.assumed = set()       # external models / contracts used
        self.failures = []
        self.unit = '?'
        self.oblig_log = {}
        self.unroll_forks = 0
        self._reset_unit()
        self.overrides = {}        # file text overrides (tests of the engine)

    def _reset_unit(self):
        self.loopinfo = {}
        self.choice_prefix = []
        self._reset_path()

    def _reset_path(self):
        self.soft_uf = False
        self.pc = []
        self.decisions = []
        self.pos = 0
        self.counter = {}
        self.serial = 0
        self.births = {}
        self.keep = []
        self.loopstack = []
        self.inputs = {}
        self.solver = None
        self.axioms_seen = set()
        self.nz_seen = set()
        self.npwarn = False
        self.depth = 0
        self.ghost = {}
        self.trace = []
        self.cutpath = False

    # ---------------- exploration
    def explore(self, name, fn, max_paths=4000, max_s=600, max_fail=6):
        """Run fn(vm) over all paths. Returns list of failures of this unit."""
        S.CUR[0] = self
        self.unit = name
        self._reset_unit()
        t0 = time.time()
        restarts = 0
        while True:
            work = [[]]
            fails = []
            log = {}
            npaths = 0
            finished = 0
            try:
                while work:
                    if npaths >= max_paths or time.time() - t0 > max_s:
                        raise Unsupported('path/time budget exceeded (%d paths)' % npaths)
                    prefix = work.pop()
                    self._reset_path()
                    self.decisions = list(prefix)
                    self.work = work
                    self.cur_fails, self.cur_log = fails, log
                    npaths += 1
                    try:
                        fn(self)
                        finished += 1
                        self._prove_end()
                    except PathEnd:
                        pass
                    except PyRaise as e:
                        # an exception escaping the unit is a failed obligation 'no exception'
                        try:
                            self.prove('no-exception(%s)' % e.name, False, detail=str(e.eargs))
                        except PathEnd:
                            pass
                    if len(fails) >= max_fail:
                        break
                break
            except Restart:
                restarts += 1
                if restarts > 400:
                    raise Unsupported('too many restarts')
                continue
        self.stats['paths'] += npaths
        n = sum(len(v) for v in log.values())
        self.stats['obligations'] += n
        self.stats['discharged'] += sum(1 for v in log.values() for s in v if s != 'FAIL')
        for lab, v in log.items():
            self.oblig_log['%s/%s' % (name, lab)] = v
            for s in v:
                self.stats['by'][s] = self.stats['by'].get(s, 0) + 1
        if n == 0:
            raise Unsupported('unit %s generated no obligations' % name)
        if not fails and finished == 0:
            raise Unsupported('unit %s: no path reaches its end (vacuous)' % name)
        self.failures += fails
        return fails

    def _prove_end(self):
        pass

    # ---------------- path condition
    def fresh(self, base, k='real', lo=None, hi=None, inp=False):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        nm = base if n == 0 else '%s!%d' % (base, n)
        s = Sym({'real': z3.Real, 'int': z3.Int, 'bool': z3.Bool}[k](nm))
        if lo is not None:
            self.assume(s >= lo)
        if hi is not None:
            self.assume(s <= hi)
        if inp:
            self.inputs[nm] = s
        return s

    def inp(self, base, k='real', lo=None, hi=None):
        return self.fresh(base, k, lo, hi, inp=True)

    def fresh_array(self, base, k='real'):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        nm = base if n == 0 else '%s!%d' % (base, n)
        return z3.Array(nm, S.I, {'real': S.R, 'int': S.I, 'bool': S.B}[k])

    def assume(self, c):
        c = S.truth(c)
        if c is True:
            return
        if c is False:
            raise PathEnd()
        self.pc.append(c.e)
        if self.solver is not None:
            self.solver.add(c.e)

    def axiom(self, e):
        k = e.get_id()
        if k in self.axioms_seen:
            return
        self.axioms_seen.add(k)
        self.keep.append(e)
        self.pc.append(e)
        if self.solver is not None:
            self.solver.add(e)

    def _solver(self):
        if self.solver is None:
            self.solver = z3.Solver()
            self.solver.set('timeout', self.FEAS_MS)
            for c in self.pc:
                self.solver.add(c)
        return self.solver

    def feasible(self, e):
        s = self._solver()
        t = time.time()
        s.push()
        s.add(e)
        r = s.check()
        s.pop()
        self.stats['solver_s'] += time.time() - t
        self.stats['checks'] += 1
        return r != z3.unsat

    def known(self, e):
        """Is e implied by the path condition?"""
        return not self.feasible(z3.Not(e))

    def branch(self, e):
        if isinstance(e, Sym):
            e = e.e
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
            self.pos += 1
            self.pc.append(e if d else z3.Not(e))
            if self.solver is not None:
                self.solver.add(self.pc[-1])
            return d
        t = self.feasible(e)
        f = self.feasible(z3.Not(e)) if t else True
        if t and f:
            self.work.append(self.decisions + [False])
            d = True
        else:
            d = t
        self.decisions.append(d)
        self.pos += 1
        self.pc.append(e if d else z3.Not(e))
        self._solver().add(self.pc[-1])
        return d

    def choose(self, n, what=''):
        """Nondeterministic choice 0..n-1, all explored."""
        if n == 1:
            return 0
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
            self.pos += 1
            return d
        for k in range(n - 1, 0, -1):
            self.work.append(self.decisions + [k])
        self.decisions.append(0)
        self.pos += 1
        return 0

    def nonzero(self, y):
        k = y.get_id()
        if k in self.nz_seen:
            return
        z = y == 0
        if self.branch(z):
            self.zero_division()
        self.nz_seen.add(k)
        self.keep.append(y)

    npwarn = False          # inside warnings.catch_warnings with filterwarnings('error'): numpy's warnings are exceptions

    def zero_division(self):
        if self.npwarn:
            raise PyRaise('RuntimeWarning', ('divide by zero',))
        raise PyRaise('ZeroDivisionError', ('division by zero',))

    def concretize(self, s):
        raise Unsupported('symbolic value used where a concrete index is needed: %r' % s)

    # ---------------- obligations
    def prove(self, label, c, detail='', quiet=False):
        from .solve import decide
        c = S.truth(c)
        if c is True:
            status, model = 'simplify', None
        else:
            e = z3.BoolVal(False) if c is False else c.e
            t = time.time()
            status, model = decide(self, e, self.PROVE_MS, quiet)
            self.stats['solver_s'] += time.time() - t
        ok = status not in ('sat', 'unknown')
        if quiet:
            return ok
        self.cur_log.setdefault(label, []).append(status if ok else 'FAIL')
        if not ok:
            md = None
            if model is not None:
                md = {}
                for k, s in self.inputs.items():
                    try:
                        md[k] = model_val(model, s.e)
                    except Exception as ex:     # algebraic numbers and the like
                        md[k] = repr(ex)
            if status == 'sat' and self.soft_uf:
                status = 'incomplete'       # log/exp are only partly axiomatised: the model may be spurious
            if status == 'sat' and self.cutpath:
                # behind a cut loop the state is only known through the invariants that survived: no refutation
                status = 'incomplete'
            self.cur_fails.append(Failure(self.unit, label, status, md, list(self.decisions), detail))
        else:
            # a proved fact may be used on the rest of the path
            if c is not True:
                self.assume(c)
        if not ok and c is False:
            raise PathEnd()
        return ok

    def cover(self, label='cover'):
        """Vacuity guard: this point must be reachable."""
        self.ghost.setdefault('cover', set()).add(label)

    # ---------------- modules / imports
    def load(self, rel):
        """rel: path below src/skmultiflow, e.g. 'drift_detection/ddm.py'"""
        name = 'skmultiflow.' + os.path.splitext(rel)[0].replace('/', '.')
        if name.endswith('.__init__'):
            name = name[:-9]
        if rel == '__init__.py':
            name = 'skmultiflow'
        if name not in self.modules:
            p = os.path.join(SRC, rel)
            self.modules[name] = Module(self, name, p, rel, self.overrides.get(rel))
        return self.modules[name]

    def find_module(self, name):
        if not (name == 'skmultiflow' or name.startswith('skmultiflow.')):
            return None
        if name in self.modules:
            return self.modules[name]
        rel = '/'.join(name.split('.')[1:])
        for cand in (rel + '.py', rel + '.pyx', (rel + '/' if rel else '') + '__init__.py'):
            if os.path.exists(os.path.join(SRC, cand)):
                return self.load(cand)
        return None

    def import_module(self, name):
        m = self.find_module(name)
        return ModRef(m) if m else Ext(name)

    def import_from(self, modname, attr):
        m = self.find_module(modname)
        if m is None:
            if modname.startswith('skmultiflow'):
                return Poison('cannot import %s' % modname)
            return self.ext_value(Ext(modname + '.' + attr))
        if m.has(attr):
            return m.get(attr)
        sub = self.find_module(modname + '.' + attr)
        if sub:
            return ModRef(sub)
        return Poison('cannot import %s from %s' % (attr, modname))

    def cls(self, rel, name):
        return self.load(rel).get(name)

    def in_module_eval(self, module, node):
        env = Env({}, None)
        env.module = module
        return self.eval(node, env)

    def eval_in(self, module, node, vars):
        env = Env(vars, None)
        env.module = module
        return self.eval(node, env)

    # ---------------- objects
    def born(self, o):
        self.serial += 1
        self.births[id(o)] = self.serial
        self.keep.append(o)
        if isinstance(o, Obj):
            o.serial = self.serial
        return o

    def birth(self, o):
        if isinstance(o, np.ndarray):
            while o.base is not None and isinstance(o.base, np.ndarray):
                o = o.base
        return self.births.get(id(o), 0), o

    def make(self, cls, fields):
        """An object in an arbitrary state, for a unit's precondition."""
        return self.born(Obj(cls, fields))

    def new(self, cls, *args, **kw):
        return self.call(cls, list(args), kw)

    def method(self, obj, name, *args, **kw):
        """Called by specifications only.  A unit about a method that no longer exists decides nothing."""
        if isinstance(obj, Obj):
            try:
                self.getattr(obj, name)
            except PyRaise as e:
                if e.name == 'AttributeError':
                    raise Unsupported('no method %s' % name)
                raise
        return self.call(self.getattr(obj, name), list(args), kw)

    def contract(self, rel, cls, name, fn):
        """Use fn as the contract of a method at its call sites; a unit about a method that no longer exists decides nothing."""
        c = self.cls(rel, cls)
        f = c.lookup(name)
        if f is None:
            raise Unsupported('no method %s.%s' % (cls, name))
        f = getattr(f, 'fn', f)
        self.contracts[getattr(f, 'qual', '%s:%s.%s' % (rel, cls, name))] = fn

    # ---------------- loop write logging
    def shape(self, v):
        v = conc(v)
        if isinstance(v, Sym):
            return v.kind
        if v is None:
            return 'none'
        if isinstance(v, bool):
            return 'bool'
        if isinstance(v, int):
            return 'int'
        if isinstance(v, float):
            return 'inf' if v in (S.INF, -S.INF) else 'real'
        if isinstance(v, str):
            return ('str', v)
        if isinstance(v, np.ndarray):
            return ('arr', v.shape)
        if isinstance(v, tuple):
            return ('tuple', tuple(self.shape(x) for x in v))
        if isinstance(v, Opaque) or getattr(v, 'pv_transient', False):
            return ('transient', type(v).__name__)
        return ('ref', type(v).__name__, id(v) if not isinstance(v, (list, dict)) else 0)

    def log_write(self, loc_env, loc_name, obj, fld, v):
        for L in self.loopstack:
            if loc_env is not None:
                if L['env'] is not loc_env:
                    continue
                loc = ('local', loc_name)
            else:
                b, _ = self.birth(obj)
                if b > L['mark']:
                    continue
                loc = ('field', b, fld)
            mods = L['info'].mods.setdefault(loc, set())
            sh = self.shape(v)
            if sh not in mods:
                mods.add(sh)
                raise Restart()

    def log_mut(self, cont, what='mut', v=None):
        for L in self.loopstack:
            b, base = self.birth(cont)
            if b > L['mark']:
                continue
            loc = ('cont', b)
            mods = L['info'].mods.setdefault(loc, set())
            sh = (what, self.shape(v) if v is not None and not isinstance(v, (list, dict, np.ndarray)) else None)
            if sh not in mods:
                mods.add(sh)
                raise Restart()

    # ---------------- attribute access
    def getattr(self, o, name):
        if isinstance(o, Obj):
            if name in o.fields:
                return o.fields[name]
            f = o.cls.lookup(name) if isinstance(o.cls, ClassVal) else None
            if f is not None:
                return self._bind(o, o.cls, f)
            h = self.hooks.get('getattr')
            if h:
                return h(self, o, name)
            if name == '__class__':
                return o.cls
            if name == '__dict__':
                return o.fields
            if isinstance(o.cls, Ext) or not isinstance(o.cls, ClassVal):
                from .ext import ext_getattr
                return ext_getattr(self, o, name)
            g = o.cls.lookup('__getattr__')
            if g:
                return self.call(Bound(o, g), [name], {})
            if any(isinstance(b, Ext) and b.path not in ('abc.ABC', 'object') for c in o.cls.mro() for b in c.bases):
                raise Unsupported('attribute %s of %s may come from an external base' % (name, o.cls.name))
            raise PyRaise('AttributeError', ("'%s' object has no attribute '%s'" % (o.cls.name, name),))
        if isinstance(o, Super):
            mro = o.obj.cls.mro() if isinstance(o.obj, Obj) else o.obj.mro()
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if name in c.dict:
                    return self._bind(o.obj, c, c.dict[name])
            if name in ('__init__', '__init_subclass__'):
                return lambda *a, **k: None
            raise Unsupported('super().%s' % name)
        if isinstance(o, ClassVal):
            f = o.lookup(name)
            if f is None:
                if name == '__name__':
                    return o.name
                raise PyRaise('AttributeError', (name,))
            if isinstance(f, FuncVal) and 'classmethod' in f.decos:
                return Bound(o, f)
            if isinstance(f, Poison):
                raise Unsupported(f.why)
            return f
        if isinstance(o, ModRef):
            if o.module.has(name):
                return o.module.get(name)
            sub = self.find_module(o.module.name + '.' + name)
            if sub:
                return ModRef(sub)
            raise Unsupported('module attribute %s.%s' % (o.module.name, name))
        if isinstance(o, Ext):
            return self.ext_value(Ext(o.path + '.' + name))
        if isinstance(o, (Bound, FuncVal)) and name == '__name__':
            return o.func.name if isinstance(o, Bound) else o.name
        from .ext import native_getattr
        return native_getattr(self, o, name)

    def _bind(self, o, cls, f):
        if isinstance(f, FuncVal):
            if 'property' in f.decos or any(d.endswith('abstractproperty') for d in f.decos):
                return self.call(Bound(o, f), [], {})
            if 'staticmethod' in f.decos:
                return f
            if 'classmethod' in f.decos:
                return Bound(o.cls if isinstance(o, Obj) else o, f)
            return Bound(o, f)
        if isinstance(f, Poison):
            raise Unsupported(f.why)
        return f

    def ext_value(self, e):
        from .ext import CONSTS
        if e.path in CONSTS:
            return CONSTS[e.path]
        return e

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            st = o.cls.lookup('__set__' + name) if isinstance(o.cls, ClassVal) else None
            if st is not None:
                return self.call(Bound(o, st), [v], {})
            self.log_write(None, None, o, name, v)
            o.fields[name] = v
            h = self.hooks.get('setattr')
            if h:
                h(self, o, name, v)
            return
        h = getattr(o, 'pv_setattr', None)
        if h:
            return h(self, name, v)
        raise Unsupported('setattr on %r' % (o,))

    # ---------------- calls
    def call(self, f, args, kw):
        if isinstance(f, Bound):
            fn = f.func
            if isinstance(fn, FuncVal):
                c = self.contracts.get(fn.qual) or self.contracts.get('*.' + fn.name)
                if c is not None:
                    self.assumed.add('contract:' + fn.qual)
                    r = c(self, f.obj, args, kw)
                    if r is not NotImplemented:
                        return r        # (an inductive contract declines the call under proof)
                return self.call_func(fn, [f.obj] + list(args), kw)
            return self.call(fn, [f.obj] + list(args), kw)
        if isinstance(f, FuncVal):
            c = self.contracts.get(f.qual)
            if c is not None:
                self.assumed.add('contract:' + f.qual)
                r = c(self, None, args, kw)
                if r is not NotImplemented:
                    return r
            return self.call_func(f, args, kw)
        if isinstance(f, ClassVal):
            c = self.contracts.get('%s:%s' % (f.module.rel, f.name))
            if c is not None:
                self.assumed.add('contract:%s:%s' % (f.module.rel, f.name))
                return c(self, None, args, kw)
            if any(b.name in EXC for b in f.mro()) or any(isinstance(b, Ext) and b.path.split('.')[-1] in EXC for c in f.mro() for b in c.bases):
                return ('exc', f.name, args)
            o = self.born(Obj(f))
            init = f.lookup('__init__')
            if init is not None:
                self.call(Bound(o, init), args, kw)
            elif args or kw:
                raise Unsupported('constructor arguments without __init__')
            return o
        if isinstance(f, Ext):
            from .ext import ext_call
            return ext_call(self, f, args, kw)
        if isinstance(f, Poison):
            raise Unsupported(f.why)
        if isinstance(f, Obj):
            c = f.cls.lookup('__call__') if isinstance(f.cls, ClassVal) else None
            if c:
                return self.call(Bound(f, c), args, kw)
        if callable(f):
            from .ext import native_call
            return native_call(self, f, args, kw)
        if isinstance(f, Obj) or f is None or isinstance(f, (int, float, str, list, dict, tuple)):
            raise PyRaise('TypeError', ('not callable',))
        raise Unsupported('call of %r' % (f,))

    def call_func(self, fn, args, kw):
        node = fn.node
        if self.depth > 60:
            raise Unsupported('recursion too deep in ' + fn.qual)
        env = Env({}, fn.env, fn)
        env.module = fn.module
        self.bind_args(node.args, args, kw, env, fn)
        if isinstance(node, ast.Lambda):
            return self.eval(node.body, env)
        bad = [d for d in fn.decos if d not in ('staticmethod', 'classmethod', 'property', 'abstractmethod', 'abc.abstractmethod')
               and not d.endswith('.setter') and not d.endswith('.getter') and not d.endswith('.deleter') and not d.startswith('deprecated')]
        if bad:
            raise Unsupported('decorator %s' % bad)
        gen = getattr(node, 'pv_gen', None)
        if gen is None:
            gen = node.pv_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in _own_nodes(node))
        if gen:
            return self.generator(fn, env)
        self.functions.add(fn.qual)
        self.depth += 1
        stack = self.loopstack
        try:
            self.exec_body(node.body, env)
        except ReturnEx as r:
            return r.v
        finally:
            self.depth -= 1
        return None

    def generator(self, fn, env):
        """Generators are run eagerly to a list (sound only when side-effect free; refused otherwise)."""
        self.functions.add(fn.qual)
        env.yields = self.born([])
        self.depth += 1
        try:
            self.exec_body(fn.node.body, env)
        except ReturnEx:
            pass
        finally:
            self.depth -= 1
        return env.yields

    def bind_args(self, a, args, kw, env, fn):
        names = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        kw = dict(kw)
        n = len(names)
        vals = {}
        for i, v in enumerate(args[:n]):
            vals[names[i]] = v
        extra = args[n:]
        if a.vararg:
            vals[a.vararg.arg] = tuple(extra)
        elif extra:
            raise PyRaise('TypeError', ('too many arguments for %s' % fn.name,))
        for k in list(kw):
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                if k in vals:
                    raise PyRaise('TypeError', ('multiple values for ' + k,))
                vals[k] = kw.pop(k)
        if a.kwarg:
            vals[a.kwarg.arg] = kw
        elif kw:
            raise PyRaise('TypeError', ('unexpected keyword %s' % list(kw),))
        denv = Env({}, fn.env)
        denv.module = fn.module
        if fn.cls is not None:
            denv.vars = {}
        for nm, d in zip(names[n - len(a.defaults):], a.defaults):
            if nm not in vals:
                vals[nm] = self.eval(d, denv)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in vals:
                if d is None:
                    raise PyRaise('TypeError', ('missing ' + x.arg,))
                vals[x.arg] = self.eval(d, denv)
        for nm in names:
            if nm not in vals:
                raise PyRaise('TypeError', ('missing argument %s of %s' % (nm, fn.name),))
        env.vars.update(vals)

    # ---------------- statements
    def exec_body(self, body, env):
        for st in body:
            self.exec(st, env)

    def exec(self, st, env):
        m = getattr(self, 'x_' + type(st).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(st).__name__)
        return m(st, env)

    def x_Expr(self, st, env):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value, env)

    def x_Pass(self, st, env):
        pass

    def x_Global(self, st, env):
        raise Unsupported('global')

    def x_Nonlocal(self, st, env):
        env.nonlocals = getattr(env, 'nonlocals', set()) | set(st.names)

    def x_Import(self, st, env):
        for a in st.names:
            env.vars[a.asname or a.name.split('.')[0]] = self.import_module(a.name)

    def x_ImportFrom(self, st, env):
        mod = env_module(env)._absmod(st)
        for a in st.names:
            env.vars[a.asname or a.name] = self.import_from(mod, a.name)

    def x_FunctionDef(self, st, env):
        env.vars[st.name] = FuncVal(st, env_module(env), None, env, [_deco(x) for x in st.decorator_list])

    def x_Return(self, st, env):
        raise ReturnEx(self.eval(st.value, env) if st.value is not None else None)

    def x_Break(self, st, env):
        raise BreakEx()

    def x_Continue(self, st, env):
        raise ContinueEx()

    def x_Assert(self, st, env):
        if not self.truth(self.eval(st.test, env)):
            raise PyRaise('AssertionError', ())

    def x_If(self, st, env):
        if self.truth(self.eval(st.test, env)):
            self.exec_body(st.body, env)
        else:
            self.exec_body(st.orelse, env)

    def x_Assign(self, st, env):
        v = self.eval(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, env), env)

    def x_AugAssign(self, st, env):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, env)
            v = self.eval(st.value, env)
            if isinstance(cur, list) and isinstance(st.op, ast.Add):
                self.log_mut(cur)
                cur.extend(list(self.iterate(v)))
                return
            if isinstance(cur, np.ndarray):
                r = self.binop(st.op, cur, v)
                self.log_mut(cur)
                cur[...] = r
                return
            self.assign(t, self.binop(st.op, cur, v), env)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            cur = self.getattr(o, t.attr)
            v = self.eval(st.value, env)
            if isinstance(cur, list) and isinstance(st.op, ast.Add):
                self.log_mut(cur)
                cur.extend(list(self.iterate(v)))
                return
            if isinstance(cur, np.ndarray) and cur.ndim:
                r = self.binop(st.op, cur, v)
                self.log_mut(cur)
                cur[...] = r
                self.setattr(o, t.attr, cur)
                return
            self.setattr(o, t.attr, self.binop(st.op, cur, v))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            k = self.eval_index(t.slice, env)
            cur = self.getitem(o, k)
            v = self.eval(st.value, env)
            self.setitem(o, k, self.binop(st.op, cur, v))
        else:
            raise Unsupported('augassign target')

    def x_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Subscript):
                o = self.eval(t.value, env)
                self.delitem(o, self.eval_index(t.slice, env))
            elif isinstance(t, ast.Name):
                if t.id in env.vars:
                    del env.vars[t.id]
                else:
                    raise PyRaise('NameError', (t.id,))
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, env)
                if isinstance(o, Obj) and t.attr in o.fields:
                    if self.loopstack:
                        raise Unsupported('del attribute in loop')
                    del o.fields[t.attr]
                elif isinstance(o, Obj) and isinstance(o.cls, ClassVal) and o.cls.lookup('__del__' + t.attr):
                    self.call(Bound(o, o.cls.lookup('__del__' + t.attr)), [], {})
                else:
                    raise PyRaise('AttributeError', (t.attr,))
            else:
                raise Unsupported('del')

    def x_Raise(self, st, env):
        if st.exc is None:
            cur = getattr(env, 'handling', None)
            if cur is not None:
                raise cur
            raise Unsupported('bare raise')
        v = self.eval(st.exc, env)
        if isinstance(v, tuple) and len(v) == 3 and v[0] == 'exc':
            raise PyRaise(v[1], v[2])
        if isinstance(v, type) and issubclass(v, BaseException):
            raise PyRaise(v.__name__, ())
        if isinstance(v, BaseException):
            raise PyRaise(type(v).__name__, v.args)
        if isinstance(v, ClassVal):
            raise PyRaise(v.name, ())
        if isinstance(v, Ext):
            raise PyRaise(v.path.split('.')[-1], ())
        if isinstance(v, PyRaise):
            raise v
        raise Unsupported('raise %r' % (v,))

    def _exc_match(self, e, t, env):
        if t is None:
            return True
        v = self.eval(t, env)
        ts = v if isinstance(v, tuple) and not (v and v[0] == 'exc') else (v,)
        for x in ts:
            if isinstance(x, type) and issubclass(x, BaseException):
                c = EXC.get(e.name)
                if c is None:
                    if x in (Exception, BaseException):
                        return True
                elif issubclass(c, x):
                    return True
            elif isinstance(x, Ext) and x.path.split('.')[-1] == e.name:
                return True
            elif isinstance(x, ClassVal) and x.name == e.name:
                return True
        return False

    def x_Try(self, st, env):
        try:
            try:
                self.exec_body(st.body, env)
            except PyRaise as e:
                for h in st.handlers:
                    if self._exc_match(e, h.type, env):
                        if h.name:
                            env.vars[h.name] = e
                        old = getattr(env, 'handling', None)
                        env.handling = e
                        try:
                            self.exec_body(h.body, env)
                        finally:
                            env.handling = old
                        break
                else:
                    raise
            else:
                self.exec_body(st.orelse, env)
        except (Restart, PathEnd, Unsupported):
            raise
        except BaseException:
            self.exec_body(st.finalbody, env)
            raise
        else:
            self.exec_body(st.finalbody, env)

    def x_With(self, st, env):
        for it in st.items:
            v = self.eval(it.context_expr, env)
            if hasattr(v, 'pv_exit'):
                try:
                    return self.exec_body(st.body, env)
                finally:
                    v.pv_exit(self)
            h = self.hooks.get('with')
            if h is None:
                raise Unsupported('with')
            r = h(self, v)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, r, env)
        self.exec_body(st.body, env)

    # ---------------- loops
    def x_While(self, st, env):
        key = (env_module(env).rel, st.lineno, st.col_offset, 'w')
        info = self.loopinfo.setdefault(key, LoopInfo())
        if not info.cut or self.unroll_forks:
            it = 0
            forked = 0
            while True:
                p0 = self.pos
                t = self.eval(st.test, env)
                t = S.truth(t) if isinstance(t, Sym) else self.truth(t)
                if isinstance(t, Sym):
                    # decided by the path condition?
                    if not self.feasible(t.e):
                        t = False
                    elif not self.feasible(z3.Not(t.e)):
                        t = True
                    elif forked < self.unroll_forks:
                        t = self.truth(t)
                    elif self.unroll_forks:
                        raise Unsupported('loop not unrolled within %d forks' % self.unroll_forks)
                    else:
                        info.cut = True
                        raise Restart()
                if not t:
                    self.exec_body(st.orelse, env)
                    return
                it += 1
                if it > 200 or (forked > self.unroll_forks and it > 2):
                    info.cut = True
                    raise Restart()
                try:
                    self.exec_body(st.body, env)
                except BreakEx:
                    return
                except ContinueEx:
                    pass
                if self.pos != p0:
                    forked += 1
        # ---- cut
        self.stats['loops'] += 1
        if not self.truth(self.eval(st.test, env)):
            self.exec_body(st.orelse, env)
            return
        L = self.loop_begin(key, info, env, None, None)
        try:
            if self.classic_loops and self.choose(2):
                # leave through the invariant instead of through the last iteration
                if self.truth(self.eval(st.test, env)):
                    raise PathEnd()
                self.loop_leave(L)
                self.exec_body(st.orelse, env)
                return
            if not self.truth(self.eval(st.test, env)):
                raise PathEnd()
            try:
                self.exec_body(st.body, env)
            except BreakEx:
                self.loop_leave(L)
                return
            except ContinueEx:
                pass
            self.loop_check(L, None)
            again = self.classic_loops or self.truth(self.eval(st.test, env))
        finally:
            self.loop_leave(L)
        if again:
            raise PathEnd()
        self.exec_body(st.orelse, env)

    def x_For(self, st, env):
        itv = self.eval(st.iter, env)
        n, elem = self.sym_iter(itv)
        if n is None:
            i = 0
            broke = False
            seq = self.iterate(itv)
            while True:
                if isinstance(itv, list):      # live view of a mutable list
                    if i >= len(itv):
                        break
                    x = itv[i]
                else:
                    if i >= len(seq):
                        break
                    x = seq[i]
                i += 1
                if i > 3000:
                    raise Unsupported('loop too long to unroll')
                self.assign(st.target, x, env)
                try:
                    self.exec_body(st.body, env)
                except BreakEx:
                    broke = True
                    break
                except ContinueEx:
                    continue
            if not broke:
                self.exec_body(st.orelse, env)
            return
        # symbolic trip count n, element function elem(i)
        key = (env_module(env).rel, st.lineno, st.col_offset, 'f')
        info = self.loopinfo.setdefault(key, LoopInfo())
        info.cut = True
        self.stats['loops'] += 1
        if not self.truth(n > 0):
            self.exec_body(st.orelse, env)
            return
        L = self.loop_begin(key, info, env, n, itv)
        i = L['i']
        try:
            self.assign(st.target, elem(i), env)
            try:
                self.exec_body(st.body, env)
            except BreakEx:
                self.loop_leave(L)
                return
            except ContinueEx:
                pass
            self.loop_check(L, i + 1)
            again = self.truth(i + 1 < n)
        finally:
            self.loop_leave(L)
        if again:
            raise PathEnd()
        self.exec_body(st.orelse, env)

    # a loop record: env, info, mark (objects born before), entry snapshot, i
    def loop_begin(self, key, info, env, n, itv):
        for loc, shapes in list(info.mods.items()):
            if loc[0] == 'cont' and any(isinstance(s, tuple) and s[0] in ('append', 'pop', 'extend', 'del') for s in shapes):
                v = self.loc_get(loc, env)
                if isinstance(v, list):
                    from .symseq import promote
                    promote(self, v, env, shapes)
        entry = self.snapshot(info, env)
        L = dict(env=env, info=info, mark=self.serial, entry=entry, i=None, n=n, key=key, iter=itv)
        L['idx'] = 0 if n is not None else None
        self.houdini(L, 'loop-entry')
        self.havoc(info, env)
        self.cutpath = True
        if n is not None:
            i = self.fresh('i', 'int')
            self.assume(i >= 0)
            self.assume(i < n)
            L['i'] = i
            L['idx'] = i
        for nm, fn, mand in self.loop_cands(L):
            if nm in info.dropped:
                continue
            c = self._cand(fn, L)
            if c is None:
                info.dropped.add(nm)
                raise Restart()
            self.assume(c)
        h = self.hooks.get('loop_assume')
        if h:
            h(self, L)
        self.loopstack.append(L)
        return L

    def loop_leave(self, L):
        if L in self.loopstack:
            self.loopstack.remove(L)

    def loop_check(self, L, idx):
        L['idx'] = idx
        for _ in range(self.houdini(L, 'loop-preserved')):
            self.cur_log.setdefault('loop-invariant', []).append('z3')

    def houdini(self, L, what):
        """prove the candidate invariants that are left; the ones that fail are dropped (all at once) and the proof starts over"""
        dropped = L['info'].dropped
        todo = []
        bad = False
        for nm, fn, mand in self.loop_cands(L):
            if nm in dropped:
                continue
            c = self._cand(fn, L)
            if c is None:
                dropped.add(nm)
                bad = True
            else:
                todo.append((nm, c, mand))
        if bad:
            raise Restart()
        soft = []
        for nm, c, mand in todo:
            if mand:
                self.prove('%s:%s' % (what, nm), c)
            else:
                c = S.truth(c)
                if c is False:
                    dropped.add(nm)
                    bad = True
                elif c is not True:
                    soft.append((nm, c))
        if bad:
            raise Restart()
        if not soft or (len(soft) > 1 and self.quick(z3.And(*[c.e for _, c in soft])) == z3.unsat):
            return len(todo)
        for nm, c in soft:
            if not self.prove('', c, quiet=True):
                dropped.add(nm)
                bad = True
        if bad:
            raise Restart()
        return len(todo)

    def quick(self, e):
        """is e implied by the path condition? one incremental query"""
        s = self._solver()
        s.push()
        s.add(z3.Not(e))
        r = s.check()
        s.pop()
        self.stats['checks'] += 1
        return r

    def _cand(self, fn, L):
        try:
            return fn()
        except (PyRaise, Unsupported, TypeError, AttributeError, KeyError):
            return None

    def loc_get(self, loc, env):
        if loc[0] == 'local':
            return env.vars.get(loc[1], Poison('unbound'))
        for o in self.keep:
            if self.births.get(id(o)) == loc[1]:
                if loc[0] == 'field':
                    return o.fields.get(loc[2], Poison('unset'))
                return o
        return Poison('gone')

    def snapshot(self, info, env):
        out = {}
        for loc in info.mods:
            v = self.loc_get(loc, env)
            if loc[0] == 'cont':
                c = getattr(v, 'pv_copy', None)
                v = c() if c else (v.copy() if hasattr(v, 'copy') else v)
            out[loc] = v
        return out

    def loop_cands(self, L):
        """Candidate invariants: (name, thunk, mandatory)."""
        out = []
        for loc in sorted(L['info'].mods, key=str):
            e = L['entry'].get(loc)
            if loc[0] == 'cont' or kind(e) not in ('int', 'real'):
                continue
            def cur(loc=loc):
                v = self.loc_get(loc, L['env'])
                if isinstance(v, Poison):
                    raise Unsupported('unbound')
                return v
            nm = str(loc)
            if L['n'] is not None:
                for c in (1, -1):
                    out.append(('%s=entry%+d*i' % (nm, c), lambda cur=cur, e=e, c=c: S.eq(cur(), e + c * L['idx']), False))
            out.append((nm + '>=entry', lambda cur=cur, e=e: cur() >= e, False))
            out.append((nm + '<=entry', lambda cur=cur, e=e: cur() <= e, False))
            out.append((nm + '>=0', lambda cur=cur: cur() >= 0, False))
        bools = [loc for loc in sorted(L['info'].mods, key=str) if loc[0] != 'cont' and kind(L['entry'].get(loc)) == 'bool']
        if 0 < len(bools) <= 4:
            def same(loc):
                v = self.loc_get(loc, L['env'])
                if kind(v) != 'bool':
                    raise Unsupported('not a flag')
                return S.eq(v, L['entry'][loc])
            for a in bools:
                out.append(('%s=entry' % (a,), lambda a=a: same(a), False))
                for b in bools:
                    if a != b:
                        out.append(('%s or %s=entry' % (a, b), lambda a=a, b=b: S.or_(self.loc_get(a, L['env']), same(b)), False))
                        out.append(('not %s or %s=entry' % (a, b), lambda a=a, b=b: S.or_(S.not_(self.loc_get(a, L['env'])), same(b)), False))
        for h in self.hooks.get('cands', []):
            out += h(self, L)
        return out

    def havoc(self, info, env):
        for loc, shapes in sorted(info.mods.items(), key=lambda x: str(x[0])):
            v = self.loc_get(loc, env)
            if loc[0] == 'local':
                if isinstance(v, Poison):
                    env.vars[loc[1]] = Poison('defined in a previous iteration only')
                    continue
                env.vars[loc[1]] = self.havoc_value(loc, v, shapes | {self.shape(v)})
            elif loc[0] == 'field':
                if isinstance(v, Poison):
                    continue
                o = self._obj(loc[1])
                if o is None:
                    continue
                o.fields[loc[2]] = self.havoc_value(loc, v, shapes | {self.shape(v)})
            else:
                if isinstance(v, Poison):
                    continue
                self.havoc_container(loc, v, shapes)

    def _obj(self, serial):
        for o in self.keep:
            if self.births.get(id(o)) == serial:
                return o
        return None

    def havoc_value(self, loc, v, shapes):
        h = self.hooks.get('havoc')
        if h:
            r = h(self, loc, v, shapes)
            if r is not NotImplemented:
                return r
        shapes = set(shapes)
        if any(isinstance(s, tuple) and s[0] == 'transient' for s in shapes):
            return Poison('value of an earlier iteration')
        variants = []
        nums = shapes & {'bool', 'int', 'real'}
        base = '%s' % (loc[-1],)
        if nums:
            k = 'real' if 'real' in nums else 'int' if 'int' in nums else 'bool'
            variants.append(lambda: self.fresh('h_' + base, k))
        for s in sorted(shapes - nums, key=str):
            if s == 'none':
                variants.append(lambda: None)
            elif s == 'inf':
                variants.append(lambda: S.INF)
            elif isinstance(s, tuple) and s[0] == 'str':
                variants.append(lambda s=s: s[1])
            elif isinstance(s, tuple) and s[0] == 'arr':
                def mkarr(s=s):
                    a = np.empty(s[1], dtype=object)
                    for ix in np.ndindex(*s[1]):
                        a[ix] = self.fresh('h_' + base, 'real')
                    return self.born(a)
                variants.append(mkarr)
            elif isinstance(s, tuple) and s[0] == 'ref' and self.shape(v) == s and len(shapes) == 1:
                variants.append(lambda: v)
            else:
                return Poison('cannot havoc %s of shape %s' % (loc, s))
        return variants[self.choose(len(variants))]()

    def havoc_container(self, loc, v, shapes):
        h = self.hooks.get('havoc_container')
        if h:
            r = h(self, loc, v, shapes)
            if r is not NotImplemented:
                return
        f = getattr(v, 'pv_havoc', None)
        if f:
            return f(self, shapes)
        if isinstance(v, np.ndarray):
            for ix in np.ndindex(*v.shape):
                v[ix] = self.fresh('h_arr', 'real')
            return
        raise Unsupported('container %s mutated in a symbolic loop' % type(v).__name__)

    # ---------------- iteration
    def sym_iter(self, v):
        """(n, elem) if v has a symbolic number of elements, else (None, None)."""
        if isinstance(v, SymRange):
            n = v.hi - v.lo
            return n, (lambda i: v.lo + i)
        f = getattr(v, 'pv_symiter', None)
        if f:
            return f(self)
        return None, None

    def iterate(self, v):
        if isinstance(v, (list, tuple)):
            return list(v)
        if isinstance(v, dict):
            return [k.s if isinstance(k, SKey) else k for k in v]
        if isinstance(v, (range, set, frozenset, str)):
            return list(v) if not isinstance(v, (set, frozenset)) else sorted(v, key=str)
        if isinstance(v, np.ndarray):
            return [v[i] for i in range(v.shape[0])]
        if isinstance(v, (type({}.keys()), type({}.values()), type({}.items()), zip, enumerate, map, reversed, filter)):
            out = list(v)
            if isinstance(v, type({}.keys())):
                return [k.s if isinstance(k, SKey) else k for k in out]
            if isinstance(v, type({}.items())):
                return [((k.s if isinstance(k, SKey) else k), x) for k, x in out]
            return out
        if isinstance(v, Obj) and isinstance(v.cls, ClassVal) and v.cls.lookup('__iter__'):
            return self.iterate(self.method(v, '__iter__'))
        f = getattr(v, 'pv_iterate', None)
        if f:
            return f(self)
        if v is None or isinstance(v, (int, float, bool)):
            raise PyRaise('TypeError', ('not iterable',))
        raise Unsupported('iteration over %r' % (type(v),))

    # ---------------- expressions
    def truth(self, v):
        if isinstance(v, Sym):
            return bool(v)
        if isinstance(v, np.ndarray):
            if v.size == 1:
                return self.truth(v.reshape(-1)[0])
            if v.size == 0:
                return False
            raise PyRaise('ValueError', ('truth value of an array',))
        if isinstance(v, (Obj, ClassVal, FuncVal, Bound, Ext)):
            if isinstance(v, Obj) and isinstance(v.cls, ClassVal):
                if v.cls.lookup('__bool__') or v.cls.lookup('__len__'):
                    raise Unsupported('__bool__/__len__ truthiness')
            return True
        if isinstance(v, Opaque):
            raise Unsupported('truth of opaque value')
        f = getattr(v, 'pv_truth', None)
        if f:
            return self.truth(f(self))
        return bool(v)

    def eval(self, n, env):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(n).__name__)
        return m(n, env)

    def e_Constant(self, n, env):
        return n.value

    def e_Name(self, n, env):
        return self.lookup(n.id, env)

    def lookup(self, name, env):
        e = env
        while e is not None:
            if name in e.vars:
                v = e.vars[name]
                if isinstance(v, Poison):
                    raise Unsupported('%s: %s' % (name, v.why))
                return v
            e = e.parent
        m = env_module(env)
        if m is not None and m.has(name):
            v = m.get(name)
            if isinstance(v, Poison):
                raise Unsupported(v.why)
            return v
        from .ext import BUILTINS
        if name in BUILTINS:
            return BUILTINS[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        if env.func is not None and name in _assigned(env.func.node):
            raise PyRaise('UnboundLocalError', (name,))
        raise PyRaise('NameError', (name,))

    def e_NamedExpr(self, n, env):
        v = self.eval(n.value, env)
        self.assign(n.target, v, env)
        return v

    def e_JoinedStr(self, n, env):
        return Opaque('fstring')

    def e_Tuple(self, n, env):
        return tuple(self.eval_list(n.elts, env))

    def e_List(self, n, env):
        return self.born(self.eval_list(n.elts, env))

    def eval_list(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.eval(x.value, env)))
            else:
                out.append(self.eval(x, env))
        return out

    def e_Set(self, n, env):
        vals = [self.eval(x, env) for x in n.elts]
        if any(isinstance(v, Sym) for v in vals):
            raise Unsupported('symbolic set')
        return set(vals)

    def e_Dict(self, n, env):
        d = self.born({})
        for k, v in zip(n.keys, n.values):
            if k is None:
                src = self.eval(v, env)
                d.update(src)
            else:
                kk = self.eval(k, env)
                self.setitem(d, kk, self.eval(v, env))
        return d

    def e_Lambda(self, n, env):
        return FuncVal(n, env_module(env), None, env)

    def e_IfExp(self, n, env):
        if self.truth(self.eval(n.test, env)):
            return self.eval(n.body, env)
        return self.eval(n.orelse, env)

    def e_BoolOp(self, n, env):
        isand = isinstance(n.op, ast.And)
        v = None
        for i, x in enumerate(n.values):
            v = self.eval(x, env)
            if i == len(n.values) - 1:
                return v
            t = self.truth(v)
            if isand and not t:
                return v if not isinstance(v, Sym) else (False if v.kind == 'bool' else v)
            if not isand and t:
                return v if not isinstance(v, Sym) else (True if v.kind == 'bool' else v)
        return v

    def e_UnaryOp(self, n, env):
        v = self.eval(n.operand, env)
        if isinstance(n.op, ast.Not):
            if isinstance(v, Sym):
                return S.not_(v)
            return not self.truth(v)
        if isinstance(n.op, ast.USub):
            return -v
        if isinstance(n.op, ast.UAdd):
            return +v
        if isinstance(n.op, ast.Invert):
            return ~v
        raise Unsupported('unary')

    def e_BinOp(self, n, env):
        a = self.eval(n.left, env)
        b = self.eval(n.right, env)
        return self.binop(n.op, a, b)

    def binop(self, op, a, b):
        t = type(op).__name__
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque('op')
        if isinstance(a, str) and t in ('Mod', 'Add'):
            if isinstance(b, str) and t == 'Add':
                return a + b
            return Opaque('str')
        for x, y, r in ((a, b, False), (b, a, True)):
            f = getattr(x, 'pv_binop', None)
            if f:
                return f(self, t, y, r)
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            from .ext import arr_binop
            return arr_binop(self, t, a, b)
        a, b = conc(a), conc(b)
        if isinstance(a, Obj) or isinstance(b, Obj):
            nm = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__', 'Mod': '__mod__'}.get(t)
            if isinstance(a, Obj) and nm and a.cls.lookup(nm):
                return self.method(a, nm, b)
            raise Unsupported('operator on object')
        try:
            if t == 'Add':
                r = a + b
            elif t == 'Sub':
                r = a - b
            elif t == 'Mult':
                r = a * b
            elif t == 'Div':
                r = S.div(a, b) if not (S._isinf(a) or S._isinf(b)) else a / b
            elif t == 'FloorDiv':
                r = S.floordiv(a, b)
            elif t == 'Mod':
                r = S.mod(a, b)
            elif t == 'Pow':
                r = S.power(a, b)
            elif t == 'BitAnd':
                r = a & b
            elif t == 'BitOr':
                r = a | b
            elif t == 'BitXor':
                r = a ^ b
            elif t == 'LShift':
                r = self._shift(a, b)
            elif t == 'RShift':
                r = a >> b
            else:
                raise Unsupported('operator ' + t)
        except (TypeError, ValueError, ZeroDivisionError, OverflowError) as e:
            raise PyRaise(type(e).__name__, e.args)
        if isinstance(r, list):
            self.born(r)
        return r

    def _shift(self, a, b):
        if S.issym(a, b):
            if not S.issym(b):
                return a * (2 ** b)
            r = S.uf('pow2', S.I, S.I)(lift(b))
            self.axiom(r >= 1)
            return a * Sym(r)
        return a << b

    def e_Compare(self, n, env):
        left = self.eval(n.left, env)
        res = None
        for i, (op, rn) in enumerate(zip(n.ops, n.comparators)):
            right = self.eval(rn, env)
            r = self.compare(op, left, right)
            if len(n.ops) == 1:
                return r
            if res is None:
                res = r
            elif isinstance(res, np.ndarray) or isinstance(r, np.ndarray):
                raise Unsupported('chained array comparison')
            else:
                res = S.and_(res, r)
            if res is False:
                return False
            left = right
        return res

    def compare(self, op, a, b):
        t = type(op).__name__
        if t in ('Is', 'IsNot'):
            r = self.is_(a, b)
            return r if t == 'Is' else not r
        if t in ('In', 'NotIn'):
            r = self.contains(b, a)
            return r if t == 'In' else S.not_(r)
        for x, y, rev in ((a, b, False), (b, a, True)):
            f = getattr(x, 'pv_compare', None)
            if f:
                return f(self, t, y, rev)
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            from .ext import arr_compare
            return arr_compare(self, t, a, b)
        a, b = conc(a), conc(b)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupported('comparison of opaque value')
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and t in ('Eq', 'NotEq'):
            r = type(a) is type(b) and len(a) == len(b) and S.and_(*[self.compare(ast.Eq(), x, y) for x, y in zip(a, b)])
            return r if t == 'Eq' else S.not_(r)
        if isinstance(a, tuple) and isinstance(b, tuple) and t in ('Lt', 'LtE', 'Gt', 'GtE'):
            return self.lex(t, a, b)
        if isinstance(a, Obj) and isinstance(a.cls, ClassVal):
            nm = {'Lt': '__lt__', 'LtE': '__le__', 'Gt': '__gt__', 'GtE': '__ge__', 'Eq': '__eq__', 'NotEq': '__ne__'}[t]
            f = a.cls.lookup(nm)
            if f:
                return self.call(Bound(a, f), [b], {})
            if t in ('Eq', 'NotEq'):
                return (a is b) == (t == 'Eq')
        try:
            if t == 'Eq':
                return a == b
            if t == 'NotEq':
                return a != b
            if t == 'Lt':
                return a < b
            if t == 'LtE':
                return a <= b
            if t == 'Gt':
                return a > b
            if t == 'GtE':
                return a >= b
        except TypeError as e:
            raise PyRaise('TypeError', e.args)
        raise Unsupported('compare ' + t)

    def lex(self, t, a, b):
        for x, y in zip(a, b):
            if self.truth(self.compare(ast.NotEq(), x, y)):
                return self.compare(getattr(ast, t)(), x, y)
        return {'Lt': len(a) < len(b), 'LtE': len(a) <= len(b), 'Gt': len(a) > len(b), 'GtE': len(a) >= len(b)}[t]

    def is_(self, a, b):
        if a is None or b is None:
            return a is b
        if isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, Sym) or isinstance(b, Sym):
                return self.truth(S.eq(a, b)) if kind(a) == kind(b) == 'bool' else False
            return a is b
        if isinstance(a, Ext) and isinstance(b, Ext):
            return a.path == b.path
        if isinstance(a, (int, str, float)) and isinstance(b, (int, str, float)):
            return a == b
        return a is b

    def contains(self, c, x):
        f = getattr(c, 'pv_contains', None)
        if f:
            return f(self, x)
        if isinstance(c, dict):
            return self.dict_find(c, x) is not None
        if isinstance(c, (list, tuple, set, frozenset, range, np.ndarray)) or isinstance(c, (type({}.keys()), type({}.values()))):
            if isinstance(c, np.ndarray):
                c = list(c.reshape(-1))
            if isinstance(c, type({}.keys())):
                c = [k.s if isinstance(k, SKey) else k for k in c]
            if isinstance(x, Obj):
                return any(y is x for y in c)
            return S.or_(*[self.compare(ast.Eq(), x, y) for y in c]) if c else False
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(c, Obj) and isinstance(c.cls, ClassVal) and c.cls.lookup('__contains__'):
            return self.method(c, '__contains__', x)
        raise Unsupported('in %r' % (type(c),))

    def dict_find(self, d, x):
        """the native key equal to x on this path, or None (forks)."""
        if isinstance(x, Sym):
            for k in list(d):
                kk = k.s if isinstance(k, SKey) else k
                if isinstance(kk, (Sym, int, float, bool)) and self.truth(S.eq(x, kk)):
                    return (k,)
            return None
        x = conc(x)
        sk = [k for k in d if isinstance(k, SKey)]
        if sk and isinstance(x, (int, float, bool)):
            for k in sk:
                if self.truth(S.eq(k.s, x)):
                    return (k,)
        try:
            return (x,) if x in d else None
        except TypeError as e:
            raise PyRaise('TypeError', e.args)

    def e_Attribute(self, n, env):
        if n.attr.startswith('__') and not n.attr.endswith('__'):
            o = self.eval(n.value, env)
            e = env
            while e is not None and not (getattr(e, 'func', None) is not None and e.func.cls is not None):
                e = getattr(e, 'parent', None)
            c = e.func.cls if e is not None else None
            if isinstance(o, Obj) and n.attr not in o.fields and isinstance(c, ClassVal) and n.attr in c.dict:
                return self._bind(o, c, c.dict[n.attr])     # a private name belongs to the class it is written in
            return self.getattr(o, n.attr)
        return self.getattr(self.eval(n.value, env), n.attr)

    def eval_index(self, n, env):
        if isinstance(n, ast.Slice):
            g = lambda x: None if x is None else self.eval(x, env)
            return slice(g(n.lower), g(n.upper), g(n.step))
        if isinstance(n, ast.Tuple):
            return tuple(self.eval_index(x, env) for x in n.elts)
        return self.eval(n, env)

    def e_Subscript(self, n, env):
        o = self.eval(n.value, env)
        k = self.eval_index(n.slice, env)
        return self.getitem(o, k)

    def getitem(self, o, k):
        f = getattr(o, 'pv_getitem', None)
        if f:
            return f(self, k)
        if isinstance(o, dict):
            r = self.dict_find(o, k)
            if r is None:
                h = getattr(o, 'default_factory', None)
                if h is not None:
                    v = self.call(h, [], {})
                    self.setitem(o, k, v)
                    return v
                raise PyRaise('KeyError', (k,))
            return o[r[0]]
        if isinstance(o, (list, tuple, str)):
            if isinstance(k, Sym):
                if isinstance(o, str):
                    raise Unsupported('symbolic index into str')
                return o[self.pick_index(k, len(o))]
            if isinstance(k, slice):
                if S.issym(k.start, k.stop, k.step):
                    k = slice(*[self.pick_bound(x, len(o)) for x in (k.start, k.stop)], k.step)
                r = o[k]
                return self.born(r) if isinstance(r, list) else r
            try:
                return o[conc(k)]
            except (IndexError, TypeError) as e:
                raise PyRaise(type(e).__name__, e.args)
        if isinstance(o, np.ndarray):
            from .ext import arr_getitem
            return arr_getitem(self, o, k)
        if isinstance(o, Obj) and isinstance(o.cls, ClassVal) and o.cls.lookup('__getitem__'):
            return self.method(o, '__getitem__', k)
        if o is None or isinstance(o, (int, float, Sym)):
            raise PyRaise('TypeError', ('not subscriptable',))
        raise Unsupported('subscript of %r' % (type(o),))

    def pick_index(self, k, n):
        """fork over the concrete value of a symbolic index."""
        for i in range(n):
            if self.truth(S.or_(k == i, k == i - n)):
                return i
        raise PyRaise('IndexError', ('list index out of range',))

    def pick_bound(self, k, n):
        if not isinstance(k, Sym):
            return k
        if self.truth(k >= n):
            return n
        if self.truth(k <= -n):
            return 0
        for i in range(n):
            if self.truth(k == i):
                return i
            if self.truth(k == i - n):
                return i
        raise PathEnd()

    def setitem(self, o, k, v):
        f = getattr(o, 'pv_setitem', None)
        if f:
            return f(self, k, v)
        if isinstance(o, dict):
            self.log_mut(o, 'set', v)
            r = self.dict_find(o, k)
            if r is not None:
                o[r[0]] = v
            elif isinstance(k, Sym):
                o[SKey(k)] = v
            else:
                try:
                    o[conc(k)] = v
                except TypeError as e:
                    raise PyRaise('TypeError', e.args)
            return
        if isinstance(o, list):
            self.log_mut(o, 'set', v)
            if isinstance(k, Sym):
                k = self.pick_index(k, len(o))
            try:
                if isinstance(k, slice):
                    v = self.iterate(v)
                o[conc(k)] = v
            except (IndexError, TypeError) as e:
                raise PyRaise(type(e).__name__, e.args)
            return
        if isinstance(o, np.ndarray):
            from .ext import arr_setitem
            self.log_mut(o, 'set', v)
            return arr_setitem(self, o, k, v)
        if isinstance(o, Obj) and isinstance(o.cls, ClassVal) and o.cls.lookup('__setitem__'):
            return self.method(o, '__setitem__', k, v)
        if isinstance(o, tuple):
            raise PyRaise('TypeError', ('tuple assignment',))
        raise Unsupported('item assignment on %r' % (type(o),))

    def delitem(self, o, k):
        f = getattr(o, 'pv_delitem', None)
        if f:
            return f(self, k)
        if isinstance(o, dict):
            self.log_mut(o, 'del')
            r = self.dict_find(o, k)
            if r is None:
                raise PyRaise('KeyError', (k,))
            del o[r[0]]
            return
        if isinstance(o, list):
            self.log_mut(o, 'del')
            if isinstance(k, Sym):
                k = self.pick_index(k, len(o))
            try:
                del o[conc(k)]
            except IndexError as e:
                raise PyRaise('IndexError', e.args)
            return
        raise Unsupported('del item')

    def e_Call(self, n, env):
        if isinstance(n.func, ast.Name) and n.func.id == 'eval' and len(n.args) == 1 and not n.keywords:
            src = self.eval(n.args[0], env)
            if not isinstance(src, str):
                raise Unsupported('eval of a computed text')
            return self.eval(ast.parse(src.strip(), mode='eval').body, env)
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == 'super':
            if n.args:
                c, o = self.eval(n.args[0], env), self.eval(n.args[1], env)
                return Super(o, c)
            e = env
            while e is not None and (e.func is None or e.func.cls is None):
                e = e.parent
            first = e.func.node.args.args[0].arg
            return Super(e.vars[first], e.func.cls)
        f = self.eval(n.func, env)
        args = self.eval_list(n.args, env)
        kw = {}
        for k in n.keywords:
            v = self.eval(k.value, env)
            if k.arg is None:
                kw.update(v)
            else:
                kw[k.arg] = v
        return self.call(f, args, kw)

    def e_Starred(self, n, env):
        raise Unsupported('starred')

    def e_Yield(self, n, env):
        e = env
        while not hasattr(e, 'yields'):
            e = e.parent
        e.yields.append(self.eval(n.value, env) if n.value else None)
        return None

    # comprehensions
    def _comp(self, gens, env, emit):
        def rec(k, e):
            if k == len(gens):
                emit(e)
                return
            g = gens[k]
            v = self.eval(g.iter, e)
            n, elem = self.sym_iter(v)
            if n is not None:
                raise Unsupported('comprehension over a symbolic-length iterable')
            for x in self.iterate(v):
                self.assign(g.target, x, e, comp=True)
                if all(self.truth(self.eval(c, e)) for c in g.ifs):
                    rec(k + 1, e)
        e2 = Env({}, env, None)
        e2.module = env_module(env)
        rec(0, e2)

    def e_ListComp(self, n, env):
        if len(n.generators) == 1:
            v = self.eval(n.generators[0].iter, env)
            f = getattr(v, 'pv_comp', None)
            if f is not None:
                return f(self, n, env)
        out = self.born([])
        self._comp(n.generators, env, lambda e: out.append(self.eval(n.elt, e)))
        return out

    def e_GeneratorExp(self, n, env):
        return self.e_ListComp(n, env)

    def e_SetComp(self, n, env):
        out = set()
        self._comp(n.generators, env, lambda e: out.add(self._hash(self.eval(n.elt, e))))
        return out

    def _hash(self, v):
        if isinstance(v, Sym):
            raise Unsupported('symbolic set element')
        return v

    def e_DictComp(self, n, env):
        out = self.born({})
        self._comp(n.generators, env, lambda e: self.setitem(out, self.eval(n.key, e), self.eval(n.value, e)))
        return out

    # ---------------- assignment
    def assign(self, t, v, env, comp=False):
        if isinstance(t, ast.Name):
            e = env
            if t.id in getattr(env, 'nonlocals', ()):
                e = env.parent
                while e is not None and t.id not in e.vars:
                    e = e.parent
            if self.loopstack and not comp:
                self.log_write(e, t.id, None, None, v)
            e.vars[t.id] = v
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            self.setitem(o, self.eval_index(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            f = getattr(v, 'pv_unpack', None)
            vals = f(self, len(t.elts)) if f else self.iterate(v)
            if any(isinstance(x, ast.Starred) for x in t.elts):
                raise Unsupported('starred target')
            if len(vals) != len(t.elts):
                raise PyRaise('ValueError', ('unpack',))
            for x, y in zip(t.elts, vals):
                self.assign(x, y, env, comp)
        else:
            raise Unsupported('assignment target')


def env_module(env):
    e = env
    while e is not None:
        if getattr(e, 'module', None) is not None:
            return e.module
        e = e.parent
    return None


_assigned_cache = {}


def _assigned(node):
    k = id(node)
    if k not in _assigned_cache:
        _assigned_cache[k] = ({x.id for x in ast.walk(node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}, node)
    return _assigned_cache[k][0]


def _own_nodes(node):
    todo = list(node.body)
    while todo:
        x = todo.pop()
        yield x
        if isinstance(x, (ast.FunctionDef, ast.Lambda)):
            continue
        todo.extend(ast.iter_child_nodes(x))


def model_val(model, e):
    v = model.eval(e, model_completion=True)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return v.numerator_as_long() / v.denominator_as_long()
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return a.numerator_as_long() / a.denominator_as_long()
    return str(v)
