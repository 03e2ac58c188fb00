"""Deciding one obligation:  path condition  |=  e.

Back ends, in order: z3 simplifier; rational-function normal form (for equalities);
z3 (SMT); z3 nlsat after Ackermannisation; cvc5 (external binary, second opinion on unknowns).
"""
import os
import subprocess
import tempfile
from fractions import Fraction

import z3

_MAXTERMS = 4000


class _TooBig(Exception):
    pass


# ---- rational function normal form: (num, den), polys are {monomial: Fraction}; monomial = sorted tuple of (atom, exp)

def _padd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def _pmul(p, q):
    if len(p) * len(q) > _MAXTERMS:
        raise _TooBig()
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            d = dict(m1)
            for a, e in m2:
                d[a] = d.get(a, 0) + e
            m = tuple(sorted(d.items()))
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return r


_ONE = {(): Fraction(1)}


class Norm:
    def __init__(self):
        self.memo = {}
        self.atoms = {}
        self.keep = []

    def atom(self, key):
        return ({((key, 1),): Fraction(1)}, _ONE)

    def canon(self, e):
        n, d = self.norm(e)
        return repr((sorted(n.items()), sorted(d.items())))

    def norm(self, e):
        k = e.get_id()
        if k in self.memo:
            return self.memo[k]
        self.keep.append(e)
        r = self._norm(e)
        if len(r[0]) > _MAXTERMS or len(r[1]) > _MAXTERMS:
            raise _TooBig()
        self.memo[k] = r
        return r

    def _norm(self, e):
        if z3.is_int_value(e):
            v = Fraction(e.as_long())
            return ({(): v} if v else {}, _ONE)
        if z3.is_rational_value(e):
            v = Fraction(e.numerator_as_long(), e.denominator_as_long())
            return ({(): v} if v else {}, _ONE)
        if z3.is_to_real(e):
            return self.norm(e.arg(0))
        d = e.decl().kind()
        ch = e.children()
        if d == z3.Z3_OP_ADD or d == z3.Z3_OP_SUB:
            s = 1 if d == z3.Z3_OP_ADD else -1
            n, dd = self.norm(ch[0])
            for c in ch[1:]:
                n2, d2 = self.norm(c)
                if dd == d2:
                    n = _padd(n, n2, s)
                else:
                    n = _padd(_pmul(n, d2), _pmul(n2, dd), s)
                    dd = _pmul(dd, d2)
            return (n, dd)
        if d == z3.Z3_OP_UMINUS:
            n, dd = self.norm(ch[0])
            return ({m: -c for m, c in n.items()}, dd)
        if d == z3.Z3_OP_MUL:
            n, dd = self.norm(ch[0])
            for c in ch[1:]:
                n2, d2 = self.norm(c)
                n, dd = _pmul(n, n2), _pmul(dd, d2)
            return (n, dd)
        if d == z3.Z3_OP_DIV:
            n, dd = self.norm(ch[0])
            n2, d2 = self.norm(ch[1])
            if not n2:
                raise _TooBig()
            return (_pmul(n, d2), _pmul(dd, n2))
        if d == z3.Z3_OP_POWER and z3.is_int_value(ch[1]) and 0 <= ch[1].as_long() <= 4:
            n, dd = self.norm(ch[0])
            rn, rd = _ONE, _ONE
            for _ in range(ch[1].as_long()):
                rn, rd = _pmul(rn, n), _pmul(rd, dd)
            return (rn, rd)
        if d == z3.Z3_OP_UNINTERPRETED and ch and all(z3.is_arith(c) for c in ch):
            return self.atom('%s(%s)' % (e.decl().name(), ';'.join(self.canon(c) for c in ch)))
        return self.atom('#%s' % e.sexpr() if len(str(e)) < 400 else '#%d' % e.get_id())

    def equal(self, a, b):
        try:
            n1, d1 = self.norm(a)
            n2, d2 = self.norm(b)
            if d1 == d2:
                return n1 == n2
            return _pmul(n1, d2) == _pmul(n2, d1)
        except (_TooBig, RecursionError):
            return False


def norm_proves(e):
    if z3.is_true(e):
        return True
    if z3.is_and(e):
        return all(norm_proves(c) for c in e.children())
    if z3.is_eq(e) and z3.is_arith(e.arg(0)):
        return Norm().equal(e.arg(0), e.arg(1))
    return False


def _collect_uf(e, out, seen):
    todo = [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0:
            out.append(x)
        todo.extend(x.children())


_UF = {}        # term id -> (term, its uninterpreted applications); the term is kept alive, so ids stay unique
_EQ = {}        # pair of application ids -> (a, b, arguments equal in normal form)


def term_ufs(t):
    r = _UF.get(t.get_id())
    if r is None:
        if len(_UF) > 50000:
            _UF.clear()
        apps = []
        _collect_uf(t, apps, set())
        r = _UF[t.get_id()] = (t, [(a.get_id(), a) for a in apps])
    return r[1]


def uf_lemmas(terms, vmobj):
    """equalities between uninterpreted applications whose arguments have equal normal form"""
    found = {}
    for t in terms:
        for i, a in term_ufs(t):
            found[i] = a
    if len(found) < 2:
        return []
    apps = list(found.values())
    by = {}
    for a in apps:
        by.setdefault(a.decl().name(), []).append(a)
    out = []
    nrm = Norm()
    for name, xs in by.items():
        if len(xs) > 12:
            continue
        for i in range(len(xs)):
            for j in range(i):
                a, b = xs[i], xs[j]
                k = (a.get_id(), b.get_id())
                r = _EQ.get(k)
                if r is None:
                    if len(_EQ) > 50000:
                        _EQ.clear()
                    r = _EQ[k] = (a, b, all(z3.is_arith(c) for c in a.children()) and
                                  all(nrm.equal(c, d) for c, d in zip(a.children(), b.children())))
                if r[2]:
                    out.append(a == b)
    return out


def ackermann(terms):
    """Replace uninterpreted applications by fresh constants plus congruence constraints."""
    cons = []
    table = {}
    cur = list(terms)
    for _ in range(200):
        apps, seen = [], set()
        for t in cur:
            _collect_uf(t, apps, seen)
        # innermost: no uninterpreted application below
        inner = None
        for a in apps:
            sub, s2 = [], set()
            for c in a.children():
                _collect_uf(c, sub, s2)
            if not sub:
                inner = a
                break
        if inner is None:
            return cur + cons
        v = z3.FreshConst(inner.sort(), 'ack')
        nm = inner.decl().name()
        for (args, w) in table.get(nm, []):
            cons.append(z3.Implies(z3.And(*[x == y for x, y in zip(args, inner.children())]), v == w))
        table.setdefault(nm, []).append((inner.children(), v))
        cur = [z3.substitute(t, (inner, v)) for t in cur]
        cons = [z3.substitute(t, (inner, v)) for t in cons]
    return None


def has_arrays(terms):
    seen = set()
    todo = list(terms)
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x) or (not z3.is_bool(x) and not z3.is_arith(x)):
            return True
        todo.extend(x.children())
    return False


def decide(vm, e, ms, quiet=False):
    e = z3.simplify(e, som=False)
    if z3.is_true(e):
        return 'simplify', None
    if norm_proves(e):
        return 'normal-form', None
    neg = z3.Not(e)
    r = vm.quick(e)
    if r == z3.unsat:
        return 'z3', None
    if r == z3.sat and quiet:
        return 'sat', None
    lem = uf_lemmas(list(vm.pc) + [e], vm)
    terms = list(vm.pc) + lem + [neg]
    vm.stats['checks'] += 1
    s = z3.Solver()
    s.set('timeout', ms // 2)
    s.add(*terms)
    r = s.check()
    if r == z3.unsat:
        return 'z3', None
    model = None
    if r == z3.sat:
        return 'sat', s.model()
    if not has_arrays(terms):
        ack = ackermann(terms)
        if ack is not None:
            s2 = z3.Then('simplify', 'solve-eqs', 'purify-arith', 'qfnra').solver() if False else z3.SolverFor('QF_NRA')
            s2.set('timeout', ms)
            s2.add(*ack)
            r2 = s2.check()
            if r2 == z3.unsat:
                return 'z3-nlsat', None
            if r2 == z3.sat:
                return 'sat', s2.model()
    r3 = cvc5(s, ms)
    if r3 == 'unsat':
        return 'cvc5', None
    return 'unknown', None


def cvc5(solver, ms):
    txt = '(set-logic ALL)\n' + solver.to_smt2()
    fd, p = tempfile.mkstemp(suffix='.smt2')
    try:
        with os.fdopen(fd, 'w') as f:
            f.write(txt)
        try:
            o = subprocess.run(['cvc5', '--tlimit=%d' % ms, p], capture_output=True, text=True, timeout=ms / 1000 + 5)
        except Exception:
            return 'unknown'
        return o.stdout.strip().split('\n')[0] if o.stdout else 'unknown'
    finally:
        os.unlink(p)
