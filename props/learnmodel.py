"""A base learner seen from a meta learner: everything it is told is recorded, its answers are an arbitrary
function of what it has been told and of the row (the contract assumed of every base estimator)."""
import numpy as np
from pv.sym import Sym, Unsupported, lift, eq, and_
from pv.vm import PyRaise


def fn(f, params=None):
    if hasattr(f, '__func__'):
        g = f
        f = lambda *a, **k: g(*a, **k)
    f.pv_model = True
    if params is not None:
        f.pv_params = params
    return f


def key(x):
    return ('s', lift(x).get_id()) if isinstance(x, Sym) else ('c', float(x))


def arr(vm, n, *d, lo=None, hi=None, name='x'):
    X = np.empty((n,) + d, dtype=object)
    for ix in np.ndindex(*X.shape):
        X[ix] = vm.inp(name + '_'.join(map(str, ix)), 'real', lo, hi)
    return vm.born(X)


def same(a, b):
    """the same numbers (a, b arrays or lists)"""
    a, b = np.array(a, dtype=object), np.array(b, dtype=object)
    return a.shape == b.shape and and_(*[eq(x, y) for x, y in zip(a.flat, b.flat)] or [True])


def matrix(X):
    """the rows of a batch, given as a matrix or as a list of rows"""
    if isinstance(X, np.ndarray) and X.ndim == 2:
        return [list(r) for r in X]
    if isinstance(X, list) and all(isinstance(r, (list, np.ndarray)) for r in X):
        return [list(r) for r in X]
    raise Unsupported('rows of %r' % type(X))


def snap(v):
    return v.copy() if isinstance(v, np.ndarray) else (list(v) if isinstance(v, list) else v)


class Learner:
    """kind: 'class' - predictions are 0 or 1, 'real' - any number"""
    def __init__(self, vm, fam, kind='class', params=('X', 'y', 'classes', 'sample_weight'), told=(), nclass=2, lacks=(), widths=None):
        self.vm, self.fam, self.kind, self.params, self.nclass, self.lacks = vm, fam, kind, params, nclass, set(lacks)
        self.widths = widths        # possible numbers of probability columns (nclass, adding up to one, if not given)
        self.told, self.asked = list(told), []
        self.no = len(fam)
        fam.append(self)

    def pv_copy(self):
        return Learner(self.vm, self.fam, self.kind, self.params, self.told, self.nclass, self.lacks, self.widths)

    def pv_getattr(self, vm, name):
        if name in self.lacks:
            raise PyRaise('AttributeError', (name,))
        if name in ('fit', 'partial_fit'):
            return fn(lambda *a, **k: self.learn(name, a, k), self.params)
        if name == 'predict':
            return fn(lambda X: self.answer('predict', X))
        if name == 'predict_proba':
            return fn(lambda X: self.answer('predict_proba', X))
        if name == 'reset':
            def reset():
                self.told.append(('reset', {}))
                return self
            return fn(reset)
        if name == '_estimator_type':
            return 'regressor' if self.kind == 'real' else 'classifier'
        if name in ('__class__',):
            raise Unsupported('class of the base learner')
        raise PyRaise('AttributeError', (name,))

    def learn(self, how, a, k):
        got = dict(zip(self.params, a))
        for n, v in k.items():
            if n not in self.params or n in got:
                raise PyRaise('TypeError', ("unexpected keyword argument '%s'" % n,))
            got[n] = v
        if len(a) > len(self.params):
            raise PyRaise('TypeError', ('too many arguments',))
        self.told.append((how, {n: snap(v) for n, v in got.items()}))
        return self

    def width(self, told=None):
        if not self.widths:
            return self.nclass
        memo = self.vm.ghost.setdefault('widths', {})
        k = (self.no, len(self.told) if told is None else told)
        if k not in memo:
            memo[k] = self.widths[self.vm.choose(len(self.widths))] if len(self.widths) > 1 else self.widths[0]
        return memo[k]

    def row(self, how, x, told=None):
        """the answer for one row (told: after that many lessons)"""
        memo = self.vm.ghost.setdefault('answers', {})
        told = len(self.told) if told is None else told
        k = (self.no, told, how, tuple(key(v) for v in x))
        if k not in memo:
            if how == 'predict_proba':
                p = [self.vm.fresh('p', 'real', 0) for _ in range(self.width(told))]
                if not self.widths:
                    self.vm.assume(eq(sum(p[1:], p[0]), 1))
                memo[k] = p
            else:
                memo[k] = self.vm.choose(self.nclass) if self.kind == 'class' else self.vm.fresh('g', 'real')
        return memo[k]

    def answer(self, how, X):
        X = matrix(X)
        self.asked.append((how, X, len(self.told)))
        r = np.empty((len(X), self.width()) if how == 'predict_proba' else len(X), dtype=object)
        for i in range(len(X)):
            r[i] = self.row(how, X[i])
        return self.vm.born(r)
