"""The parts of an adaptive forest under assumed contracts: trees (C12, C13), evaluators (C05, C06), detectors (C04)."""
import numpy as np
from pv import sym as S
from pv.sym import eq, and_, or_, not_, Sym, Unsupported
from pv.vm import PyRaise
from props.learnmodel import fn, arr, same, matrix, key, snap


def flat(v):
    return list(np.ravel(np.array(v, dtype=object)))


class Tree:
    """answers are an arbitrary function of the lessons and the row"""
    def __init__(self, vm, fam, kind, kw=None, nclass=2):
        self.vm, self.fam, self.kind, self.kw, self.nclass = vm, fam, kind, dict(kw or {}), nclass
        self.told, self.asked, self.born_of = [], [], None
        self.no = len(fam)
        self.ballot = None
        fam.append(self)

    def pv_getattr(self, vm, name):
        if name == 'predict':
            return fn(self.predict, ('X',))
        if name == 'partial_fit':
            return fn(self.learn, ('X', 'y', 'classes', 'sample_weight') if self.kind == 'c' else ('X', 'y', 'sample_weight'))
        if name == '_get_votes_for_instance':
            return fn(self.votes)
        if name == 'reset':
            return fn(self.reset)
        if name == 'new_instance':
            return fn(self.child)
        raise PyRaise('AttributeError', (name,))

    def learn(self, *a, **k):
        names = ('X', 'y', 'classes', 'sample_weight') if self.kind == 'c' else ('X', 'y', 'sample_weight')
        got = dict(zip(names, a))
        for n, v in k.items():
            if n not in names or n in got:
                raise PyRaise('TypeError', ("unexpected keyword argument '%s'" % n,))
            got[n] = v
        self.told.append(('partial_fit', {n: snap(v) for n, v in got.items()}))
        return self

    def reset(self):
        self.told.append(('reset', {}))
        return self

    def child(self):
        t = Tree(self.vm, self.fam, self.kind, self.kw, self.nclass)
        t.born_of = self
        return t

    def row(self, x, told=None):
        memo = self.vm.ghost.setdefault('answers', {})
        k = (self.no, len(self.told) if told is None else told, tuple(key(v) for v in x))
        if k not in memo:
            memo[k] = self.vm.fresh('says', 'int', 0, self.nclass - 1) if self.kind == 'c' else self.vm.fresh('says', 'real')
        return memo[k]

    def predict(self, X):
        X = matrix(X)
        self.asked.append((X, len(self.told)))
        r = np.empty(len(X), dtype=object)
        for i in range(len(X)):
            r[i] = self.row(X[i])
        return self.vm.born(r)

    def votes(self, x):
        if self.ballot is None:
            raise Unsupported('votes')
        return self.vm.born(dict(self.ballot(list(x))))


class Evaluator:
    def __init__(self, vm):
        self.vm, self.heard, self.acc, self.kappa, self.mse, self.mae = vm, [], 0.0, 0.0, 0.0, 0.0

    def pv_getattr(self, vm, name):
        if name == 'add_result':
            def add(y_true, y_pred, sample_weight=1.0):
                one = lambda v: flat(v)[0] if isinstance(v, (list, np.ndarray)) and len(flat(v)) == 1 else v
                self.heard.append((one(y_true), one(y_pred), one(sample_weight)))
            return fn(add)
        v = {'accuracy_score': self.acc, 'kappa_score': self.kappa, 'get_mean_square_error': self.mse, 'get_average_error': self.mae}
        if name in v:
            return fn(lambda: v[name])
        if name == 'reset':
            return fn(lambda: self.heard.clear())
        raise PyRaise('AttributeError', (name,))

    def pv_copy(self):
        e = Evaluator(self.vm)
        e.heard, e.acc, e.kappa, e.mse, e.mae = list(self.heard), self.acc, self.kappa, self.mse, self.mae
        return e


class Poisson:
    """RandomState.poisson: any non-negative number"""
    def __init__(self, vm):
        self.got, self.idle = [], True
        vm.hooks.setdefault('ext', {})['numpy.random.RandomState.poisson'] = self.draw

    def draw(self, vm, o, lam=1.0, size=None):
        if size is not None:
            raise Unsupported('poisson with size')
        if self.idle:
            return 0
        k = vm.fresh('k', 'int', 0)
        self.got.append((lam, k, o))
        return k


class World:
    """trees and evaluators made while the code runs"""
    def __init__(self, vm, kind, nclass=2):
        self.vm, self.fam, self.kind, self.evals = vm, [], kind, []
        tree = 'trees/arf_hoeffding_tree.py:ARFHoeffdingTreeClassifier' if kind == 'c' else 'trees/arf_hoeffding_tree_regressor.py:ARFHoeffdingTreeRegressor'

        def mk(vm, s, a, kw):
            if a:
                raise Unsupported('positional tree parameters')
            return Tree(vm, self.fam, kind, kw, nclass)
        vm.contracts[tree] = mk

        def ev(vm, s, a, kw):
            if a or kw:
                raise Unsupported('evaluator parameters')
            self.evals.append(Evaluator(vm))
            return self.evals[-1]
        vm.contracts['metrics/_classification_performance_evaluator.pyx:ClassificationPerformanceEvaluator'] = ev
        vm.contracts['metrics/measure_collection.py:RegressionMeasurements'] = ev


class Base(Tree):
    """an arbitrary base classifier that can be cloned; nominal: whether it takes nominal attributes"""
    def __init__(self, vm, fam, nominal=False, widths=(2,), **kw):
        super().__init__(vm, fam, 'c', **kw)
        self.nominal, self.attrs, self.widths = nominal, None, widths

    def pv_getattr(self, vm, name):
        if name == 'predict_proba':
            return fn(self.proba, ('X',))
        if name == 'nominal_attributes' and self.nominal:
            return self.attrs
        if name == '_get_votes_for_instance' or name == 'new_instance':
            raise PyRaise('AttributeError', (name,))
        return super().pv_getattr(vm, name)

    def pv_setattr(self, vm, name, v):
        if name != 'nominal_attributes' or not self.nominal:
            raise Unsupported('set %s of the base estimator' % name)
        self.attrs = v

    def learn(self, *a, **k):
        r = super().learn(*a, **k)
        self.told[-1][1]['nominal'] = self.attrs
        return r

    def clone(self):
        t = Base(self.vm, self.fam, self.nominal, self.widths)
        t.attrs = self.attrs
        t.born_of = self
        return t

    def probs(self, x, told=None):
        memo = self.vm.ghost.setdefault('probs', {})
        k = (self.no, len(self.told) if told is None else told, tuple(key(v) for v in x))
        if k not in memo:
            w = self.widths[self.vm.choose(len(self.widths))] if len(self.widths) > 1 else self.widths[0]
            memo[k] = [self.vm.fresh('p', 'real', 0) for _ in range(w)]
        return memo[k]

    def proba(self, X):
        X = matrix(X)
        if len(X) != 1:
            raise Unsupported('several rows')
        self.asked.append((X, len(self.told)))
        p = self.probs(X[0])
        r = np.empty((1, len(p)), dtype=object)
        r[0] = p
        return self.vm.born(r)


def cloning(vm):
    """core.clone: the same parameters, untrained (decided for the real estimators by run-time checks)"""
    def clone(vm, s, a, kw):
        return a[0].clone() if isinstance(a[0], Base) else NotImplemented
    vm.contracts['core/base.py:clone'] = clone
