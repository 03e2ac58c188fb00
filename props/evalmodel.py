"""Assumed contracts (ghost-instrumented) of streams, models and measurements as the evaluators see them."""
import z3
import numpy as np
from pv import sym as S
from pv.sym import eq, and_, or_, not_, implies, ite, smin, smax, Sym, mk, lift, Unsupported
from pv.vm import Obj


def fn(f):
    f.pv_model = True
    return f


class Rows:
    """the feature rows lo..lo+k of the stream"""
    pv_transient = True

    def __init__(self, W, lo, k, y):
        self.W, self.lo, self.k, self.y = W, lo, k, y
        self.trained, self.predicted = set(), set()

    def pv_len(self, vm):
        return self.k

    def pv_getattr(self, vm, name):
        if name == 'shape':
            return (self.k, 2)
        if name == 'ndim':
            return 2
        raise Unsupported('batch.%s' % name)

    def pv_truth(self, vm):
        raise Unsupported('truth value of a batch')


class World:
    def __init__(self, vm, n_models, infinite, kind):
        self.vm = vm
        self.kind = kind
        self.G = vm.born(Obj(None, dict(pos=0, fitted=False, restarted=0, reports=0)))
        self.n = vm.inp('n', 'int', 20)
        self.infinite = infinite
        self.Y = vm.fresh_array('Y', 'int')
        self.P = [vm.fresh_array('P%d' % i, 'int') for i in range(n_models)]
        self.M = [Model(self, i) for i in range(n_models)]
        self.stream = StreamM(self)
        self.mean = [Meas(self, i, 'mean') for i in range(n_models)]
        self.cur = [Meas(self, i, 'current') for i in range(n_models)]
        for i in range(n_models):
            self.G.fields['trained%d' % i] = 0
            self.G.fields['predicted%d' % i] = 0
            self.G.fields['mean%d' % i] = 0
            self.G.fields['current%d' % i] = 0
        self.last = None
        self.events = []
        self.target_values = [0, 1]
        for x in self.M + self.mean + self.cur + [self.stream]:
            vm.born(x)

    def get(self, k):
        return self.G.fields[k]

    def set(self, k, v):
        self.vm.log_write(None, None, self.G, k, v)
        self.G.fields[k] = v


class StreamM:
    def __init__(self, W):
        self.W = W

    def pv_isinstance(self, vm, t):
        return getattr(t, 'name', '') == 'Stream'

    def pv_getattr(self, vm, name):
        W = self.W
        if name == 'next_sample':
            def next_sample(batch_size=1):
                b = batch_size
                lo = W.get('pos')
                if W.infinite:
                    k = b
                else:
                    k = smin(b, W.n - lo)
                    k = S.conc(k)
                    if isinstance(k, Sym):
                        if isinstance(b, int):
                            for j in range(b, -1, -1):
                                if vm.truth(eq(k, j)):
                                    k = j
                                    break
                if isinstance(k, int):
                    y = np.empty(k, dtype=object)
                    for j in range(k):
                        y[j] = mk(z3.Select(W.Y, lift(lo + j)))
                    y = vm.born(y)
                else:
                    y = S.Opaque('y')
                X = Rows(W, lo, k, y)
                W.set('pos', lo + k)
                W.last = X
                vm.born(X)
                return W.deliver(X, y) if hasattr(W, 'deliver') else (X, y)
            return fn(next_sample)
        if name == 'has_more_samples':
            return fn(lambda: True if W.infinite else W.get('pos') < W.n)
        if name == 'n_remaining_samples':
            return fn(lambda: -1 if W.infinite else W.n - W.get('pos'))
        if name == 'target_values':
            return W.target_values
        if name == 'n_targets':
            return 1
        if name == 'restart':
            def restart():
                W.set('restarted', W.get('restarted') + 1)
            return fn(restart)
        raise Unsupported('stream.%s' % name)


class Model:
    def __init__(self, W, i):
        self.W, self.i = W, i

    def pv_getattr(self, vm, name):
        W, i = self.W, self.i
        if name == 'predict':
            def predict(X):
                W.on_predict(i, X)
                r = np.empty(X.k, dtype=object)
                for j in range(X.k):
                    r[j] = mk(z3.Select(W.P[i], lift(X.lo + j)))
                return vm.born(r)
            return fn(predict)
        if name == 'partial_fit':
            def partial_fit(X, y, classes=None, sample_weight=None):
                W.on_fit(i, X, y, classes, sample_weight)
            return fn(partial_fit)
        raise Unsupported('model.%s' % name)


class Meas:
    def __init__(self, W, i, which):
        self.W, self.i, self.which = W, i, which

    def pv_getattr(self, vm, name):
        if name == 'add_result':
            def add_result(y_true, y_pred, sample_weight=1.0):
                self.W.on_result(self.i, self.which, y_true, y_pred, sample_weight)
            return fn(add_result)
        raise Unsupported('measurement.%s' % name)


class Timer:
    def pv_getattr(self, vm, name):
        return fn(lambda *a, **k: None)


def std(vm, o, W, rel, cls, task):
    """wire the evaluator to the world"""
    o.fields.update(model=vm.born(list(W.M)), n_models=len(W.M), stream=W.stream, mean_eval_measurements=vm.born(list(W.mean)),
                    current_eval_measurements=vm.born(list(W.cur)), running_time_measurements=vm.born([Timer() for _ in W.M]), _task_type=task,
                    global_sample_count=0)
    vm.hooks.setdefault('ext', {}).update({'timeit.default_timer': lambda vm: vm.fresh('now', 'real')})
    for nm in ('_check_progress', '_flush_file_buffer', 'evaluation_summary'):
        vm.contract(rel, cls, nm, lambda vm, s, a, k: None)
    vm.contract(rel, cls, '_update_metrics', lambda vm, s, a, k: W.on_report())
