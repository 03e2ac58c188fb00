"""C08: prequential and holdout evaluation test on rows the model has not been trained on, and score every tested row once."""
import os
import sys
import io
import tempfile
import contextlib
import warnings
import numpy as np
from pv import sym as S
from pv.sym import eq, and_, or_, not_, implies, ite, smin, smax, Sym
from pv.vm import Poison
from .evalmodel import World, std, Rows

ID = 'C08'
BUDGET = 22
MAX_CASES = 400
PF, HF, BF = 'evaluation/evaluate_prequential.py', 'evaluation/evaluate_holdout.py', 'evaluation/base_evaluator.py'
ASSUME = ['models and streams follow their interface (predict returns one value per row, next_sample the next rows); they do not raise',
          'at least 20 samples (smaller streams are refused by the progress display)', 'the measurement objects satisfy C05/C06']
BOUNDED = ['1..2 models, batch size 1..3, test set of 2 rows in the proofs; any number of iterations',
           'the report file, the choice of measurements per task and the printed summary: generated evaluations only']


class Preq(World):
    def on_predict(self, i, X):
        vm = self.vm
        vm.prove('the newest batch is predicted', isinstance(X, Rows) and X is self.last)
        vm.prove('predicted before being trained on, after all earlier rows', and_(eq(self.get('trained%d' % i), X.lo), eq(self.get('predicted%d' % i), X.lo)))
        self.set('predicted%d' % i, X.lo + X.k)

    def on_fit(self, i, X, y, classes, w):
        vm = self.vm
        vm.prove('trained on the newest batch with its own labels', X is self.last and y is X.y)
        vm.prove('trained once on each row', eq(self.get('trained%d' % i), X.lo))
        if not X.pre:
            vm.prove('tested before training', eq(self.get('predicted%d' % i), X.lo + X.k))
            vm.prove('scored before training', and_(eq(self.get('mean%d' % i), X.lo + X.k), eq(self.get('current%d' % i), X.lo + X.k)))
        if self.kind == 'classification':
            known = self.get('fitted') if i == 0 else self.get('fitted%d' % i)
            vm.prove('a classifier is told the classes with its first batch', or_(known, classes is self.target_values))
        if i == 0:
            self.set('fitted', True)
        else:
            self.set('fitted%d' % i, True)
        self.set('trained%d' % i, X.lo + X.k)

    def on_result(self, i, which, yt, yp, w):
        vm = self.vm
        c = self.get('%s%d' % (which, i))
        import z3
        vm.prove('scored: tested rows only', c < self.get('predicted%d' % i))
        vm.prove('scored: its true label', eq(yt, S.mk(z3.Select(self.Y, S.lift(c)))))
        vm.prove('scored: this model\'s own prediction', eq(yp, S.mk(z3.Select(self.P[i], S.lift(c)))))
        vm.prove('scored: weight 1', eq(w, 1))
        self.set('%s%d' % (which, i), c + 1)

    def on_report(self):
        self.all_scored('reported')

    def all_scored(self, label):
        pos = self.get('pos')
        for i in range(len(self.M)):
            self.vm.prove(label + ': every delivered row is scored once', and_(eq(self.get('mean%d' % i), pos), eq(self.get('current%d' % i), pos)))

    def deliver(self, X, y):
        X.pre = self.pre
        return X, y


def ghost_cands(W, o):
    def hook(vm, L):
        out = []
        for k in W.G.fields:
            if k[:4] in ('trai', 'pred', 'mean', 'curr') and k != 'current':
                out.append(('ghost %s = pos' % k, lambda k=k: eq(W.get(k), W.get('pos')), False))
        out.append(('count >= pos', lambda: o.fields['global_sample_count'] >= W.get('pos'), False))
        out.append(('count = pos or end', lambda: or_(eq(o.fields['global_sample_count'], W.get('pos')), W.get('pos') >= W.n), False))
        out.append(('count = pos', lambda: eq(o.fields['global_sample_count'], W.get('pos')), False))
        out.append(('pos <= n', lambda: W.get('pos') <= W.n, False))
        for k in ('fitted', 'fitted1'):
            if k in W.G.fields:
                for (loc, v) in [(l, vm.loc_get(l, L['env'])) for l in L['info'].mods if l[0] == 'local']:
                    if S.kind(v) == 'bool' or isinstance(v, bool):
                        out.append(('not %s -> %s' % (loc[1], k), lambda v=v, k=k, loc=loc: or_(vm.loc_get(loc, L['env']), W.get(k)), False))
                out.append(('%s' % k, lambda k=k: W.get(k), False))
        return out
    return hook


def u_preq(nm, task, b, pre, infinite):
    def u(vm):
        W = Preq(vm, nm, infinite, task)
        for i in range(1, nm):
            W.G.fields['fitted%d' % i] = False
        mx = vm.inp('max_samples', 'int', 20)
        o = vm.new(vm.cls(PF, 'EvaluatePrequential'), n_wait=vm.inp('n_wait', 'int', 1), max_samples=mx, batch_size=b,
                   pretrain_size=vm.inp('pretrain', 'int', 1) if pre else 0, metrics=vm.born(['accuracy']), restart_stream=b != 2)
        std(vm, o, W, PF, 'EvaluatePrequential', task)
        if pre:
            P = o.fields['pretrain_size']
            vm.assume(P < W.n)
            vm.assume(P < mx)
        # pretraining rows are trained on without a test: they count as tested and scored
        first = [True]

        def deliver(X, y):
            X.pre = pre and first[0]
            if first[0]:
                first[0] = False
                if X.pre:
                    for i in range(nm):
                        for k in ('predicted', 'mean', 'current'):
                            W.set('%s%d' % (k, i), X.lo + X.k)
                    vm.prove('pretraining takes the first pretrain_size rows', and_(eq(X.lo, 0), eq(X.k, o.fields['pretrain_size'])))
                    return X, y
            vm.prove('batches of batch_size rows', or_(eq(X.k, b), X.lo + X.k >= W.n))
            vm.prove('no batch is fetched once max_samples are processed', X.lo < mx)
            return X, y
        W.deliver = deliver
        vm.hooks['cands'] = [ghost_cands(W, o)]
        r = vm.method(o, '_train_and_test')
        W.all_scored('at the end')
        for i in range(nm):
            vm.prove('at the end: every delivered row was trained on', eq(W.get('trained%d' % i), W.get('pos')))
        vm.prove('the models are handed back', isinstance(r, list) and len(r) == nm and all(x is y for x, y in zip(r, W.M)))
        vm.prove('the stream is restarted exactly if asked', eq(W.get('restarted'), 1 if o.fields['restart_stream'] else 0))
        mt = vm.getattr(o, 'max_time')
        el = o.fields['_end_time'] - o.fields['_start_time']
        vm.prove('stops only at max_samples, at the end of the stream or at the time limit', or_(W.get('pos') >= smin(mx, W.n) if not infinite else W.get('pos') >= mx, not_(el < mt) if not isinstance(mt, float) else False))
    return u


class Hold(World):
    def on_predict(self, i, X):
        vm = self.vm
        vm.prove('the test set is predicted', isinstance(X, Rows))
        vm.prove('tested rows were never trained on', X.trained == set())
        if self.static is not None:
            vm.prove('the one held-out test set is used', X is self.static)
        else:
            vm.prove('the newest test set is used', X is self.last)
        X.predicted.add(i)
        self.set('mean%d' % i, X.lo)
        self.set('current%d' % i, X.lo)
        self.set('predicted%d' % i, X.lo + X.k)
        self.test = X

    def on_fit(self, i, X, y, classes, w):
        vm = self.vm
        vm.prove('trained on the newest batch with its own labels', X is self.last and y is X.y)
        vm.prove('never trained on a test row', X.predicted == set() and X is not self.static)
        vm.prove('trained once on each batch', i not in X.trained)
        if self.kind == 'classification':
            known = self.get('fitted') if i == 0 else self.get('fitted%d' % i)
            vm.prove('a classifier is told the classes with its first batch', or_(known, classes is self.target_values))
        self.set('fitted' if i == 0 else 'fitted%d' % i, True)
        X.trained.add(i)
        self.set('trained%d' % i, self.get('trained%d' % i) + X.k)

    def on_result(self, i, which, yt, yp, w):
        vm = self.vm
        import z3
        c = self.get('%s%d' % (which, i))
        vm.prove('scored: tested rows only', c < self.get('predicted%d' % i))
        vm.prove('scored: its true label', eq(yt, S.mk(z3.Select(self.Y, S.lift(c)))))
        vm.prove('scored: this model\'s own prediction', eq(yp, S.mk(z3.Select(self.P[i], S.lift(c)))))
        vm.prove('scored: weight 1', eq(w, 1))
        self.set('%s%d' % (which, i), c + 1)

    def on_report(self):
        vm = self.vm
        X = self.test
        for i in range(len(self.M)):
            vm.prove('reported: the whole test set is scored once', and_(eq(self.get('mean%d' % i), X.lo + X.k), eq(self.get('current%d' % i), X.lo + X.k)))
            vm.prove('reported: all models saw the same training rows', eq(self.get('trained%d' % i), self.get('trained0')))
        self.set('reports', self.get('reports') + 1)


def u_hold(nm, task, b, dynamic, infinite):
    def u(vm):
        W = Hold(vm, nm, infinite, task)
        for i in range(1, nm):
            W.G.fields['fitted%d' % i] = False
        W.static = None
        W.test = None
        mx = vm.inp('max_samples', 'int', 20)
        T = 2
        o = vm.new(vm.cls(HF, 'EvaluateHoldout'), n_wait=vm.inp('n_wait', 'int', 1), max_samples=mx, batch_size=b, test_size=T,
                   metrics=vm.born(['accuracy']), dynamic_test_set=dynamic, restart_stream=b != 2)
        std(vm, o, W, HF, 'EvaluateHoldout', task)
        st = {}

        def deliver(X, y):
            if not dynamic and W.static is None:
                W.static = X
                vm.prove('the first test_size rows are held out', and_(eq(X.lo, 0), eq(X.k, T)))
            elif not dynamic:
                vm.prove('batches of batch_size rows', or_(eq(X.k, b), X.lo + X.k >= W.n))
            return X, y
        W.deliver = deliver

        def hv(vm, loc, v, shapes):
            if loc[0] == 'field' and loc[2] in ('X_test', 'y_test') and dynamic:
                return Poison('test set of an earlier iteration')
            return NotImplemented
        vm.hooks['havoc'] = hv

        def cands(vm, L):
            out = ghost_cands(W, o)(vm, L)
            for i in range(1, nm):
                out.append(('same training %d' % i, lambda i=i: eq(W.get('trained%d' % i), W.get('trained0')), False))
            if not dynamic:
                out.append(('rows trained', lambda: eq(W.get('trained0') + T, W.get('pos')), False))
            return out
        vm.hooks['cands'] = [cands]
        r = vm.method(o, '_periodic_holdout')
        for i in range(nm):
            vm.prove('at the end: all models saw the same rows', eq(W.get('trained%d' % i), W.get('trained0')))
            if not dynamic:
                vm.prove('at the end: every row outside the test set was trained on', eq(W.get('trained%d' % i) + T, W.get('pos')))
        vm.prove('the models are handed back', isinstance(r, list) and len(r) == nm and all(x is y for x, y in zip(r, W.M)))
        vm.prove('the stream is restarted exactly if asked', eq(W.get('restarted'), 1 if o.fields['restart_stream'] else 0))
    return u


SCORE = {'accuracy': 'accuracy_score', 'kappa': 'kappa_score', 'kappa_t': 'kappa_t_score', 'kappa_m': 'kappa_m_score', 'precision': 'precision_score',
         'recall': 'recall_score', 'f1': 'f1_score', 'gmean': 'geometric_mean_score', 'hamming_score': 'hamming_score', 'hamming_loss': 'hamming_loss_score',
         'exact_match': 'exact_match_score', 'j_index': 'jaccard_score', 'mean_square_error': 'get_mean_square_error', 'mean_absolute_error': 'get_average_error',
         'average_mean_square_error': 'get_average_mean_square_error', 'average_mean_absolute_error': 'get_average_absolute_error',
         'average_root_mean_square_error': 'get_average_root_mean_square_error'}


class Scores:
    def __init__(self, which, i):
        self.which, self.i = which, i

    def pv_getattr(self, vm, name):
        from .evalmodel import fn
        if name == 'get_last':
            return fn(lambda: (('true', self.which, self.i), ('pred', self.which, self.i)))
        return fn(lambda *a: (self.which, self.i, name))


def u_report(method):
    """one report: every metric shows the score of that model\'s own measurements"""
    def u(vm):
        pf = method == 'prequential'
        cls, f = ('EvaluatePrequential', PF) if pf else ('EvaluateHoldout', HF)
        nm = 1 + vm.choose(3)
        names = list(SCORE) + ['true_vs_predicted']
        b = vm.inp('b', 'int', 1)
        cnt = vm.inp('count', 'int', 0)
        o = vm.new(vm.cls(f, cls), metrics=vm.born(list(names)), batch_size=b)
        o.fields['n_models'] = nm
        o.fields['global_sample_count'] = cnt
        o.fields['_task_type'] = 'x'
        vm.hooks.setdefault('ext', {})
        vm.method(o, '_init_metrics')
        o.fields['mean_eval_measurements'] = vm.born([Scores('mean', i) for i in range(nm)])
        o.fields['current_eval_measurements'] = vm.born([Scores('current', i) for i in range(nm)])
        vm.contract(f, cls, '_update_outputs', lambda vm, s, a, k: None)
        vm.method(o, '_update_metrics')
        B = o.fields['_data_buffer']
        vm.prove('sample id', eq(B.fields['sample_id'], cnt - b if pf else cnt))
        for m, meth in SCORE.items():
            for w in ('mean', 'current'):
                got = vm.method(B, 'get_data', m, w)
                vm.prove('report %s %s' % (w, m), list(got) == [(w, i, meth) for i in range(nm)])
        t, p = vm.method(B, 'get_data', 'true_vs_predicted', 'y_true'), vm.method(B, 'get_data', 'true_vs_predicted', 'y_pred')
        vm.prove('report true value', t == ('true', 'mean', nm - 1))
        vm.prove('report predicted values', list(p) == [('pred', 'mean', i) for i in range(nm)])
    return u


UNITS = []
for task, b, pre in (('classification', 1, False), ('classification', 1, True), ('classification', 2, True), ('classification', 3, False), ('regression', 2, False), ('regression', 1, True)):
    UNITS.append(('prequential %s batch %d %s' % (task, b, 'pretrained' if pre else 'fresh'), u_preq(2 if b < 3 else 1, task, b, pre, False)))
UNITS.append(('prequential classification generator', u_preq(1, 'classification', 2, True, True)))
for task, b, dyn in (('classification', 1, False), ('classification', 2, True), ('regression', 2, False), ('regression', 1, True)):
    UNITS.append(('holdout %s batch %d %s' % (task, b, 'dynamic' if dyn else 'static'), u_hold(2, task, b, dyn, False)))
UNITS.append(('holdout classification generator', u_hold(1, 'classification', 2, True, True)))
UNITS += [('report prequential', u_report('prequential')), ('report holdout', u_report('holdout'))]


# ------------------------------------------------------------------ run time
METRICS = {'classification': ['accuracy', 'kappa', 'kappa_t', 'kappa_m', 'f1', 'precision', 'recall', 'gmean', 'true_vs_predicted'],
           'regression': ['mean_square_error', 'mean_absolute_error', 'true_vs_predicted'],
           'multi-label': ['hamming_score', 'hamming_loss', 'exact_match', 'j_index'],
           'multi-target': ['average_mean_square_error', 'average_mean_absolute_error', 'average_root_mean_square_error']}
HEAD = {'accuracy': 'acc', 'mean_square_error': 'mse', 'mean_absolute_error': 'mae', 'average_mean_square_error': 'amse',
        'average_mean_absolute_error': 'amae', 'average_root_mean_square_error': 'armse'}


def cases(rnd, hints, tier):
    while True:
        task = rnd.choice(['classification', 'classification', 'regression', 'multi-label', 'multi-target'])
        n = rnd.choice([20, 25, 40, 63])
        kind = rnd.choice(['prequential', 'prequential', 'holdout'])
        c = dict(kind=kind, task=task, n=n, b=rnd.choice([1, 1, 2, 3, 7]), models=rnd.choice([1, 1, 2, 3]), n_wait=rnd.choice([1, 3, 5, 8, 10, 16, 20, 200]),
                 max_samples=rnd.choice([20, 21, 30, 50, 100000]), pre=rnd.choice([0, 0, 1, 5, 10]), seed=rnd.randint(0, 10 ** 6), restart=rnd.random() < .7,
                 test=rnd.choice([1, 3, 5, 8]), dynamic=rnd.random() < .5, metrics=rnd.sample(METRICS[task], rnd.randint(1, len(METRICS[task]))),
                 file=rnd.random() < .6, again=rnd.random() < .25, const=rnd.random() < .2)
        if set(c['metrics']) == {'true_vs_predicted'}:
            continue
        yield c


def spies(c, k, isreg, nt):
    class Spy:
        def __init__(self, i):
            self.i, self.log, self.fits = i, [], 0

        def out(self, x):
            h = (int(round(x)) * 7919 + self.fits * 104729 + self.i * 31 + c['seed']) % 1009
            if isreg:
                return h / 100.0
            return h % 2 if nt > 1 else h % 3

        def predict(self, X):
            ids = [int(round(r[0])) for r in X]
            self.log.append(('predict', ids))
            if nt == 1:
                return np.array([self.out(i) for i in ids])
            return np.array([[self.out(i + 1000 * j) for j in range(nt)] for i in ids])

        def partial_fit(self, X, y, classes=None, sample_weight=None):
            self.log.append(('fit', [int(round(r[0])) for r in X], np.array(y).tolist(), None if classes is None else np.array(classes).tolist()))
            self.fits += 1
            return self
    return [Spy(i) for i in range(k)]


def run_case(c):
    from skmultiflow.data import DataStream
    from skmultiflow.evaluation import EvaluatePrequential, EvaluateHoldout
    from skmultiflow import metrics as mt
    r = np.random.RandomState(c['seed'])
    n = c['n']
    isreg = c['task'] in ('regression', 'multi-target')
    nt = 2 if c['task'].startswith('multi') else 1
    X = np.hstack([np.arange(n).reshape(-1, 1).astype(float), r.rand(n, 2)])
    y = np.round(r.uniform(-3, 3, (n, nt)), 2) if isreg else r.randint(0, 2 if nt > 1 else 3, (n, nt))
    if not isreg:
        for j in range(nt):
            y[:3, j] = [0, 1, 0] if nt > 1 else [0, 1, 2]
    if c.get('const') and nt > 1 and not isreg:
        y[:, 0] = 0
    yy = y.ravel() if nt == 1 else y
    mk = {'classification': (mt.ClassificationPerformanceEvaluator, mt.WindowClassificationPerformanceEvaluator),
          'regression': (mt.RegressionMeasurements, mt.WindowRegressionMeasurements),
          'multi-label': (mt.MultiLabelClassificationPerformanceEvaluator, mt.WindowMultiLabelClassificationPerformanceEvaluator),
          'multi-target': (mt.MultiTargetRegressionMeasurements, mt.WindowMultiTargetRegressionMeasurements)}[c['task']]
    path = None
    if c['file']:
        fd, path = tempfile.mkstemp(suffix='.csv')
        os.close(fd)
    metrics = list(c['metrics'])
    try:
        if c['kind'] == 'prequential':
            ev = EvaluatePrequential(n_wait=c['n_wait'], max_samples=c['max_samples'], batch_size=c['b'], pretrain_size=c['pre'], metrics=list(metrics),
                                     output_file=path, restart_stream=c['restart'])
        else:
            ev = EvaluateHoldout(n_wait=c['n_wait'], max_samples=c['max_samples'], batch_size=c['b'], test_size=c['test'], dynamic_test_set=c['dynamic'],
                                 metrics=list(metrics), output_file=path, restart_stream=c['restart'])
        for rnd in range(2 if c['again'] else 1):
            s = DataStream(X, y)
            models = spies(c, c['models'], isreg, nt)
            with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
                warnings.simplefilter('ignore')
                try:
                    got = ev.evaluate(s, models if c['models'] > 1 or r.rand() < .5 else models[0], model_names=None)
                except (TypeError, IndexError):
                    if c['kind'] == 'holdout' and (c['test'] >= min(n, c['max_samples'])):
                        return None
                    raise
            if [m for m in got] != models:
                return 'evaluate did not return the models'
            msg = oracle(c, ev, models, s, yy, mk, isreg, nt, path)
            if msg:
                return msg
    finally:
        if path:
            os.unlink(path)
    return None


def oracle(c, ev, models, s, yy, mk, isreg, nt, path):
    n, b = c['n'], c['b']
    cap = min(n, c['max_samples'])
    win = c['n_wait'] if c['kind'] == 'prequential' else c['test']
    mean, cur = [mk[0]() for _ in models], [mk[1](window_size=win) for _ in models]
    classes = None if isreg else (sorted(set(np.array(yy).ravel().tolist())))
    sim = spies(c, c['models'], isreg, nt)
    reports = {}
    must = set()
    pos = count = 0
    first = True

    def fit(lo, hi):
        nonlocal first
        for m in sim:
            m.partial_fit(np.arange(lo, hi).reshape(-1, 1), yy[lo:hi], classes if first else None)
        first = False

    def test(lo, hi):
        for i, m in enumerate(sim):
            p = m.predict(np.arange(lo, hi).reshape(-1, 1))
            for t in range(lo, hi):
                mean[i].add_result(yy[t], p[t - lo])
                cur[i].add_result(yy[t], p[t - lo])

    def snap():
        row = []
        for m in order(c['metrics']):
            if m == 'true_vs_predicted':
                row.append(float(mean[-1].get_last()[0]))
                row += [float(q.get_last()[1]) for q in mean]
            else:
                for i in range(len(sim)):
                    row += [getattr(mean[i], SCORE[m])(), getattr(cur[i], SCORE[m])()]
        return row
    if c['kind'] == 'prequential':
        if c['pre']:
            fit(0, c['pre'])
            pos = count = c['pre']
        while count < cap and pos < n:
            q = min(pos + b, n)
            test(pos, q)
            count += b
            fit(pos, q)
            pos = q
            reports[count - b] = snap()
            if count % c['n_wait'] == 0 or count >= cap:
                must.add(count - b)
    else:
        T = c['test']
        if not c['dynamic']:
            pos = count = min(T, n)
            count = T
        k = 0
        while count < cap and pos < n:
            q = min(pos + b, n)
            count += b
            fit(pos, q)
            pos = q
            do = count >= c['n_wait'] * (k + 1) + T * k if c['dynamic'] else (count - T) % c['n_wait'] == 0
            if do or count >= cap:
                if c['dynamic']:
                    lo, hi = pos, min(pos + T, n)
                    pos = hi
                    count += hi - lo
                else:
                    lo, hi = 0, min(T, n)
                test(lo, hi)
                k += 1
                reports[count] = snap()
                must.add(count)
    for i, (a, m) in enumerate(zip(models, sim)):
        for e, (g, w) in enumerate(zip(a.log, m.log)):
            if g != w:
                return 'model %d, step %d: %r, expected %r' % (i, e, g, w)
        if len(a.log) != len(m.log):
            return 'model %d: %d steps, expected %d (%r)' % (i, len(a.log), len(m.log), (a.log + m.log)[min(len(a.log), len(m.log))])
    for i in range(len(models)):
        a, b_ = ev.get_measurements(i) if hasattr(ev, 'get_measurements') else (ev.get_mean_measurements(i), ev.get_current_measurements(i))
        for g, w, nm in ((a, mean[i], 'mean'), (b_, cur[i], 'current')):
            for m in METRICS[c['task']]:
                if m == 'true_vs_predicted':
                    continue
                x, z = getattr(g, SCORE[m])(), getattr(w, SCORE[m])()
                if not (abs(x - z) < 1e-9 or (x != x and z != z)):
                    return 'model %d: %s %s is %r, the results give %r' % (i, nm, m, x, z)
        for g, w in ((ev.get_mean_measurements(i), a), (ev.get_current_measurements(i), b_)):
            if g is not w:
                return 'measurement accessors disagree'
    if c['restart'] != (s.n_remaining_samples() == n):
        return 'restart_stream=%r but %r samples remain of %d' % (c['restart'], s.n_remaining_samples(), n)
    if path:
        lines = [l for l in open(path).read().split('\n') if l and not l.startswith('#')]
        head = ['id']
        for m in order(c['metrics']):
            if m == 'true_vs_predicted':
                head += ['true_value'] + ['predicted_value_[M%d]' % i for i in range(len(models))]
            else:
                for i in range(len(models)):
                    head += ['mean_%s_[M%d]' % (HEAD.get(m, m), i), 'current_%s_[M%d]' % (HEAD.get(m, m), i)]
        if lines[0].split(',') != head:
            return 'file header %r, expected %r' % (lines[0], ','.join(head))
        last = -1
        seen = set()
        for l in lines[1:]:
            f = l.split(',')
            i = int(f[0])
            if i <= last or i not in reports:
                return 'report row id %d after %d' % (i, last)
            last = i
            seen.add(i)
            want = reports[i]
            if len(f) != len(head) or any(abs(float(a) - w) > 1.1e-6 for a, w in zip(f[1:], want) if w == w):
                return 'report row %r, expected %r' % (l, want)
        if must - seen:
            return 'no report for sample ids %r' % sorted(must - seen)
    return None


def order(ms):
    return [m for m in ms]
