"""C09: delayed-label evaluation: a sample is predicted on arrival and used (scored, trained) once, when its label is available."""
import io
import os
import tempfile
import contextlib
import warnings
import numpy as np
import z3
from pv import sym as S
from pv.sym import eq, and_, or_, not_, implies, ite, smin, smax, Sym, Unsupported
from pv.vm import Poison
from .evalmodel import World, std, Rows, fn
from .c08 import SCORE, METRICS, HEAD

ID = 'C09'
BUDGET = 20
MAX_CASES = 250
DF = 'evaluation/evaluate_prequential_delayed.py'
ASSUME = ['models and streams follow their interface and do not raise', 'at least 20 samples',
          'in the proofs labels become available in arrival order (other orders: generated evaluations)']
BOUNDED = ['TimeManager (pandas): generated histories only; the evaluator is proved against its contract',
           '1..2 models, batches of 1..2 rows, at most 2 labels released per batch in the proofs; any number of iterations']


class Times:
    pv_transient = True

    def __init__(self, X, what):
        self.X, self.what = X, what

    def pv_getitem(self, vm, k):
        return (self.what, self.X, k)


class TM:
    """contract of TimeManager"""
    def __init__(self, W):
        self.W = W

    def rows(self, vm, k):
        W = self.W
        lo = W.get('head')
        y = np.empty(k, dtype=object)
        p = np.empty((k, len(W.M)), dtype=object)
        for j in range(k):
            y[j] = S.mk(z3.Select(W.Y, S.lift(lo + j)))
            for i in range(len(W.M)):
                p[j, i] = S.mk(z3.Select(W.P[i], S.lift(lo + j)))
        y = vm.born(y)
        X = vm.born(Rows(W, lo, k, y))
        X.w = S.Opaque('weights')
        W.set('head', lo + k)
        if k == 0:
            p = np.empty((0,), dtype=object)
        return X, y, vm.born(p), X.w

    def pv_getattr(self, vm, name):
        W = self.W
        if name == 'update_timestamp':
            def f(t):
                vm.prove('the clock is the arrival of the newest sample', isinstance(t, tuple) and t[0] == 'arrival' and t[1] is W.last and t[2] == -1)
                W.clock = W.last
            return fn(f)
        if name == 'get_available_samples':
            def f():
                vm.prove('labels are asked for at the arrival of the newest batch', W.clock is W.last)
                for k in (2, 1):
                    if vm.choose(2) and vm.truth(W.get('head') + k <= W.get('tail')):
                        return self.rows(vm, k)
                return self.rows(vm, 0)
            return fn(f)
        if name == 'has_more_samples':
            return fn(lambda: W.get('head') < W.get('tail'))
        if name == 'next_sample':
            def f(batch_size=1):
                k = batch_size
                while not vm.truth(W.get('head') + k <= W.get('tail')):
                    k -= 1
                return self.rows(vm, k)
            return fn(f)
        if name == 'update_queue':
            def f(X, y_true, y_pred, sample_weight, arrival_time, available_time):
                vm.prove('queued: the newest batch with its labels, weights and times',
                         X is W.last and y_true is X.y and sample_weight is X.w and arrival_time is X.arr and available_time is X.av)
                vm.prove('queued once', eq(W.get('tail'), X.lo))
                vm.prove('queued: predicted by every model', and_(*[eq(W.get('predicted%d' % i), X.lo + X.k) for i in range(len(W.M))]))
                ok = True
                for t in range(X.k):
                    for i in range(len(W.M)):
                        ok = and_(ok, eq(y_pred[t][i], S.mk(z3.Select(W.P[i], S.lift(X.lo + t)))))
                vm.prove('queued: every model\'s own prediction', ok)
                W.set('tail', X.lo + X.k)
            return fn(f)
        raise Unsupported('TimeManager.%s' % name)


class Delayed(World):
    clock = None

    def on_predict(self, i, X):
        vm = self.vm
        vm.prove('the newest batch is predicted', isinstance(X, Rows) and X is self.last)
        vm.prove('predicted once, after training on every released label', and_(eq(self.get('predicted%d' % i), X.lo), eq(self.get('trained%d' % i), self.get('head'))))
        self.set('predicted%d' % i, X.lo + X.k)

    def on_fit(self, i, X, y, classes, w):
        vm = self.vm
        vm.prove('trained on released rows with their own labels and weights', isinstance(X, Rows) and y is X.y and w is X.w)
        vm.prove('trained once on each row', eq(self.get('trained%d' % i), X.lo))
        vm.prove('trained after its own prediction', self.get('predicted%d' % i) >= X.lo + X.k)
        vm.prove('scored before training', and_(eq(self.get('mean%d' % i), X.lo + X.k), eq(self.get('current%d' % i), X.lo + X.k)))
        if self.kind == 'classification':
            vm.prove('a classifier is told the classes with its first batch', or_(self.get('fitted%d' % i), classes is self.target_values))
        self.set('fitted%d' % i, True)
        self.set('trained%d' % i, X.lo + X.k)

    def on_result(self, i, which, yt, yp, w):
        vm = self.vm
        c = self.get('%s%d' % (which, i))
        vm.prove('scored: released rows only', c < self.get('head'))
        vm.prove('scored: its true label', eq(yt, S.mk(z3.Select(self.Y, S.lift(c)))))
        vm.prove('scored: this model\'s own prediction', eq(yp, S.mk(z3.Select(self.P[i], S.lift(c)))))
        self.set('%s%d' % (which, i), c + 1)

    def on_report(self):
        for i in range(len(self.M)):
            self.vm.prove('reported: every released row is scored once', and_(eq(self.get('mean%d' % i), self.get('head')), eq(self.get('current%d' % i), self.get('head'))))


def u_delayed(nm, task, b, pre):
    def u(vm):
        vm.classic_loops = True
        W = Delayed(vm, nm, False, task)
        W.G.fields.update(head=0, tail=0)
        for i in range(nm):
            W.G.fields['fitted%d' % i] = False
        mx = vm.inp('max_samples', 'int', 20)
        o = vm.new(vm.cls(DF, 'EvaluatePrequentialDelayed'), n_wait=3, max_samples=mx, batch_size=b,
                   pretrain_size=vm.inp('pretrain', 'int', 1) if pre else 0, metrics=vm.born(['accuracy']), restart_stream=b == 1)
        std(vm, o, W, DF, 'EvaluatePrequentialDelayed', task)
        made = []

        def tm(vm, s, a, k):
            t = vm.born(TM(W))
            made.append(t)
            return t
        vm.contracts['data/time_manager.py:TimeManager'] = tm
        if pre:
            P = o.fields['pretrain_size']
            vm.assume(P < W.n)
            vm.assume(P < mx)
        first = [True]

        def deliver(X, y):
            X.w, X.arr, X.av = S.Opaque('weights'), Times(X, 'arrival'), Times(X, 'available')
            if first[0] and pre:
                for i in range(nm):
                    for k in ('predicted', 'mean', 'current'):
                        W.set('%s%d' % (k, i), X.lo + X.k)
                W.set('head', X.lo + X.k)
                W.set('tail', X.lo + X.k)
                vm.prove('pretraining takes the first pretrain_size rows', and_(eq(X.lo, 0), eq(X.k, o.fields['pretrain_size'])))
            else:
                vm.prove('batches of batch_size rows', or_(eq(X.k, b), X.lo + X.k >= W.n))
                vm.prove('no batch is fetched once max_samples were taken', X.lo < mx)
            first[0] = False
            return X, y, X.arr, X.av, X.w
        W.deliver = deliver

        def cands(vm, L):
            out = []
            for i in range(nm):
                for k in ('trained', 'mean', 'current'):
                    out.append(('%s%d = head' % (k, i), lambda k=k, i=i: eq(W.get('%s%d' % (k, i)), W.get('head')), False))
                out.append(('predicted%d = pos' % i, lambda i=i: eq(W.get('predicted%d' % i), W.get('pos')), False))
                for flag in ('first_run',):
                    if flag in o.fields:
                        out.append(('not first_run -> fitted%d' % i, lambda i=i: or_(o.fields['first_run'], W.get('fitted%d' % i)), False))
                for (loc, v) in [(l, vm.loc_get(l, L['env'])) for l in L['info'].mods if l[0] == 'local']:
                    if S.kind(v) == 'bool' or isinstance(v, bool):
                        out.append(('not %s -> fitted%d' % (loc[1], i), lambda loc=loc, i=i: or_(vm.loc_get(loc, L['env']), W.get('fitted%d' % i)), False))
                out.append(('fitted%d' % i, lambda i=i: W.get('fitted%d' % i), False))
            out.append(('tail = pos', lambda: eq(W.get('tail'), W.get('pos')), False))
            out.append(('head <= tail', lambda: W.get('head') <= W.get('tail'), False))
            out.append(('pos <= n', lambda: W.get('pos') <= W.n, False))
            for (loc, v) in [(l, vm.loc_get(l, L['env'])) for l in L['info'].mods if l[0] in ('local', 'field')]:
                if S.kind(v) == 'int' and not (loc[0] == 'field' and loc[1] == vm.births.get(id(W.G))):
                    out.append(('%s >= pos' % (loc,), lambda loc=loc: vm.loc_get(loc, L['env']) >= W.get('pos'), False))
                    out.append(('%s = pos or end' % (loc,), lambda loc=loc: or_(eq(vm.loc_get(loc, L['env']), W.get('pos')), W.get('pos') >= W.n), False))
            return out
        vm.hooks['cands'] = [cands]
        r = vm.getattr(o, '_train_and_test')
        if not isinstance(r, list):
            r = vm.call(r, [], {})
        pos = W.get('pos')
        for i in range(nm):
            vm.prove('at the end: every row taken was scored once', and_(eq(W.get('mean%d' % i), pos), eq(W.get('current%d' % i), pos)))
            vm.prove('at the end: every row taken was trained on once', eq(W.get('trained%d' % i), pos))
            vm.prove('at the end: every row taken was predicted', eq(W.get('predicted%d' % i), pos))
        vm.prove('the models are handed back', isinstance(r, list) and len(r) == nm and all(x is y for x, y in zip(r, W.M)))
        vm.prove('the stream is restarted exactly if asked', eq(W.get('restarted'), 1 if o.fields['restart_stream'] else 0))
    return u


UNITS = []
for task, nm, b, pre in (('classification', 1, 1, False), ('classification', 2, 1, True), ('regression', 2, 2, True), ('classification', 1, 2, False)):
    UNITS.append(('delayed %s %d models batch %d %s' % (task, nm, b, 'pretrained' if pre else 'fresh'), u_delayed(nm, task, b, pre)))


# ------------------------------------------------------------------ run time
def cases(rnd, hints, tier):
    while True:
        if rnd.random() < .35:
            n = rnd.randint(1, 12)
            yield dict(kind='queue', n=n, seed=rnd.randint(0, 10 ** 6), dates=rnd.random() < .5, weights=rnd.random() < .5, ties=rnd.random() < .4,
                       ops=[rnd.choice(['put', 'put', 'get', 'get', 'next', 'more']) for _ in range(rnd.randint(2, 14))])
            continue
        task = rnd.choice(['classification', 'classification', 'regression', 'multi-label', 'multi-target'])
        c = dict(kind='evaluate', task=task, n=rnd.choice([20, 25, 40]), b=rnd.choice([1, 1, 2, 3, 5]), models=rnd.choice([1, 1, 2, 3]), n_wait=rnd.choice([1, 3, 5, 6]),
                 max_samples=rnd.choice([20, 21, 30, 100000]), pre=rnd.choice([0, 0, 1, 5, 8]), seed=rnd.randint(0, 10 ** 6), restart=rnd.random() < .7,
                 delay=rnd.choice(['0', '1', '4', '30', 'mixed', 'mixed', 'days']), weights=rnd.random() < .5, file=rnd.random() < .5,
                 metrics=rnd.sample(METRICS[task], rnd.randint(1, len(METRICS[task]))), again=rnd.random() < .15)
        if 'true_vs_predicted' in c['metrics']:
            c['metrics'].remove('true_vs_predicted')
        if not c['metrics']:
            continue
        yield c


def run_case(c):
    if c.get('finding'):
        try:
            r = evaluate(c)
        except TypeError as e:
            return '[no report] evaluation ending before the first report fails: %s' % e
        return r
    return queue(c) if c['kind'] == 'queue' else evaluate(c)


def queue(c):
    from skmultiflow.data import TimeManager
    r = np.random.RandomState(c['seed'])
    t0 = np.datetime64('2020-01-01')

    def tm(v):
        return t0 + np.timedelta64(int(v), 'D') if c['dates'] else np.int64(v)
    now = 0
    m = TimeManager(tm(0))
    q = []
    made = 0
    used = set()
    for op in c['ops']:
        if op == 'put':
            k = int(r.randint(1, 4))
            arr = np.array([tm(now + j) for j in range(k)])
            av = []
            for j in range(k):
                d = int(r.randint(0, 8))
                while not c['ties'] and now + j + d in used:
                    d += 1
                used.add(now + j + d)
                av.append(now + j + d)
            rows = [(made + j, av[j]) for j in range(k)]
            X = np.array([[i, i + .5] for i, _ in rows], dtype=float)
            y = np.array([i * 3 for i, _ in rows])
            p = np.array([[i * 5, i * 7] for i, _ in rows])
            w = np.array([i + .25 for i, _ in rows]) if c['weights'] else None
            m.update_queue(X, y, p, w, arr, np.array([tm(v) for v in av]))
            q += rows
            made += k
        elif op == 'more':
            if bool(m.has_more_samples()) != bool(q):
                return 'has_more_samples is %r with %d samples queued' % (m.has_more_samples(), len(q))
        else:
            if op == 'get':
                now += int(r.randint(0, 6))
                m.update_timestamp(tm(now))
                want = [e for e in q if e[1] <= now]
                got = m.get_available_samples()
            else:
                k = int(r.randint(1, 4))
                srt = sorted(q, key=lambda e: e[1])
                want = srt[:k]
                got = m.next_sample(k)
            X, y, p, w = got
            ids = [int(x[0]) for x in X] if len(X) else []
            avail = dict(q)
            if op == 'get' and sorted(ids) != sorted(i for i, _ in want):
                return 'released %r at time %d, the labels available are %r' % (ids, now, want)
            if len(ids) != len(want) or len(set(ids)) != len(ids) or any(i not in avail for i in ids):
                return 'handed out %r, expected %r' % (ids, want)
            if [avail[i] for i in ids] != [a for _, a in sorted(want, key=lambda e: e[1])]:
                return 'handed out %r, not in the order the labels become available %r' % (ids, want)
            if len(y) != len(ids) or [int(v) for v in y] != [i * 3 for i in ids]:
                return 'samples %r handed out with labels %r' % (ids, list(y))
            if len(ids) and (np.array(p).tolist() != [[i * 5, i * 7] for i in ids]):
                return 'samples %r handed out with predictions %r' % (ids, np.array(p).tolist())
            if len(ids) and (w is None) == c['weights'] or (c['weights'] and len(ids) and [float(v) for v in w] != [i + .25 for i in ids]):
                return 'samples %r handed out with weights %r' % (ids, w)
            q = [e for e in q if e[0] not in ids]
    return None


def evaluate(c):
    from skmultiflow.data import TemporalDataStream
    from skmultiflow.evaluation import EvaluatePrequentialDelayed
    from skmultiflow import metrics as mt
    r = np.random.RandomState(c['seed'])
    n = c['n']
    isreg = c['task'] in ('regression', 'multi-target')
    nt = 2 if c['task'].startswith('multi') else 1
    X = np.hstack([np.arange(n).reshape(-1, 1).astype(float), r.rand(n, 2)])
    y = np.round(r.uniform(-3, 3, (n, nt)), 2) if isreg else r.randint(0, 2 if nt > 1 else 3, (n, nt))
    if not isreg:
        for j in range(nt):
            y[:3, j] = [0, 1, 0] if nt > 1 else [0, 1, 2]
    yy = y.ravel() if nt == 1 else y
    w = np.round(r.uniform(.5, 3, n), 2) if c['weights'] else None
    arrive = list(range(n))
    if c['delay'] == 'mixed':
        order = r.permutation(np.arange(n + 15))
        avail = []
        used = set()
        for i in range(n):
            a = i + int(r.randint(0, 16))
            while a in used:
                a += 1
            used.add(a)
            avail.append(a)
    else:
        d = 3 if c['delay'] == 'days' else int(c['delay'])
        avail = [i + d for i in range(n)]
    mk = {'classification': (mt.ClassificationPerformanceEvaluator, mt.WindowClassificationPerformanceEvaluator),
          'regression': (mt.RegressionMeasurements, mt.WindowRegressionMeasurements),
          'multi-label': (mt.MultiLabelClassificationPerformanceEvaluator, mt.WindowMultiLabelClassificationPerformanceEvaluator),
          'multi-target': (mt.MultiTargetRegressionMeasurements, mt.WindowMultiTargetRegressionMeasurements)}[c['task']]
    path = None
    if c['file']:
        fd, path = tempfile.mkstemp(suffix='.csv')
        os.close(fd)
    t0 = np.datetime64('2020-01-01')
    try:
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            kw = {}
            if c['delay'] in ('mixed', 'days'):
                kw['time'] = np.array([t0 + np.timedelta64(i, 'D') for i in range(n)])
                kw['sample_delay'] = np.timedelta64(3, 'D') if c['delay'] == 'days' else np.array([t0 + np.timedelta64(a, 'D') for a in avail])
            else:
                kw['sample_delay'] = int(c['delay'])
            ev = EvaluatePrequentialDelayed(n_wait=c['n_wait'], max_samples=c['max_samples'], batch_size=c['b'], pretrain_size=c['pre'], metrics=list(c['metrics']),
                                            output_file=path, restart_stream=c['restart'])
            for rnd in range(2 if c['again'] else 1):
                s = TemporalDataStream(X, y, sample_weight=w, **kw)
                models = spies(c, isreg, nt)
                got = ev.evaluate(s, models if c['models'] > 1 else models[0])
                if list(got) != models:
                    return 'evaluate did not return the models'
                msg = oracle(c, ev, models, s, yy, w, avail, mk, isreg, nt, path)
                if msg:
                    return msg
    finally:
        if path:
            os.unlink(path)
    return None


def spies(c, isreg, nt):
    class Spy:
        def __init__(self, i):
            self.i, self.log, self.fits = i, [], 0

        def out(self, x):
            h = (int(round(x)) * 7919 + self.fits * 104729 + self.i * 31 + c['seed']) % 1009
            if isreg:
                return h / 100.0
            return h % 2 if nt > 1 else h % 3

        def predict(self, X):
            ids = [int(round(r[0])) for r in X]
            self.log.append(('predict', ids))
            if nt == 1:
                return np.array([self.out(i) for i in ids])
            return np.array([[self.out(i + 1000 * j) for j in range(nt)] for i in ids])

        def partial_fit(self, X, y, classes=None, sample_weight=None):
            self.log.append(('fit', [int(round(r[0])) for r in X], np.array(y).tolist(), None if classes is None else np.array(classes).tolist(),
                             None if sample_weight is None else [float(v) for v in sample_weight]))
            self.fits += 1
            return self
    return [Spy(i) for i in range(c['models'])]


def oracle(c, ev, models, s, yy, w, avail, mk, isreg, nt, path):
    n, b = c['n'], c['b']
    cap = min(n, c['max_samples'])
    mean, cur = [mk[0]() for _ in models], [mk[1](window_size=c['n_wait']) for _ in models]
    classes = None if isreg else sorted(set(np.array(yy).ravel().tolist()))
    sim = spies(c, isreg, nt)
    first = True
    snaps = []
    used = 0
    preds = {}

    def fit(ids):
        nonlocal first, used
        for m in sim:
            m.partial_fit(np.array(ids).reshape(-1, 1), np.array([yy[i] for i in ids]), classes if first else None, None if w is None else [w[i] for i in ids])
        first = False
        used += len(ids)

    def release(ids):
        if not ids:
            return
        for j in range(len(sim)):
            for i in ids:
                mean[j].add_result(yy[i], preds[i][j])
                cur[j].add_result(yy[i], preds[i][j])
        row = []
        for m in c['metrics']:
            for i in range(len(sim)):
                row += [getattr(mean[i], SCORE[m])(), getattr(cur[i], SCORE[m])()]
        snaps.append((used, row))
        fit(ids)
    pos = 0
    q = []
    if c['pre']:
        fit(list(range(c['pre'])))
        pos = c['pre']
    while pos < cap and pos < n:
        hi = min(pos + b, n)
        now = hi - 1
        rel = sorted([i for i in q if avail[i] <= now], key=lambda i: avail[i])
        q = [i for i in q if avail[i] > now]
        release(rel)
        ps = [m.predict(np.arange(pos, hi).reshape(-1, 1)) for m in sim]
        for t in range(pos, hi):
            preds[t] = [p[t - pos] for p in ps]
            q.append(t)
        pos = hi
    q.sort(key=lambda i: avail[i])
    while q:
        release(q[:b])
        q = q[b:]
    for i, (a, m) in enumerate(zip(models, sim)):
        for e, (g, ww) in enumerate(zip(a.log, m.log)):
            if g != ww:
                return 'model %d, step %d: %r, expected %r' % (i, e, g, ww)
        if len(a.log) != len(m.log):
            return 'model %d: %d steps, expected %d (%r)' % (i, len(a.log), len(m.log), (a.log + m.log)[min(len(a.log), len(m.log))])
    for i in range(len(models)):
        for g, ww, nm in ((ev.get_mean_measurements(i), mean[i], 'mean'), (ev.get_current_measurements(i), cur[i], 'current')):
            for m in METRICS[c['task']]:
                if m == 'true_vs_predicted':
                    continue
                x, z = getattr(g, SCORE[m])(), getattr(ww, SCORE[m])()
                if not (abs(x - z) < 1e-9 or (x != x and z != z)):
                    return 'model %d: %s %s is %r, the released results give %r' % (i, nm, m, x, z)
    if c['restart'] != (s.n_remaining_samples() == n):
        return 'restart_stream=%r but %r samples remain of %d' % (c['restart'], s.n_remaining_samples(), n)
    if path:
        lines = [l for l in open(path).read().split('\n') if l and not l.startswith('#')]
        head = ['id']
        for m in c['metrics']:
            for i in range(len(models)):
                head += ['mean_%s_[M%d]' % (HEAD.get(m, m), i), 'current_%s_[M%d]' % (HEAD.get(m, m), i)]
        if lines[0].split(',') != head:
            return 'file header %r, expected %r' % (lines[0], ','.join(head))
        at = {u - b: row for u, row in snaps}
        last = None
        for l in lines[1:]:
            f = l.split(',')
            i = int(f[0])
            if (last is not None and i <= last) or i not in at:
                return 'report row id %d after %r' % (i, last)
            last = i
            if len(f) != len(head) or any(abs(float(a) - v) > 1.1e-6 for a, v in zip(f[1:], at[i]) if v == v):
                return 'report row %r, expected %r' % (l, at[i])
        missing = [u for u, _ in snaps if u % c['n_wait'] == 0 and u - b not in [int(l.split(',')[0]) for l in lines[1:]]]
        if missing:
            return 'no report after %r samples' % missing
    return None
