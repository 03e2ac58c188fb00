"""C05: the incremental classification evaluators report the textbook metrics of exactly the results they cover."""
import math
import numpy as np
from collections import deque
from pv import sym as S
from pv.sym import eq, and_, or_, not_, implies, iff, ite, toreal, Sym, PyRaise
from pv.vm import Obj

ID = 'C05'
BUDGET = 10
MAX_CASES = 2500
NEEDS_NATIVE = True
F = 'metrics/_classification_performance_evaluator.pyx'
FM = 'metrics/_confusion_matrix.pyx'
ASSUME = ['scores are specified for unit sample weights; with other weights only the matrix entries are (see known findings)',
          'the .pyx sources are verified after mechanical removal of C type annotations (pv/pyx.py); the compiled module, rebuilt from the current tree, is exercised at run time',
          'scipy.stats.gmean is trusted']
BOUNDED = ['number of classes 2..4 and labels 2..3 in the proofs (arbitrary counts); window length up to 3 in the proofs (arbitrary remaining counts)']


def state(vm, N, cls='ClassificationPerformanceEvaluator', **kw):
    """an evaluator over N classes after arbitrarily many unit-weight results"""
    o = vm.new(vm.cls(F, cls), n_classes=N, **kw)
    cm = o.fields['confusion_matrix']
    d = {(i, j): vm.inp('d%d%d' % (i, j), 'int', 0) for i in range(N) for j in range(N)}
    n = 0
    for v in d.values():
        n = n + v
    row = {i: sum((d[i, j] for j in range(1, N)), d[i, 0]) for i in range(N)}
    col = {j: sum((d[i, j] for i in range(1, N)), d[0, j]) for j in range(N)}
    diag = sum((d[i, i] for i in range(1, N)), d[0, 0])
    for k, v in d.items():
        cm.fields['data'][k] = toreal(v)
    for i in range(N):
        cm.fields['sum_row'][i] = toreal(row[i])
        cm.fields['sum_col'][i] = toreal(col[i])
    cm.fields['sum_diag'] = toreal(diag)
    maj = vm.inp('maj', 'int', 0)
    noc = vm.inp('noc', 'int', 0)
    vm.assume(and_(maj <= n, noc <= n))
    lt, lp = vm.inp('last_true', 'int', 0, N - 1), vm.inp('last_pred', 'int', 0, N - 1)
    o.fields.update(n_samples=n, weight_majority_classifier=toreal(maj), weight_correct_no_change_classifier=toreal(noc),
                    _total_weight_observed=toreal(n), last_true=lt, last_pred=lp)
    return o, d, n, row, col, diag, maj, noc


def ratio(a, b):
    return ite(eq(b, 0), toreal(0), toreal(a) / ite(eq(b, 0), toreal(1), toreal(b)))


def pq(a, b):
    """a/b, 0 when ill-defined"""
    return ratio(a, b)


def kap(p0, pe):
    return ite(eq(pe, 1), toreal(0), (p0 - pe) / ite(eq(pe, 1), toreal(1), 1 - pe))


def cm_is(vm, o, d, N, n, label):
    cm = o.fields['confusion_matrix']
    for i in range(N):
        for j in range(N):
            vm.prove('%s: entry %d,%d' % (label, i, j), eq(vm.call(vm.getattr(cm, '__getitem__'), [(i, j)], {}), d[i, j]))
    for i in range(N):
        vm.prove('%s: row sum' % label, eq(cm.fields['sum_row'][i], sum((d[i, j] for j in range(1, N)), d[i, 0])))
        vm.prove('%s: column sum' % label, eq(cm.fields['sum_col'][i], sum((d[j, i] for j in range(1, N)), d[0, i])))
    vm.prove('%s: diagonal' % label, eq(cm.fields['sum_diag'], sum((d[i, i] for i in range(1, N)), d[0, 0])))
    vm.prove('%s: classes' % label, and_(eq(cm.fields['n_classes'], N), cm.fields['classes'] == set(range(N))))


def u_add(N):
    def u(vm):
        o, d, n, row, col, diag, maj, noc = state(vm, N)
        lt = o.fields['last_true']
        t, p = vm.choose(N), vm.choose(N)
        w = [1.0, None][vm.choose(2)]
        if w is None:
            w = vm.inp('w', 'real')
            vm.assume(w > 0)
            vm.method(o, 'add_result', t, p, w)
        else:
            vm.method(o, 'add_result', t, p)
        d2 = {k: toreal(v) for k, v in d.items()}
        d2[t, p] = d2[t, p] + w
        cm_is(vm, o, d2, N, n + 1, 'after')
        vm.prove('samples', eq(o.fields['n_samples'], n + 1))
        vm.prove('no-change reference', eq(o.fields['weight_correct_no_change_classifier'], noc + ite(eq(lt, t), w, 0)))
        r2 = {i: toreal(row[i]) + (w if i == t else 0) for i in range(N)}
        first = and_(*[r2[i] < r2[t] for i in range(t)], *[r2[i] <= r2[t] for i in range(t + 1, N)])
        vm.prove('majority reference', eq(o.fields['weight_majority_classifier'], maj + ite(first, w, 0)))
        a, b = vm.method(o, 'get_last')
        vm.prove('last', and_(eq(a, t), eq(b, p)))
    return u


def u_scores(N):
    def u(vm):
        o, d, n, row, col, diag, maj, noc = state(vm, N)
        p0 = ratio(diag, n)
        vm.prove('accuracy', eq(vm.method(o, 'accuracy_score'), p0))
        vm.prove('kappa_t', eq(vm.method(o, 'kappa_t_score'), ite(eq(n, 0), toreal(0), kap(p0, ratio(noc, n)))))
        vm.prove('kappa_m', eq(vm.method(o, 'kappa_m_score'), ite(eq(n, 0), toreal(0), kap(p0, ratio(maj, n)))))
    return u


def u_kappa(N):
    def u(vm):
        o, d, n, row, col, diag, maj, noc = state(vm, N)
        vm.assume(n > 0)
        got = vm.method(o, 'kappa_score')
        pe = sum((ratio(row[i], n) * ratio(col[i], n) for i in range(1, N)), ratio(row[0], n) * ratio(col[0], n))
        vm.prove('kappa', eq(got, kap(ratio(diag, n), pe)))
    return u


def u_prf(N):
    def u(vm):
        o, d, n, row, col, diag, maj, noc = state(vm, N)
        c = vm.choose(N)
        P = lambda c: pq(d[c, c], col[c])
        R = lambda c: pq(d[c, c], row[c])
        vm.prove('precision of a class', eq(vm.method(o, 'precision_score', c), P(c)))
        vm.prove('recall of a class', eq(vm.method(o, 'recall_score', c), R(c)))
        p, r = P(c), R(c)
        vm.prove('f1 of a class', eq(vm.method(o, 'f1_score', c), ite(eq(d[c, c], 0), toreal(0), 2 * (p * r) / ite(eq(d[c, c], 0), toreal(1), p + r))))
    return u


def u_macro(N):
    """macro averages against the per-class contracts"""
    def u(vm):
        o, d, n, row, col, diag, maj, noc = state(vm, N)
        val = {}

        def stub(kind):
            def f(vm, self, args, kw):
                (c,) = args
                if (kind, c) not in val:
                    val[kind, c] = vm.fresh('%s%s' % (kind, c))
                return val[kind, c]
            return f
        for k, m in (('p', '_precision_per_class'), ('r', '_recall_per_class'), ('f', '_f1_per_class')):
            vm.contract(F, 'ClassificationPerformanceEvaluator', m, stub(k))
        for k, m in (('p', 'precision_score'), ('r', 'recall_score'), ('f', 'f1_score')):
            got = vm.method(o, m)
            if N == 2:
                vm.prove(m + ' is that of class 1', eq(got, stub(k)(vm, None, [1], {})))
            else:
                vm.prove(m + ' is the macro average', eq(got, sum((stub(k)(vm, None, [c], {}) for c in range(1, N)), stub(k)(vm, None, [0], {})) / N))
        seen = []

        def gmean(vm, a, *r, **k):
            seen.append(list(a))
            return vm.fresh('gmean')
        vm.hooks['ext'] = {'scipy.stats.gmean': gmean}
        vm.hooks['with'] = lambda vm, v: None
        vm.method(o, 'geometric_mean_score')
        vm.prove('geometric mean of the recalls', and_(len(seen) == 1, len(seen[0]) == N, *[eq(seen[0][c], stub('r')(vm, None, [c], {})) for c in range(N)]))
    return u


def u_majority(N):
    def u(vm):
        o, d, n, row, col, diag, maj, noc = state(vm, N)
        m = vm.method(o, 'majority_class')
        vm.prove('smallest class with the largest count', or_(*[and_(eq(m, c), *[row[i] < row[c] for i in range(c)], *[row[i] <= row[c] for i in range(c, N)]) for c in range(N)]))
    return u


def u_new(cls, kw):
    def u(vm):
        N = vm.choose(4)
        o = vm.new(vm.cls(F, cls), n_classes=N, **kw)
        N = max(2, N)

        def fresh(label):
            cm = o.fields['confusion_matrix']
            vm.prove(label, and_(eq(o.fields['n_samples'], 0), eq(cm.fields['n_classes'], N), cm.fields['classes'] == set(range(N)), not cm.fields['data'],
                                 eq(o.fields['weight_majority_classifier'], 0), eq(o.fields['weight_correct_no_change_classifier'], 0), eq(cm.fields['sum_diag'], 0),
                                 eq(vm.method(o, 'accuracy_score'), 0), eq(vm.method(o, 'kappa_score'), 0), eq(vm.method(o, 'majority_class'), 0)))
            if kw:
                vm.prove(label + ' window', and_(len(o.fields['_queue']) == 0, eq(o.fields['window_size'], kw['window_size'])))
        fresh('new')
        for t, p in ((1, 0), (3, 3), (0, 0), (1, 1)):
            vm.method(o, 'add_result', t, p)
        vm.method(o, 'reset')
        fresh('reset')
        a, b = vm.method(o, 'get_last')
        vm.prove('reset last', and_(eq(a, 0), eq(b, 0)))
    return u


def u_unseen(vm):
    """labels outside the initial set extend the matrix"""
    o, d, n, row, col, diag, maj, noc = state(vm, 2)
    vm.method(o, 'add_result', 4, 1)
    cm = o.fields['confusion_matrix']
    vm.prove('classes extended', and_(eq(cm.fields['n_classes'], 3), cm.fields['classes'] == {0, 1, 4}))
    vm.prove('counted', and_(eq(cm.fields['data'][(4, 1)], 1), eq(cm.fields['sum_row'][4], 1), eq(cm.fields['sum_col'][1], toreal(col[1]) + 1)))


def u_window(N, L, full):
    """window evaluator with L queued results"""
    def u(vm):
        W = L if full else L + 1
        o, rest, n_, row, col, diag, maj, noc = state(vm, N, 'WindowClassificationPerformanceEvaluator', window_size=W)
        # the oldest queued result, symbolic in everything but its labels; `rest` counts the others
        ft, fp = vm.choose(N), vm.choose(N)
        fw = vm.inp('fw', 'real')
        vm.assume(fw > 0)
        fm, fc = vm.choose(2), vm.choose(2)
        cm = o.fields['confusion_matrix']
        d = {k: toreal(v) for k, v in rest.items()}
        cm.fields['data'][(ft, fp)] = d[ft, fp] + fw
        cm.fields['sum_row'][ft] = toreal(row[ft]) + fw
        cm.fields['sum_col'][fp] = toreal(col[fp]) + fw
        if ft == fp:
            cm.fields['sum_diag'] = toreal(diag) + fw
        o.fields['weight_majority_classifier'] = toreal(maj) + (fw if fm else 0)
        o.fields['weight_correct_no_change_classifier'] = toreal(noc) + (fw if fc else 0)
        o.fields['n_samples'] = L
        q = o.fields['_queue']
        q.append((ft, fp, fw, fm, fc))
        for k in range(L - 1):
            q.append((0, 0, 1.0, 0, 0))
        lt = o.fields['last_true']
        t, p = vm.choose(N), (vm.choose(N) if N == 2 else 1)
        w = vm.inp('w', 'real')
        vm.assume(w > 0)
        vm.method(o, 'add_result', t, p, w)
        d2 = dict(d)
        if not full:
            d2[ft, fp] = d2[ft, fp] + fw
        d2[t, p] = d2[t, p] + w
        cm_is(vm, o, d2, N, None, 'window')
        vm.prove('samples', eq(o.fields['n_samples'], L if full else L + 1))
        q = o.fields['_queue']
        vm.prove('queue length', len(q) == (L if full else L + 1))
        vm.prove('newest queued', and_(eq(q[-1][0], t), eq(q[-1][1], p), eq(q[-1][2], w)))
        r2 = {i: sum((d2[i, j] for j in range(1, N)), d2[i, 0]) for i in range(N)}
        first = and_(*[r2[i] < r2[t] for i in range(t)], *[r2[i] <= r2[t] for i in range(t + 1, N)])
        vm.prove('majority reference', eq(o.fields['weight_majority_classifier'], maj + (0 if full or not fm else fw) + ite(first, w, 0)))
        vm.prove('no-change reference', eq(o.fields['weight_correct_no_change_classifier'], noc + (0 if full or not fc else fw) + ite(eq(lt, t), w, 0)))
        vm.prove('recorded with the queued result', and_(iff(eq(q[-1][3], 1), first), iff(eq(q[-1][4], 1), eq(lt, t))))
        if L > 1 or not full:
            vm.prove('oldest queued', q[0] is not None)
        a, b = vm.method(o, 'get_last')
        vm.prove('last', and_(eq(a, t), eq(b, p)))
    return u


# ------------------------------------------------------------------ multi-label
def ml_state(vm, N, cls, **kw):
    o = vm.new(vm.cls(F, cls), n_labels=N, **kw)
    cm = o.fields['confusion_matrix']
    vm.prove('labels', and_(eq(cm.fields['n_labels'], N), cm.fields['data'].shape == (N, 2, 2)))
    d = np.empty((N, 2, 2), dtype=object)
    for i in range(N):
        for a in range(2):
            for b in range(2):
                d[i, a, b] = vm.inp('d%d%d%d' % (i, a, b), 'real', 0)
    cm.fields['data'] = vm.born(d.copy())
    n = vm.inp('n', 'int', 0)
    ex, jac = vm.inp('exact', 'int', 0), vm.inp('jac', 'real', 0)
    o.fields.update(n_samples=n, exact_match_cnt=ex, jaccard_sum=jac)
    return o, d, n, ex, jac


def bits(vm, N, nm):
    v = [vm.choose(2) for _ in range(N)]
    return v, vm.born(np.array(v))


def jac_of(t, p):
    u = sum(1 for a, b in zip(t, p) if a or b)
    return sum(1 for a, b in zip(t, p) if a and b) / u if u else 0


def u_ml(N):
    def u(vm):
        o, d, n, ex, jac = ml_state(vm, N, 'MultiLabelClassificationPerformanceEvaluator')
        vm.prove('exact match score', eq(vm.method(o, 'exact_match_score'), ratio(ex, n))) if vm.truth(n > 0) else None
        (t, ta), (p, pa) = bits(vm, N, 't'), bits(vm, N, 'p')
        vm.method(o, 'add_result', ta, pa)
        cm = o.fields['confusion_matrix']
        for i in range(N):
            for a in range(2):
                for b in range(2):
                    vm.prove('entry', eq(cm.fields['data'][i, a, b], d[i, a, b] + (1 if (t[i], p[i]) == (a, b) else 0)))
        vm.prove('samples', eq(o.fields['n_samples'], n + 1))
        vm.prove('exact matches', eq(o.fields['exact_match_cnt'], ex + (1 if t == p else 0)))
        vm.prove('jaccard sum', eq(o.fields['jaccard_sum'], jac + jac_of(t, p)))
        right = sum((cm.fields['data'][i, a, a] for i in range(N) for a in range(2)), toreal(0))
        vm.prove('hamming score', eq(vm.method(o, 'hamming_score'), right / toreal((n + 1) * N)))
        vm.prove('hamming loss', eq(vm.method(o, 'hamming_loss_score'), 1 - right / toreal((n + 1) * N)))
        vm.prove('jaccard', eq(vm.method(o, 'jaccard_score'), (jac + jac_of(t, p)) / toreal(n + 1)))
    return u


def u_mlw(N, L, full):
    def u(vm):
        W = L if full else L + 1
        o, d, n, ex, jac = ml_state(vm, N, 'WindowMultiLabelClassificationPerformanceEvaluator', window_size=W)
        (ft, fta), (fp, fpa) = bits(vm, N, 'ft'), bits(vm, N, 'fp')
        data = d.copy()
        for i in range(N):
            data[i, ft[i], fp[i]] = data[i, ft[i], fp[i]] + 1
        o.fields['confusion_matrix'].fields['data'] = vm.born(data)
        o.fields.update(n_samples=L, exact_match_cnt=ex + (1 if ft == fp else 0), jaccard_sum=jac + jac_of(ft, fp))
        q = o.fields['_queue']
        q.append((fta, fpa, 1.0, 1 if ft == fp else 0, jac_of(ft, fp)))
        for k in range(L - 1):
            q.append((vm.born(np.zeros(N)), vm.born(np.zeros(N)), 1.0, 1, 0.0))
        (t, ta), (p, pa) = ([1, 0, 1][:N], vm.born(np.array([1, 0, 1][:N]))), bits(vm, N, 'p')
        vm.method(o, 'add_result', ta, pa)
        cm = o.fields['confusion_matrix']
        for i in range(N):
            for a in range(2):
                for b in range(2):
                    e = d[i, a, b] + (1 if (t[i], p[i]) == (a, b) else 0)
                    if not full and (ft[i], fp[i]) == (a, b):
                        e = e + 1
                    vm.prove('entry', eq(cm.fields['data'][i, a, b], e))
        vm.prove('samples', eq(o.fields['n_samples'], L if full else L + 1))
        vm.prove('exact', eq(o.fields['exact_match_cnt'], ex + (1 if t == p else 0) + (0 if full else (1 if ft == fp else 0))))
        vm.prove('jaccard', eq(o.fields['jaccard_sum'], jac + jac_of(t, p) + (0 if full else jac_of(ft, fp))))
        q = o.fields['_queue']
        vm.prove('queue', and_(len(q) == (L if full else L + 1), list(q[-1][0]) == t, list(q[-1][1]) == p, eq(q[-1][3], 1 if t == p else 0), eq(q[-1][4], jac_of(t, p))))
    return u


CPE, WCPE = 'ClassificationPerformanceEvaluator', 'WindowClassificationPerformanceEvaluator'
UNITS = [('CPE.add_result[%d]' % N, u_add(N)) for N in (2, 3)]
UNITS += [('CPE.scores[%d]' % N, u_scores(N)) for N in (2, 3, 4)]
UNITS += [('CPE.kappa_score[%d]' % N, u_kappa(N)) for N in (2, 3)]
UNITS += [('CPE.per_class[%d]' % N, u_prf(N)) for N in (2, 3)]
UNITS += [('CPE.macro[%d]' % N, u_macro(N)) for N in (2, 3, 4)]
UNITS += [('CPE.majority_class[%d]' % N, u_majority(N)) for N in (2, 3, 4)]
UNITS += [('CPE.init/reset', u_new(CPE, {})), ('WCPE.init/reset', u_new(WCPE, dict(window_size=3))), ('CPE.unseen_class', u_unseen)]
UNITS += [('WCPE.add_result[%d,%d,%s]' % a, u_window(*a)) for a in ((2, 1, True), (2, 3, True), (2, 2, False), (3, 2, True))]
UNITS += [('ML.add_result[%d]' % N, u_ml(N)) for N in (2, 3)]
UNITS += [('WML.add_result[%d,%d,%s]' % a, u_mlw(*a)) for a in ((2, 1, True), (2, 2, False), (3, 2, True))]


# ------------------------------------------------------------------ run time
def cases(rnd, hints, tier):
    while True:
        ml = rnd.random() < .35
        n = rnd.choice([1, 2, 5, 20, 60, 150])
        win = rnd.choice([0, 0, 1, 2, 5, 20])
        if ml:
            N = rnd.choice([2, 3, 4])
            dens = rnd.choice([.1, .5, .9])
            rs = []
            for _ in range(n):
                t = [int(rnd.random() < dens) for _ in range(N)]
                p = [b if rnd.random() < .7 else 1 - b for b in t]
                rs.append([t, p])
            yield dict(kind='ml', N=N, window=win, results=rs, reset=rnd.choice([0, 0, 7]))
        else:
            N = rnd.choice([2, 2, 3, 4])
            lab = [rnd.choice([0, 1, 2, 3, 5, 9])] if rnd.random() < .1 else list(range(N)) + ([N + 2] if rnd.random() < .2 else [])
            if rnd.random() < .2:
                lab = [0, 1]
            acc = rnd.random()
            stick = rnd.random()
            t = lab[0]
            rs = []
            wt = rnd.random() < .25
            for _ in range(n):
                t = t if rnd.random() < stick else rnd.choice(lab)
                p = t if rnd.random() < acc else rnd.choice(lab)
                rs.append([t, p] + ([rnd.choice([.5, 1.5, 2.0, 0.0, .25])] if wt else []))
            yield dict(kind='mc', N=N, window=win, results=rs, reset=rnd.choice([0, 0, 13]), weighted=wt)


def near(a, b):
    return (math.isnan(a) and math.isnan(b)) or abs(a - b) <= 1e-9 * (1 + abs(a) + abs(b))


def ref_mc(rs, N, maj, noc):
    """metrics of the list of (true, pred) results rs, from scratch"""
    n = len(rs)
    cls = sorted(set(range(N)) | maj['seen'])
    cnt = {(a, b): 0 for a in cls for b in cls}
    for t, p in rs:
        cnt[t, p] += 1
    row = {c: sum(cnt[c, k] for k in cls) for c in cls}
    col = {c: sum(cnt[k, c] for k in cls) for c in cls}
    div = lambda a, b: a / b if b else 0.0
    acc = div(sum(cnt[c, c] for c in cls), n)
    k = lambda pe: (acc - pe) / (1 - pe) if pe != 1 else 0.0
    P = {c: div(cnt[c, c], col[c]) for c in cls}
    R = {c: div(cnt[c, c], row[c]) for c in cls}
    F1 = {c: div(2 * P[c] * R[c], P[c] + R[c]) for c in cls}
    out = dict(accuracy_score=acc, kappa_score=k(sum(row[c] * col[c] for c in cls) / n ** 2), kappa_t_score=k(noc / n), kappa_m_score=k(maj['sum'] / n))
    out['majority_class'] = max(cls, key=lambda c: (row[c], -c))
    b = len(cls) == 2
    out['precision_score'] = P[1] if b else sum(P.values()) / len(cls)
    out['recall_score'] = R[1] if b else sum(R.values()) / len(cls)
    out['f1_score'] = F1[1] if b else sum(F1.values()) / len(cls)
    out['geometric_mean_score'] = math.prod(R.values()) ** (1 / len(cls))
    return out, cls, P, R, F1, cnt


def run_case(case):
    import warnings
    warnings.simplefilter('ignore')
    from skmultiflow.metrics import (ClassificationPerformanceEvaluator, WindowClassificationPerformanceEvaluator,
                                     MultiLabelClassificationPerformanceEvaluator, WindowMultiLabelClassificationPerformanceEvaluator)
    N, W = case['N'], case['window']
    where = '%s evaluator (%d initial, window %s) after %s: '
    if case['kind'] == 'ml':
        o = WindowMultiLabelClassificationPerformanceEvaluator(n_labels=N, window_size=W) if W else MultiLabelClassificationPerformanceEvaluator(n_labels=N)
        hist = []
        for i, (t, p) in enumerate(case['results']):
            if case['reset'] and i and i % case['reset'] == 0:
                o.reset()
                hist = []
                if o.n_samples or o.exact_match_score() or o.jaccard_score() or o.confusion_matrix.shape[0] != N:
                    return 'multi-label reset: %s' % o.get_info()
            o.add_result(np.array(t), np.array(p))
            hist.append((t, p))
            if W:
                hist = hist[-W:]
            n = len(hist)
            ok = sum(a == b for t_, p_ in hist for a, b in zip(t_, p_)) / (n * N)
            em = sum(t_ == p_ for t_, p_ in hist) / n
            jc = 0.0
            for t_, p_ in hist:
                u = sum(a | b for a, b in zip(t_, p_))
                jc += sum(a & b for a, b in zip(t_, p_)) / u if u else 0
            exp = dict(hamming_score=ok, hamming_loss_score=1 - ok, exact_match_score=em, jaccard_score=jc / n)
            for k, v in exp.items():
                g = getattr(o, k)()
                if not near(g, v):
                    return where % ('multi-label', N, W, hist[-10:]) + '%s() %r, expected %r' % (k, g, v)
            for j in range(N):
                for a in (0, 1):
                    for b in (0, 1):
                        e = sum(t_[j] == a and p_[j] == b for t_, p_ in hist)
                        if not near(o.confusion_matrix[(j, a, b)], e):
                            return where % ('multi-label', N, W, hist[-10:]) + 'entry %s %r, expected %r' % ((j, a, b), o.confusion_matrix[(j, a, b)], e)
            lt, lp = o.get_last()
            if list(lt) != t or list(lp) != p or o.n_samples != n:
                return where % ('multi-label', N, W, hist[-10:]) + 'last %s/%s samples %d' % (lt, lp, o.n_samples)
        return None
    o = WindowClassificationPerformanceEvaluator(n_classes=N, window_size=W) if W else ClassificationPerformanceEvaluator(n_classes=N)
    hist, seen, last = [], set(), 0
    for i, r in enumerate(case['results']):
        t, p = r[:2]
        w = r[2] if len(r) > 2 else 1.0
        if case['reset'] and i and i % case['reset'] == 0:
            o.reset()
            hist, seen, last = [], set(), 0
            if o.n_samples or o.accuracy_score() or o.kappa_score() or o.confusion_matrix.n_classes != N or o.get_last() != (0, 0):
                return 'reset: %s' % o.get_info()
        if len(r) > 2:
            o.add_result(t, p, w)
        else:
            o.add_result(t, p)
        if w > 0:
            seen |= {t, p}
        if W and len(hist) == W:
            if hist[0][2] == 0:
                seen |= {hist[0][0], hist[0][1]}
            hist = hist[1:]
        cls = sorted(set(range(N)) | seen)
        row = {c: sum(x[2] for x in hist if x[0] == c) + (w if c == t else 0) for c in cls}
        major = max(cls, key=lambda c: (row[c], -c))
        if case.get('weighted'):
            hist.append((t, p, w, 0, 0))
            ent = {}
            for x in hist:
                ent[x[0], x[1]] = ent.get((x[0], x[1]), 0) + x[2]
            for k, v in ent.items():
                if not near(o.confusion_matrix[k], v):
                    return where % ('single', N, W, hist[-10:]) + 'entry %s %r, weights sum to %r' % (k, o.confusion_matrix[k], v)
            if case.get('finding') and i + 1 == len(case['results']):
                acc = sum(x[2] for x in hist if x[0] == x[1]) / sum(x[2] for x in hist)
                if not near(o.accuracy_score(), acc):
                    return '[weighted accuracy] accuracy_score() %r, weighted accuracy %r' % (o.accuracy_score(), acc)
            if W and not case['reset'] and i + 1 > W + 1:
                # only the window counts: the same scores from an evaluator that saw one result more than the window
                f = WindowClassificationPerformanceEvaluator(n_classes=N, window_size=W)
                for q in case['results'][i - W:i + 1]:
                    f.add_result(*q)
                for k in ('accuracy_score', 'kappa_score', 'kappa_t_score'):
                    a, b = getattr(o, k)(), getattr(f, k)()
                    if not (near(a, b) or abs(a - b) < 1e-6):
                        return where % ('single', N, W, case['results'][:i + 1]) + '%s() %r depends on results outside the window (%r from the window alone)' % (k, a, b)
            last = t
            if o.get_last() != (t, p) or o.n_samples != len(hist):
                return where % ('single', N, W, hist[-10:]) + 'last %s samples %d' % (o.get_last(), o.n_samples)
            continue
        hist.append((t, p, w, int(major == t), int(last == t)))
        last = t
        exp, cls, P, R, F1, cnt = ref_mc([(x[0], x[1]) for x in hist], N, dict(seen=seen, sum=sum(x[3] for x in hist)), sum(x[4] for x in hist))
        h = where % ('single', N, W, [x[:2] for x in hist[-12:]])
        for k, v in exp.items():
            g = getattr(o, k)()
            if not near(g, v):
                return h + '%s() %r, expected %r' % (k, g, v)
        for c in cls:
            for k, d in (('precision_score', P), ('recall_score', R), ('f1_score', F1)):
                g = getattr(o, k)(c)
                if not near(g, d[c]):
                    return h + '%s(%d) %r, expected %r' % (k, c, g, d[c])
        for k, v in cnt.items():
            if not near(o.confusion_matrix[k], v):
                return h + 'entry %s %r, expected %r' % (k, o.confusion_matrix[k], v)
        if o.get_last() != (t, p) or o.n_samples != len(hist) or o.confusion_matrix.shape != (len(cls), len(cls)):
            return h + 'last %s samples %d shape %s' % (o.get_last(), o.n_samples, o.confusion_matrix.shape)
        if not W and o.total_weight_observed != len(hist):
            return h + 'total weight %r' % o.total_weight_observed
    return None
