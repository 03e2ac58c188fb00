"""C22: streaming random patches."""
import itertools
import math
import numpy as np
from pv import sym as S
from pv.sym import eq, and_, or_, not_, implies, ite, Sym, Unsupported
from pv.vm import PathEnd, PyRaise
from props.learnmodel import fn, arr, same, matrix
from props.ensmodel import Detectors
from props.forestmodel import Base, Evaluator, Poisson, flat, cloning

ID = 'C22'
BUDGET = 20
MAX_CASES = 300
F = 'meta/streaming_random_patches.py'
ADW = 'drift_detection/adwin.py'
ASSUME = ['base classifiers: partial_fit, predict, predict_proba, reset and clone, answers a function of what they were taught and of the row; detectors and evaluators follow their contracts (C04, C05)',
          'numpy RandomState draws lie in their documented ranges', 'real arithmetic']
BOUNDED = ['up to 2 learners, 2 rows per call, 3 features and 3 classes in the step and vote proofs (all values, weights, draws, answers and signals symbolic); 1..9 features for the subspaces']
METHODS = ('randomsubspaces', 'randompatches', 'resampling')


def make(vm, M, method, drift=True, bg=True, nominal=False, widths=(2,), d=3, ordered=True, **kw):
    fam, evals = [], []
    base = Base(vm, fam, nominal, widths)

    def ev(vm, s, a, k):
        evals.append(Evaluator(vm))
        return evals[-1]
    vm.contracts['metrics/_classification_performance_evaluator.pyx:ClassificationPerformanceEvaluator'] = ev
    cloning(vm)
    det = Detectors(vm, signals=False)
    po = Poisson(vm)
    if ordered:
        vm.hooks['ext']['numpy.random.RandomState.shuffle'] = lambda vm, o, x: None
    adw = vm.cls(ADW, 'ADWIN')
    D, W = vm.new(adw, delta=0.5), vm.new(adw, delta=0.25)
    kw.setdefault('subspace_mode', 'm')
    kw.setdefault('subspace_size', 2)
    kw.setdefault('lam', vm.inp('lambda', 'real', 0))
    o = vm.new(vm.cls(F, 'StreamingRandomPatchesClassifier'), base_estimator=base, n_estimators=M, training_method=method, drift_detection_method=D, warning_detection_method=W,
               disable_drift_detection=not drift, disable_background_learner=not bg, random_state=1, **kw)
    z = vm.method(o, 'predict', arr(vm, 1, d, name='f'))
    vm.prove('label 0 before training', len(z) == 1 and vm.truth(eq(z[0], 0)))
    e = list(vm.getattr(o, 'ensemble'))
    vm.prove('n_estimators learners', len(e) == M)
    vm.prove('each with a clone of the base estimator, untrained', len({id(vm.getattr(m, 'base_estimator')) for m in e}) == M and all(vm.getattr(m, 'base_estimator') is not base and not vm.getattr(m, 'base_estimator').told for m in e))
    po.idle = False
    det.signals = True
    return o, e, base, fam, det, po, D, W


def parts(vm, m):
    g = lambda n: vm.getattr(m, n)
    f = g('feature_indexes')
    return dict(tree=g('base_estimator'), ev=g('performance_evaluator'), D=g('drift_detection_method'), W=g('warning_detection_method'), bg=g('_background_learner'), f=None if f is None else [int(v) for v in f], created=g('created_on'))


def view(p, x):
    return list(x) if p['f'] is None else [x[i] for i in p['f']]


def remap(f, nom):
    if not nom:
        return None
    r = [i for i, j in enumerate(f) if j in nom] if f is not None else list(nom)
    return r or None


def lesson(vm, t, x, y, w, classes, what=''):
    how, a = t
    vm.prove('a row is learnt on the features of the learner' + what, how == 'partial_fit' and same(matrix(a['X']), [list(x)]))
    vm.prove('with its label' + what, same(flat(a['y']), [y]))
    vm.prove('weighted by the draw and its own weight' + what, a.get('sample_weight') is not None and same(flat(a['sample_weight']), [w]))
    c = a.get('classes')
    vm.prove('knowing the classes' + what, c is not None and sorted(int(v) for v in flat(c)) == list(classes))


def subset(vm, f, old, d):
    got = [int(v) for _, kind, v in vm.ghost.get('draws', []) if kind == 'choice']
    vm.prove('features drawn anew', f is None or any(got[i:i + len(f)] == list(f) for i in range(len(got) - len(f) + 1)))
    vm.prove('as many features as before, all different', (f is None) == (old is None) and (f is None or (len(f) == len(old) and len(set(f)) == len(f) and all(0 <= i < d for i in f))))


def fresh_det(vm, det, new, old, user):
    vm.prove('a detector of its own with the same parameters that heard nothing', new is not None and all(new is not q for q in old + [user]) and not det.of(new).events and vm.getattr(new, 'delta') == vm.getattr(user, 'delta'))


def u_row(method, drift, bg, has, M=1, nominal=False, d=3):
    """one row after any history"""
    def u(vm):
        nom = [0, 2] if nominal else None
        o, e, base, fam, det, po, D, W = make(vm, M, method, drift, bg, nominal=nominal, d=d, **({} if nom is None else dict(nominal_attributes=vm.born(list(nom)))))
        seen = vm.inp('seen', 'int', 0)
        vm.setattr(o, '_n_samples_seen', seen)
        x, y = arr(vm, 1, d), vm.inp('y', 'int', 0, 1)
        if has:                                     # a background learner, as a warning makes it
            for m in e:
                vm.method(m, '_trigger_warning', d, vm.inp('born', 'int', 0), vm.getattr(o, '_random_state'))
        vm.ghost['draws'] = []
        olds = [parts(vm, m) for m in e]
        pre = []
        for p in olds:
            q = dict(recD=det.of(p['D']), recW=det.of(p['W']), b=None if p['bg'] is None else parts(vm, p['bg']))
            for r in (q['recD'], q['recW']):
                r.events, r.asked = [], []
            p['ev'].heard.clear()
            p['tree'].asked.clear()
            pre.append(q)
        sw = None
        kw = {}
        if vm.choose(2) if not nominal else 0:
            sw = vm.inp('w', 'real', 0)
            kw['sample_weight'] = vm.born(np.array([sw], dtype=object))
        Y = np.empty(1, dtype=object)
        Y[0] = y
        rD, rW = det.of(D), det.of(W)
        keep = x.copy()
        r = vm.method(o, 'partial_fit', x, vm.born(Y), classes=vm.born([0, 1]), **kw)
        vm.prove('returns itself', r is o)
        vm.prove('the same learners', len(vm.getattr(o, 'ensemble')) == M and all(a is b for a, b in zip(e, vm.getattr(o, 'ensemble'))))
        n = seen + 1
        draws = method != 'randomsubspaces'
        vm.prove('one draw with lambda for every learner, none without resampling', len(po.got) == (M if draws else 0) and vm.truth(and_(*[eq(g[0], vm.getattr(o, 'lam')) for g in po.got] or [True])))
        for i, m in enumerate(e):
            old, q, new = olds[i], pre[i], parts(vm, m)
            t, wt = old['tree'], (1 if sw is None else sw)
            v = view(old, x[0])
            h = old['ev'].heard
            p = t.probs(v, 0)
            drifted = bool(q['recD'].asked and q['recD'].asked[-1])
            judged = [a for a in t.asked if a[1] == 0]
            vm.prove('every learner is asked before it learns', len(judged) >= 1)
            if not drifted:
                vm.prove('and judged once', len(h) == 1)
                vm.prove('by its most probable class, the label and the weight', and_(eq(h[0][0], y), eq(h[0][2], wt), *[implies(eq(h[0][1], c), and_(*[p[c] >= z for z in p])) for c in range(len(p))], h[0][1] >= 0, h[0][1] < len(p)))
            k = po.got[i][1] if draws else 1
            if not vm.truth(k > 0):
                vm.prove('a learner that was not drawn stays', all(new[a] is old[a] for a in ('tree', 'ev', 'D', 'W', 'bg')) and not t.told and new['f'] == old['f'])
                continue
            vm.prove('a drawn row is learnt once', len([1 for g, _ in t.told if g == 'partial_fit']) == 1)
            lesson(vm, t.told[0], v, y, k * wt, [0, 1])
            vm.prove('with the nominal attributes among its features', t.told[0][1]['nominal'] == remap(old['f'], nom))
            if q['b'] is not None:
                b = q['b']
                told = [g for g in b['tree'].told if g[0] == 'partial_fit']
                vm.prove('the background learner learns it once', len(told) == 1 and b['tree'].told[-1] is told[0])
                lesson(vm, told[0], view(b, x[0]), y, k * wt, [0, 1], ' (background)')
                vm.prove('with the nominal attributes among its features (background)', told[0][1]['nominal'] == remap(b['f'], nom))
                vm.prove('background detectors hear nothing', not det.of(b['D']).events and not det.of(b['W']).events)
            if not drift:
                vm.prove('without drift detection a learner never changes', all(new[a] is old[a] for a in ('tree', 'ev', 'bg')) and new['f'] == old['f'] and not q['recD'].events)
                continue
            err = ite(eq(t.row(v, 1), y), 0, 1)
            warned = False
            if bg:
                r = q['recW']
                vm.prove('the warning detector hears the error', len(r.events) == 1 and vm.truth(eq(r.events[0], err)) and bool(r.asked))
                warned = r.asked[-1]
            else:
                vm.prove('no warnings without background learners', not q['recW'].events)
            r = q['recD']
            vm.prove('the drift detector hears the error', len(r.events) == 1 and vm.truth(eq(r.events[0], err)) and bool(r.asked))
            kids = [z for z in fam if z.born_of is t and (q['b'] is None or z is not q['b']['tree'])]
            vm.prove('a new background learner exactly after a warning', len(kids) == (1 if warned else 0))
            if not drifted:
                vm.prove('no drift: the learner stays', all(new[a] is old[a] for a in ('tree', 'ev', 'D')) and new['f'] == old['f'] and len(t.told) == 1)
                if warned:
                    b = parts(vm, new['bg'])
                    vm.prove('a warning starts a background learner', new['bg'] is not old['bg'] and b['tree'] is kids[0])
                    vm.prove('untrained, unjudged', all(g == 'reset' for g, _ in b['tree'].told) and b['ev'] is not old['ev'] and not b['ev'].heard and b['bg'] is None)
                    subset(vm, b['f'], old['f'], d)
                    fresh_det(vm, det, b['D'], [old['D'], old['W']], D)
                    fresh_det(vm, det, b['W'], [old['D'], old['W'], new['W']], W)
                    fresh_det(vm, det, new['W'], [old['W']], W)
                    vm.prove('its age', eq(b['created'], n))
                else:
                    vm.prove('no warning: the background learner stays', new['bg'] is old['bg'] and new['W'] is old['W'])
                continue
            vm.prove('no background learner after a drift', new['bg'] is None)
            vm.prove('the evaluation starts again', not new['ev'].heard)
            if warned or q['b'] is not None:
                vm.prove('the background learner takes over', new['tree'] is (kids[0] if warned else q['b']['tree']))
                if not warned:
                    vm.prove('with its features and detectors', new['f'] == q['b']['f'] and new['D'] is q['b']['D'] and new['W'] is q['b']['W'])
                else:
                    subset(vm, new['f'], old['f'], d)
                    fresh_det(vm, det, new['D'], [old['D']], D)
                    fresh_det(vm, det, new['W'], [old['W']], W)
                vm.prove('its age', eq(new['created'], n if warned else q['b']['created']))
                vm.prove('its lessons', [g for g, _ in new['tree'].told if g == 'partial_fit'] == ([] if warned else ['partial_fit']))
            else:
                vm.prove('without a background learner it starts again', new['tree'] is t and len(t.told) == 2 and t.told[1][0] == 'reset')
                subset(vm, new['f'], old['f'], d)
                fresh_det(vm, det, new['D'], [old['D']], D)
                vm.prove('its age', eq(new['created'], n))
            if nominal:                             # the next lesson
                tt, f2 = new['tree'], new['f']
                was = len(tt.told)
                det.signals = False
                vm.method(m, 'partial_fit', X=x, y=vm.born(Y), classes=vm.born([0, 1]), sample_weight=vm.born(np.array([1.0])), n_samples_seen=n + 1, random_state=vm.getattr(o, '_random_state'))
                vm.prove('the next lesson has the nominal attributes among its features', len(tt.told) == was + 1 and tt.told[-1][1]['nominal'] == remap(f2, nom))
                det.signals = True
        vm.prove('the detectors given by the user hear nothing', det.of(D) is rD and not rD.events and det.of(W) is rW and not rW.events)
        vm.prove('arguments untouched', all(a is b for a, b in zip(keep.flat, x.flat)))
        vm.prove('the base estimator is never trained', all(g == 'reset' for g, _ in base.told))
    return u


def u_batch(method):
    def u(vm):
        o, e, base, fam, det, po, D, W = make(vm, 1, method, drift=False)
        X = arr(vm, 2, 3)
        ws = arr(vm, 2, lo=0, name='w') if vm.choose(2) else None
        y = vm.born(np.array([1, 0]))
        vm.method(o, 'partial_fit', X, y, classes=vm.born([0, 1]), **({} if ws is None else dict(sample_weight=ws)))
        p = parts(vm, e[0])
        t, pos = p['tree'], 0
        for j in range(2):
            k = 1 if method == 'randomsubspaces' else po.got[j][1]
            if vm.truth(k > 0):
                vm.prove('the drawn rows in order', pos < len(t.told))
                lesson(vm, t.told[pos], view(p, X[j]), int(y[j]), k * (1 if ws is None else ws[j]), [0, 1])
                pos += 1
        vm.prove('no other lesson', pos == len(t.told))
        vm.prove('judged on every row', len(p['ev'].heard) == 2)
        vm.prove('reset returns itself', vm.method(o, 'reset') is o)
        vm.prove('reset drops the learners', vm.getattr(o, 'ensemble') is None)
        z = vm.method(o, 'predict_proba', X)
        vm.prove('zeros afterwards', and_(*[eq(v, 0) for v in flat(z)]))
        vm.prove('new learners then', len(vm.getattr(o, 'ensemble')) == 1 and parts(vm, vm.getattr(o, 'ensemble')[0])['tree'] is not t)
    return u


def size(mode, k, n):
    """number of features per learner (n: all of them)"""
    if mode == 'sqrtM1':
        k = int(np.round(math.sqrt(n)) + 1)
    elif mode == 'MsqrtM1':
        k = n - int(np.round(math.sqrt(n)) + 1)
    elif mode == 'percentage':
        q = (100.0 + k) / 100.0 if k < 0 else k / 100.0
        k = int(np.round(n * q))
        k = k + 1 if k < 2 else k
    if k < 0:
        k += n
    if k == 0 or k >= n:
        return n
    return 2 if k == 1 and n > 2 else k


def u_spaces(mode, n):
    """every learner has a subspace of the size asked for; subspaces repeat only when they run out"""
    def u(vm):
        M = 4
        for k in ((2,) if 'M1' in mode else (1, 2, 3, 5, -1, -2) if mode == 'm' else (10, 30, 60, 100, -40)):
            if mode == 'm' and k + n < 0:
                continue                            # not a number of features
            method = METHODS[:2][k % 2]
            o, e, base, fam, det, po, D, W = make(vm, M, method, d=n, subspace_mode=mode, subspace_size=k)
            want = size(mode, k, n)
            fs = [parts(vm, m)['f'] for m in e]
            if want == n:
                vm.prove('all features (%s %d of %d)' % (mode, k, n), all(f is None or sorted(f) == list(range(n)) for f in fs))
                continue
            vm.prove('%d features each (%s %d of %d)' % (want, mode, k, n), all(f is not None and len(f) == want and len(set(f)) == want and all(0 <= i < n for i in f) for f in fs))
            if n <= 20:
                vm.prove('different subspaces while there are (%s %d of %d)' % (mode, k, n), len({tuple(sorted(f)) for f in fs}) == min(M, math.comb(n, want)))
    return u


def u_shuffled(vm):
    o, e, base, fam, det, po, D, W = make(vm, 3, 'randompatches', d=3, ordered=False)
    fs = sorted(tuple(sorted(parts(vm, m)['f'])) for m in e)
    vm.prove('in any order', fs == [(0, 1), (0, 2), (1, 2)])


def u_many(vm):
    """more than 20 features: random subspaces"""
    n = 22
    vm.hooks.setdefault('ext', {})['numpy.random.RandomState.choice'] = pick
    o, e, base, fam, det, po, D, W = make(vm, 3, 'randomsubspaces', d=n, subspace_size=2)
    for m in e:
        f = parts(vm, m)['f']
        vm.prove('two features drawn', len(f) == 2 and len(set(f)) == 2 and f in [list(v) for v in vm.ghost['picked']])


def pick(vm, o, a, size=None, replace=True, p=None):
    vm.prove('drawn without repetition', replace is False and p is None and not isinstance(size, tuple))
    a = list(range(a)) if isinstance(a, int) else [int(v) for v in a]
    i = vm.choose(3)
    r = [a[(i * 7 + j) % len(a)] for j in range(int(size))]
    vm.ghost.setdefault('picked', []).append(r)
    return vm.born(np.array(r))


def u_combos(vm):
    for n in range(1, 7):
        for k in range(0, n + 1):
            r = vm.call(vm.cls(F, 'get_all_k_combinations'), [k, n], {})
            got = sorted(tuple(int(v) for v in c) for c in r)
            vm.prove('all %d of %d' % (k, n), got == sorted(itertools.combinations(range(n), k)))


def u_proba(M, weighted, widths=(2, 3)):
    def u(vm):
        o, e, base, fam, det, po, D, W = make(vm, M, 'randompatches', widths=widths, disable_weighted_vote=not weighted)
        X = arr(vm, 1, 3)
        total, width = [0, 0, 0], 1
        any_ = False
        for m in e:
            p = parts(vm, m)
            p['ev'].acc = vm.inp('acc', 'real', 0)
            v = p['tree'].probs(view(p, X[0]))
            s = 0
            for q in v:
                s = s + q
            if M > 1:
                vm.assume(or_(eq(s, 1), eq(s, 0)))
                if vm.truth(s > 0):
                    s = 1
            if vm.truth(s > 0) if isinstance(s, Sym) else s > 0:
                any_ = True
                w = ite(p['ev'].acc > 0, p['ev'].acc, 1) if weighted else 1
                for c in range(len(v)):
                    total[c] = total[c] + S.div(v[c], s) * w
                width = max(width, len(v))
        P = vm.method(o, 'predict_proba', X)
        vm.prove('a column per class', P.shape == (1, width))
        T = total[0] + total[1] + total[2]
        for c in range(width):
            vm.prove('class %d: normalised votes weighted by accuracy' % c, eq(P[0, c] * T, total[c]) if any_ else eq(P[0, c], 0))
        vm.prove('probabilities', and_(*[P[0, c] >= 0 for c in range(width)], eq(sum(P[0, c] for c in range(1, width)) + P[0, 0], 1 if any_ else 0)))
        y = vm.method(o, 'predict', X)
        vm.prove('the most probable class', and_(len(y) == 1, y[0] >= 0, y[0] < width, *[implies(eq(y[0], c), and_(*[P[0, c] >= P[0, q] for q in range(width)])) for c in range(width)]))
        vm.prove('predicting teaches nothing', all(not t.told for t in fam[1:]))
    return u


def u_rows(vm):
    o, e, base, fam, det, po, D, W = make(vm, 1, 'resampling', widths=(1, 3), disable_weighted_vote=True)
    X = arr(vm, 2, 3)
    t = parts(vm, e[0])['tree']
    V = [t.probs(list(x)) for x in X]
    for v in V:
        vm.assume(eq(v[0] if len(v) == 1 else v[0] + v[1] + v[2], 1))
    P = vm.method(o, 'predict_proba', X)
    width = max(len(v) for v in V)
    vm.prove('a row per sample, a column per class', P.shape == (2, width))
    for j in range(2):
        vm.prove('row %d' % j, and_(*[eq(P[j, c], V[j][c] if c < len(V[j]) else 0) for c in range(width)]))
    vm.prove('a label per sample', len(vm.method(o, 'predict', X)) == 2)


def u_bad(vm):
    for kw in (dict(subspace_mode='x'), dict(training_method='boosting')):
        try:
            vm.new(vm.cls(F, 'StreamingRandomPatchesClassifier'), base_estimator=Base(vm, []), **kw)
            vm.prove('%s refused' % list(kw)[0], False)
        except PyRaise as ex:
            vm.prove('%s refused' % list(kw)[0], ex.name == 'ValueError')


UNITS = []
for me in METHODS:
    for dr, b, has in ((False, True, False), (True, False, False), (True, True, False), (True, True, True)):
        UNITS.append(('row %s drift=%s background=%s/%s' % (me, dr, b, has), u_row(me, dr, b, has)))
    UNITS.append(('batch ' + me, u_batch(me)))
UNITS += [('row nominal %s %s/%s' % (me, b, h), u_row(me, True, b, h, nominal=True)) for me in ('randomsubspaces', 'resampling') for b, h in ((True, False), (True, True), (False, False))]
UNITS += [('row two learners', u_row('randompatches', True, False, False, M=2, d=2))]
UNITS += [('subspaces %s of %d' % (m, n), u_spaces(m, n)) for m in ('m', 'sqrtM1', 'MsqrtM1', 'percentage') for n in (1, 2, 3, 4, 6, 9)]
UNITS += [('subspaces shuffled', u_shuffled), ('subspaces of many', u_many), ('combinations', u_combos)]
UNITS += [('proba M%d weighted=%s' % a[:2], u_proba(*a)) for a in ((1, True), (1, False), (2, True, (1, 2)), (2, False))] + [('rows', u_rows), ('parameters', u_bad)]

from props.c22run import cases, run_case    # noqa: E402,F401
