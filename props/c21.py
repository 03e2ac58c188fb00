"""C21: adaptive random forests."""
import math
import numpy as np
from pv import sym as S
from pv.sym import eq, and_, or_, not_, implies, ite, Sym, Unsupported
from pv.vm import PathEnd, PyRaise, Ext
from props.learnmodel import fn, arr, same, matrix
from props.ensmodel import Detectors
from props.forestmodel import Tree, Evaluator, Poisson, World, flat

ID = 'C21'
BUDGET = 22
MAX_CASES = 400
CF, RF = 'meta/adaptive_random_forests.py', 'meta/adaptive_random_forest_regressor.py'
FOREST = {'c': (CF, 'AdaptiveRandomForestClassifier'), 'r': (RF, 'AdaptiveRandomForestRegressor')}
BASE = {'c': (CF, 'ARFBaseLearner'), 'r': (RF, 'ARFRegBaseLearner')}
TREE = {'c': 'classifier', 'r': 'estimator'}
ADW = 'drift_detection/adwin.py'
ASSUME = ['the trees of the forest, their evaluators and detectors follow their contracts (C12, C13, C05, C06, C04)',
          'numpy RandomState draws lie in their documented ranges and are a function of the seed and the calls made', 'real arithmetic']
BOUNDED = ['up to 3 trees, 2 rows per call, 3 features and 3 classes (all values, weights, draws, answers, votes and signals symbolic)']


def forest(vm, kind, M, drift=True, warn=True, nclass=2, **kw):
    """a forest whose trees exist; nobody trained yet"""
    w = World(vm, kind, nclass)
    det = Detectors(vm, signals=False)
    po = Poisson(vm)
    adw = vm.cls(ADW, 'ADWIN')
    D, W = (vm.new(adw, delta=0.5) if drift else None), (vm.new(adw, delta=0.25) if warn else None)
    o = vm.new(vm.cls(*FOREST[kind]), n_estimators=M, random_state=1, drift_detection_method=D, warning_detection_method=W, **kw)
    X = arr(vm, 1, 2, name='f')
    kk = dict(classes=vm.born(list(range(nclass)))) if kind == 'c' else {}
    vm.method(o, 'partial_fit', X, vm.born(np.array([0])), **kk)
    e = list(vm.getattr(o, 'ensemble'))
    vm.prove('n_estimators members, each with its own tree', len(e) == M and len({id(vm.getattr(m, TREE[kind])) for m in e}) == M)
    vm.prove('nobody drawn, nobody trained', all(not t.told for t in w.fam))
    for m in e:
        vm.getattr(m, 'evaluator').heard.clear()
        vm.getattr(m, TREE[kind]).asked.clear()
    po.idle = False
    det.signals = True
    return o, e, w, det, po, D, W


def parts(vm, kind, m):
    g = lambda n: vm.getattr(m, n)
    return dict(tree=g(TREE[kind]), ev=g('evaluator'), D=g('drift_detection'), W=g('warning_detection'), bg=g('background_learner'), created=g('created_on'))


def background(vm, kind, o, m, D, W):
    """a background learner as a warning leaves it"""
    t = vm.getattr(m, TREE[kind])
    kw = dict(index_original=0, instances_seen=vm.inp('born', 'int', 0), drift_detection_method=D, warning_detection_method=W, is_background_learner=True)
    kw[TREE[kind]] = t.child()
    if kind == 'r':
        kw.update(performance_metric=vm.getattr(o, 'weighted_vote_strategy'), drift_detection_criteria=vm.getattr(o, 'drift_detection_criteria'))
    b = vm.new(vm.cls(*BASE[kind]), **kw)
    vm.setattr(m, 'background_learner', b)
    return b


def lesson(vm, t, x, y, w, classes=None, what=''):
    how, a = t
    vm.prove('a drawn row is learnt' + what, how == 'partial_fit' and same(matrix(a['X']), [list(x)]))
    vm.prove('with its label' + what, same(flat(a['y']), [y]))
    vm.prove('weighted by the draw and its own weight' + what, a.get('sample_weight') is not None and same(flat(a['sample_weight']), [w]))
    if classes is not None:
        c = a.get('classes')
        vm.prove('knowing the classes' + what, c is not None and sorted(int(v) for v in flat(c)) == sorted(classes))


def scale(vm, st, x):
    """the standardised drift input and the new (k, mean, S)"""
    k, mean, s2 = st
    k = k + 1
    if k == 1:
        return 0.0, (1, x, 0)
    m2 = mean + S.div(x - mean, k)
    q = s2 + (x - mean) * (x - m2)
    v = S.div(q, k - 1)
    sd = vm.call(Ext('math.sqrt'), [v], {}) if isinstance(v, Sym) else math.sqrt(v)
    return (S.div(S.div(x - m2, sd) + 3, 6) if vm.truth(sd > 0) else 0.5), (k, m2, q)


def member(vm, kind, o, m, old, det, x, y, k, w, seen, D, W, classes, crit, pre):
    """what one member does with a row drawn k times"""
    t, bg = old['tree'], old['bg']
    new = parts(vm, kind, m)
    wt = k if w is None else k * w
    if not vm.truth(k > 0):
        vm.prove('a member that was not drawn stays', all(new[n] is old[n] for n in ('tree', 'ev', 'D', 'W', 'bg')) and not t.told)
        return
    said = t.row(x, 0)
    vm.prove('the tree learns a drawn row once', len([1 for h, _ in t.told if h == 'partial_fit']) == 1)
    lesson(vm, t.told[0], x, y, wt, classes)
    if bg is not None:
        bt = pre['bt']
        vm.prove('the background tree learns it as well', len(bt.told) == 1)
        lesson(vm, bt.told[0], x, y, wt, classes, ' (background)')
        if kind == 'r':
            h = pre['bev'].heard
            vm.prove('the evaluator of the background tree hears of its prediction', len(h) == 1 and vm.truth(and_(eq(h[0][0], y), eq(h[0][1], bt.row(x, 0)))))
    if old['D'] is None:
        vm.prove('without a detector a member never changes', all(new[n] is old[n] for n in ('tree', 'ev', 'bg')) and len(t.told) == 1)
        return
    if kind == 'c':
        fed = ite(eq(t.row(x, 1), y), 0, 1)
    else:
        d = y - said
        v = {'mse': d * d, 'mae': ite(d >= 0, d, -d), 'predictions': said}[crit]
        fed, _ = scale(vm, pre['scale'], v)
    nb, replaced = bg, False
    if old['W'] is not None:
        r = pre['recW']
        vm.prove('the warning detector hears the error', len(r.events) == 1 and vm.truth(eq(r.events[0], fed)))
        vm.prove('and is asked for a change', bool(r.asked))
        if r.asked[-1]:
            replaced = True
            vm.prove('a warning is counted', and_(eq(vm.getattr(m, 'last_warning_on'), seen), eq(vm.getattr(m, 'nb_warnings_detected' if kind == 'c' else 'n_warnings_detected'), pre['nw'] + 1)))
        else:
            vm.prove('no warning is counted', eq(vm.getattr(m, 'nb_warnings_detected' if kind == 'c' else 'n_warnings_detected'), pre['nw']))
    r = pre['recD']
    vm.prove('the drift detector hears the error', len(r.events) == 1 and vm.truth(eq(r.events[0], fed)))
    vm.prove('and is asked for a change', bool(r.asked))
    drift = r.asked[-1]
    vm.prove('drifts are counted', eq(vm.getattr(m, 'nb_drifts_detected' if kind == 'c' else 'n_drifts_detected'), pre['nd'] + (1 if drift else 0)))
    kids = [q for q in pre['fam']() if q.born_of is t and q is not pre.get('bt')]
    vm.prove('a new background tree exactly after a warning', len(kids) == (1 if replaced else 0))
    if not drift:
        vm.prove('no drift: tree, detector and evaluator stay', new['tree'] is t and new['D'] is old['D'] and new['ev'] is old['ev'] and len(t.told) == 1 and det.of(old['D']) is pre['recD'])
        if replaced:
            b = new['bg']
            vm.prove('a warning starts a background learner', b is not None and b is not bg and vm.getattr(b, TREE[kind]) is kids[0] and not kids[0].told)
            fresh_parts(vm, kind, b, det, old, D, W, seen)
            vm.prove('the warning detector starts again', new['W'] is old['W'] and det.of(old['W']) is not pre['recW'] and not det.of(old['W']).events)
        else:
            vm.prove('no warning: the background learner stays', new['bg'] is bg and new['W'] is old['W'])
        return
    vm.prove('the drift is dated', eq(vm.getattr(m, 'last_drift_on'), seen))
    vm.prove('no background learner after a drift', new['bg'] is None)
    if replaced:
        vm.prove('the new background tree takes over', new['tree'] is kids[0] and not kids[0].told)
        vm.prove('with detectors of its own', new['D'] is not old['D'] and new['W'] is not old['W'] and not det.of(new['D']).events and not det.of(new['W']).events)
        vm.prove('and an evaluator of its own', new['ev'] is not old['ev'] and not new['ev'].heard)
        vm.prove('its age', eq(new['created'], seen))
    elif bg is not None:
        vm.prove('the background tree takes over', new['tree'] is pre['bt'] and len(pre['bt'].told) == 1)
        vm.prove('with its detectors', new['D'] is pre['bD'] and new['W'] is pre['bW'])
        vm.prove('and an evaluator that knows nothing of the replaced tree', (new['ev'] is pre['bev']) if kind == 'r' else (new['ev'] is not old['ev'] and not new['ev'].heard))
        vm.prove('its age', eq(new['created'], pre['bborn']))
    else:
        vm.prove('without a background tree the tree starts again', new['tree'] is t and len(t.told) == 2 and t.told[1][0] == 'reset')
        vm.prove('the detector starts again', det.of(new['D']) is not pre['recD'] and not det.of(new['D']).events)
        vm.prove('a new evaluator', new['ev'] is not old['ev'] and not new['ev'].heard)
        vm.prove('its age', eq(new['created'], seen))
    if kind == 'r':
        vm.prove('the scale of the drift input starts again', eq(vm.getattr(m, '_k'), 0))


def fresh_parts(vm, kind, b, det, old, D, W, seen):
    p = parts(vm, kind, b)
    vm.prove('detectors of its own that heard nothing', p['D'] is not None and p['D'] is not old['D'] and p['D'] is not D and not det.of(p['D']).events and p['W'] is not old['W'] and p['W'] is not W and not det.of(p['W']).events)
    vm.prove('an evaluator of its own', p['ev'] is not old['ev'] and not p['ev'].heard)
    vm.prove('its age', eq(p['created'], seen))
    vm.prove('a background learner has no background learner', p['bg'] is None)


def u_row(kind, drift, warn, bg, M=1, crit='mse', later=False, weight=True):
    """one row after any history"""
    def u(vm):
        kw = dict(drift_detection_criteria=crit) if kind == 'r' else {}
        o, e, w, det, po, D, W = forest(vm, kind, M, drift, warn, lambda_value=vm.inp('lambda', 'real', 0), **kw)
        seen = vm.inp('seen', 'int', 1)
        vm.setattr(o, 'instances_seen', seen)
        olds, pres = [], []
        for m in e:
            b = background(vm, kind, o, m, D, W) if bg else None
            nd, nw = vm.inp('nd', 'int', 0), vm.inp('nw', 'int', 0)
            a, c = ('nb_drifts_detected', 'nb_warnings_detected') if kind == 'c' else ('n_drifts_detected', 'n_warnings_detected')
            vm.setattr(m, a, nd)
            vm.setattr(m, c, nw)
            st = (0, None, None)
            if kind == 'r' and later:
                st = (later, vm.inp('mean', 'real'), vm.inp('S', 'real', 0))
                for n, v in zip(('_k', '_pM', '_pS', '_M', '_S'), (st[0], st[1], st[2], st[1], st[2])):
                    vm.setattr(m, n, v)
            old = parts(vm, kind, m)
            pre = dict(nd=nd, nw=nw, scale=st, fam=lambda: w.fam, recD=det.of(old['D']) if drift else None, recW=det.of(old['W']) if warn else None)
            for r in (pre['recD'], pre['recW']):
                if r is not None:
                    r.events, r.asked = [], []
            if b is not None:
                p = parts(vm, kind, b)
                pre.update(bt=p['tree'], bev=p['ev'], bD=p['D'], bW=p['W'], bborn=p['created'])
            olds.append(old)
            pres.append(pre)
        x = arr(vm, 1, 2)
        y = vm.inp('y', 'int', 0, 1) if kind == 'c' else vm.inp('y', 'real')
        sw = vm.inp('w', 'real') if kind == 'c' and weight else None
        if sw is not None:
            vm.assume(sw > 0)
        keep = x.copy()
        Y = np.empty(1, dtype=object)
        Y[0] = y
        rD, rW = (det.of(d) if d is not None else None for d in (D, W))
        r = vm.method(o, 'partial_fit', x, vm.born(Y), **({} if sw is None else dict(sample_weight=vm.born(np.array([sw], dtype=object)))))
        vm.prove('returns itself', r is o)
        vm.prove('the same members', len(vm.getattr(o, 'ensemble')) == M and all(a is b for a, b in zip(e, vm.getattr(o, 'ensemble'))))
        vm.prove('a row is counted', eq(vm.getattr(o, 'instances_seen'), seen + 1))
        vm.prove('one draw with lambda for every member', len(po.got) == M and vm.truth(and_(*[eq(g[0], vm.getattr(o, 'lambda_value')) for g in po.got])) and all(g[2] is vm.getattr(o, '_random_state') for g in po.got))
        for i, m in enumerate(e):
            t, h = olds[i]['tree'], olds[i]['ev'].heard
            k = po.got[i][1]
            if kind == 'c':
                vm.prove('every member is judged before it learns', len(h) == 1 and len(t.asked) >= 1 and t.asked[0][1] == 0)
                said = t.row(list(x[0]), 0)
                vm.prove('by its own prediction, the label and the weight', and_(or_(and_(eq(h[0][0], y), eq(h[0][1], said)), and_(eq(h[0][1], y), eq(h[0][0], said))), eq(h[0][2], 1 if sw is None else sw)))
            elif vm.truth(k > 0):
                said = t.row(list(x[0]), 0)
                vm.prove('a drawn member is judged before it learns', len(h) == 1 and vm.truth(and_(eq(h[0][0], y), eq(h[0][1], said), eq(h[0][2], 1))))
            else:
                vm.prove('only drawn members are judged', not h)
            member(vm, kind, o, m, olds[i], det, list(x[0]), y, k, sw, seen + 1, D, W, [0, 1] if kind == 'c' else None, crit, pres[i])
        if D is not None:
            vm.prove('the detectors given by the user hear nothing', det.of(D) is rD and not rD.events and (W is None or (det.of(W) is rW and not rW.events)))
        vm.prove('arguments untouched', all(a is b for a, b in zip(keep.flat, x.flat)))
    return u


def u_batch(kind):
    """rows one after the other; rows of weight zero are skipped"""
    def u(vm):
        o, e, w, det, po, D, W = forest(vm, kind, 2, False, False)
        n0 = vm.getattr(o, 'instances_seen')
        X = arr(vm, 2, 2)
        y = vm.born(np.array([1, 0]))
        ws = None
        if kind == 'c' and vm.choose(2):
            ws = arr(vm, 2, lo=0, name='w')
            vm.assume(or_(*[v > 0 for v in ws]))        # (weights that are all zero are refused)
        vm.method(o, 'partial_fit', X, y, **({} if ws is None else dict(sample_weight=ws)))
        rows = [j for j in range(2) if ws is None or vm.truth(ws[j] > 0)]
        vm.prove('rows are counted', eq(vm.getattr(o, 'instances_seen'), n0 + len(rows)))
        vm.prove('a draw for every row and member', len(po.got) == 2 * len(rows))
        for i, m in enumerate(e):
            t = vm.getattr(m, TREE[kind])
            pos = 0
            for n, j in enumerate(rows):
                k = po.got[2 * n + i][1]
                if vm.truth(k > 0):
                    vm.prove('the drawn rows in order', pos < len(t.told))
                    lesson(vm, t.told[pos], X[j], int(y[j]), k if ws is None else k * ws[j], [0, 1] if kind == 'c' else None)
                    pos += 1
            vm.prove('no other lesson', pos == len(t.told))
            if kind == 'c':
                vm.prove('judged on every row', len(vm.getattr(m, 'evaluator').heard) == len(rows))
        vm.prove('no label, no lesson', vm.method(o, 'partial_fit', X, None) is o and len(po.got) == 2 * len(rows))
    return u


def u_first(kind):
    """the first row builds the trees with the parameters of the forest"""
    def u(vm):
        w = World(vm, kind)
        det = Detectors(vm, signals=False)
        po = Poisson(vm)
        adw = vm.cls(ADW, 'ADWIN')
        D, W = vm.new(adw, delta=0.5), vm.new(adw, delta=0.25)
        names = ['max_byte_size', 'memory_estimate_period', 'grace_period', 'split_confidence', 'tie_threshold', 'nominal_attributes', 'leaf_prediction']
        flags = ['binary_split', 'stop_mem_management', 'remove_poor_atts', 'no_preprune']
        names += ['nb_threshold', 'split_criterion'] if kind == 'c' else ['learning_ratio_perceptron', 'learning_ratio_decay', 'learning_ratio_const']
        given = {n: ['the value of ' + n] for n in names}
        f = vm.choose(len(flags))
        given.update({n: n == flags[f] for n in flags})
        M = 3
        o = vm.new(vm.cls(*FOREST[kind]), n_estimators=M, random_state=5, max_features=2, drift_detection_method=D, warning_detection_method=W, **given)
        X = arr(vm, 2, 3)
        how = vm.choose(2)
        if how:
            vm.method(o, 'predict', X) if kind == 'r' else vm.method(o, '_init_ensemble', X)
        else:
            vm.method(o, 'partial_fit', X, vm.born(np.array([0, 1])))
        e = list(vm.getattr(o, 'ensemble'))
        vm.prove('n_estimators members', len(e) == M and len(w.fam) == M)
        for i, m in enumerate(e):
            p = parts(vm, kind, m)
            vm.prove('member %d: a tree of its own' % i, p['tree'] is w.fam[i])
            for n in given:
                vm.prove('tree %d: %s' % (i, n), n in p['tree'].kw and (p['tree'].kw[n] is given[n] or p['tree'].kw[n] == given[n]))
            vm.prove('tree %d: max_features' % i, eq(p['tree'].kw['max_features'], 2))
            vm.prove('member %d: detectors and evaluator of its own' % i, p['D'] is not D and p['W'] is not W and p['D'] is not None and p['W'] is not None and vm.getattr(p['D'], 'delta') == 0.5 and vm.getattr(p['W'], 'delta') == 0.25)
            vm.prove('member %d: no background learner' % i, p['bg'] is None)
        vm.prove('nothing is shared', all(len({id(parts(vm, kind, m)[n]) for m in e}) == M for n in ('tree', 'D', 'W', 'ev')))
        vm.prove('trees are built once', (vm.method(o, 'partial_fit', X, vm.born(np.array([0, 1]))) is o) and len(w.fam) == M)
        vm.prove('reset returns self', vm.method(o, 'reset') is o)
        vm.prove('reset drops the trees', vm.getattr(o, 'ensemble') is None and eq(vm.getattr(o, 'instances_seen'), 0))
        if kind == 'c':
            vm.prove('and the classes', vm.getattr(o, 'classes') is None)
        vm.method(o, 'partial_fit', X, vm.born(np.array([0, 1])))
        vm.prove('new trees after a reset, with the same parameters', len(w.fam) == 2 * M and all(t.kw.get(n) is a.kw.get(n) or t.kw.get(n) == a.kw.get(n) for t, a in zip(w.fam[M:], w.fam[:M]) for n in list(given) + ['max_features'] + (['random_state'] if kind == 'c' else [])))
    return u


def u_features(kind, how):
    def u(vm):
        w = World(vm, kind)
        det = Detectors(vm, signals=False)
        o = vm.new(vm.cls(*FOREST[kind]), n_estimators=1, random_state=1)

        def ask(mf, n):
            vm.setattr(o, 'max_features', mf)
            vm.method(o, '_set_max_features', n)
            return vm.getattr(o, 'max_features')
        clip = lambda v, n: max(1, min(n, v))
        if how == 'names':
            for n in range(1, 65):
                for mf, want in (('auto', round(math.sqrt(n))), ('sqrt', round(math.sqrt(n))), ('log2', round(math.log2(n)))):
                    vm.prove('%s of %d features' % (mf, n), eq(ask(mf, n), clip(want, n)))
            return
        n = vm.inp('n', 'int', 1)
        if how == 'int':
            k = vm.inp('k', 'int')
            r = ask(k, n)
            v = ite(k < 0, k + n, k)
            vm.prove('a number of features, counted from the end if negative, within 1..n', eq(r, S.smin(n, S.smax(1, v))))
        elif how == 'none':
            vm.prove('all features', eq(ask(None, n), n))
        else:
            for q in (0.01, 0.2, 0.5, 0.75, 0.99, 1.0):
                for n in (1, 2, 3, 10, 99):
                    vm.prove('a share of the features', eq(ask(q, n), clip(int(q * n), n)))
    return u


def ballots(vm, M, labels):
    """arbitrary votes of a single tree; some votes of several trees (their performance is arbitrary)"""
    out = []
    for i in range(M):
        keys = [(), (0,), (1, 2), (0, 1, 2)][vm.choose(4)]
        if M == 1:
            out.append({c: vm.inp('v%d_%d' % (i, c), 'real', 0) for c in keys})
        else:
            z = len(keys) == 1 and vm.choose(2)
            out.append({c: 0 if z else (([1], [3, 5], [1, 2, 5]) if i else ([2], [1, 3], [2, 4, 2]))[len(keys) - 1][q] for q, c in enumerate(keys)})
    return out


def u_proba(M, known, metric, weighted):
    def u(vm):
        o, e, w, det, po, D, W = forest(vm, 'c', M, nclass=3, disable_weighted_vote=not weighted, performance_metric=metric)
        if not known:
            vm.setattr(o, 'classes', None)
        X = arr(vm, 1, 2)
        vs, perf = ballots(vm, M, (0, 1, 2)), []
        total = [0, 0, 0]
        for m, v in zip(e, vs):
            t, ev = vm.getattr(m, 'classifier'), vm.getattr(m, 'evaluator')
            t.ballot = lambda x, v=v: v
            ev.acc, ev.kappa = vm.inp('acc', 'real', 0), vm.inp('kappa', 'real')
            p = ev.acc if metric == 'acc' else ev.kappa
            s = 0
            for c in v:
                s = s + v[c]
            some = vm.truth(s > 0) if v else False
            if some:
                f = ite(p > 0, p, 1) if weighted else 1
                for c in v:
                    total[c] = total[c] + S.div(v[c], s) * f
                perf.append(set(v))
        P = vm.method(o, 'predict_proba', X)
        seen = set().union(*perf) if perf else set()
        width = 3 if known else (max(seen) + 1 if seen else 1)
        vm.prove('a column per class', P.shape == (1, width))
        all_ = total[0] + total[1] + total[2]
        for c in range(width):
            vm.prove('class %d: the mean of the normalised votes, weighted by the performance of the trees' % c, eq(P[0, c], S.div(total[c], all_) if perf else 0))
        vm.prove('probabilities', and_(*[P[0, c] >= 0 for c in range(width)], eq(sum(P[0, c] for c in range(1, width)) + P[0, 0], 1 if perf else 0)))
        y = vm.method(o, 'predict', X)
        vm.prove('one label', len(y) == 1)
        for c in range(width):
            vm.prove('the most voted class', implies(eq(y[0], c), and_(*[P[0, c] >= P[0, d] for d in range(width)])))
        vm.prove('a class with a column', and_(y[0] >= 0, y[0] < width))
        vm.prove('predicting teaches nothing', all(not t.told for t in w.fam) and len(w.fam) == M)
    return u


def u_rows(known):
    """each row of a batch on its own"""
    def u(vm):
        o, e, w, det, po, D, W = forest(vm, 'c', 1, nclass=3, disable_weighted_vote=True)
        if not known:
            vm.setattr(o, 'classes', None)
        X = arr(vm, 2, 1)
        B = [{}, {0: vm.inp('a', 'real', 0)}, {2: vm.inp('b', 'real', 0), 0: 0.0}]
        for v in (B[1][0], B[2][2]):
            vm.assume(v > 0)
        pick = [vm.choose(3), vm.choose(3)]
        t = vm.getattr(e[0], 'classifier')
        t.ballot = lambda x: B[pick[0 if x[0] is X[0, 0] else 1]]
        P = vm.method(o, 'predict_proba', X)
        width = 3 if known else max([3 if p == 2 else 1 for p in pick])
        vm.prove('a row per sample, a column per class', P.shape == (2, width))
        y = vm.method(o, 'predict', X)
        vm.prove('a label per sample', len(y) == 2)
        for j in range(2):
            want = [[0, 0, 0], [1, 0, 0], [0, 0, 1]][pick[j]]
            vm.prove('row %d' % j, and_(*[eq(P[j, c], want[c]) for c in range(width)]))
            vm.prove('label %d' % j, eq(y[j], 2 if pick[j] == 2 else 0))
    return u


def u_unborn(vm):
    """prediction before training"""
    w = World(vm, 'c')
    det = Detectors(vm, signals=False)
    o = vm.new(vm.cls(*FOREST['c']), n_estimators=2, random_state=1)
    orig = vm.contracts['trees/arf_hoeffding_tree.py:ARFHoeffdingTreeClassifier']

    def mk(vm, s, a, kw):
        t = orig(vm, s, a, kw)
        t.ballot = lambda x: {}
        return t
    vm.contracts['trees/arf_hoeffding_tree.py:ARFHoeffdingTreeClassifier'] = mk
    X = arr(vm, 2, 2)
    P = vm.method(o, 'predict_proba', X)
    vm.prove('no votes: zero probabilities', and_(P.shape == (2, 1), *[eq(v, 0) for v in P.flat]))
    vm.prove('label 0', and_(*[eq(v, 0) for v in vm.method(o, 'predict', X)]))


def u_mean(M, agg, strat):
    def u(vm):
        o, e, w, det, po, D, W = forest(vm, 'r', M, aggregation_method=agg, weighted_vote_strategy=strat)
        X = arr(vm, 2, 2)
        errs = []
        for m in e:
            ev = vm.getattr(m, 'evaluator')
            ev.mse, ev.mae = vm.inp('mse', 'real', 0), vm.inp('mae', 'real', 0)
            errs.append(ev.mse if strat == 'mse' else ev.mae)
        y = vm.method(o, 'predict', X)
        vm.prove('a value per sample', len(y) == 2)
        tot = 0
        for q in errs:
            tot = tot + q
        for j in range(2):
            g = [vm.getattr(m, 'estimator').row(list(X[j]), 0) for m in e]
            if agg == 'median':
                srt = lambda c: and_(S.iff(True, True), c)
                if M % 2:
                    vm.prove('sample %d: the median of the predictions' % j, and_(or_(*[eq(y[j], v) for v in g]), cnt([v <= y[j] for v in g]) * 2 >= M, cnt([v >= y[j] for v in g]) * 2 >= M))
                else:
                    vm.prove('sample %d: the median of two predictions' % j, eq(2 * y[j], g[0] + g[1]))
                continue
            s = 0
            for v in g:
                s = s + v
            want = S.div(s, M)
            if strat is not None and M > 1:
                if vm.truth(tot > 0):
                    want, W_ = 0, 0
                    for v, q in zip(g, errs):
                        want = want + (tot - q) * v
                        W_ = W_ + (tot - q)
                    vm.prove('sample %d: the mean weighted by the errors of the other trees' % j, eq(y[j] * W_, want))
                    continue
            vm.prove('sample %d: the mean of the predictions' % j, eq(y[j], want))
        vm.prove('predicting teaches nothing', all(not t.told for t in w.fam) and len(w.fam) == M)
    return u


def cnt(cs):
    n = 0
    for c in cs:
        n = n + ite(c, 1, 0)
    return n


def u_bad(vm):
    for kind, kw in (('c', dict(performance_metric='f1')), ('r', dict(weighted_vote_strategy='acc')), ('r', dict(aggregation_method='mode')), ('r', dict(drift_detection_criteria='acc'))):
        try:
            vm.new(vm.cls(*FOREST[kind]), **kw)
            vm.prove('%s refused' % list(kw)[0], False)
        except PyRaise as ex:
            vm.prove('%s refused' % list(kw)[0], ex.name == 'ValueError')


# ---------------------------------------------------------------- trees of the forest
NODES = {'c': 'trees/_nodes/arf_htc_nodes.py', 'r': 'trees/_nodes/arf_htr_nodes.py'}
TREES = {'c': ('trees/arf_hoeffding_tree.py', 'ARFHoeffdingTreeClassifier'), 'r': ('trees/arf_hoeffding_tree_regressor.py', 'ARFHoeffdingTreeRegressor')}
LEAF = {'c': {'mc': 'RandomActiveLearningNodeMC', 'nb': 'RandomActiveLearningNodeNB', 'nba': 'RandomActiveLearningNodeNBA'},
        'r': {'mean': 'RandomActiveLearningNodeMean', 'perceptron': 'RandomActiveLearningNodePerceptron'}}
OBS = ['nominal_attribute_class_observer', 'numeric_attribute_class_observer_gaussian', 'nominal_attribute_regression_observer', 'numeric_attribute_regression_observer']
OBSC = ['NominalAttributeClassObserver', 'NumericAttributeClassObserverGaussian', 'NominalAttributeRegressionObserver', 'NumericAttributeRegressionObserver']


class Obs:
    def __init__(self, sort):
        self.sort, self.heard = sort, []

    def pv_getattr(self, vm, name):
        if name == 'update':
            return fn(lambda *a: self.heard.append(a))
        raise Unsupported('observer.%s' % name)


class TreeStub:
    def __init__(self, nominal):
        self.nominal = nominal

    def pv_getattr(self, vm, name):
        if name == 'nominal_attributes':
            return self.nominal
        raise Unsupported('tree.%s' % name)


def u_leaf(kind, leaf, k):
    """a leaf watches the features it drew with its first sample, and no others"""
    def u(vm):
        made = []
        for f, c in zip(OBS, OBSC):
            def mk(vm, s, a, kw, c=c):
                made.append(Obs(c))
                return made[-1]
            vm.contracts['trees/_attribute_observer/%s.py:%s' % (f, c)] = mk
        n = 3
        lf = vm.new(vm.cls(NODES[kind], LEAF[kind][leaf]), {} if kind == 'c' else vm.born({0: 0, 1: 0, 2: 0}), max_features=k, random_state=vm.inp('seed', 'int', 0))
        tree = TreeStub([None, [1]][vm.choose(2)])
        X = arr(vm, 2, n)
        y, w = [vm.inp('y%d' % i, 'real') for i in range(2)], [vm.inp('w%d' % i, 'real', 0) for i in range(2)]
        for i in range(2):
            vm.method(lf, 'update_attribute_observers', X[i], y[i], w[i], tree)
            idx = [int(v) for v in vm.getattr(lf, 'feature_indices')]
            if i == 0:
                first = idx
                vm.prove('max_features different features are drawn', len(idx) == k and len(set(idx)) == k and all(0 <= j < n for j in idx))
                draws = [d for d in vm.ghost.get('draws', []) if d[1] == 'choice']
                vm.prove('from the generator of the leaf', len(draws) == k and all(d[0] is vm.getattr(lf, '_random_state') for d in draws) and sorted(d[2] for d in draws) == sorted(idx))
            else:
                vm.prove('drawn once in the life of the leaf', idx == first)
            obs = vm.getattr(lf, 'attribute_observers')
            vm.prove('an observer for each drawn feature', sorted(obs) == sorted(first) and len(made) == k)
            for j in first:
                vm.prove('feature %d: the right kind of observer' % j, ('Nominal' in obs[j].sort) == (tree.nominal is not None and j in tree.nominal) and ('Regression' in obs[j].sort) == (kind == 'r'))
                vm.prove('feature %d: sees its value, the label and the weight of every sample' % j, len(obs[j].heard) == i + 1 and vm.truth(and_(*[eq(a, b) for a, b in zip(obs[j].heard[i], (X[i][j], y[i], w[i]))])))
    return u


PAR = {'c': dict(max_byte_size=10, memory_estimate_period=20, grace_period=30, split_criterion='gini', split_confidence=0.5, tie_threshold=0.25, binary_split=True, stop_mem_management=True,
                 remove_poor_atts=True, no_preprune=True, leaf_prediction='nb', nb_threshold=7, nominal_attributes=None, max_features=2),
       'r': dict(max_byte_size=10, memory_estimate_period=20, grace_period=30, split_confidence=0.5, tie_threshold=0.25, binary_split=True, stop_mem_management=True,
                 remove_poor_atts=True, no_preprune=True, leaf_prediction='mean', learning_ratio_perceptron=0.5, learning_ratio_decay=0.25, learning_ratio_const=False, nominal_attributes=None, max_features=2)}


def u_tree(kind, leaf):
    """the trees hand their parameters to their leaves and to their successors"""
    def u(vm):
        kw = dict(PAR[kind], leaf_prediction=leaf, nominal_attributes=vm.born([1]))
        if vm.choose(2):
            for n, v in list(kw.items()):
                if isinstance(v, bool):
                    kw[n] = not v
        seed = vm.inp('seed', 'int', 0)
        o = vm.new(vm.cls(*TREES[kind]), random_state=seed, **kw)
        c = vm.method(o, 'new_instance')
        vm.prove('a tree of the same kind', c is not o and c.cls is o.cls)
        for n, v in kw.items():
            g = vm.getattr(c, n)
            vm.prove('a successor has the same %s' % n, g is v or g == v)
        vm.prove('and is untrained', vm.getattr(c, '_tree_root') is None and vm.getattr(o, '_tree_root') is None)
        for active in (True, False):
            init = vm.born({0: vm.inp('n0', 'real', 1), 1: vm.inp('n1', 'real', 0), 2: 0.0})
            lf = vm.method(o, '_new_learning_node', init, is_active=active)
            name = lf.cls.name
            if active:
                vm.prove('an active leaf of the kind asked for', name == LEAF[kind][leaf])
                vm.prove('with the number of features of the tree', vm.getattr(lf, 'max_features') == 2)
                vm.prove('that has drawn no features', len(vm.getattr(lf, 'feature_indices')) == 0 and len(vm.getattr(lf, 'attribute_observers')) == 0)
                if kind == 'c':
                    vm.prove('and draws from the generator of the tree', vm.getattr(lf, '_random_state') is vm.getattr(o, '_random_state'))
            else:
                vm.prove('an inactive leaf', 'Inactive' in name and (kind == 'c' or leaf.capitalize() in name))
            st = vm.getattr(lf, 'stats')
            vm.prove('starting from the statistics given', and_(*[eq(st[q], init[q]) for q in init]))
    return u


UNITS = []
for kind in 'cr':
    for d, wn in ((False, False), (False, True), (True, False), (True, True)):
        for b in ((False, True) if wn and d else (False,)):
            for lat in ((False,) if kind == 'c' else (False, 1, 4)):
                UNITS.append(('%s row drift=%s warning=%s background=%s%s' % (kind, d, wn, b, '' if kind == 'c' else ' k=%s' % (lat or 0)), u_row(kind, d, wn, b, later=lat)))
UNITS += [('c row without weights', u_row('c', True, True, True, weight=False)), ('c row M2', u_row('c', True, False, False, M=2)), ('r row M2', u_row('r', True, False, False, M=2))]
UNITS += [('r row %s' % c, u_row('r', True, True, True, crit=c, later=2)) for c in ('mae', 'predictions')]
UNITS += [('%s batch' % k, u_batch(k)) for k in 'cr'] + [('%s first' % k, u_first(k)) for k in 'cr']
UNITS += [('%s max_features %s' % (k, h), u_features(k, h)) for k in 'cr' for h in ('names', 'int', 'none', 'float')]
UNITS += [('proba M%d known=%s %s weighted=%s' % a, u_proba(*a)) for a in ((1, True, 'acc', True), (2, True, 'acc', True), (2, False, 'kappa', True), (2, True, 'acc', False), (2, False, 'acc', True))]
UNITS += [('rows known=%s' % k, u_rows(k)) for k in (True, False)] + [('untrained', u_unborn)]
UNITS += [('mean M%d %s %s' % a, u_mean(*a)) for a in ((1, 'mean', None), (3, 'mean', None), (1, 'mean', 'mse'), (2, 'mean', 'mse'), (3, 'mean', 'mae'), (2, 'median', None), (3, 'median', 'mse'))]
UNITS += [('parameters', u_bad)]
UNITS += [('%s leaf %s k%d' % (k, l, n), u_leaf(k, l, n)) for k in 'cr' for l in LEAF[k] for n in (1, 2, 3)]
UNITS += [('%s tree %s' % (k, l), u_tree(k, l)) for k in 'cr' for l in LEAF[k]]

from props.c21run import cases, run_case    # noqa: E402,F401
