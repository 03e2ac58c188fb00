"""C13: Hoeffding trees (classifier and regressor): routing, growth, leaf models, predictions."""
import math
import numpy as np
from pv import sym as S
from pv.sym import eq, and_, or_, not_, implies, ite, Sym, Unsupported
from pv.vm import PathEnd, PyRaise

ID = 'C13'
BUDGET = 30
MAX_CASES = 900
HT, HR = 'trees/hoeffding_tree.py', 'trees/hoeffding_tree_regressor.py'
NB, NC, NR = 'trees/_nodes/base.py', 'trees/_nodes/htc_nodes.py', 'trees/_nodes/htr_nodes.py'
T = 'trees/_attribute_test/'
ASSUME = ['class labels are non-negative integers, declared if classes are given', 'attribute observers and criteria keep the contracts of C12',
          'byte size estimates are arbitrary non-negative numbers']
BOUNDED = ['split attempts with up to 3 suggestions of arbitrary merit, plus the null split', 'trees of one split below arbitrary parents, 2..3 classes, 2 attributes',
           'whole trees (growth over many rows, deeper routing, descriptions): generated histories against a reference implementation']


def _fn(f):
    f.pv_model = True
    return f


def tot(xs):
    r = 0
    for x in xs:
        r = r + x
    return r


def ccls(vm):
    return vm.cls(HT, 'HoeffdingTreeClassifier')


def rcls(vm):
    return vm.cls(HR, 'HoeffdingTreeRegressor')


def numtest(vm, i, v=None):
    return vm.new(vm.cls(T + 'numeric_attribute_binary_test.py', 'NumericAttributeBinaryTest'), i, vm.inp('cut%d' % i, 'real') if v is None else v, True)


def suggestion(vm, test, dists, merit):
    return vm.new(vm.cls(T + 'attribute_split_suggestion.py', 'AttributeSplitSuggestion'), test, vm.born(dists), merit)


def leafstats(vm, reg, name='s'):
    if reg:
        return vm.born({0: vm.inp(name + '_n', 'real', 0), 1: vm.inp(name + '_y', 'real'), 2: vm.inp(name + '_yy', 'real', 0)})
    return vm.born({0: vm.inp(name + '_0', 'real', 0), 1: vm.inp(name + '_1', 'real', 0)})


def total(st, reg):
    return st[0] if reg else tot(st.values())


def mknode(vm, reg, st=None, active=True):
    st = leafstats(vm, reg) if st is None else st
    c = vm.cls(NR, 'ActiveLearningNodeMean' if active else 'InactiveLearningNodeMean') if reg else vm.cls(NC, 'ActiveLearningNodeMC' if active else 'InactiveLearningNodeMC')
    return vm.new(c, st)


def isa(vm, o, rel, name):
    c = getattr(o, 'cls', None)
    return c is not None and vm.cls(rel, name) in c.mro()


CRIT = {'gini': lambda k: 1, 'info_gain': lambda k: math.log2(max(2, k)), 'hellinger': lambda k: math.log2(max(2, k))}


def u_attempt(reg, k, crit, null, poor=False):
    def u(vm):
        vm.soft_uf = True
        conf, tie = vm.inp('confidence', 'real', 0, 1), vm.inp('tie', 'real', 0)
        vm.assume(and_(conf > 0, conf < 1))
        kw = dict(split_confidence=conf, tie_threshold=tie, remove_poor_atts=poor, no_preprune=not null, leaf_prediction='mean' if reg else 'mc')
        if not reg:
            kw['split_criterion'] = crit
        tree = vm.new(rcls(vm) if reg else ccls(vm), **kw)
        st = leafstats(vm, reg)
        n = total(st, reg)
        vm.assume(n > 0)
        node = mknode(vm, reg, st)
        under = vm.choose(2) == 1
        parent = None
        other = mknode(vm, reg, leafstats(vm, reg, 'o'))
        if under:
            parent = vm.new(vm.cls(NB, 'SplitNode'), numtest(vm, 0), leafstats(vm, reg, 'p'))
            vm.method(parent, 'set_child', 0, other)
            vm.method(parent, 'set_child', 1, node)
            vm.setattr(tree, '_tree_root', parent)
        else:
            vm.setattr(tree, '_tree_root', node)
        A, D, I = (vm.inp(x, 'int', lo) for x, lo in (('active', 1), ('decision', 0), ('inactive', 0)))
        vm.setattr(tree, '_active_leaf_node_cnt', A)
        vm.setattr(tree, '_decision_node_cnt', D)
        vm.setattr(tree, '_inactive_leaf_node_cnt', I)
        sugs = []
        if null:
            m = vm.inp('merit_null', 'real', *((0, 0) if reg else ()))
            sugs.append((suggestion(vm, None, [vm.born({})], m), None, m, []))
        for i in range(k):
            m = vm.inp('merit%d' % i, 'real', 0) if reg else vm.inp('merit%d' % i, 'real')
            ds = [leafstats(vm, reg, 'l%d' % i), leafstats(vm, reg, 'r%d' % i)]
            t = numtest(vm, i)
            sugs.append((suggestion(vm, t, ds, m), t, m, ds))
        vm.contract(NB, 'ActiveLeaf', 'get_best_split_suggestions', lambda vm, self, a, kw: vm.born([s[0] for s in sugs]))
        log = []
        rel = HR if reg else HT
        vm.contract(HT, 'HoeffdingTreeClassifier', '_enforce_tracker_limit', lambda vm, self, a, kw: log.append('limit'))
        vm.contract(NB, 'ActiveLeaf', 'disable_attribute', lambda vm, self, a, kw: log.append(('off', a[0])))
        if reg:
            vm.contract(NR, 'ActiveLeafRegressor', 'manage_memory', lambda vm, self, a, kw: log.append(('prune', list(a) + list(kw.values()))))
        vm.method(tree, '_attempt_to_split', node, parent, 1 if under else -1)
        # specification
        ms = [s[2] for s in sugs]
        pure = False if reg else not_(and_(st[0] > 0, st[1] > 0))
        R = 1 if reg else CRIT[crit](2)
        eps2 = R * R * S.log(1 / conf) / (2 * n)
        root = vm.getattr(tree, '_tree_root')
        now = vm.method(parent, 'get_child', 1) if under else root
        if under:
            vm.prove('the parent stays', root is parent)
            vm.prove('the sibling stays', vm.method(parent, 'get_child', 0) is other)
        same_cnt = lambda a, d, i: and_(eq(vm.getattr(tree, '_active_leaf_node_cnt'), A + a), eq(vm.getattr(tree, '_decision_node_cnt'), D + d), eq(vm.getattr(tree, '_inactive_leaf_node_cnt'), I + i))
        if reg:
            # best merit positive, and the runner-up clearly below it (ratio), or a tie
            def clear(b, s):
                return and_(b > 0, or_(and_(s < b, (b - s) * (b - s) > eps2 * b * b), eps2 < tie * tie))
        else:
            def clear(b, s):
                return or_(and_(b > s, (b - s) * (b - s) > eps2), eps2 < tie * tie)
        if len(sugs) == 1:
            should = True
        else:
            alts = []
            for i in range(len(ms)):
                for j in range(len(ms)):
                    if i != j:
                        top = and_(*[ms[i] >= ms[x] for x in range(len(ms)) if x != i])
                        sec = and_(*[ms[j] >= ms[x] for x in range(len(ms)) if x not in (i, j)])
                        alts.append(and_(top, sec, clear(ms[i], ms[j])))
            should = or_(*alts)
        should = and_(not_(pure), should)
        split, off = now is not node and isa(vm, now, NB, 'SplitNode'), now is not node and not isa(vm, now, NB, 'SplitNode')
        vm.prove('a change of the tree exactly when the merits call for it', S.iff(split or off, should))
        if split:
            t = vm.getattr(now, 'split_test')
            won = [s for s in sugs if s[1] is t]
            vm.prove('the test is one that was suggested', len(won) == 1)
            vm.prove('it has the best merit', and_(*[won[0][2] >= m for m in ms]))
            vm.prove('the split node keeps the statistics of the leaf', and_(*[eq(vm.getattr(now, 'stats').get(c), st[c]) for c in st]))
            vm.prove('two children', eq(vm.getattr(now, 'n_children'), 2))
            for b in (0, 1):
                ch = vm.method(now, 'get_child', b)
                vm.prove('children are active leaves', isa(vm, ch, NB, 'ActiveLeaf') and isa(vm, ch, NB, 'LearningNode'))
                cs = vm.getattr(ch, 'stats')
                vm.prove('a child starts with the statistics of its branch', and_(len(cs) == len(won[0][3][b]), *[eq(cs.get(c), won[0][3][b][c]) for c in st]))
                vm.prove('a child has not tried to split yet', eq(vm.getattr(ch, 'last_split_attempt_at'), total(won[0][3][b], reg)))
            vm.prove('node counts', same_cnt(1, 1, 0))
        elif off:
            vm.prove('a leaf is switched off only for the null split', null)
            vm.prove('which has the best merit', and_(*[sugs[0][2] >= m for m in ms]))
            vm.prove('the leaf keeps its statistics', and_(*[eq(vm.getattr(now, 'stats').get(c), st[c]) for c in st]))
            vm.prove('inactive', isa(vm, now, NB, 'InactiveLeaf'))
            vm.prove('node counts', same_cnt(-1, 0, 1))
        else:
            vm.prove('node counts', same_cnt(0, 0, 0))
            vm.prove('statistics', and_(*[eq(vm.getattr(node, 'stats').get(c), st[c]) for c in st]))
        vm.prove('memory is checked after every change', S.iff('limit' in log, split or off))
        if poor and len(sugs) > 1:
            gone = {e[1] for e in log if isinstance(e, tuple) and e[0] == 'off'}
            top = ms[0]
            for m in ms[1:]:
                top = ite(m > top, m, top)
            for i in range(k):
                m = ms[i + (1 if null else 0)]
                if not reg:
                    # (when the leaf is pure nothing is looked at)
                    vm.prove('attributes whose merit is clearly below the best are dropped, no others', S.iff(i in gone, and_(not_(pure), top > m, (top - m) * (top - m) > eps2)))
                elif i in gone:
                    vm.prove('only attributes below the best are dropped', m < top)
        elif not poor:
            vm.prove('no attribute is dropped unless asked', not any(isinstance(e, tuple) and e[0] == 'off' for e in log))
    return u


class Obs:
    """an attribute observer: records its updates, suggests what it was told"""
    def __init__(self, vm, i, kind=None, sug=None):
        self.vm, self.i, self.kind, self.sug, self.log, self.asked, self.p = vm, i, kind, sug, [], [], {}

    def pv_getattr(self, vm, name):
        if name == 'update':
            return _fn(lambda *a: self.log.append(a))
        if name == 'get_best_evaluated_split_suggestion':
            return _fn(lambda *a: self.best(*a))
        if name == 'probability_of_attribute_value_given_class':
            return _fn(lambda *a: self.prob(*a))
        raise Unsupported('observer.' + name)

    def best(self, crit, pre, att, binary):
        self.asked.append((crit, pre, att, binary))
        return self.sug

    def prob(self, x, c):
        self.vm.prove('asked about the value of its attribute', x is self.vm.ghost['X'][self.i])
        return self.p.setdefault(c, self.vm.fresh('p%d_%d' % (self.i, c), 'real', 0))


def u_suggestions(reg):
    def u(vm):
        null, binary = vm.choose(2) == 0, vm.choose(2) == 0
        tree = vm.new(rcls(vm) if reg else ccls(vm), no_preprune=not null, binary_split=binary, leaf_prediction='mean' if reg else 'mc')
        node = mknode(vm, reg)
        st = vm.getattr(node, 'stats')
        m = vm.fresh('null', 'real')

        class Crit:
            def pv_getattr(self, vm, name):
                if name == 'get_merit_of_split':
                    def f(pre, post):
                        vm.prove('the null split leaves the leaf as it is', and_(pre is st, len(post) == 1, post[0] is st))
                        return m
                    return _fn(f)
                raise Unsupported(name)
        crit = Crit()
        obs = {}
        for i in range(3):
            sug = None if i == 1 and vm.choose(2) else suggestion(vm, numtest(vm, i), [vm.born({}), vm.born({})], vm.fresh('m', 'real'))
            obs[i] = Obs(vm, i, None, sug)
        vm.setattr(node, 'attribute_observers', vm.born(dict(obs)))
        out = list(vm.method(node, 'get_best_split_suggestions', crit, tree))
        exp = [o.sug for o in obs.values() if o.sug is not None]
        if null:
            vm.prove('the null split competes', len(out) == len(exp) + 1 and len([s for s in out if vm.getattr(s, 'split_test') is None]) == 1)
            z = [s for s in out if vm.getattr(s, 'split_test') is None][0]
            vm.prove('with its merit', eq(vm.getattr(z, 'merit'), m))
        else:
            vm.prove('no null split without pre-pruning', all(vm.getattr(s, 'split_test') is not None for s in out))
        vm.prove('one suggestion per attribute that has one', len([s for s in out if s in exp]) == len(exp) == len(out) - (1 if null else 0))
        for i, o in obs.items():
            vm.prove('each attribute asked once, about itself, with the statistics of the leaf', len(o.asked) == 1 and o.asked[0][0] is crit and o.asked[0][1] is st and o.asked[0][2] == i and o.asked[0][3] is binary)
    return u


def u_disable(reg):
    def u(vm):
        node = mknode(vm, reg)
        obs = {i: Obs(vm, i) for i in range(3)}
        vm.setattr(node, 'attribute_observers', vm.born(dict(obs)))
        i = vm.choose(4)
        vm.method(node, 'disable_attribute', i)
        now = vm.getattr(node, 'attribute_observers')
        for j in range(3):
            if j != i:
                vm.prove('the other observers stay', now.get(j) is obs[j])
            else:
                o = now.get(j)
                vm.prove('the observer is replaced', o is not None and o is not obs[j])
                vm.prove('by one that suggests nothing', vm.method(o, 'get_best_evaluated_split_suggestion', None, None, j, False) is None)
                vm.method(o, 'update', vm.inp('x', 'real'), 0, 1.0)
                vm.prove('whatever it is shown', vm.method(o, 'get_best_evaluated_split_suggestion', None, None, j, False) is None)
        vm.prove('no other attribute', sorted(now) == [0, 1, 2])
    return u


def u_fit_one(reg, shape):
    """_partial_fit: one row trains exactly one leaf"""
    def u(vm):
        grace = vm.inp('grace', 'real', 0)
        tree = vm.new(rcls(vm) if reg else ccls(vm), grace_period=grace, leaf_prediction='mean' if reg else 'mc')
        X = np.array([0.0, 0.0], dtype=object)
        X[0], X[1] = vm.inp('x0', 'real'), vm.inp('x1', 'real')
        y = vm.inp('y', 'real') if reg else vm.choose(2)
        w = vm.inp('w', 'real', 0)
        vm.assume(w > 0)
        leaves = {}
        val = None
        if shape in ('leaf', 'inactive leaf'):
            leaves['root'] = mknode(vm, reg, None, shape == 'leaf')
            vm.setattr(tree, '_tree_root', leaves['root'])
        elif shape != 'empty':
            if shape in ('split', 'deep'):
                t = numtest(vm, 1)
            else:
                val = [2, 5, 9][vm.choose(3)]
                X[1] = val
                t = vm.new(vm.cls(T + 'nominal_attribute_multiway_test.py', 'NominalAttributeMultiwayTest'), 1, vm.born({2: 0, 5: 1}))
            root = vm.new(vm.cls(NB, 'SplitNode'), t, leafstats(vm, reg, 'root'))
            leaves[0] = mknode(vm, reg, leafstats(vm, reg, 'a'), vm.choose(2) == 0)
            leaves[1] = mknode(vm, reg, leafstats(vm, reg, 'b'))
            if shape == 'deep':
                t2 = numtest(vm, 0)
                sub = vm.new(vm.cls(NB, 'SplitNode'), t2, leafstats(vm, reg, 'sub'))
                leaves['10'], leaves['11'] = leaves.pop(1), mknode(vm, reg, leafstats(vm, reg, 'c'))
                vm.method(sub, 'set_child', 0, leaves['10'])
                vm.method(sub, 'set_child', 1, leaves['11'])
                vm.method(root, 'set_child', 1, sub)
            else:
                vm.method(root, 'set_child', 1, leaves[1])
            vm.method(root, 'set_child', 0, leaves[0])
            vm.setattr(tree, '_tree_root', root)
        A, seen = vm.inp('active', 'int', 0), vm.inp('seen', 'real', 0)
        vm.setattr(tree, '_active_leaf_node_cnt', A)
        vm.setattr(tree, '_train_weight_seen_by_model', seen)
        last = {}
        for k, l in leaves.items():
            last[k] = vm.inp('last', 'real')
            vm.setattr(l, 'last_split_attempt_at', last[k])
        log, tries = [], []

        def learn(vm, self, a, kw):
            log.append((self, list(a), dict(kw)))
            for s in leaves.values():
                pass
            st = vm.getattr(self, 'stats')
            # contract of learn_one: the statistics grow by the weight
            if reg:
                vm.setitem(st, 0, (st[0] if 0 in st else 0) + w)
                for i in (1, 2):
                    vm.setitem(st, i, vm.fresh('st', 'real'))
            else:
                vm.setitem(st, y, (st[y] if y in st else 0) + w)
        vm.contract(NR if reg else NC, 'LearningNodeMean' if reg else 'LearningNodeMC', 'learn_one', learn)
        if reg:
            vm.contract(NB, 'LearningNode', 'learn_one', learn)
        vm.contract(HR if reg else HT, 'HoeffdingTreeRegressor' if reg else 'HoeffdingTreeClassifier', '_attempt_to_split', lambda vm, self, a, kw: tries.append(list(a) + list(kw.values())))
        vm.contract(HT, 'HoeffdingTreeClassifier', '_estimate_model_byte_size', lambda vm, self, a, kw: None)
        before = {k: total(vm.getattr(l, 'stats'), reg) for k, l in leaves.items()}
        vm.method(tree, '_partial_fit', X, y, w)
        vm.prove('exactly one leaf learns', len(log) == 1)
        who, a, kw = log[0]
        vm.prove('the row itself', a[0] is X and a[1] is y and len(a) == 2 and kw.get('weight') is w and kw.get('tree') is tree)
        key = None
        parent, branch = None, -1
        if shape == 'empty':
            vm.prove('the first row makes a leaf the root', vm.getattr(tree, '_tree_root') is who and isa(vm, who, NB, 'ActiveLeaf'))
            vm.prove('one leaf', eq(vm.getattr(tree, '_active_leaf_node_cnt'), 1))
        elif 'leaf' in shape:
            key = 'root'
        elif shape == 'nominal':
            key = {2: 0, 5: 1, 9: None}[val]
            parent, branch = root, key
            if key is None:
                vm.prove('an unseen value gets a leaf of its own', vm.method(root, 'get_child', 2) is who and isa(vm, who, NB, 'ActiveLeaf') and all(who is not l for l in leaves.values()))
                vm.prove('and a branch', eq(vm.method(t, 'branch_for_instance', X), 2))
                vm.prove('one leaf more', eq(vm.getattr(tree, '_active_leaf_node_cnt'), A + 1))
                vm.prove('a new leaf does not split at once', not tries)
        else:
            v = vm.method(t, 'get_split_value')
            left = X[1] <= v
            if who is leaves.get(0):
                key, parent, branch = 0, root, 0
                vm.prove('rows below the cut go left', left)
            elif shape == 'split':
                key, parent, branch = 1, root, 1
                vm.prove('rows above the cut go right', not_(left))
            else:
                key = '10' if who is leaves['10'] else '11'
                parent, branch = sub, 0 if key == '10' else 1
                vm.prove('rows reach the leaf their values lead to', and_(not_(left), S.iff(key == '10', X[0] <= vm.method(t2, 'get_split_value'))))
        if key is not None:
            vm.prove('the leaf its values lead to', who is leaves[key])
            vm.prove('no leaf more', eq(vm.getattr(tree, '_active_leaf_node_cnt'), A))
            act = isa(vm, who, NB, 'ActiveLeaf')
            due = and_(act, before[key] + w - last[key] >= grace)
            vm.prove('a split is tried exactly when the grace period is over', S.iff(len(tries) == 1, due))
            vm.prove('at most once', len(tries) <= 1)
            if tries:
                vm.prove('on that leaf', tries[0][0] is who and tries[0][1] is parent and (tries[0][1] is None or tries[0][2] == branch))
                vm.prove('the next grace period starts now', eq(vm.getattr(who, 'last_split_attempt_at'), before[key] + w))
            else:
                vm.prove('the grace period goes on', eq(vm.getattr(who, 'last_split_attempt_at'), last[key]))
        for k, l in leaves.items():
            if l is not who:
                vm.prove('other leaves stay', and_(eq(total(vm.getattr(l, 'stats'), reg), before[k]), eq(vm.getattr(l, 'last_split_attempt_at'), last[k])))
        if reg:
            for f, val_ in (('samples_seen', w), ('sum_of_values', w * y), ('sum_of_squares', w * y * y)):
                vm.prove('normalisation statistics', eq(vm.getattr(tree, f), val_))
            for i in (0, 1):
                vm.prove('attribute statistics', and_(eq(vm.getattr(tree, 'sum_of_attribute_values')[i], w * X[i]), eq(vm.getattr(tree, 'sum_of_attribute_squares')[i], w * X[i] * X[i])))
    return u


def u_fit(reg, n):
    def u(vm):
        tree = vm.new(rcls(vm) if reg else ccls(vm))
        X = np.array([[0.0] * 2] * n, dtype=object)
        for i in range(n):
            for j in range(2):
                X[i, j] = vm.inp('x', 'real')
        y = vm.born([vm.inp('y', 'real') if reg else i % 2 for i in range(n)])
        W = None
        if vm.choose(2):
            W = vm.born([vm.inp('w%d' % i, 'real', 0) for i in range(n)])
        log, seen = [], vm.inp('seen', 'real', 0)
        vm.setattr(tree, '_train_weight_seen_by_model', seen)

        def one(vm, self, a, kw):
            a = list(a) + list(kw.values())
            log.append((a, vm.getattr(tree, '_train_weight_seen_by_model')))
        vm.contract(HR if reg else HT, 'HoeffdingTreeRegressor' if reg else 'HoeffdingTreeClassifier', '_partial_fit', one)
        r = vm.method(tree, 'partial_fit', X, y, sample_weight=W)
        vm.prove('returns itself', r is tree)
        ws = [1] * n if W is None else list(W)
        # rows of weight zero are skipped, the others handed on in order
        j, run = 0, seen
        for i in range(n):
            if W is not None and not vm.truth(ws[i] > 0):
                continue
            ok = j < len(log)
            vm.prove('every row with a weight is learned', ok)
            (x, yy, w), t = log[j]
            run = run + ws[i]
            vm.prove('in order, with its own target and weight', and_(eq(x[0], X[i, 0]), eq(x[1], X[i, 1]), eq(yy, y[i]), eq(w, ws[i])))
            vm.prove('weight seen so far', eq(t, run))
            j += 1
        vm.prove('nothing else is learned', j == len(log))
        vm.prove('total weight', eq(vm.getattr(tree, '_train_weight_seen_by_model'), run))
        try:
            vm.method(tree, 'partial_fit', X, y, sample_weight=vm.born([1.0] * (n + 1)))
            vm.prove('a wrong number of weights is rejected', False)
        except PyRaise as e:
            vm.prove('a wrong number of weights is rejected', 'ValueError' in repr(e) and len(log) == j)
    return u


def u_leaf(kind):
    def u(vm):
        tree = vm.new(ccls(vm), nominal_attributes=vm.born([1]) if vm.choose(2) else None)
        nom = vm.getattr(tree, 'nominal_attributes')
        fresh = vm.choose(2) == 0
        st = vm.born({} if fresh else {0: vm.inp('n0', 'real', 0), 1: vm.inp('n1', 'real', 0)})
        if not fresh:
            vm.assume(st[0] + st[1] > 0)
        was = dict(st)
        node = vm.new(vm.cls(NC, 'ActiveLearningNode' + kind), st)
        old = Obs(vm, 0)
        if not fresh:
            vm.setattr(node, 'attribute_observers', vm.born({0: old}))
        made = []

        def mk(k):
            def f(vm, self, a, kw):
                o = Obs(vm, None, k)
                made.append(o)
                return o
            return f
        vm.contract(NC, 'ActiveLeafClass', 'new_nominal_attribute_observer', mk('nominal'))
        vm.contract(NC, 'ActiveLeafClass', 'new_numeric_attribute_observer', mk('numeric'))
        X = vm.born([vm.inp('x0', 'real'), vm.inp('x1', 'real')])
        y, w = vm.choose(3), vm.inp('w', 'real', 0)
        vm.assume(w > 0)
        votes = vm.born({0: vm.fresh('v0', 'real', 0), 1: vm.fresh('v1', 'real', 0)})
        mc = nbw = None
        if kind == 'NBA':
            mc, nbw = vm.inp('mc', 'real', 0), vm.inp('nb', 'real', 0)
            vm.setattr(node, '_mc_correct_weight', mc)
            vm.setattr(node, '_nb_correct_weight', nbw)

            def nbp(vm, self, a, kw):
                vm.prove('judged before learning', and_(a[0] is X, len(a[1]) == len(was), *[eq(a[1].get(c), was[c]) for c in was]))
                return votes
            vm.contracts['bayes/utils.py:do_naive_bayes_prediction'] = nbp
        vm.method(node, 'learn_one', X, y, weight=w, tree=tree)
        now = vm.getattr(node, 'stats')
        for c in range(3):
            vm.prove('class weights', eq(now.get(c, 0), was.get(c, 0) + (w if c == y else 0)))
        vm.prove('total weight', eq(vm.getattr(node, 'total_weight'), tot(was.values()) + w))
        obs = vm.getattr(node, 'attribute_observers')
        vm.prove('an observer per attribute', sorted(obs) == [0, 1])
        if not fresh:
            vm.prove('observers are kept', obs[0] is old)
        for i in (0, 1):
            if fresh or i == 1:
                vm.prove('of the right kind', obs[i].kind == ('nominal' if nom is not None and i == 1 else 'numeric'))
            vm.prove('every attribute is observed once', len(obs[i].log) == 1 and obs[i].log[0][0] is X[i] and obs[i].log[0][1] == y and obs[i].log[0][2] is w)
        if kind == 'NBA':
            n0, n1 = was.get(0, 0), was.get(1, 0)
            right = ite(n0 >= n1, y == 0, y == 1)
            vm.prove('majority class credited exactly when it was right', eq(vm.getattr(node, '_mc_correct_weight'), mc + ite(right, w, 0)))
            right = ite(votes[0] >= votes[1], y == 0, y == 1)
            vm.prove('naive Bayes credited exactly when it was right', eq(vm.getattr(node, '_nb_correct_weight'), nbw + ite(right, w, 0)))
    return u


def u_leaf_predict(vm):
    tree = vm.new(ccls(vm), nb_threshold=vm.inp('threshold', 'real', 0))
    st = vm.born({0: vm.inp('n0', 'real', 0), 1: vm.inp('n1', 'real', 0)})
    X = vm.born([vm.inp('x0', 'real'), vm.inp('x1', 'real')])
    votes = vm.born({0: vm.fresh('v0', 'real', 0), 1: vm.fresh('v1', 'real', 0)})

    def nbp(vm, self, a, kw):
        vm.prove('naive Bayes of this leaf', a[0] is X and a[1] is st)
        return votes
    vm.contracts['bayes/utils.py:do_naive_bayes_prediction'] = nbp
    kind = ['MC', 'NB', 'NBA'][vm.choose(3)]
    node = vm.new(vm.cls(NC, 'ActiveLearningNode' + kind), st)
    if kind == 'NBA':
        mc, nb = vm.inp('mc', 'real', 0), vm.inp('nb', 'real', 0)
        vm.setattr(node, '_mc_correct_weight', mc)
        vm.setattr(node, '_nb_correct_weight', nb)
    r = vm.method(node, 'predict_one', X, tree=tree)
    use = {'MC': False, 'NB': st[0] + st[1] >= vm.getattr(tree, 'nb_threshold'), 'NBA': None}[kind]
    if kind == 'NBA':
        use = not_(mc > nb)
    for c in (0, 1):
        vm.prove('votes', eq(r.get(c), ite(use, votes[c], st[c])))
    vm.prove('prediction leaves the leaf alone', vm.getattr(node, 'stats') is st and len(st) == 2)


def u_bayes(nobs):
    def u(vm):
        f = vm.load('bayes/utils.py').get('do_naive_bayes_prediction')
        X = vm.born([vm.inp('x0', 'real'), vm.inp('x1', 'real')])
        vm.ghost['X'] = X
        st = vm.born({0: vm.inp('n0', 'real', 0), 1: vm.inp('n1', 'real', 0)})
        obs = {i: Obs(vm, i) for i in range(nobs)}
        r = vm.call(f, [X, st, vm.born(dict(obs))], {})
        n = st[0] + st[1]
        if not vm.truth(n > 0):
            vm.prove('no votes without observations', eq(tot(r.values()), 0))
            return
        for c in (0, 1):
            e = st[c] / n
            for o in obs.values():
                e = e * o.p.get(c, vm.fresh('unused', 'real', 0))
            vm.prove('prior times the likelihood of every attribute', eq(r.get(c), e))
        vm.prove('nothing else', sorted(r) == [0, 1])
    return u


def u_proba(declared):
    def u(vm):
        tree = vm.new(ccls(vm))
        if declared:
            vm.setattr(tree, 'classes', vm.born([0, 1, 2]))
        n = 2
        X = np.array([[0.0, 0.0]] * n, dtype=object)
        V = []
        for i in range(n):
            k = vm.choose(4)
            V.append(vm.born([{}, {0: vm.fresh('v', 'real', 0)}, {1: vm.fresh('v', 'real', 0), 2: vm.fresh('v', 'real', 0)}, {0: vm.fresh('v', 'real', 0), 1: vm.fresh('v', 'real', 0)}][k]))
        keep = [dict(v) for v in V]
        it = iter(V)
        vm.contract(HT, 'HoeffdingTreeClassifier', '_get_votes_for_instance', lambda vm, self, a, kw: next(it))
        p = vm.method(tree, 'predict_proba', X)
        vm.prove('one row per sample', len(p) == n)
        width = 3 if declared else max([1] + [max(v) + 1 for v in keep if v])
        for i in range(n):
            vm.prove('a column per class', len(p[i]) == width)
            s = tot(keep[i].values()) if keep[i] else 0
            for c in range(width):
                v = keep[i].get(c, 0)
                vm.prove('votes normalised to probabilities', ite(s > 0, eq(p[i][c] * s, v), eq(p[i][c], 0)))
            vm.prove('the leaf is not touched', len(V[i]) == len(keep[i]) and and_(*[eq(V[i][c], keep[i][c]) for c in keep[i]]))
    return u


def u_predict(vm):
    tree = vm.new(ccls(vm))
    P = np.array([[0.0] * 3] * 2, dtype=object)
    for i in range(2):
        for j in range(3):
            P[i, j] = vm.fresh('p', 'real', 0, 1)
    vm.contract(HT, 'HoeffdingTreeClassifier', 'predict_proba', lambda vm, self, a, kw: P)
    r = vm.method(tree, 'predict', np.array([[0.0, 0.0]] * 2, dtype=object))
    vm.prove('one prediction per row', len(r) == 2)
    for i in range(2):
        for c in range(3):
            vm.prove('the most probable class, the first of equals', implies(eq(r[i], c), and_(*[P[i, c] >= P[i, k] for k in range(3)], *[P[i, c] > P[i, k] for k in range(c)])))


def u_votes(vm):
    tree = vm.new(ccls(vm), leaf_prediction='mc')
    X = vm.born([vm.inp('x0', 'real'), vm.inp('x1', 'real')])
    shape = vm.choose(4)
    if shape == 0:
        vm.prove('an empty tree has no votes', vm.method(tree, '_get_votes_for_instance', X) == {})
        return
    a, b = mknode(vm, False, leafstats(vm, False, 'a')), mknode(vm, False, leafstats(vm, False, 'b'))
    if shape == 1:
        vm.setattr(tree, '_tree_root', a)
        vm.prove('the votes of the leaf', vm.method(tree, '_get_votes_for_instance', X) is vm.getattr(a, 'stats'))
        return
    if shape == 2:
        t = numtest(vm, 1)
    else:
        t = vm.new(vm.cls(T + 'nominal_attribute_multiway_test.py', 'NominalAttributeMultiwayTest'), 1, vm.born({2: 0, 5: 1}))
        X[1] = [2, 5, 7][vm.choose(3)]
    rs = leafstats(vm, False, 'root')
    root = vm.new(vm.cls(NB, 'SplitNode'), t, rs)
    vm.method(root, 'set_child', 0, a)
    vm.method(root, 'set_child', 1, b)
    vm.setattr(tree, '_tree_root', root)
    r = vm.method(tree, '_get_votes_for_instance', X)
    k = vm.method(t, 'branch_for_instance', X)
    e = [vm.getattr(a, 'stats'), vm.getattr(b, 'stats'), rs][k if shape == 2 else {2: 0, 5: 1, 7: 2}[X[1]]]
    vm.prove('the votes of the leaf the row leads to, or of the split for an unknown value', and_(*[eq(r.get(c), e[c]) for c in (0, 1)]))


def u_limit(reg):
    def u(vm):
        """memory limit: only activity changes; counts follow; statistics survive"""
        vm.unroll_forks = 4
        stop = vm.choose(2) == 1
        tree = vm.new(rcls(vm) if reg else ccls(vm), max_byte_size=vm.inp('max', 'real', 0), stop_mem_management=stop, leaf_prediction='mean' if reg else 'mc')
        t, t2 = numtest(vm, 0), numtest(vm, 1)
        root = vm.new(vm.cls(NB, 'SplitNode'), t, leafstats(vm, reg, 'root'))
        sub = vm.new(vm.cls(NB, 'SplitNode'), t2, leafstats(vm, reg, 'sub'))
        act = [vm.choose(2) == 0 for _ in range(3)]
        L = [mknode(vm, reg, leafstats(vm, reg, 'l%d' % i), act[i]) for i in range(3)]
        vm.method(root, 'set_child', 0, L[0])
        vm.method(root, 'set_child', 1, sub)
        vm.method(sub, 'set_child', 0, L[1])
        vm.method(sub, 'set_child', 1, L[2])
        vm.setattr(tree, '_tree_root', root)
        na = sum(act)
        vm.setattr(tree, '_active_leaf_node_cnt', na)
        vm.setattr(tree, '_inactive_leaf_node_cnt', 3 - na)
        vm.setattr(tree, '_decision_node_cnt', 2)
        ab, ib, ov = vm.inp('ab', 'real', 0), vm.inp('ib', 'real', 0), vm.inp('ov', 'real', 0)
        vm.setattr(tree, '_active_leaf_byte_size_estimate', ab)
        vm.setattr(tree, '_inactive_leaf_byte_size_estimate', ib)
        vm.setattr(tree, '_byte_size_estimate_overhead_fraction', ov)
        st = [dict(vm.getattr(l, 'stats')) for l in L]
        vm.method(tree, '_enforce_tracker_limit')
        vm.prove('the splits stay', vm.getattr(tree, '_tree_root') is root and vm.method(root, 'get_child', 1) is sub)
        now = [vm.method(root, 'get_child', 0), vm.method(sub, 'get_child', 0), vm.method(sub, 'get_child', 1)]
        a2 = 0
        for i in range(3):
            on = isa(vm, now[i], NB, 'ActiveLeaf')
            a2 += on
            vm.prove('a leaf is active or inactive', on != isa(vm, now[i], NB, 'InactiveLeaf'))
            vm.prove('statistics survive', and_(*[eq(vm.getattr(now[i], 'stats').get(c), st[i][c]) for c in st[i]]))
            if on == act[i]:
                vm.prove('a leaf whose state does not change is kept', now[i] is L[i])
        vm.prove('leaf counts', and_(eq(vm.getattr(tree, '_active_leaf_node_cnt'), a2), eq(vm.getattr(tree, '_inactive_leaf_node_cnt'), 3 - a2), eq(vm.getattr(tree, '_decision_node_cnt'), 2)))
        mx = vm.getattr(tree, 'max_byte_size')
        if stop:
            over = or_(na < 3, (ab + (3 - na) * ib) * ov > mx)
            vm.prove('growth stops instead when asked to', S.iff(not vm.getattr(tree, '_growth_allowed'), over))
        else:
            vm.prove('growth goes on', vm.getattr(tree, '_growth_allowed') is True)
            fits = lambda k: (k * ab + (3 - k) * ib) * ov <= mx
            vm.prove('as many active leaves as fit', and_(implies(a2 > 0, fits(a2)), *[implies(eq(a2, k), not_(fits(k + 1))) for k in range(3)]))
    return u


def u_counts(reg):
    def u(vm):
        tree = vm.new(rcls(vm) if reg else ccls(vm), leaf_prediction='mean' if reg else 'mc')
        vm.prove('an empty tree has depth 0', eq(vm.getattr(tree, 'model_measurements')['Tree depth'], 0))
        a, d, i = vm.inp('a', 'int', 0), vm.inp('d', 'int', 0), vm.inp('i', 'int', 0)
        vm.setattr(tree, '_active_leaf_node_cnt', a)
        vm.setattr(tree, '_decision_node_cnt', d)
        vm.setattr(tree, '_inactive_leaf_node_cnt', i)
        t, t2 = numtest(vm, 0), numtest(vm, 1)
        root, sub = vm.new(vm.cls(NB, 'SplitNode'), t, leafstats(vm, reg, 'root')), vm.new(vm.cls(NB, 'SplitNode'), t2, leafstats(vm, reg, 'sub'))
        L = [mknode(vm, reg, leafstats(vm, reg, 'l%d' % k), vm.choose(2) == 0) for k in range(3)]
        vm.method(root, 'set_child', 0, L[0])
        vm.method(root, 'set_child', 1, sub)
        vm.method(sub, 'set_child', 0, L[1])
        vm.method(sub, 'set_child', 1, L[2])
        vm.setattr(tree, '_tree_root', root)
        m = vm.getattr(tree, 'model_measurements')
        vm.prove('nodes', eq(m['Tree size (nodes)'], a + d + i))
        vm.prove('leaves', eq(m['Tree size (leaves)'], a + i))
        vm.prove('active leaves', eq(m['Active learning nodes'], a))
        vm.prove('depth', eq(m['Tree depth'], 2))
        found = list(vm.method(tree, '_find_learning_nodes'))
        vm.prove('all leaves are found', len(found) == 3)
        for l, p, b in ((L[0], root, 0), (L[1], sub, 0), (L[2], sub, 1)):
            mine = [f for f in found if vm.getattr(f, 'node') is l]
            vm.prove('with their place', len(mine) == 1 and vm.getattr(mine[0], 'parent') is p and vm.getattr(mine[0], 'parent_branch') == b)
        vm.method(tree, 'reset')
        fresh = vm.new(rcls(vm) if reg else ccls(vm))
        vm.prove('reset empties the tree', vm.getattr(tree, '_tree_root') is None)
        for f in ('_active_leaf_node_cnt', '_decision_node_cnt', '_inactive_leaf_node_cnt', '_train_weight_seen_by_model'):
            vm.prove('reset: ' + f, eq(vm.getattr(tree, f), 0))
    return u


# ---- regressor
def u_mean(vm):
    fresh = vm.choose(2) == 0
    st = vm.born({} if fresh else {0: vm.inp('n', 'real', 0), 1: vm.inp('s', 'real'), 2: vm.inp('ss', 'real', 0)})
    was = dict(st)
    tree = vm.new(rcls(vm), leaf_prediction='mean')
    node = vm.new(vm.cls(NR, 'ActiveLearningNodeMean'), st)
    made = []

    def mk(k):
        def f(vm, self, a, kw):
            made.append(Obs(vm, None, k))
            return made[-1]
        return f
    vm.contract(NR, 'ActiveLeafRegressor', 'new_nominal_attribute_observer', mk('nominal'))
    vm.contract(NR, 'ActiveLeafRegressor', 'new_numeric_attribute_observer', mk('numeric'))
    X = vm.born([vm.inp('x0', 'real'), vm.inp('x1', 'real')])
    y, w = vm.inp('y', 'real'), vm.inp('w', 'real', 0)
    vm.assume(w > 0)
    p = vm.method(node, 'predict_one', X, tree=tree)
    n0 = was.get(0, 0)
    if vm.truth(n0 > 0):
        vm.prove('the mean of the leaf', eq(p * n0, was[1]))
    else:
        vm.prove('zero without observations', eq(p, 0))
    vm.method(node, 'learn_one', X, y, weight=w, tree=tree)
    now = vm.getattr(node, 'stats')
    for c, d in ((0, w), (1, w * y), (2, w * y * y)):
        vm.prove('weight, sum and sum of squares', eq(now.get(c), was.get(c, 0) + d))
    vm.prove('total weight', eq(vm.getattr(node, 'total_weight'), n0 + w))
    for i in (0, 1):
        o = vm.getattr(node, 'attribute_observers')[i]
        vm.prove('every attribute is observed once', o.kind == 'numeric' and len(o.log) == 1 and o.log[0][0] is X[i] and o.log[0][1] is y and o.log[0][2] is w)


def u_norm(vm):
    tree = vm.new(rcls(vm), nominal_attributes=vm.born([1]) if vm.choose(2) else None)
    nom = vm.getattr(tree, 'nominal_attributes') is not None
    n = vm.inp('n', 'real', 0)
    s, ss = [vm.inp('s%d' % i, 'real') for i in range(2)], [vm.inp('ss%d' % i, 'real', 0) for i in range(2)]
    sy, syy = vm.inp('sy', 'real'), vm.inp('syy', 'real', 0)
    A, B = np.array([0.0, 0.0], dtype=object), np.array([0.0, 0.0], dtype=object)
    A[0], A[1], B[0], B[1] = s[0], s[1], ss[0], ss[1]
    for f, v in (('samples_seen', n), ('sum_of_values', sy), ('sum_of_squares', syy), ('sum_of_attribute_values', A), ('sum_of_attribute_squares', B)):
        vm.setattr(tree, f, v)
    X = vm.born([vm.inp('x0', 'real'), vm.inp('x1', 'real')])
    z = vm.method(tree, 'normalize_sample', X)
    vm.prove('one value per attribute and the bias', len(z) == 3)

    def check(v, x, s, ss, what):
        # v*3*sd = x - mean, with sd^2 = ss/n - mean^2
        if not vm.truth(n > 1):
            vm.prove('nothing to normalise with yet', eq(v, 0))
            return
        var = ss / n - (s / n) * (s / n)
        if vm.truth(var > 0):
            vm.prove(what, and_(eq(v * v * 9 * var, (x - s / n) * (x - s / n)), S.iff(v >= 0, x >= s / n)))
        else:
            vm.prove('a constant is mapped to 0', eq(v, 0))
    for i in (0, 1):
        if nom and i == 1:
            vm.prove('nominal attributes are taken as they are', eq(z[i], X[i]))
        else:
            check(z[i], X[i], s[i], ss[i], 'distance from the mean in units of three deviations')
    vm.prove('bias', eq(z[2], ite(n > 1, 1, 0)))
    y = vm.inp('y', 'real')
    check(vm.method(tree, 'normalize_target_value', y), y, sy, syy, 'target likewise')


def u_perceptron(vm):
    const = vm.choose(2) == 0
    lr, dec = vm.inp('lr', 'real', 0), vm.inp('decay', 'real', 0)
    tree = vm.new(rcls(vm), learning_ratio_perceptron=lr, learning_ratio_decay=dec, learning_ratio_const=const)
    w = 1 + vm.choose(2)
    st = vm.born({0: vm.inp('n', 'real', 0), 1: vm.inp('s', 'real'), 2: vm.inp('ss', 'real', 0)})
    n0 = st[0]
    node = vm.new(vm.cls(NR, 'InactiveLearningNodePerceptron'), st)
    W = np.array([0.0] * 2, dtype=object)
    W[0], W[1] = vm.inp('w0', 'real'), vm.inp('w1', 'real')
    vm.setattr(node, 'perceptron_weights', W)
    Z = np.array([0.0, 1.0], dtype=object)
    Z[0], Z[1] = vm.fresh('z0', 'real'), vm.fresh('z1', 'real')
    t = vm.fresh('t', 'real')
    vm.contract(HR, 'HoeffdingTreeRegressor', 'normalize_sample', lambda vm, self, a, kw: Z)
    vm.contract(HR, 'HoeffdingTreeRegressor', 'normalize_target_value', lambda vm, self, a, kw: t)
    X = vm.born([vm.inp('x0', 'real')])
    y = vm.inp('y', 'real')
    rate = lr if const else lr / (1 + (n0 + w) * dec)
    e = [W[0], W[1]]
    for _ in range(w):
        d = t - (e[0] * Z[0] + e[1] * Z[1])
        e = [e[i] + rate * d * Z[i] for i in (0, 1)]
        s = abs(e[0]) + abs(e[1])
        vm.assume(s > 0)
        e = [v / s for v in e]
    old = list(W)
    vm.method(node, 'learn_one', X, y, weight=w, tree=tree)
    now = vm.getattr(node, 'perceptron_weights')
    for i in (0, 1):
        vm.prove('delta rule on the normalised sample, weights normalised, once per unit of weight', eq(now[i], e[i]))
    n, sy, syy = vm.inp('N', 'real', 1), vm.inp('sy', 'real'), vm.inp('syy', 'real', 0)
    for f, v in (('samples_seen', n), ('sum_of_values', sy), ('sum_of_squares', syy)):
        vm.setattr(tree, f, v)
    vm.setattr(node, 'perceptron_weights', W)
    p = vm.method(node, 'predict_one', X, tree=tree)
    var = syy / n - (sy / n) * (sy / n)
    a = W[0] * Z[0] + W[1] * Z[1]
    if vm.truth(and_(n > 1, var > 0)):
        vm.prove('prediction scaled back', and_(eq((p - sy / n) * (p - sy / n), 9 * var * a * a), S.iff(p >= sy / n, a >= 0)))
    else:
        vm.prove('the mean without spread', eq(p, sy / n))
    child = vm.new(vm.cls(NR, 'ActiveLearningNodePerceptron'), vm.born({}), node)
    cw = vm.getattr(child, 'perceptron_weights')
    vm.prove('a child inherits a copy of the weights', and_(cw is not W, eq(cw[0], W[0]), eq(cw[1], W[1])))


def u_rpredict(vm):
    tree = vm.new(rcls(vm), leaf_prediction='mean')
    X = np.array([[0.0, 0.0]] * 2, dtype=object)
    for i in range(2):
        for j in range(2):
            X[i, j] = vm.inp('x%d%d' % (i, j), 'real')
    if vm.choose(2):
        r = vm.method(tree, 'predict', X)
        vm.prove('an untrained tree predicts 0 for every row', and_(len(r) == 2, eq(r[0], 0), eq(r[1], 0)))
        return
    vm.setattr(tree, 'samples_seen', vm.inp('n', 'real', 1))
    nominal = vm.choose(2) == 1
    if nominal:
        t = vm.new(vm.cls(T + 'nominal_attribute_multiway_test.py', 'NominalAttributeMultiwayTest'), 1, vm.born({2: 0, 5: 1}))
        X[0, 1], X[1, 1] = [2, 5, 7][vm.choose(3)], 7
    else:
        t = numtest(vm, 1)
    S_ = [leafstats(vm, True, 'a'), leafstats(vm, True, 'b'), leafstats(vm, True, 'root')]
    for s in S_:
        vm.assume(s[0] > 0)
    L = [mknode(vm, True, S_[0]), mknode(vm, True, S_[1])]
    root = vm.new(vm.cls(NB, 'SplitNode'), t, S_[2])
    vm.method(root, 'set_child', 0, L[0])
    vm.method(root, 'set_child', 1, L[1])
    vm.setattr(tree, '_tree_root', root)
    r = vm.method(tree, 'predict', X)
    vm.prove('one prediction per row', len(r) == 2)
    for i in range(2):
        if nominal:
            s = S_[{2: 0, 5: 1, 7: 2}[X[i, 1]]]
            vm.prove('mean of the leaf, or of the split for an unknown value', eq(r[i] * s[0], s[1]))
        else:
            cut = vm.method(t, 'get_split_value')
            vm.prove('mean of the leaf the row leads to', ite(X[i, 1] <= cut, eq(r[i] * S_[0][0], S_[0][1]), eq(r[i] * S_[1][0], S_[1][1])))


UNITS = [('split attempt[classifier, %s, %d suggestions%s%s]' % (c, k, ' + null' if z else '', ', drop poor' if p else ''), u_attempt(False, k, c, z, p))
         for c, k, z, p in (('info_gain', 1, True, False), ('info_gain', 2, True, False), ('gini', 1, True, False), ('gini', 2, False, False), ('hellinger', 1, True, False),
                            ('info_gain', 1, False, False), ('info_gain', 2, False, True), ('gini', 2, True, True), ('info_gain', 3, False, False))] + \
        [('split attempt[regressor, %d suggestions%s%s]' % (k, ' + null' if z else '', ', drop poor' if p else ''), u_attempt(True, k, None, z, p))
         for k, z, p in ((1, True, False), (2, True, False), (2, False, False), (1, False, False), (2, True, True))] + \
        [('suggestions[%s]' % n, u_suggestions(r)) for n, r in (('classifier', False), ('regressor', True))] + \
        [('disable_attribute[%s]' % n, u_disable(r)) for n, r in (('classifier', False), ('regressor', True))] + \
        [('one row[%s, %s]' % ('regressor' if r else 'classifier', s), u_fit_one(r, s)) for r in (False, True) for s in ('empty', 'leaf', 'inactive leaf', 'split', 'deep', 'nominal')] + \
        [('partial_fit[%s, %d rows]' % ('regressor' if r else 'classifier', n), u_fit(r, n)) for r in (False, True) for n in (1, 2)] + \
        [('leaf learn_one[%s]' % k, u_leaf(k)) for k in ('MC', 'NB', 'NBA')] + [('leaf predict_one', u_leaf_predict)] + \
        [('naive Bayes votes[%d observers]' % n, u_bayes(n)) for n in (0, 1, 2)] + \
        [('predict_proba[classes %s]' % ('declared' if d else 'seen'), u_proba(d)) for d in (True, False)] + [('predict', u_predict), ('votes', u_votes)] + \
        [('memory limit[%s]' % n, u_limit(r)) for n, r in (('classifier', False), ('regressor', True))] + \
        [('measurements[%s]' % n, u_counts(r)) for n, r in (('classifier', False), ('regressor', True))] + \
        [('regressor leaf', u_mean), ('regressor normalisation', u_norm), ('regressor perceptron', u_perceptron), ('regressor predict', u_rpredict)]



# ------------------------------------------------------------------ the same contract on the real code: a reference tree from the raw rows
class Unclear(Exception):
    """a comparison too close to call in floating point"""


def near(a, b, tol=1e-6):
    if a is None or b is None:
        return a is b
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def gt(a, b, tol=1e-9):
    """a > b, refusing near ties"""
    if math.isinf(a) or math.isinf(b):
        return a > b
    if abs(a - b) <= tol * max(1.0, abs(a), abs(b)):
        raise Unclear()
    return a > b


def top(d):
    """key of the largest value (the first of exact equals), refusing near ties"""
    best = None
    for k, v in d.items():
        if best is None:
            best = k
        elif v != d[best] and gt(v, d[best], 1e-10):
            best = k
    return best


def Phi(z):
    return 0.5 * math.erfc(-z / math.sqrt(2))


class G:
    def __init__(self):
        self.w = self.m = self.s = 0.0
        self.lo = self.hi = None

    def add(self, x, w):
        self.lo, self.hi = (x, x) if self.lo is None else (min(x, self.lo), max(x, self.hi))
        if self.w > 0:
            self.w += w
            d = x - self.m
            self.m += w * d / self.w
            self.s += w * d * (x - self.m)
        else:
            self.m, self.w = x, w

    @property
    def var(self):
        return self.s / (self.w - 1) if self.w > 1 else 0.0

    def pdf(self, x):
        v = self.var
        if 0 < v < 1e-12:
            raise Unclear()
        if v > 0:
            return math.exp(-(x - self.m) ** 2 / (2 * v)) / math.sqrt(2 * math.pi * v)
        return 1.0 if x == self.m else 0.0

    def cdf(self, x):
        v = self.var
        if 0 < v < 1e-12:
            raise Unclear()
        return Phi((x - self.m) / math.sqrt(v)) if v > 0 else float(x >= self.m)


def H(ds):
    n = sum(ds)
    return -sum(d / n * math.log2(d / n) for d in ds if d > 0) if n > 0 else 0.0


def class_merit(crit, pre, post):
    ws = [sum(d.values()) for d in post]
    W = sum(ws)
    if crit == 'gini':
        return 1 - sum(w / W * (1 - sum((v / w) ** 2 for v in d.values())) for w, d in zip(ws, post) if w > 0) if W > 0 else 0.0
    if W > 0:
        for w in ws:
            if abs(w / W - 0.01) < 1e-9:
                raise Unclear()
    if W <= 0 or sum(1 for w in ws if w / W > 0.01) < 2:
        return -math.inf
    return H(list(pre.values())) - sum(w / W * H(list(d.values())) for w, d in zip(ws, post))


def sd(d):
    v = d[2] - d[1] * d[1] / d[0]
    return math.sqrt(v / d[0]) if v > 0 else 0.0


def reg_merit(pre, post):
    if any(d[0] < 5 - 1e-9 for d in post):
        return 0.0
    if any(d[0] < 5 for d in post):
        raise Unclear()
    m = sd(pre) - sum(d[0] / pre[0] * sd(d) for d in post)
    if len(post) > 1 and abs(m) < 1e-9 * max(1.0, sd(pre)):
        raise Unclear()          # a zero that is rounding
    return m


class Leaf:
    def __init__(self, stats=None, active=True):
        self.stats = dict(stats or {})
        self.active = active
        self.last = self.total
        self.obs, self.rows, self.off = {}, [], set()
        self.real = None
        self.mc = self.nb = 0.0
        self.pw = None

    @property
    def total(self):
        return sum(self.stats.values()) if not getattr(self, 'reg', False) else self.stats.get(0, 0.0)


class RLeaf(Leaf):
    reg = True


class Split:
    def __init__(self, att, kind, val, stats):
        self.att, self.kind, self.val, self.stats, self.ch = att, kind, val, dict(stats), []

    def branch(self, X):
        x = X[self.att]
        if self.kind == '<=':
            return 0 if x <= self.val else 1
        if self.kind == '=':
            return 0 if x == self.val else 1
        return self.val.index(x) if x in self.val else -1

    def conds(self):
        if self.kind == '<=':
            return [('<=', self.val), ('>', self.val)]
        if self.kind == '=':
            return [('=', self.val), ('!=', self.val)]
        return [('=', v) for v in self.val]


class Ref:
    """the published algorithm on the raw rows"""
    def __init__(self, p, norm=None):
        self.p, self.root, self.classes = p, None, None
        self.norm = norm or [0.0, 0.0, 0.0, None, None]

    # -- learning
    def learn(self, X, y, w):
        p = self.p
        if p['reg']:
            N = self.norm
            N[0] += w
            N[1] += w * y
            N[2] += w * y * y
            N[3] = w * X if N[3] is None else N[3] + w * X
            N[4] = w * X * X if N[4] is None else N[4] + w * X * X
        if self.root is None:
            self.root = self.leaf()
        node, parent, b = self.root, None, None
        while isinstance(node, Split):
            k = node.branch(X)
            if k < 0:
                node.val.append(X[node.att])
                new = self.leaf()
                node.ch.append(new)
                self.train(new, X, y, w)
                return
            parent, b, node = node, k, node.ch[k]
        self.train(node, X, y, w)
        due = node.total - node.last
        if near(due, p['grace_period'], 1e-9) and (due != p['grace_period'] or any(4 * v != round(4 * v) for v in node.stats.values())):
            raise Unclear()
        if node.active and due >= p['grace_period']:
            self.attempt(node, parent, b)
            node.last = node.total

    def leaf(self, stats=None, parent=None):
        l = (RLeaf if self.p['reg'] else Leaf)(stats)
        if parent is not None and parent.pw is not None:
            l.pw = parent.pw.copy()
        return l

    def train(self, l, X, y, w):
        p = self.p
        if p['reg']:
            for i, v in enumerate((w, w * y, w * y * y)):
                l.stats[i] = l.stats.get(i, 0.0) + v
        else:
            if p['leaf_prediction'] == 'nba' and l.active:
                if (top(l.stats) if l.stats else 0) == y:
                    l.mc += w
                if top(self.bayes(l, X)) == y:
                    l.nb += w
            l.stats[y] = l.stats.get(y, 0.0) + w
            l.stats = dict(sorted(l.stats.items()))
        if l.active:
            l.rows.append((X, y, w))
            for i, x in enumerate(X):
                if p['reg'] and l.real is not None and i in l.real:
                    l.real[i].update(x, y, w)
                    continue
                o = l.obs.setdefault(i, {})
                if self.nominal(i) or p['reg']:
                    d = o.setdefault(x, {})
                    for k, v in (((0, w), (1, w * y), (2, w * y * y)) if p['reg'] else ((y, w),)):
                        d[k] = d.get(k, 0.0) + v
                else:
                    o.setdefault(y, G()).add(x, w)
        if p['reg'] and p['leaf_prediction'] == 'perceptron':
            if l.pw is None:
                l.pw = np.random.RandomState(p['random_state']).uniform(-1, 1, len(X) + 1)
            rate = p['learning_ratio_perceptron']
            if not p['learning_ratio_const']:
                rate = rate / (1 + l.stats[0] * p['learning_ratio_decay'])
            z, t = self.z(X), self.scale(y, self.norm[1], self.norm[2])
            for _ in range(int(w)):
                l.pw = l.pw + rate * (t - float(l.pw @ z)) * z
                l.pw = l.pw / np.abs(l.pw).sum()

    def nominal(self, i):
        return self.p['nominal_attributes'] is not None and i in self.p['nominal_attributes']

    def scale(self, x, s, ss):
        n = self.norm[0]
        if n <= 1:
            return 0.0
        d = self.dev(s, ss)
        return (x - s / n) / (3 * d) if d > 0 else 0.0

    def dev(self, s, ss):
        n = self.norm[0]
        v = ss - s * s / n if n > 1 else 0.0
        if 0 < abs(v) < 1e-7 * max(1.0, abs(ss)):
            raise Unclear()
        return math.sqrt(v / n) if v > 0 else 0.0

    def z(self, X):
        return np.array([x if self.nominal(i) else self.scale(x, self.norm[3][i], self.norm[4][i]) for i, x in enumerate(X)] + [1.0 if self.norm[0] > 1 else 0.0])

    # -- splitting
    def candidates(self, l, i):
        """best (merit, kind, value, distributions) of attribute i, or None"""
        p, o = self.p, l.obs.get(i)
        pre = l.stats
        merit = (lambda post: reg_merit(pre, post)) if p['reg'] else (lambda post: class_merit(p['split_criterion'], pre, post))
        out = []
        if i in l.off:
            return None
        if p['reg'] and l.real is not None and i in l.real:
            from skmultiflow.trees._split_criterion import VarianceReductionSplitCriterion
            s = l.real[i].get_best_evaluated_split_suggestion(VarianceReductionSplitCriterion(), pre, i, p['binary_split'])
            if s is None or s.split_test is None:
                return None if s is None else (s.merit, None, None, [])
            return s.merit, '<=', s.split_test.get_split_value(), [dict(d) for d in s.resulting_class_distributions]
        if self.nominal(i):
            def add(vs):
                r = {}
                for v in vs:
                    for k, w in o[v].items():
                        r[k] = r.get(k, 0.0) + w
                return r
            vals = sorted(o)
            if not p['binary_split']:
                out.append((merit([o[v] for v in vals]), 'multi', list(vals), [dict(o[v]) for v in vals]))
            for v in vals:
                ds = [add([v]), add(u for u in vals if u != v) if not p['reg'] else {k: pre[k] - o[v][k] for k in (0, 1, 2)}]
                out.append((merit(ds), '=', v, ds))
        elif p['reg']:
            vals = sorted(o)
            acc = {0: 0.0, 1: 0.0, 2: 0.0}
            for v in vals:
                acc = {k: acc[k] + o[v][k] for k in acc}
                ds = [dict(acc), {k: pre[k] - acc[k] for k in acc}]
                if ds[1][0] < 5 + 1e-9 and ds[1][0] > 5 - 1e-9:
                    ds[1][0] = round(ds[1][0], 7)
                out.append((merit(ds), '<=', v, ds))
        else:
            lo, hi = min(g.lo for g in o.values()), max(g.hi for g in o.values())
            if lo == hi:
                return None
            for j in range(10):
                cut = lo + (hi - lo) / 11.0 * (j + 1)
                if not lo < cut < hi:
                    raise Unclear()
                l_, r_ = {}, {}
                for c, g in sorted(o.items()):
                    for e in (g.lo, g.hi):
                        if e != cut and near(e, cut, 1e-12):
                            raise Unclear()
                    f = 0.0 if cut < g.lo else 1.0 if cut >= g.hi else g.cdf(cut)
                    if f > 0 or cut >= g.lo:
                        l_[c] = f * g.w
                    if f < 1:
                        r_[c] = (1 - f) * g.w
                out.append((merit([l_, r_]), '<=', cut, [l_, r_]))
        best = None
        for c in out:
            if best is None or (c[0] != best[0] and gt(c[0], best[0])):
                best = c
        # equal merits of different splits (exact equality can be rounding)
        if not math.isinf(best[0]) and (p['reg'] or best[0] != 0.0) and any(
                c is not best and (near(c[0], best[0], 1e-10) or abs(c[0] - best[0]) < 1e-10) for c in out):
            raise Unclear()
        return best

    def attempt(self, l, parent, b):
        p = self.p
        if not p['reg'] and sum(1 for v in l.stats.values() if v != 0) < 2:
            return
        sugs = []
        if not p['no_preprune']:
            sugs.append((reg_merit(l.stats, [l.stats]) if p['reg'] else class_merit(p['split_criterion'], l.stats, [l.stats]), None, None, None, None))
        for i in sorted(l.obs):
            c = self.candidates(l, i)
            if c is not None:
                sugs.append((c[0], i) + c[1:])
        order = sorted(sugs, key=lambda s: s[0])
        for a, c in zip(order, order[1:]):
            if a[0] != c[0] and near(a[0], c[0], 1e-10):
                raise Unclear()
            if a[0] == c[0] and not math.isinf(a[0]) and a[0] != 0:
                raise Unclear()
        if not order:
            return
        go = len(order) == 1
        eps = None
        if not go:
            n = l.total
            R = 1.0 if p['reg'] or p['split_criterion'] == 'gini' else math.log2(max(2, len(l.stats)))
            eps = math.sqrt(R * R * math.log(1 / p['split_confidence']) / (2 * n))
            m1, m2 = order[-1][0], order[-2][0]
            if p['reg']:
                go = m1 > 0 and (gt(1 - eps, m2 / m1) or gt(p['tie_threshold'], eps))
            else:
                gap = m1 - m2
                go = (not math.isnan(gap) and gt(gap, eps)) or gt(p['tie_threshold'], eps)
            if p['remove_poor_atts'] and p['leaf_prediction'] in ('mc', 'mean', 'perceptron'):
                for s in order:
                    if s[1] is None:
                        continue
                    if p['reg']:
                        if m1 > 0 and gt(m2 / m1 - 2 * eps, s[0] / m1):
                            l.off.add(s[1])
                    elif not math.isnan(m1 - s[0]) and gt(m1 - s[0], eps):
                        l.off.add(s[1])
        if go:
            _, i, kind, val, ds = order[-1]
            if i is None or kind is None:
                # switched off, and on again by the memory check (there is room): a fresh leaf with the same statistics
                new = self.leaf(l.stats, l)
                if parent is None:
                    self.root = new
                else:
                    parent.ch[b] = new
                return
            new = Split(i, kind, val, l.stats)
            new.ch = [self.leaf(d, l) for d in ds]
            if parent is None:
                self.root = new
            else:
                parent.ch[b] = new
        elif p['reg'] and len(order) > 1 and order[-1][0] > 0 and order[-2][0] > 0:
            from skmultiflow.trees._attribute_observer import NumericAttributeRegressionObserver
            from skmultiflow.trees._split_criterion import VarianceReductionSplitCriterion
            if l.real is None:
                l.real = {}
                for i in l.obs:
                    if not self.nominal(i):
                        l.real[i] = NumericAttributeRegressionObserver()
                        for X, y, w in l.rows:
                            l.real[i].update(X[i], y, w)
            for i, o in l.real.items():
                if i not in l.off:
                    o.remove_bad_splits(VarianceReductionSplitCriterion(), order[-2][0] / order[-1][0], order[-1][0], eps, l.stats)

    # -- predicting
    def find(self, X):
        node = self.root
        while isinstance(node, Split):
            k = node.branch(X)
            if k < 0:
                return node
            node = node.ch[k]
        return node

    def bayes(self, l, X):
        n = sum(l.stats.values())
        if n == 0:
            return {0: 0.0}
        v = {}
        for c, w in l.stats.items():
            v[c] = w / n
            for i, x in enumerate(X):
                if i not in l.obs:
                    continue
                o = l.obs[i]
                if self.nominal(i):
                    mine = {u: d[c] for u, d in o.items() if c in d}
                    v[c] *= (mine.get(x, 0.0) + 1) / (sum(mine.values()) + len(mine)) if mine else 0.0
                else:
                    v[c] *= o[c].pdf(x) if c in o else 0.0
        return v

    def votes(self, X):
        l = self.find(X)
        if l is None:
            return {}
        p = self.p['leaf_prediction']
        if isinstance(l, Split) or not l.active or p == 'mc':
            return l.stats
        if p == 'nb':
            return self.bayes(l, X) if l.total >= self.p['nb_threshold'] else l.stats
        if l.mc != l.nb and near(l.mc, l.nb, 1e-9):
            raise Unclear()
        return l.stats if l.mc > l.nb else self.bayes(l, X)

    def value(self, X):
        l = self.find(X)
        if l is None:
            return 0.0
        if isinstance(l, Split) or l.pw is None:
            return l.stats[1] / l.stats[0] if l.stats and l.stats[0] > 0 else 0.0
        n = self.norm[0]
        return float(l.pw @ self.z(X)) * self.dev(self.norm[1], self.norm[2]) * 3 + self.norm[1] / n

    def walk(self, node=None, depth=0):
        node = self.root if node is None else node
        if node is None:
            return
        yield node, depth
        if isinstance(node, Split):
            for c in node.ch:
                yield from self.walk(c, depth + 1)

    def lines(self, node=None, depth=0):
        node = self.root if node is None else node
        if isinstance(node, Split):
            for (op, v), c in zip(node.conds(), node.ch):
                yield depth, node.att, op, v
                yield from self.lines(c, depth + 1)
        else:
            yield depth, None, None, node.stats


def parse(text):
    out = []
    for ln in text.splitlines():
        if not ln.strip():
            continue
        depth = (len(ln) - len(ln.lstrip())) // 2
        t = ln.strip()
        if t.startswith('if '):
            _, _, att, op, v = t.rstrip(':').split()
            out.append((depth, int(att), op, float(v)))
        else:
            out.append((depth, None, t.split('{')[0], eval('{' + t.split('{', 1)[1], {'np': np, 'nan': math.nan, 'inf': math.inf})))
    return out


def cases(rnd, hints, tier):
    while True:
        for kind in ('c', 'c', 'r', 'c', 'mem', 'r', 'c', 'edge'):
            yield dict(kind=kind, seed=rnd.randrange(10 ** 9))


STAT = {}


def run_case(case):
    import random, warnings
    warnings.simplefilter('ignore')
    rnd = random.Random(case['seed'])
    try:
        return globals()['r_' + case['kind']](rnd, case)
    except Unclear:
        STAT['unclear'] = STAT.get('unclear', 0) + 1
        return None


def stream(rnd, n, reg):
    """rows with a few numeric and nominal attributes and a target that depends on some of them"""
    d = rnd.choice([1, 2, 2, 3, 4])
    nom = [i for i in range(d) if rnd.random() < 0.35]
    k = rnd.choice([2, 2, 3, 4])
    noise = rnd.choice([0.0, 0.1, 0.3])
    late = rnd.random() < 0.3
    rs = np.random.RandomState(rnd.randrange(10 ** 6))
    scale = rnd.choice([1.0, 1.0, 10.0])
    rows = []
    grid = rnd.choice([None, None, 0.125])
    for t in range(n):
        x = np.array([float(rs.randint(3 if not (late and t > n * 0.6) else 4)) if i in nom else scale * rs.rand() for i in range(d)])
        if grid:
            x = np.round(x / grid) * grid
        s = x[0] / (3 if 0 in nom else scale)
        if d > 1 and s > 0.5:
            s = 0.3 * s + 0.7 * x[1] / (3 if 1 in nom else scale)
        if reg:
            y = 5 * s + noise * rs.randn() + rnd.choice([0.0, 0.0, 0.01])
        else:
            y = int(min(k - 1, s * k)) if rs.rand() >= noise else rs.randint(k)
            y = int(y)
        rows.append((x, y))
    return rows, nom, k


def r_c(rnd, case):
    from skmultiflow.trees import HoeffdingTreeClassifier
    n = rnd.choice([60, 150, 300, 500])
    rows, nom, k = stream(rnd, n, False)
    kw = dict(grace_period=rnd.choice([5, 4.6, 9.6, 19.6, 20, 36.6, 49.6]), split_criterion=rnd.choice(['info_gain', 'gini']), split_confidence=rnd.choice([1e-7, 1e-3, 0.05, 0.3]),
              tie_threshold=rnd.choice([0.0, 0.05, 0.3, 1.0]), binary_split=rnd.random() < 0.4, no_preprune=rnd.random() < 0.3, remove_poor_atts=rnd.random() < 0.3,
              leaf_prediction=rnd.choice(['mc', 'nb', 'nba', 'nba']), nb_threshold=rnd.choice([0, 0, 30]), nominal_attributes=nom or None)
    return history(rnd, HoeffdingTreeClassifier, kw, rows, k, False)


def r_r(rnd, case):
    from skmultiflow.trees import HoeffdingTreeRegressor
    n = rnd.choice([60, 150, 300])
    rows, nom, k = stream(rnd, n, True)
    kw = dict(grace_period=rnd.choice([9.6, 20, 19.6, 36.6, 49.6]), split_confidence=rnd.choice([1e-7, 1e-3, 0.05, 0.3]), tie_threshold=rnd.choice([0.0, 0.05, 0.3, 1.0]),
              binary_split=rnd.random() < 0.4, no_preprune=rnd.random() < 0.3, remove_poor_atts=rnd.random() < 0.2, leaf_prediction=rnd.choice(['mean', 'mean', 'perceptron']),
              nominal_attributes=nom or None, random_state=rnd.randrange(100), learning_ratio_perceptron=rnd.choice([0.02, 0.2]), learning_ratio_decay=rnd.choice([0.001, 0.1]), learning_ratio_const=rnd.random() < 0.5)
    return history(rnd, HoeffdingTreeRegressor, kw, rows, k, True)


def history(rnd, cls, kw, rows, k, reg):
    import copy
    p = dict(kw, reg=reg)
    tree, ref = cls(**kw), Ref(p)
    what = '%s(%s)' % (cls.__name__, ', '.join('%s=%r' % kv for kv in kw.items()))
    declare = not reg and rnd.random() < 0.4
    wmode = rnd.choice(['one', 'one', 'int', 'any'])
    i, since = 0, 0
    probe = [rows[rnd.randrange(len(rows))][0] for _ in range(4)] + [np.array([float(rnd.randrange(6)) for _ in rows[0][0]])]
    msg = look(rnd, tree, ref, probe, what, 0)
    if msg:
        return msg
    while i < len(rows):
        b = rnd.choice([1, 1, 3, 10, 25])
        part = rows[i:i + b]
        X = np.array([r[0] for r in part])
        y = np.array([r[1] for r in part])
        W = None if wmode == 'one' else np.array([rnd.choice([1.0, 2.0, 3.0, 0.0] if wmode == 'int' else [1.0, 0.5, 2.25, 0.0, 1.5]) for _ in part])
        keep = (X.copy(), y.copy(), None if W is None else W.copy())
        if declare:
            r = tree.partial_fit(X, y, classes=list(range(k)), sample_weight=W)
            ref.classes = list(range(k)) if ref.classes is None else ref.classes
        else:
            r = tree.partial_fit(X, y, sample_weight=W) if W is not None or rnd.random() < 0.5 else tree.partial_fit(X, y)
        if r is not tree:
            return what + ': partial_fit does not return the tree'
        if not (np.array_equal(keep[0], X) and np.array_equal(keep[1], y) and (W is None or np.array_equal(keep[2], W))):
            return what + ': partial_fit changed its arguments'
        for j, (x, t) in enumerate(part):
            w = 1.0 if W is None else float(W[j])
            if w:
                ref.learn(x, t, w)
        i += b
        since += 1
        if rnd.random() < 0.25 or i >= len(rows):
            msg = look(rnd, tree, ref, probe + [rows[rnd.randrange(len(rows))][0]], what, i)
            if msg:
                return msg
        if rnd.random() < 0.01:
            tree.reset()
            ref = Ref(p, ref.norm if reg else None)
            what += ' with reset after %d rows' % i
            if tree.get_model_description() is not None or tree.model_measurements['Tree size (nodes)'] != 0:
                return what + ': something is left'
    return None


def look(rnd, tree, ref, probe, what, i):
    """everything a user can see agrees with the reference"""
    what = '%s after %d rows' % (what, i)
    p = ref.p
    X = np.array(probe)
    nodes = list(ref.walk())
    leaves = [nd for nd, _ in nodes if isinstance(nd, Leaf)]
    m = tree.model_measurements
    for key, want in (('Tree size (nodes)', len(nodes)), ('Tree size (leaves)', len(leaves)), ('Active learning nodes', sum(l.active for l in leaves)), ('Tree depth', max([d for _, d in nodes] or [0]))):
        if m[key] != want:
            return '%s: %s is %r, should be %r' % (what, key, m[key], want)
    text = tree.get_model_description()
    if ref.root is None:
        if text is not None:
            return what + ': an empty tree describes itself as %r' % text
    else:
        got, want = parse(text), list(ref.lines())
        if len(got) != len(want):
            return '%s: the tree\n%s\nshould be\n%r' % (what, text, want)
        for g, w in zip(got, want):
            if w[1] is None:
                if g[1] is not None or g[0] != w[0]:
                    return '%s: the tree\n%s\nshould be\n%r' % (what, text, want)
                ks = set(g[3]) | set(w[3])
                if not all(near(g[3].get(c, 0.0), w[3].get(c, 0.0), 1e-3 if p['reg'] else 1e-6) for c in ks):
                    return '%s: a leaf holds %r, should be %r' % (what, g[3], w[3])
                if not p['reg'] and w[3]:
                    best = max(g[3].values())
                    c = int(g[2].split('Class')[1].split('|')[0])
                    if not near(g[3].get(c, 0.0), best):
                        return '%s: leaf %r is described as %r' % (what, g[3], g[2])
            elif g[0] != w[0] or g[1] != w[1] or g[2] != w[2] or not near(g[3], w[3]):
                return '%s: test %r should be %r' % (what, g, w)
    if p['reg']:
        got = tree.predict(X)
        if len(got) != len(X):
            return '%s: %d predictions for %d rows' % (what, len(got), len(X))
        for x, g in zip(X, got):
            w = ref.value(x)
            if not near(float(g), w, 1e-5):
                return '%s: prediction of %r is %r, should be %r' % (what, list(x), g, w)
        return None
    V = [ref.votes(x) for x in X]
    P, C = tree.predict_proba(X), tree.predict(X)
    width = max(ref.classes) + 1 if ref.classes is not None else max([1] + [max(v) + 1 for v in V if v])
    if np.shape(P) != (len(X), width) or np.shape(C) != (len(X),):
        return '%s: shapes %r and %r of the predictions for %d rows and %d classes' % (what, np.shape(P), np.shape(C), len(X), width)
    for x, v, pr, c in zip(X, V, P, C):
        s = sum(v.values())
        w = [v.get(j, 0.0) / s if s else 0.0 for j in range(width)]
        if s and s < 1e-200:
            continue
        if not all(near(float(a), b) for a, b in zip(pr, w)):
            return '%s: probabilities of %r are %r, should be %r' % (what, list(x), list(pr), w)
        if pr[int(c)] != max(pr):
            return '%s: %r predicted with probabilities %r' % (what, c, list(pr))
    rules = tree.get_model_rules()
    if tree.get_rules_description() != ''.join(str(r) + '\n' for r in rules):
        return '%s: the rules %r are described as %r' % (what, [str(r) for r in rules], tree.get_rules_description())
    if len(rules) != len(leaves):
        return '%s: %d rules for %d leaves' % (what, len(rules), len(leaves))
    for x in X:
        l = ref.find(x)
        cov = [r for r in rules if r.covers_instance(x)]
        if isinstance(l, Leaf):
            if len(cov) != 1 or any(not near(cov[0].observed_class_distribution.get(c, 0.0), l.stats.get(c, 0.0)) for c in set(l.stats) | set(cov[0].observed_class_distribution)):
                return '%s: row %r is covered by the rules %r, should be the leaf %r' % (what, list(x), [str(r) for r in cov], l.stats)
        elif len(cov) > 0:
            return '%s: row %r leads to no leaf but rules %r cover it' % (what, list(x), [str(r) for r in cov])
    return None


def r_mem(rnd, case):
    """memory limits: whatever is switched off, the tree stays consistent"""
    from skmultiflow.trees import HoeffdingTreeClassifier, HoeffdingTreeRegressor
    reg = rnd.random() < 0.4
    rows, nom, k = stream(rnd, rnd.choice([150, 300]), reg)
    kw = dict(grace_period=rnd.choice([10, 20]), split_confidence=0.3, tie_threshold=rnd.choice([0.3, 1.0]), leaf_prediction='mean' if reg else 'mc', nominal_attributes=nom or None,
              memory_estimate_period=rnd.choice([20, 50]), max_byte_size=rnd.choice([2000, 10000, 30000, 100000]), stop_mem_management=rnd.random() < 0.3)
    cls = HoeffdingTreeRegressor if reg else HoeffdingTreeClassifier
    t = cls(**kw)
    what = '%s(%s)' % (cls.__name__, ', '.join('%s=%r' % kv for kv in kw.items()))
    for i, (x, y) in enumerate(rows):
        t.partial_fit(np.array([x]), np.array([y]))
        if i % 15 == 0 or i == len(rows) - 1:
            m = t.model_measurements
            L = parse(t.get_model_description())
            leaves = [l for l in L if l[1] is None]
            if m['Tree size (leaves)'] != len(leaves) or not 0 <= m['Active learning nodes'] <= len(leaves):
                return '%s after %d rows: %r for %d leaves' % (what, i + 1, m, len(leaves))
            if m['Tree depth'] != max(l[0] for l in L):
                return '%s after %d rows: depth %r' % (what, i + 1, m['Tree depth'])
            if reg:
                continue
            X = np.array([r[0] for r in rows[:6]])
            P = t.predict_proba(X)
            for x_, pr in zip(X, P):
                cov = [r for r in t.get_model_rules() if r.covers_instance(x_)]
                if len(cov) != 1:
                    continue
                d = cov[0].observed_class_distribution
                s = sum(d.values())
                if s and not all(near(pr[c], v / s) for c, v in d.items()):
                    return '%s after %d rows: probabilities %r in leaf %r' % (what, i + 1, list(pr), d)
    return None


def r_edge(rnd, case):
    from skmultiflow.trees import HoeffdingTreeClassifier, HoeffdingTreeRegressor
    X = np.array([[rnd.random() for _ in range(3)] for _ in range(8)])
    for cl in (HoeffdingTreeClassifier, HoeffdingTreeRegressor):
        t = cl()
        nm = cl.__name__
        try:
            t.partial_fit(X, np.zeros(8), sample_weight=np.ones(5))
            return nm + ': 5 weights for 8 rows are accepted'
        except ValueError:
            pass
        t = cl()
        t.partial_fit(X, np.arange(8) % 2, sample_weight=np.zeros(8))
        if t.model_measurements['Tree size (nodes)'] != 0:
            return nm + ': rows of weight 0 are learned'
    if case.get('finding') == 'htr-reset':
        y = X[:, 0] * 2 + 100
        a, b = HoeffdingTreeRegressor(random_state=1), HoeffdingTreeRegressor(random_state=1)
        a.partial_fit(X, y)
        a.reset()
        a.partial_fit(X, -y)
        b.partial_fit(X, -y)
        if not np.allclose(a.predict(X), b.predict(X)):
            return 'HoeffdingTreeRegressor.reset keeps the normalisation statistics [htr-reset]'
    return None
