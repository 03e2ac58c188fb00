"""C23: every estimator and detector: parameters, clone and reset."""
import ast
import os
from collections import deque
import numpy as np
from pv import sym as S
from pv.sym import Sym, Unsupported
from pv.vm import PyRaise, Obj, Bound, Ext, SRC

ID = 'C23'
BUDGET = 60
MAX_CASES = 200
ASSUME, BOUNDED = [], []
A = 'drift_detection/'
CL = [  # file, class, parameters (symbolic: name -> kind), other values
    (A + 'adwin.py', 'ADWIN', dict(delta=0.3)),
    (A + 'ddm.py', 'DDM', dict(min_num_instances=7, warning_level=1.5, out_control_level=2.5)),
    (A + 'eddm.py', 'EDDM', dict()),
    (A + 'page_hinkley.py', 'PageHinkley', dict(min_instances=5, delta=0.1, threshold=3, alpha=0.9)),
    (A + 'hddm_a.py', 'HDDM_A', dict(drift_confidence=0.1, warning_confidence=0.2, two_side_option=False)),
    (A + 'hddm_w.py', 'HDDM_W', dict(drift_confidence=0.1, warning_confidence=0.2, lambda_option=0.3, two_side_option=False)),
    (A + 'kswin.py', 'KSWIN', dict(alpha=0.1, window_size=20, stat_size=5)),
    ('bayes/naive_bayes.py', 'NaiveBayes', dict(nominal_attributes=[1])),
    ('lazy/knn_classifier.py', 'KNNClassifier', dict(n_neighbors=3, max_window_size=20, leaf_size=7, metric='manhattan')),
    ('lazy/knn_adwin.py', 'KNNADWINClassifier', dict(n_neighbors=3, max_window_size=20, leaf_size=7, metric='manhattan')),
    ('lazy/knn_regressor.py', 'KNNRegressor', dict(n_neighbors=3, max_window_size=20, leaf_size=7, metric='manhattan', aggregation_method='median')),
    ('lazy/sam_knn.py', 'SAMKNNClassifier', dict(n_neighbors=3, weighting='uniform', max_window_size=30, ltm_size=0.3, min_stm_size=10, stm_size_option='maxACC', use_ltm=False)),
    ('trees/hoeffding_tree.py', 'HoeffdingTreeClassifier', dict(grace_period=20, split_criterion='gini', split_confidence=.1, tie_threshold=.2, binary_split=True, remove_poor_atts=True, no_preprune=True, leaf_prediction='mc', nb_threshold=3, nominal_attributes=[0])),
    ('trees/extremely_fast_decision_tree.py', 'ExtremelyFastDecisionTreeClassifier', dict(grace_period=20, min_samples_reevaluate=5, split_criterion='gini', leaf_prediction='mc', nb_threshold=3, nominal_attributes=[0])),
    ('trees/hoeffding_adaptive_tree.py', 'HoeffdingAdaptiveTreeClassifier', dict(grace_period=20, split_criterion='gini', leaf_prediction='mc', nominal_attributes=[0], bootstrap_sampling=False, random_state=3)),
    ('trees/hoeffding_tree_regressor.py', 'HoeffdingTreeRegressor', dict(grace_period=20, leaf_prediction='mean', learning_ratio_perceptron=.1, learning_ratio_decay=.2, learning_ratio_const=False, random_state=3)),
    ('trees/hoeffding_adaptive_tree_regressor.py', 'HoeffdingAdaptiveTreeRegressor', dict(grace_period=20, leaf_prediction='mean', learning_ratio_perceptron=.1, bootstrap_sampling=False, random_state=3)),
    ('trees/isoup_tree.py', 'iSOUPTreeRegressor', dict(grace_period=20, leaf_prediction='mean', learning_ratio_perceptron=.1, random_state=3)),
    ('trees/stacked_single_target_hoeffding_tree_regressor.py', 'StackedSingleTargetHoeffdingTreeRegressor', dict(grace_period=20, leaf_prediction='adaptive', learning_ratio_perceptron=.1, random_state=3)),
    ('trees/label_combination_hoeffding_tree.py', 'LabelCombinationHoeffdingTreeClassifier', dict(grace_period=20, split_criterion='gini', leaf_prediction='mc', n_labels=2)),
    ('trees/arf_hoeffding_tree.py', 'ARFHoeffdingTreeClassifier', dict(grace_period=20, split_criterion='gini', leaf_prediction='mc', max_features=3, random_state=3)),
    ('trees/arf_hoeffding_tree_regressor.py', 'ARFHoeffdingTreeRegressor', dict(grace_period=20, leaf_prediction='mean', max_features=3, random_state=3)),
    ('rules/very_fast_decision_rules.py', 'VeryFastDecisionRulesClassifier', dict(expand_confidence=.1, ordered_rules=False, grace_period=20, tie_threshold=.2, rule_prediction='weighted_max', nominal_attributes=[1], max_rules=5, nb_threshold=2, nb_prediction=False, expand_criterion='hellinger', remove_poor_atts=True, min_weight=7)),
    ('prototype/robust_soft_learning_vector_quantization.py', 'RobustSoftLearningVectorQuantization', dict(prototypes_per_class=2, sigma=.5, random_state=3, gradient_descent='adadelta', gamma=.5)),
    ('anomaly_detection/half_space_trees.py', 'HalfSpaceTrees', dict(window_size=10, depth=3, n_estimators=2, size_limit=3, anomaly_threshold=.4, random_state=3)),
    ('transform/missing_values_cleaner.py', 'MissingValuesCleaner', dict(missing_value=[-1], strategy='mean', window_size=7, new_value=2)),
    ('transform/windowed_minmax_scaler.py', 'WindowedMinmaxScaler', dict(window_size=7)),
    ('transform/windowed_standard_scaler.py', 'WindowedStandardScaler', dict(window_size=7)),
    ('transform/one_hot_to_categorical.py', 'OneHotToCategorical', dict(categorical_list=[[0, 1], [2, 3]])),
]
for m, c, kw in (('accuracy_weighted_ensemble', 'AccuracyWeightedEnsembleClassifier', dict(n_estimators=3, n_kept_estimators=4, window_size=20, n_splits=3)), ('additive_expert_ensemble', 'AdditiveExpertEnsembleClassifier', dict(n_estimators=3, beta=.5, gamma=.2, pruning='oldest')),
                 ('batch_incremental', 'BatchIncrementalClassifier', dict(window_size=20, n_estimators=3)), ('dynamic_weighted_majority', 'DynamicWeightedMajorityClassifier', dict(n_estimators=3, period=20, beta=.4, theta=.1)),
                 ('learn_nse', 'LearnPPNSEClassifier', dict(window_size=20, slope=.4, crossing_point=8, n_estimators=3, pruning='age')), ('learn_pp', 'LearnPPClassifier', dict(error_threshold=.4, n_estimators=3, n_ensembles=4, window_size=20, random_state=3)),
                 ('leverage_bagging', 'LeveragingBaggingClassifier', dict(n_estimators=3, w=5, delta=.1, enable_code_matrix=True, leverage_algorithm='leveraging_bag_me', random_state=3)),
                 ('multi_output_learner', 'MultiOutputLearner', {}), ('online_adac2', 'OnlineAdaC2Classifier', dict(n_estimators=3, cost_positive=2, cost_negative=.2, drift_detection=False, random_state=3)),
                 ('online_boosting', 'OnlineBoostingClassifier', dict(n_estimators=3, drift_detection=False, random_state=3)), ('online_csb2', 'OnlineCSB2Classifier', dict(n_estimators=3, cost_positive=2, cost_negative=.2, drift_detection=False, random_state=3)),
                 ('online_rus_boost', 'OnlineRUSBoostClassifier', dict(n_estimators=3, sampling_rate=2, algorithm=2, drift_detection=False, random_state=3)), ('online_smote_bagging', 'OnlineSMOTEBaggingClassifier', dict(n_estimators=3, sampling_rate=2, drift_detection=False, random_state=3)),
                 ('online_under_over_bagging', 'OnlineUnderOverBaggingClassifier', dict(n_estimators=3, sampling_rate=3, drift_detection=False, random_state=3)), ('oza_bagging', 'OzaBaggingClassifier', dict(n_estimators=3, random_state=3)),
                 ('oza_bagging_adwin', 'OzaBaggingADWINClassifier', dict(n_estimators=3, random_state=3)), ('classifier_chains', 'ClassifierChain', dict(order=[1, 0], random_state=3)), ('classifier_chains', 'ProbabilisticClassifierChain', dict(order=[1, 0], random_state=3)),
                 ('classifier_chains', 'MonteCarloClassifierChain', dict(M=3, random_state=3)), ('regressor_chains', 'RegressorChain', dict(order=[1, 0], random_state=3)),
                 ('streaming_random_patches', 'StreamingRandomPatchesClassifier', dict(n_estimators=3, subspace_mode='m', subspace_size=2, training_method='resampling', lam=2.0, disable_weighted_vote=True, disable_drift_detection=True, disable_background_learner=True, nominal_attributes=[1], random_state=3))):
    CL.append(('meta/%s.py' % m, c, dict(kw, base_estimator=None)))
for m, c, kw in (('adaptive_random_forests', 'AdaptiveRandomForestClassifier', dict(n_estimators=3, max_features=2, disable_weighted_vote=True, lambda_value=2, performance_metric='kappa', grace_period=20, random_state=3)),
                 ('adaptive_random_forest_regressor', 'AdaptiveRandomForestRegressor', dict(n_estimators=3, max_features=2, aggregation_method='mean', weighted_vote_strategy='mae', lambda_value=2, grace_period=20, random_state=3))):
    CL.append(('meta/%s.py' % m, c, dict(kw, drift_detection_method='ADWIN', warning_detection_method='ADWIN')))


KNOWN = {('DDM', 'min_num_instances'), ('OnlineBoostingClassifier', 'n_estimators'), ('OnlineSMOTEBaggingClassifier', 'random_state')}   # known findings: not kept
LOOPS = ('n_estimators', 'M', 'max_window_size', 'depth')       # constructors that loop over it: checked for one value


def rest(cls, kw):
    """other values than the defaults, for the parameters of the constructor not listed"""
    a = cls.lookup('__init__').node.args
    out = {}
    for p, d in zip((a.args + a.kwonlyargs)[-len(a.defaults + a.kw_defaults):] if a.defaults + a.kw_defaults else [], a.defaults + a.kw_defaults):
        v = d.value if isinstance(d, ast.Constant) else None
        if p.arg not in kw and (cls.name, p.arg) not in KNOWN and isinstance(v, (bool, int, float)):
            out[p.arg] = not v if isinstance(v, bool) else v
    return out


def build(vm, f, c, kw, symbolic=True):
    """the estimator and the values given"""
    vm.contract('lazy/base_neighbors.py', 'BaseNeighbors', 'valid_metrics', lambda vm, self, a, kw: vm.born(['euclidean', 'manhattan']))

    def val(k, v):
        if isinstance(v, list):
            return vm.born([val(k, w) if isinstance(w, list) else w for w in v])
        if symbolic and isinstance(v, int) and not isinstance(v, bool) and k not in LOOPS and k not in ('random_state', 'algorithm', 'n_labels'):
            return vm.inp(k, 'int', 1)
        if symbolic and isinstance(v, float):
            return vm.inp(k, 'real', 0.001, 0.999)
        return v
    kw = {k: val(k, v) for k, v in dict(rest(vm.cls(f, c), kw), **kw).items()}
    if c == 'KSWIN' and symbolic:
        vm.assume(kw['window_size'] >= kw['stat_size'])
    if 'base_estimator' in kw:
        kw['base_estimator'] = vm.new(vm.cls('bayes/naive_bayes.py', 'NaiveBayes'), nominal_attributes=vm.born([2]))
    for k in ('drift_detection_method', 'warning_detection_method', 'drift_detector'):
        if k in kw:
            kw[k] = vm.new(vm.cls('drift_detection/adwin.py', 'ADWIN'), delta=0.3)
    return vm.new(vm.cls(f, c), **kw), kw


def kept(a, b):
    if isinstance(b, (list, Obj)):
        return a is b
    return a is b or (isinstance(a, Sym) or isinstance(b, Sym)) and same(a, b) or type(a) is type(b) and a == b


def same(a, b):
    return isinstance(a, Sym) and isinstance(b, Sym) and S.eq(a, b) is True


def alike(vm, a, b, path, out, seen):
    """collects the places where two states differ"""
    if (id(a), id(b)) in seen or a is b:
        return
    seen.add((id(a), id(b)))
    if isinstance(a, Obj) and isinstance(b, Obj):
        if a.cls is not b.cls and a.cls != b.cls:
            out.append(path + ': another class')
            return
        if isinstance(a.cls, Ext):
            return                                  # random generators: their draws are arbitrary
        for k in sorted(set(a.fields) | set(b.fields)):
            if k not in a.fields or k not in b.fields:
                out.append('%s.%s: missing' % (path, k))
            else:
                alike(vm, a.fields[k], b.fields[k], '%s.%s' % (path, k), out, seen)
    elif isinstance(a, Bound) and isinstance(b, Bound):
        if a.func is not b.func:
            out.append(path + ': another method')
        alike(vm, a.obj, b.obj, path + '.self', out, seen)
    elif isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)) or a.shape != b.shape:
            out.append(path + ': another array')
            return
        for i in np.ndindex(*a.shape):
            alike(vm, a[i], b[i], '%s%r' % (path, list(i)), out, seen)
    elif type(a) is type(b) and isinstance(a, (list, tuple, deque)):
        if len(a) != len(b):
            out.append('%s: %d elements, not %d' % (path, len(a), len(b)))
            return
        for i, (p, q) in enumerate(zip(a, b)):
            alike(vm, p, q, '%s[%d]' % (path, i), out, seen)
    elif type(a) is type(b) and isinstance(a, dict):
        if list(a) != list(b):
            out.append(path + ': other keys')
            return
        for k in a:
            alike(vm, a[k], b[k], '%s[%r]' % (path, k), out, seen)
    elif isinstance(a, Sym) or isinstance(b, Sym):
        try:
            if S.eq(a, b) is not True and not vm.known(S.eq(a, b)):
                out.append(path + ': another value')
        except Unsupported:
            out.append(path + ': another value')
    elif isinstance(a, (int, float, str, bool, type(None), bytes)) or isinstance(b, (int, float, str, bool, type(None), bytes)):
        if type(a) is not type(b) or not (a == b or a != a and b != b):
            out.append('%s: %r, not %r' % (path, a, b))
    elif type(a) is not type(b):
        out.append('%s: %r, not %r' % (path, a, b))


def like(vm, a, b):
    out = []
    alike(vm, a, b, '', out, set())
    return not out


def diff(vm, a, b, dead=()):
    out = []
    for k in sorted((set(a.fields) | set(b.fields)) - set(dead)):
        if k not in a.fields or k not in b.fields:
            out.append('.%s: missing' % k)
        else:
            alike(vm, a.fields[k], b.fields[k], '.' + k, out, set())
    return out


def reach(x, out):
    """objects reachable from x"""
    if isinstance(x, Bound):
        x = x.obj
    if isinstance(x, Obj):
        if id(x) not in out:
            out[id(x)] = x
            for v in x.fields.values():
                reach(v, out)
    elif isinstance(x, (list, tuple, deque)):
        for v in x:
            reach(v, out)
    elif isinstance(x, dict):
        for v in x.values():
            reach(v, out)
    return out


def u_params(f, c, kw):
    """the constructor keeps every parameter; clone gives a new estimator of the same parameters that shares nothing"""
    def u(vm):
        o, given = build(vm, f, c, kw)
        g = vm.method(o, 'get_params', deep=False)
        vm.prove('get_params has the parameters given', all(k in g for k in given))
        for k, v in given.items():
            if (c, k) not in KNOWN:
                vm.prove('get_params: %s is what was given' % k, kept(g[k], v))
        learners = reach([v for k, v in o.fields.items() if k not in g and k.lstrip('_') not in g], {})
        for k, v in given.items():
            if isinstance(v, Obj):
                vm.prove('%s is a model to copy, not one to train' % k, id(v) not in learners)
        n = vm.method(o, 'set_params')
        vm.prove('set_params without parameters changes nothing', n is o)
        for k, v in given.items():
            if isinstance(v, bool) and k != 'ordered_rules':
                vm.prove('set_params returns the estimator', vm.method(o, 'set_params', **{k: not v}) is o)
                vm.prove('set_params sets %s' % k, vm.method(o, 'get_params', deep=False)[k] is (not v))
                vm.method(o, 'set_params', **{k: v})
        try:
            vm.method(o, 'set_params', no_such_parameter=1)
            vm.prove('an unknown parameter is refused', False)
        except PyRaise as ex:
            vm.prove('an unknown parameter is refused', ex.name == 'ValueError')
        if any(a == c for a, _ in KNOWN):
            return
        names = list(vm.getattr(o, '__dict__')) if False else list(o.fields)
        params = {k for k in g}
        for k in names:                             # any history
            if k not in params and k.lstrip('_') not in params:
                o.fields[k] = 'history'
        z = vm.call(vm.cls('core/base.py', 'clone'), [o], {})
        vm.prove('a clone is another estimator of the same class', z is not o and z.cls is o.cls)
        fresh, _ = build(vm, f, c, kw) if False else (vm.new(vm.cls(f, c), **{k: v for k, v in vm.method(o, 'get_params', deep=False).items()}), None)
        d = diff(vm, z, fresh, DEAD.get(c, ()))
        vm.prove('a clone is like a new one with the same parameters', not d, str(d[:4]))
        h = vm.method(z, 'get_params', deep=False)
        for k, v in given.items():
            if isinstance(v, (list, Obj)):
                vm.prove('a clone has its own %s' % k, h[k] is not v and like(vm, h[k], v))
            else:
                vm.prove('a clone has the same %s' % k, kept(h[k], v))
    return u


def foreign(_memo={}):
    """attributes set on another object than self anywhere in the package"""
    if SRC not in _memo:
        w = set()
        for d, _, fs in os.walk(SRC):
            for f in fs:
                if f.endswith('.py'):
                    with open(os.path.join(d, f)) as h:
                        tree = ast.parse(h.read())
                    for x in ast.walk(tree):
                        if isinstance(x, ast.Attribute) and not isinstance(x.ctx, ast.Load) and not (isinstance(x.value, ast.Name) and x.value.id == 'self'):
                            w.add(x.attr)
        _memo[SRC] = w
    return _memo[SRC]


def written(cls):
    """attributes a method other than the constructor, reset or a property setter can change"""
    w = set(foreign())
    for c in cls.mro():
        for n, v in c.dict.items():
            node = getattr(v, 'node', None)
            if node is None or n in ('__init__', 'reset') or any(isinstance(x, ast.Attribute) and x.attr == 'setter' for x in node.decorator_list):
                continue
            for x in ast.walk(node):
                if isinstance(x, ast.Attribute) and not isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id == 'self':
                    w.add(x.attr)
    return w


def havoc(vm, o, skip=(), seen=None):
    """any history: whatever the methods can change is overwritten"""
    seen = set() if seen is None else seen
    if id(o) in seen or isinstance(o.cls, Ext):
        return
    seen.add(id(o))
    w = written(o.cls)
    params = set(vm.method(o, 'get_params', deep=False)) if o.cls.lookup('get_params') else set()
    for k in list(o.fields):
        if k in params or k.lstrip('_') in params or k in skip:
            continue
        v = o.fields[k]
        if k in w or k.lstrip('_') in w or k.startswith('_' + o.cls.name.lstrip('_') + '__') or isinstance(v, (list, dict, set, deque, np.ndarray)):
            o.fields[k] = 'history'
        elif isinstance(v, Obj) and isinstance(v.cls, Ext):
            o.fields[k] = 'history'                  # a random generator, say
        elif isinstance(v, Obj):
            havoc(vm, v, (), seen)


def u_reset(f, c, kw):
    """reset after any history leaves the state of a new estimator with the same parameters"""
    def u(vm):
        o, given = build(vm, f, c, kw)
        a = vm.new(vm.cls(f, c), **given)
        havoc(vm, o, DEAD.get(c, ()))
        r = vm.method(o, 'reset')
        if not f.startswith('drift_detection'):
            vm.prove('reset returns the estimator', r is o)
        if c.startswith('Online'):                  # configured by the first sample or by reset
            vm.method(a, 'reset')
        d = diff(vm, o, a, DEAD.get(c, ()))
        vm.prove('reset leaves the state of a new one', not d, str(d[:4]))
    return u


# left by reset, and set before it is read again: the chain by the first fit, the codes by the first sample, the weights by
# the first of a batch, the subspaces with the ensemble; the buffer, the weight and the type set by the constructor are not
# used again; the evaluator is only a prototype
DEAD = {c: ('chain',) for c in ('ClassifierChain', 'ProbabilisticClassifierChain', 'MonteCarloClassifierChain', 'RegressorChain')}
DEAD.update(LeveragingBaggingClassifier=('matrix_codes',), LearnPPNSEClassifier=('buffer',), BatchIncrementalClassifier=('sample_weight',), StreamingRandomPatchesClassifier=('_base_performance_evaluator', '_subspaces'),
            MultiOutputLearner=('_estimator_type',), AdaptiveRandomForestRegressor=('_train_weight_seen_by_model', 'classes'))
# known finding: the statistics the perceptrons scale their inputs by stay (tests of the forest rely on it)
DEAD.update({c: ('samples_seen', 'sum_of_values', 'sum_of_squares', 'sum_of_attribute_values', 'sum_of_attribute_squares')
             for c in ('HoeffdingTreeRegressor', 'HoeffdingAdaptiveTreeRegressor', 'iSOUPTreeRegressor', 'StackedSingleTargetHoeffdingTreeRegressor', 'ARFHoeffdingTreeRegressor')})
def u_nested(vm):
    """parameters of contained estimators"""
    nb = vm.cls('bayes/naive_bayes.py', 'NaiveBayes')
    ozf, oz = 'meta/oza_bagging.py', 'OzaBaggingClassifier'
    n, seed, attr, attr2 = 3, vm.inp('seed', 'int', 0), vm.born([1]), vm.born([2])
    b = vm.new(nb, nominal_attributes=attr)
    o = vm.new(vm.cls(ozf, oz), base_estimator=b, n_estimators=n, random_state=seed)
    g = vm.method(o, 'get_params')
    vm.prove('the parameters and those of the estimators in them', set(g) == {'base_estimator', 'n_estimators', 'random_state', 'base_estimator__nominal_attributes'})
    vm.prove('their values', g['base_estimator'] is b and g['base_estimator__nominal_attributes'] is attr and kept(g['n_estimators'], n) and kept(g['random_state'], seed))
    vm.prove('without them', set(vm.method(o, 'get_params', deep=False)) == {'base_estimator', 'n_estimators', 'random_state'})
    m = vm.inp('m', 'int', 1)
    r = vm.method(o, 'set_params', n_estimators=m, base_estimator__nominal_attributes=attr2)
    g = vm.method(o, 'get_params')
    vm.prove('set_params returns the estimator', r is o)
    vm.prove('a parameter and one of a contained estimator are set', kept(g['n_estimators'], m) and vm.method(b, 'get_params')['nominal_attributes'] is attr2 and g['base_estimator__nominal_attributes'] is attr2)
    vm.prove('the others stay', g['base_estimator'] is b and kept(g['random_state'], seed))
    for order in (('base_estimator', 'base_estimator__nominal_attributes'), ('base_estimator__nominal_attributes', 'base_estimator')):
        b2 = vm.new(nb)
        val = {'base_estimator': b2, 'base_estimator__nominal_attributes': attr}
        vm.method(o, 'set_params', **{k: val[k] for k in order})
        vm.prove('a new contained estimator gets the parameter, %s first' % order[0], vm.method(o, 'get_params', deep=False)['base_estimator'] is b2 and vm.method(b2, 'get_params')['nominal_attributes'] is attr
                 and vm.method(b, 'get_params')['nominal_attributes'] is attr2)
    for kw in (dict(nothing=1), dict(nothing__x=1), dict(base_estimator__nothing=1), dict(n_estimators=3, nothing=1)):
        try:
            vm.method(o, 'set_params', **kw)
            vm.prove('%s refused' % list(kw), False)
        except PyRaise as ex:
            vm.prove('%s refused' % list(kw), ex.name == 'ValueError')


def u_clones(vm):
    """collections of estimators and what is none"""
    cl = vm.cls('core/base.py', 'clone')
    nb = vm.cls('bayes/naive_bayes.py', 'NaiveBayes')
    a, b, attr = vm.new(nb, nominal_attributes=vm.born([3])), vm.new(nb), vm.born([5, 6])
    for seq in (vm.born([a, b]), (a, b)):
        r = vm.call(cl, [seq], {})
        vm.prove('a %s of clones' % type(seq).__name__, type(r) is type(seq) and len(r) == 2 and r[0] is not a and r[1] is not b and r[0].cls is nb and r[1].cls is nb
                 and list(vm.method(r[0], 'get_params')['nominal_attributes']) == [3] and vm.method(r[1], 'get_params')['nominal_attributes'] is None)
    vm.prove('an empty collection', vm.call(cl, [()], {}) == ())
    o = vm.new(vm.cls('meta/oza_bagging.py', 'OzaBaggingClassifier'), base_estimator=a)
    c = vm.method(vm.call(cl, [o], {}), 'get_params')
    vm.prove('a contained estimator is cloned', c['base_estimator'] is not a and c['base_estimator'].cls is nb and c['base_estimator__nominal_attributes'] is not vm.method(a, 'get_params')['nominal_attributes'])
    for x in (attr, 'text', 5, None, nb):
        if not isinstance(x, list):
            try:
                vm.call(cl, [x], {})
                vm.prove('%r refused' % (x,), False)
            except PyRaise as ex:
                vm.prove('%r refused' % (x,), ex.name == 'TypeError')
        r = vm.call(cl, [x], {'safe': False})
        vm.prove('%r copied when asked' % (x,), (r is not x and list(r) == [5, 6]) if isinstance(x, list) else r is x or r == x)


UNITS = [('parameters of parameters', u_nested), ('clones of others', u_clones)]
UNITS += [('params and clone %s' % c, u_params(f, c, kw)) for f, c, kw in CL] + [('reset %s' % c, u_reset(f, c, kw)) for f, c, kw in CL]

from props.c23run import cases, run_case    # noqa: E402,F401
