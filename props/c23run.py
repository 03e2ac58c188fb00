"""Run-time half of C23: real estimators, detectors and transforms of random parameters on random streams."""
import contextlib
import copy
import io
import pickle
import random
import warnings
import numpy as np

HTR = ('HTR', 'HATR', 'iSOUP', 'SST')                # reset keeps what the perceptron scales its inputs by (known finding)
SETS = ('ARF', 'ARFR', 'VFDR')                       # fit sets max_features, nominal_attributes


def registry(r):
    """name -> (kind, class, parameters)"""
    from skmultiflow import bayes, meta, rules, neural_networks, prototype, anomaly_detection, transform
    from skmultiflow.trees import (HoeffdingTreeClassifier, ExtremelyFastDecisionTreeClassifier, HoeffdingAdaptiveTreeClassifier, HoeffdingTreeRegressor,
                                   HoeffdingAdaptiveTreeRegressor, iSOUPTreeRegressor, StackedSingleTargetHoeffdingTreeRegressor, LabelCombinationHoeffdingTreeClassifier)
    from skmultiflow.bayes import NaiveBayes
    from skmultiflow.lazy import KNNClassifier, KNNADWINClassifier, KNNRegressor, SAMKNNClassifier
    from skmultiflow.drift_detection import ADWIN, DDM, EDDM, PageHinkley, HDDM_A, HDDM_W, KSWIN
    from sklearn.linear_model import SGDRegressor
    from sklearn.tree import DecisionTreeClassifier

    def tree(c=True,**k):
        d=dict(grace_period=r.choice([20,40,200]),tie_threshold=r.choice([.05,.5]),binary_split=r.random()<.5,split_confidence=r.choice([1e-7,.01,.2]),nominal_attributes=r.choice([None,None,[1]]))
        if c: d.update(leaf_prediction=r.choice(['mc','nb','nba']),split_criterion=r.choice(['info_gain','gini','hellinger']))
        else: d.update(leaf_prediction=r.choice(['mean','perceptron']),random_state=r.randint(0,99))
        d.update(k); return d
    def base(): return r.choice([lambda:NaiveBayes(),lambda:HoeffdingTreeClassifier(grace_period=20),lambda:KNNClassifier(n_neighbors=3,max_window_size=30)])()
    S=lambda:r.randint(0,99)
    C={ # classifiers
     'NB':(bayes.NaiveBayes,lambda:dict(nominal_attributes=r.choice([None,[1]]))),
     'KNN':(KNNClassifier,lambda:dict(n_neighbors=r.randint(1,4),max_window_size=r.choice([10,50]),leaf_size=r.choice([3,30]))),
     'KNNADWIN':(KNNADWINClassifier,lambda:dict(n_neighbors=r.randint(1,4),max_window_size=r.choice([10,50]))),
     'SAM':(SAMKNNClassifier,lambda:dict(n_neighbors=3,max_window_size=r.choice([120,300]),min_stm_size=r.choice([20,50]),weighting=r.choice(['distance','uniform']),stm_size_option=r.choice(['maxACCApprox','maxACC',None]),use_ltm=r.random()<.7)),
     'HT':(HoeffdingTreeClassifier,tree),
     'EFDT':(ExtremelyFastDecisionTreeClassifier,lambda:dict(tree(),min_samples_reevaluate=r.choice([20,50]))),
     'HAT':(HoeffdingAdaptiveTreeClassifier,lambda:tree(random_state=S(),bootstrap_sampling=r.random()<.5)),
     'ARF':(meta.AdaptiveRandomForestClassifier,lambda:dict(n_estimators=3,grace_period=20,random_state=S(),lambda_value=r.choice([1,6]),drift_detection_method=r.choice([None,ADWIN(.3)]),warning_detection_method=r.choice([None,ADWIN(.5)]))),
     'VFDR':(rules.VeryFastDecisionRulesClassifier,lambda:dict(grace_period=r.choice([20,50]),tie_threshold=r.choice([.05,.5]),ordered_rules=r.random()<.5,rule_prediction=r.choice(['first_hit','weighted_max','weighted_sum']),drift_detector=r.choice([None,ADWIN(.3)]),expand_criterion=r.choice(['info_gain','hellinger','foil_gain']),remove_poor_atts=r.random()<.3,nominal_attributes=r.choice([None,[1]]),nb_prediction=r.random()<.6,min_weight=r.choice([10,50]))),
     'SRP':(meta.StreamingRandomPatchesClassifier,lambda:dict(base_estimator=base(),n_estimators=3,random_state=S(),training_method=r.choice(['randomsubspaces','randompatches','resampling']))),
     'Perceptron':(neural_networks.PerceptronMask,lambda:dict(random_state=S(),eta0=r.choice([1.,.1]))),
     'RSLVQ':(prototype.RobustSoftLearningVectorQuantization,lambda:dict(prototypes_per_class=r.choice([1,2]),random_state=S(),gradient_descent=r.choice(['vanilla','adadelta']),sigma=r.choice([.5,1.]))),
     'AWE':(meta.AccuracyWeightedEnsembleClassifier,lambda:dict(base_estimator=base(),n_estimators=3,n_kept_estimators=4,window_size=r.choice([20,40]),n_splits=3)),
     'AddExp':(meta.AdditiveExpertEnsembleClassifier,lambda:dict(base_estimator=base(),n_estimators=3,pruning=r.choice(['oldest','weakest']))),
     'BI':(meta.BatchIncrementalClassifier,lambda:dict(base_estimator=DecisionTreeClassifier(random_state=1),window_size=30,n_estimators=3)),
     'DWM':(meta.DynamicWeightedMajorityClassifier,lambda:dict(base_estimator=base(),n_estimators=3,period=r.choice([10,50]))),
     'NSE':(meta.LearnPPNSEClassifier,lambda:dict(base_estimator=DecisionTreeClassifier(random_state=1),window_size=r.choice([25,40]),n_estimators=3,pruning=r.choice([None,'age','error']))),
     'LPP':(meta.LearnPPClassifier,lambda:dict(base_estimator=DecisionTreeClassifier(random_state=1),window_size=25,n_estimators=3,n_ensembles=3,random_state=S())),
     'LB':(meta.LeveragingBaggingClassifier,lambda:dict(base_estimator=base(),n_estimators=3,random_state=S(),leverage_algorithm=r.choice(['leveraging_bag','leveraging_bag_me','leveraging_bag_half','leveraging_bag_wt','leveraging_subag']))),
     'OAda':(meta.OnlineAdaC2Classifier,lambda:dict(base_estimator=base(),n_estimators=3,random_state=S(),drift_detection=r.random()<.5)),
     'OBoost':(meta.OnlineBoostingClassifier,lambda:dict(base_estimator=base(),n_estimators=3,random_state=S(),drift_detection=r.random()<.5)),
     'OCSB':(meta.OnlineCSB2Classifier,lambda:dict(base_estimator=base(),n_estimators=3,random_state=S(),drift_detection=r.random()<.5)),
     'ORUS':(meta.OnlineRUSBoostClassifier,lambda:dict(base_estimator=base(),n_estimators=3,random_state=S(),algorithm=r.choice([1,2,3]),drift_detection=r.random()<.5)),
     'OSM':(meta.OnlineSMOTEBaggingClassifier,lambda:dict(base_estimator=base(),n_estimators=3,random_state=S(),drift_detection=r.random()<.5)),
     'OUO':(meta.OnlineUnderOverBaggingClassifier,lambda:dict(base_estimator=base(),n_estimators=3,random_state=S(),drift_detection=r.random()<.5)),
     'Oza':(meta.OzaBaggingClassifier,lambda:dict(base_estimator=base(),n_estimators=3,random_state=S())),
     'OzaA':(meta.OzaBaggingADWINClassifier,lambda:dict(base_estimator=base(),n_estimators=3,random_state=S())),
    }
    R={
     'KNNR':(KNNRegressor,lambda:dict(n_neighbors=r.randint(1,4),max_window_size=r.choice([10,50]),aggregation_method=r.choice(['mean','median']))),
     'HTR':(HoeffdingTreeRegressor,lambda:tree(False)),
     'HATR':(HoeffdingAdaptiveTreeRegressor,lambda:tree(False)),
     'ARFR':(meta.AdaptiveRandomForestRegressor,lambda:dict(n_estimators=3,grace_period=20,random_state=S(),aggregation_method=r.choice(['mean','median']),drift_detection_method=r.choice([None,ADWIN(.3)]),warning_detection_method=r.choice([None,ADWIN(.5)]))),
    }
    MR={
     'iSOUP':(iSOUPTreeRegressor,lambda:dict(tree(False),leaf_prediction=r.choice(['mean','perceptron','adaptive']))),
     'SST':(StackedSingleTargetHoeffdingTreeRegressor,lambda:dict(tree(False),leaf_prediction=r.choice(['perceptron','adaptive']))),
     'RC':(meta.RegressorChain,lambda:dict(base_estimator=SGDRegressor(random_state=1),order=r.choice([None,'random']),random_state=S())),
    }
    MC={
     'LCHT':(LabelCombinationHoeffdingTreeClassifier,lambda:tree(n_labels=2)),
     'MOL':(meta.MultiOutputLearner,lambda:dict(base_estimator=NaiveBayes())),
     'CC':(meta.ClassifierChain,lambda:dict(base_estimator=NaiveBayes(),order=r.choice([None,'random']),random_state=S())),
     'PCC':(meta.ProbabilisticClassifierChain,lambda:dict(base_estimator=NaiveBayes(),random_state=S())),
     'MCC':(meta.MonteCarloClassifierChain,lambda:dict(base_estimator=NaiveBayes(),random_state=S())),
    }
    AN={'HST':(anomaly_detection.HalfSpaceTrees,lambda:dict(window_size=20,depth=3,n_estimators=3,size_limit=2,random_state=S()))}

    D = {'ADWIN': (ADWIN, lambda: dict(delta=r.choice([.002, .1]))), 'DDM': (DDM, lambda: dict(warning_level=r.choice([1., 2.]), out_control_level=r.choice([2., 3.]))), 'EDDM': (EDDM, dict),
         'PH': (PageHinkley, lambda: dict(min_instances=r.choice([5, 30]), delta=r.choice([.005, .1]), threshold=r.choice([1, 5]), alpha=r.choice([.9, .9999]))),
         'HDA': (HDDM_A, lambda: dict(drift_confidence=r.choice([.001, .1]), warning_confidence=.2, two_side_option=r.random() < .5)),
         'HDW': (HDDM_W, lambda: dict(drift_confidence=r.choice([.001, .1]), warning_confidence=.2, lambda_option=r.choice([.05, .3]), two_side_option=r.random() < .5)),
         'KSWIN': (KSWIN, lambda: dict(alpha=r.choice([.005, .1]), window_size=r.choice([30, 60]), stat_size=r.choice([10, 15])))}
    T = {'MVC': (transform.MissingValuesCleaner, lambda: dict(missing_value=[0.], strategy=r.choice(['zero', 'mean', 'median', 'mode', 'custom']), window_size=r.choice([5, 20]), new_value=1)),
         'MMS': (transform.WindowedMinmaxScaler, lambda: dict(window_size=r.choice([5, 20]))), 'STD': (transform.WindowedStandardScaler, lambda: dict(window_size=r.choice([5, 20])))}
    return {n: (kind, cls, mk) for kind, E in (('C', C), ('R', R), ('MR', MR), ('MC', MC), ('AN', AN), ('D', D), ('T', T)) for n, (cls, mk) in E.items()}


NAMES = None


def names():
    global NAMES
    if NAMES is None:
        NAMES = list(registry(random.Random(0)))
    return NAMES


def data(kind, seed, n=160):
    g = np.random.RandomState(seed)
    X = g.rand(n, 4)
    X[:, 1] = g.randint(0, 3, n)
    ph = (np.arange(n) // 70) % 2
    if kind in ('C', 'AN', 'T'):
        y = ((X[:, 0] > .5) ^ ph).astype(int)
    elif kind == 'R':
        y = X[:, 0] * 3 + ph * 5 + X[:, 1]
    elif kind == 'MR':
        y = np.stack([X[:, 0] * 3 + ph * 5, X[:, 2]], 1)
    else:
        y = np.stack([(X[:, 0] > .5) ^ ph, X[:, 2] > .3], 1).astype(int)
    return X, y


def text(o):
    return repr(sorted(o.get_params(deep=False).items(), key=lambda t: t[0]))


def contained(o):
    """the estimators among the parameters, as they are"""
    return {k: pickle.dumps(copy.deepcopy(v)) for k, v in o.get_params(deep=False).items() if hasattr(v, 'get_params')}


class Runner:
    def __init__(self, name, seed):
        self.name, self.seed = name, seed
        self.r = random.Random(seed)
        self.kind, self.cls, mk = registry(self.r)[name]
        self.kw = mk()
        self.bs = 20 if name in ('SAM', 'RSLVQ') else 40 if name in ('CC', 'PCC', 'MCC') else self.r.choice([1, 1, 5, 40])
        self.X, self.y = data(self.kind, seed)
        self.Q = data(self.kind, seed + 1, 7)[0]

    def new(self):
        np.random.seed(0)
        return self.cls(**copy.deepcopy(self.kw))

    def fit(self, o, X, y):
        kw = {'classes': [0, 1]} if self.kind in ('C', 'AN') or self.kind == 'MC' and self.name != 'LCHT' else {}
        return o.partial_fit(X, y, **kw)

    def train(self, o, X, y, between=None):
        for i in range(0, len(X), self.bs):
            if i and between:
                between()
            r = self.fit(o, X[i:i + self.bs], y[i:i + self.bs])
            if r is not o:
                raise AssertionError('partial_fit does not return the estimator')
        return o

    def ans(self, o, Q=None):
        Q = self.Q if Q is None else Q
        out = [np.array(o.predict(Q), dtype=float).tolist()]
        if self.kind in ('C', 'MC'):
            try:
                out.append(np.array(o.predict_proba(Q), dtype=float).tolist())
            except NotImplementedError:
                pass
        return repr(out)

    def learner(self):
        X, y, Q = self.X, self.y, self.Q
        o = self.new()
        g = o.get_params(deep=False)
        for k, v in self.kw.items():
            if (self.name, k) not in (('OBoost', 'n_estimators'), ('OSM', 'random_state'), ('VFDR', 'rule_prediction'), ('VFDR', 'nominal_attributes')) and repr(g.get(k, '?')) != repr(v):
                return 'parameter %s=%r became %r' % (k, v, g.get(k))
        p0, b0 = text(o), contained(o)
        a, b = X.copy(), y.copy()
        np.random.seed(0)
        self.train(o, a, b)
        q = Q.copy()
        A = self.ans(o, q)
        if not (np.array_equal(a, X) and np.array_equal(b, y) and np.array_equal(q, Q)):
            return 'learning or predicting changed its inputs'
        if self.name not in SETS and text(o) != p0:
            return 'fitting changed the parameters: %s became %s' % (p0, text(o))
        b1 = contained(o)
        for k in b0:
            if b1[k] != b0[k]:
                return 'fitting trained the parameter %s' % k
        if self.ans(o) != A:
            return 'a second predict answers otherwise'
        if len(o.predict(Q)) != len(Q):
            return 'predict answers %d of %d samples' % (len(o.predict(Q)), len(Q))
        z = self.new()
        np.random.seed(0)
        if self.ans(self.train(z, X, y)) != A:
            return 'two equal runs differ'
        z = self.new()
        np.random.seed(0)
        if self.ans(self.train(z, X, y, lambda: self.ans(z, Q[:3]))) != A:
            return 'predicting while learning changes what is learnt'
        if self.name not in ('MCC',):                # draws
            z = self.new()
            np.random.seed(0)
            self.train(z, X, y)
            B = np.array(list(z.predict(Q)), dtype=float)
            C1 = np.array([np.array(z.predict(Q[i:i + 1]), dtype=float)[0] for i in range(len(Q))])
            if not np.array_equal(B, C1, equal_nan=True):
                return 'a batch of predictions %r is not that of its rows %r' % (B.tolist(), C1.tolist())
        for what, f in (('deepcopy', copy.deepcopy), ('pickle', lambda z: pickle.loads(pickle.dumps(z)))):
            z = self.new()
            h = 80
            np.random.seed(0)
            self.train(z, X[:h], y[:h])
            st = np.random.get_state()
            w = f(z)
            self.train(w, X[h:], y[h:])
            B = self.ans(w)
            np.random.set_state(st)
            self.train(z, X[h:], y[h:])
            if self.ans(z) != B:
                return 'a copy by %s goes on otherwise than its original' % what
        from skmultiflow.core import clone
        if self.name not in ('OBoost', 'OSM'):
            w = clone(o)
            if self.name not in SETS and text(w) != p0:
                return 'the clone has other parameters: %s, not %s' % (text(w), p0)
            if self.name not in SETS:
                np.random.seed(0)
                if self.ans(self.train(w, X, y)) != A:
                    return 'the clone of a trained estimator learns otherwise than a new one'
        if not (self.name in HTR and self.kw['leaf_prediction'] != 'mean'):
            w = o.reset()
            if w is not o:
                return 'reset returns %r' % (w,)
            np.random.seed(0)
            if self.ans(self.train(o, X, y)) != A:
                return 'after reset it learns otherwise than a new one'

    def detector(self):
        g = np.random.RandomState(self.seed)
        xs = [float(v) for v in (g.rand(300) < np.repeat([.1, .7, .2], 100))]
        o = self.new()
        for k, v in self.kw.items():
            if repr(o.get_params(deep=False).get(k, '?')) != repr(v):
                return 'parameter %s=%r became %r' % (k, v, o.get_params(deep=False).get(k))
        p0 = text(o)

        def run(d, v):
            out = []
            for x in v:
                d.add_element(x)
                out.append((bool(d.detected_change()), bool(d.detected_warning_zone())))
            return out
        np.random.seed(0)
        A = run(o, xs)
        if text(o) != p0:
            return 'running changed the parameters'
        from skmultiflow.core import clone
        z = self.new()
        np.random.seed(0)
        run(z, xs[:150])
        st = np.random.get_state()
        for f in (copy.deepcopy, lambda z: pickle.loads(pickle.dumps(z))):
            w = f(z)
            np.random.set_state(st)
            if run(w, xs[150:]) != A[150:]:
                return 'a copy goes on otherwise'
        if self.name != 'DDM':
            w = clone(z)
            if text(w) != p0:
                return 'the clone has other parameters'
            np.random.seed(0)
            if run(w, xs) != A:
                return 'the clone detects otherwise'
        z.reset()
        np.random.seed(0)
        if run(z, xs) != A:
            return 'after reset it detects otherwise than a new one'

    def transform(self):
        X = self.X.copy()
        o = self.new()
        p0 = text(o)

        def run(t, X):
            return [np.array(t.partial_fit_transform(X[i:i + self.bs].copy()), dtype=float).tolist() for i in range(0, len(X), self.bs)]
        A = run(o, X)
        if text(o) != p0:
            return 'transforming changed the parameters'
        from skmultiflow.core import clone
        w = clone(o)
        if text(w) != p0 or repr(run(w, X)) != repr(A):
            return 'the clone transforms otherwise'
        z = self.new()
        run(z, X[:80])
        for f in (copy.deepcopy, lambda z: pickle.loads(pickle.dumps(z))):
            w, v = f(z), copy.deepcopy(z)
            if repr(run(w, X[80:])) != repr(run(v, X[80:])):
                return 'a copy transforms otherwise'
        a = X.copy()
        o.transform(a[:5])
        o.partial_fit(a)
        if not np.array_equal(a, X):
            return '[transform-in-place] transforming changed its input'


def pin(what):
    from skmultiflow.core import clone
    from skmultiflow import drift_detection, meta, trees
    if what == 'ddm':
        v = drift_detection.DDM(min_num_instances=7).get_params(deep=False).get('min_num_instances')
        return None if v == 7 else '[ddm-params] DDM(min_num_instances=7) has the parameter %r' % v
    if what == 'oboost':
        v = meta.OnlineBoostingClassifier(n_estimators=3).get_params(deep=False).get('n_estimators')
        return None if v == 3 else '[oboost-params] OnlineBoostingClassifier(n_estimators=3) has the parameter %r' % v
    if what == 'osmote':
        v = meta.OnlineSMOTEBaggingClassifier(random_state=3).get_params(deep=False).get('random_state')
        return None if v == 3 else '[osmote-params] OnlineSMOTEBaggingClassifier(random_state=3) has the parameter %r' % (v,)
    if what == 'htr':
        t = trees.HoeffdingTreeRegressor()
        t.partial_fit(np.array([[1.]]), np.array([2.]))
        t.reset()
        return None if t.samples_seen == 0 else '[htr-reset] HoeffdingTreeRegressor.reset leaves samples_seen=%r' % t.samples_seen


def run_case(case):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        np.__dict__.update(int=int, float=float)
        if 'pin' in case:
            return pin(case['pin'])
        R = Runner(case['name'], case['seed'])
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                m = {'D': R.detector, 'T': R.transform}.get(R.kind, R.learner)()
        except Exception as e:
            if 'too weak' in str(e):                 # Learn++ refuses such base estimators
                return None
            print('params', R.kw, 'batch', R.bs)
            raise
        return m and '%s(%s), batches of %d: %s' % (R.cls.__name__, ', '.join('%s=%r' % t for t in R.kw.items()), R.bs, m)


def cases(rnd, hints, tier):
    while True:
        n = list(names())
        rnd.shuffle(n)
        for x in n:
            yield dict(name=x, seed=rnd.randrange(10 ** 6))
