def P(id, title, statement, over, text, why, files, mech, note, level='proof', state=(), observe=()):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                             state=[dict(name=a, meaning=b, where=c) for a, b, c in state], observe_at=list(observe), hook_needed=None),
                note=note, level=level)


SRC = 'src/skmultiflow/'
NOTE = 'Proof over the current source for all inputs of each function under contract (floats as reals); the same contracts are evaluated on the real code over seeded histories. Trusted: pv engine, z3, the models of numpy/math listed in the evidence.'
NA = {}
PROPS = [
 P('C01', 'DDM, EDDM and Page-Hinkley signal exactly by their published rules',
   'After every prefix of any stream fed to DDM, EDDM or PageHinkley, the warning and change flags (and the estimates the detector exposes) are exactly those of the documented test: same running statistics, minimum number of samples, thresholds and tie-breaking, and a detector that signalled a change starts afresh with the next element. Calling reset restores the state of a newly built detector with the same parameters.',
   ['inputs', 'histories', 'configurations'], 'every sequence of elements, every parameter setting, every interleaving with reset',
   'The tests pin the alarm positions on one or two fixed streams with default parameters; they say nothing about other histories, parameter values, ties or the behaviour after a reset.',
   [SRC + 'drift_detection/ddm.py', SRC + 'drift_detection/eddm.py', SRC + 'drift_detection/page_hinkley.py', SRC + 'drift_detection/base_drift_detector.py'],
   [('incremental statistics + threshold test', 'DDM.add_element, EDDM.add_element, PageHinkley.add_element'), ('reset on change', 'reset() called at the start of the next add_element')], NOTE),
 P('C02', 'HDDM_A and HDDM_W signal exactly by the Hoeffding/McDiarmid tests',
   'After every prefix of any stream of values, HDDM_A and HDDM_W report warning and change exactly when the documented Hoeffding (respectively McDiarmid, exponentially weighted) comparison between the pre-cut and current samples exceeds the confidence bound, with the cut point chosen as documented. After a change the statistics restart from nothing, and reset restores a newly built detector.',
   ['inputs', 'histories', 'configurations'], 'every sequence of values, every confidence/lambda/one- or two-sided setting, every interleaving with reset',
   'The tests pin the alarm positions on fixed streams with default settings.',
   [SRC + 'drift_detection/hddm_a.py', SRC + 'drift_detection/hddm_w.py'],
   [('cut-point update and bounds', 'HDDM_A.add_element/_update_incr/_update_decr, HDDM_W.add_element and helpers')], NOTE),
 P('C03', 'Bounded windows keep exactly the newest elements in arrival order',
   'A FIFO buffer (single- or multi-valued entries) or sliding window of capacity n holds, after any sequence of insertions, removals and clears, exactly the newest not-yet-removed elements (at most n) in arrival order; insertion hands back exactly the evicted elements, oldest first, and nothing when nothing was evicted. Size, fullness, emptiness, peek and pop agree with that content, and rows of a different width are rejected by the sliding window.',
   ['inputs', 'histories', 'configurations'], 'every capacity, every batch size and every sequence of operations',
   'The tests fill one buffer of one size; batches larger than the free space, larger than the capacity, and mixed sequences of insert/pop/clear are not covered.',
   [SRC + 'utils/data_structures.py'],
   [('evict-before-append loop', 'FastBuffer.add_element, FastComplexBuffer.add_element'), ('row append + delete', 'SlidingWindow.add_sample/delete_oldest_sample')], NOTE),
 P('C04', 'ADWIN and KSWIN windows are faithful suffixes, cut only on a justified change',
   'After any sequence of values fed to ADWIN, its window is a suffix of the stream: width and total are exactly the count and the sum of the newest values (estimation their mean, and, until the first cut, variance their variance), it shrinks only by whole oldest buckets and only when a change is detected, and change is detected exactly when some inspected split of the window into an older and a newer part (both of at least 5, in a window of more than 10, every 32nd element) has means differing by more than the documented epsilon bound for delta. KSWIN keeps the newest window_size values, flags a change exactly when the KS test of the newest stat_size values against a sample of the older ones has p <= alpha with statistic above 0.1, then keeps only the newest stat_size values; invalid parameters are rejected. reset restores a newly built detector.',
   ['inputs', 'histories', 'configurations'], 'every sequence of values, every delta / alpha / window size, every interleaving with reset',
   'The tests pin the detections on one stream with default settings and never look at the window content.',
   [SRC + 'drift_detection/adwin.py', SRC + 'drift_detection/kswin.py'],
   [('exponential histogram: insert, compress, delete', 'ADWIN.__insert_element/__compress_buckets/delete_element, List/Item'), ('cut test', 'ADWIN.detected_change, __bln_cut_expression'), ('window and KS test', 'KSWIN.add_element')], NOTE),
 P('C05', 'Classification evaluators report the scores of exactly the results they cover',
   'After any sequence of added results (and resets), every score of ClassificationPerformanceEvaluator, WindowClassificationPerformanceEvaluator and their multi-label counterparts (accuracy, kappa, kappa-T, kappa-M, precision, recall, f1, geometric mean, confusion matrix, hamming score/loss, exact match, Jaccard index, ...) equals its textbook definition evaluated over exactly the covered results: all of them for the cumulative evaluators, the newest window_size for the windowed ones, with labels seen for the first time growing the matrix without losing counts. The number of samples, the majority classes and the last (true, predicted) pair agree with that content, and reset restores a newly built evaluator.',
   ['inputs', 'histories', 'configurations'], 'every sequence of results, every number of classes or labels, every window size, every interleaving with reset',
   'The tests compare the scores at the end of one fixed sequence; eviction at the window border, growth of the matrix, degenerate (empty, one-class, zero-division) contents and resets are not covered.',
   [SRC + 'metrics/_classification_performance_evaluator.pyx', SRC + 'metrics/_confusion_matrix.pyx'],
   [('confusion matrix update / removal', 'ConfusionMatrix, MultiLabelConfusionMatrix'), ('scores', 'ClassificationPerformanceEvaluator and subclasses')], NOTE),
 P('C06', 'Regression measurements report the errors of exactly the results they cover',
   'After any sequence of added results (and resets), the regression measurements (single- and multi-target, cumulative and windowed) report exactly the MSE, MAE, and average MSE / MAE / RMSE over targets of the results they cover: all of them, or the newest window_size. The last pair and the sample count agree with that content, an empty measurement scores 0, arguments are not modified, and the batch multi-label functions hamming_score, exact_match and j_index equal their definitions on any label matrices.',
   ['inputs', 'histories', 'configurations'], 'every sequence of results, every number of targets, every window size, every interleaving with reset',
   'The tests compare the scores at the end of one fixed sequence.',
   [SRC + 'metrics/measure_collection.py'],
   [('running error sums and correction buffers', 'RegressionMeasurements, WindowRegressionMeasurements, MultiTargetRegressionMeasurements, WindowMultiTargetRegressionMeasurements'), ('batch scores', 'hamming_score, exact_match, j_index')], NOTE),
 P('C07', 'Data, file and temporal streams deliver every row exactly once, in order',
   'For any table (array, DataFrame or CSV file, or separate X and y) and any target_idx / n_targets, a DataStream, FileStream or TemporalDataStream delivers exactly the rows of the table in order, each once: next_sample(b) at position p returns rows p..p+b (fewer at the end) of the feature columns together with their own targets (flat for one target) and, for temporal streams, their own time, delay and weight, in time order when ordered=False. The number of samples, features, categorical features, targets, classes and target values describe that table; has_more_samples, n_remaining_samples and last_sample agree with what was delivered; restart returns to the first row with nothing delivered; the caller\'s data is never modified, and NaN or non-numeric data is rejected unless allowed.',
   ['inputs', 'histories', 'configurations'], 'every table, every choice of target columns, every sequence of batch sizes and restarts',
   'The tests read one fixed file with the last column as the target and one or two batch sizes.',
   [SRC + 'data/data_stream.py', SRC + 'data/file_stream.py', SRC + 'data/temporal_data_stream.py', SRC + 'data/base_stream.py'],
   [('column selection', '_load_data/_load_X_y'), ('row slices', 'next_sample'), ('position', 'restart/has_more_samples/n_remaining_samples')], NOTE),
 P('C08', 'Prequential and holdout evaluation: test-then-train, every result counted once',
   'For any stream, any set of models and any n_wait, batch_size, pretrain_size, max_samples, test_size: EvaluatePrequential pre-trains every model on the first pretrain_size rows, then hands each following batch to every model for prediction before any model trains on it; each tested row is scored exactly once, with the true label and that model\'s own prediction, in that model\'s cumulative and n_wait-window measurements, and is then trained on exactly once; nothing is skipped, repeated or reordered. EvaluateHoldout never trains on a row it tests on, tests every model on the whole test set (a fresh one each time if dynamic) and windows its current scores over test_size. Classifiers get all classes with their first training batch. The evaluation ends at max_samples, end of stream or max_time, restarts the stream exactly if asked, returns the models, and every reported row (at each multiple of n_wait and at the end) shows each model\'s own mean and current scores at that point under the right header.',
   ['inputs', 'histories', 'configurations'], 'every stream, model set, batch size, pretrain size, sample limit and report interval',
   'The tests compare the final scores of one or two configurations with pinned numbers; they do not see which rows a model was shown and in which order.',
   [SRC + 'evaluation/evaluate_prequential.py', SRC + 'evaluation/evaluate_holdout.py', SRC + 'evaluation/base_evaluator.py'],
   [('test-then-train loop', 'EvaluatePrequential._train_and_test'), ('holdout loop', 'EvaluateHoldout._train_and_test'), ('measurements and reports', 'StreamEvaluator._init_metrics/_update_metrics/_update_file')], NOTE),
 P('C09', 'Delayed-label evaluation uses each sample once, only when its label is available',
   'For any temporal stream, delay, sample weights, models and configuration, EvaluatePrequentialDelayed lets every model predict each sample on arrival, before any model trains on it and after training on everything released earlier; a sample is scored (with its own label and that model\'s own prediction made on arrival) and trained on (with its own label and weight) exactly once, not before the clock (the arrival time of the newest sample) reaches its available time, and samples still waiting at the end are released in order of availability. At most max_samples samples are taken. TimeManager hands out exactly the queued samples whose available time has come, in order of availability, each once, with features, label, predictions and weight kept together.',
   ['inputs', 'histories', 'configurations'], 'every stream, every delay pattern (constant, per-sample, out of order), weights, batch sizes and every interleaving of queue operations',
   'The tests use one fixed delay on two streams and compare final scores and a summary.',
   [SRC + 'evaluation/evaluate_prequential_delayed.py', SRC + 'data/time_manager.py'],
   [('evaluation loop', 'EvaluatePrequentialDelayed._train_and_test and helpers'), ('label queue', 'TimeManager')], NOTE),
 P('C10', 'Concept generators: every sample obeys the chosen concept; restart replays',
   'Every sample of SEAGenerator, STAGGERGenerator, SineGenerator, MIXEDGenerator, AGRAWALGenerator, HyperplaneGenerator, LEDGenerator, LEDGeneratorDrift and WaveformGenerator, for any parameters and seed, has n_features features within the generator\'s ranges and a label that is exactly the chosen concept applied to those features (before perturbation), flipped only when label noise is drawn with the configured probability; LED segments show the digit at the (drifted) positions, waveforms mix the two base waves of their class. With balance_classes the classes strictly alternate. Batches do not influence the sequence; the same seed gives the same sequence, also after restart and with other generators alive; generate_drift moves to a different existing concept; invalid concepts are rejected; the description (features, classes, names) matches the data.',
   ['inputs', 'histories', 'configurations'], 'every parameter combination, every seed and random draw, every sequence of batch sizes, restarts and drifts',
   'The tests compare a few rows for one seed and one concept with stored values.',
   [SRC + 'data/' + f + '.py' for f in ('sea_generator', 'stagger_generator', 'sine_generator', 'mixed_generator', 'agrawal_generator', 'hyper_plane_generator', 'led_generator', 'led_generator_drift', 'waveform_generator', 'base_stream')],
   [('rejection loop, concept and noise', 'next_sample and _classification_function_*'), ('seeding', '_prepare_for_use, restart')], NOTE),
 P('C11', 'Model-based, tabular and drifting generators deliver their stated model',
   'RandomRBFGenerator(Drift): every sample is drawn around one of n_centroids centroids picked by weight, at a normal distance in a random direction, labelled with that centroid\'s class; drifting centroids move by change_speed per sample inside the unit cube, turning round at its border, and the others stay. RandomTreeGenerator: the label is the leaf the features lead to in one tree, fixed by the tree seed, with leaves between min_leaf_depth and max_tree_depth, numeric features in [0, 1) and one-hot nominal features. MultilabelGenerator, RegressionGenerator and AnomalySineGenerator deliver their table in order, each row once with its own targets. ConceptDriftStream takes sample t from the drift stream with probability 1/(1+exp(-4(t-position)/width)) (width from alpha if given), else from the base stream, one underlying sample per sample with its own targets. For all: shapes, description, has_more_samples, n_remaining_samples and last_sample agree with what was delivered; the same seeds give the same sequence whatever the batch sizes, other instances alive or a restart.',
   ['inputs', 'histories', 'configurations'], 'every parameter combination, seed and random draw, every sequence of batch sizes and restarts',
   'The tests compare a few rows for one seed and configuration with stored values.',
   [SRC + 'data/' + f + '.py' for f in ('random_rbf_generator', 'random_rbf_generator_drift', 'random_tree_generator', 'multilabel_generator', 'regression_generator', 'anomaly_sine_generator', 'concept_drift_stream', 'pseudo_random_processes')],
   [('centroid model', '_generate_centroids, next_sample, random_index_based_on_weights'), ('tree', '_generate_random_tree_node, _classify_instance'), ('tables', 'next_sample'), ('drift probability', 'ConceptDriftStream.next_sample')], NOTE),
 P('C12', 'Tree split statistics: criteria, observers and tests agree with the data',
   'Split criteria equal their definitions on any class or target distributions: Gini merit, information gain (minus infinity when fewer than two branches carry more than the minimum fraction of the weight), Hellinger distance, (intra-cluster) variance reduction (zero when a branch has weight below 5), and their ranges. GaussianEstimator holds exactly the weighted mean and sample variance of what it was given, its density is the normal one (a point mass without variance) and its weights below, at and above a value add up to the total. After any sequence of updates every attribute observer (nominal and numeric, class and regression) evaluates a split at every observed value (or each of the equally spaced cut points, or the multiway split), suggests one of the best merit, and the distributions attached to it are those of exactly the observations its test sends to each branch, no weight lost, missing values ignored; pruning bad splits drops only candidates below the given ratio. An attribute test sends each instance to exactly one branch (none if the attribute or value is unknown), the one whose rule covers it and whose description says so, and a new branch of a multiway test takes the new value only.',
   ['inputs', 'histories', 'configurations'], 'every distribution, every sequence of (value, class or target, weight) updates, every criterion, every instance',
   'The tests only see the final trees of a few fixed streams with unit weights, where small errors in a merit or a distribution rarely change the split chosen.',
   [SRC + 'trees/_split_criterion/', SRC + 'trees/_attribute_observer/', SRC + 'trees/_attribute_test/', SRC + 'trees/gaussian_estimator.py', SRC + 'utils/statistics.py', SRC + 'rules/base_predicate.py'],
   [('merits', 'get_merit_of_split of the criteria'), ('sufficient statistics', 'GaussianEstimator.add_observation, observers\' update'), ('candidate splits', 'get_best_evaluated_split_suggestion, _find_best_split, remove_bad_splits'), ('routing', 'branch_for_instance / branch_rule / Predicate.covers_instance')], NOTE),
 P('C13', 'Hoeffding trees: each row trains its leaf, splits obey the bound, outputs match',
   'For any stream of weighted rows, HoeffdingTreeClassifier and HoeffdingTreeRegressor train each row of non-zero weight on exactly the leaf its values lead to (a new leaf for a new nominal value), whose statistics are those handed to it at its split plus exactly the rows that reached it. A leaf tries to split only when grace_period weight has arrived since its last attempt and (classifier) it has seen two classes; it then splits exactly when the best suggestion (not splitting competes unless no_preprune) beats the runner-up by the Hoeffding bound of its weight (regressor: the merit ratio is below 1 - bound), or the bound is below tie_threshold, or it is the only one; the children get the distributions of that suggestion, every other leaf is untouched. remove_poor_atts drops only attributes worse by more than the bound. Memory limits only switch leaves off and on, keeping statistics and counts. Predictions come from the reached leaf (majority class, naive Bayes or the better of both so far; mean or perceptron), class probabilities are its normalised votes, predict takes a most probable class, and predicting changes nothing. Batches equal row-by-row training; arguments are not modified; a wrong number of weights is rejected; the measurements, description and rules describe exactly that tree; reset gives a new one.',
   ['inputs', 'histories', 'configurations'], 'every stream, weighting, batching, parameter combination and interleaving of training, prediction and reset',
   'The tests compare the final description and a few predictions for one stream per configuration with unit weights; misplaced statistics, a wrong bound or a stale counter seldom change those.',
   [SRC + 'trees/hoeffding_tree.py', SRC + 'trees/hoeffding_tree_regressor.py', SRC + 'trees/_nodes/', SRC + 'bayes/naive_bayes.py'],
   [('routing and learning', 'filter_instance_to_leaf, _partial_fit, learn_from_instance'), ('split decision', '_attempt_to_split, _compute_hoeffding_bound, get_best_split_suggestions'), ('memory', '_enforce_tracker_limit, _activate/_deactivate_learning_node'), ('prediction', 'predict, predict_proba, get_votes_for_instance, get_class_votes')], NOTE),
 P('C14', 'Naive Bayes and nearest-neighbour learners predict from exactly what they saw',
   'NaiveBayes holds, after any sequence of weighted rows, exactly the class weights and per-class attribute statistics (value counts for nominal, Gaussian for the others) of the rows of non-zero weight; the probability of a class is its prior times the likelihood of every attribute value, normalised over the classes, zero for classes never seen, with a column for every declared class. KNNClassifier and KNNRegressor keep the newest max_window_size rows with their own targets; class probabilities are the shares of the classes among the n_neighbors rows of the window nearest to the query in the chosen metric, and a regression value is the mean or median of the targets of the query\'s own nearest rows; zeros until n_neighbors rows were seen. KNNADWINClassifier also tells ADWIN for each row whether it is predicted correctly once it is in the window, and after a detected change drops exactly the rows older than ADWIN\'s width. predict takes the most probable class, one prediction per row whatever the batch; learning and predicting leave the arguments alone and predicting changes no prediction; a wrong number of weights, an unknown metric or aggregation is rejected; reset gives a new learner.',
   ['inputs', 'histories', 'configurations'], 'every sequence of batches, weights, queries and resets, every window size, k and metric',
   'The tests compare predictions after one stream with unit weights and single-row queries.',
   [SRC + 'bayes/', SRC + 'lazy/base_neighbors.py', SRC + 'lazy/knn_classifier.py', SRC + 'lazy/knn_regressor.py', SRC + 'lazy/knn_adwin.py'],
   [('naive Bayes', 'NaiveBayes.partial_fit/predict_proba, do_naive_bayes_prediction'), ('neighbours', 'BaseNeighbors._get_neighbors, KNNClassifier.predict_proba, KNNRegressor.predict'), ('drift', 'KNNADWINClassifier.partial_fit')], NOTE),
 P('C15', 'Multi-output learners train and ask the right member for every target',
   'MultiOutputLearner keeps one member per target, a copy of the base estimator; every batch trains member j exactly once, on the features with target column j (with the given classes and sample weights where the base estimator takes them), and column j of predict and predict_proba is member j\'s answer. ClassifierChain and RegressorChain train member j of the chain on the features extended by the true values of the targets before it in the chain, and ask it about the features extended by the predicted values (probabilities in predict_proba) of those targets; the chain visits every target once, in order or shuffled by random_state, stays the same until fit or reset, and answers come back in the order of the targets. ProbabilisticClassifierChain predicts a label combination of the highest joint probability (the product of the conditional probabilities along the chain). MonteCarloClassifierChain predicts the most probable of M combinations drawn from those conditionals and the greedy chain answer. The first partial_fit and every fit start from copies of the base estimator, further partial_fit calls continue with the same members; the base estimator itself is never trained, predicting trains nothing, arguments are not modified, and reset gives a new learner.',
   ['inputs', 'histories', 'configurations'], 'every base estimator, number of targets, chain order and random draw, every sequence of batches, predictions and resets',
   'The tests compare the predictions of one linear base estimator after one stream; with the default order many misroutings leave them unchanged.',
   [SRC + 'meta/multi_output_learner.py', SRC + 'meta/classifier_chains.py', SRC + 'meta/regressor_chains.py'],
   [('binary relevance', 'MultiOutputLearner.fit/partial_fit/predict/predict_proba'), ('chains', 'ClassifierChain and RegressorChain fit/partial_fit/predict'), ('joint probability', 'P, ProbabilisticClassifierChain.predict, MonteCarloClassifierChain.sample/predict')], NOTE),
 P('C16', 'Online bagging: members get the drawn rows, drift replaces the worst member',
   'OzaBagging, OzaBaggingADWIN, LeveragingBagging, OnlineUnderOverBagging and OnlineSMOTEBagging hold max(n_estimators, number of classes) members (leveraging: n_estimators), each its own copy of the base estimator. For every row and member in turn (OzaBaggingADWIN: every batch and member) one number k is drawn and the member learns the row exactly k times, with its own label, its own sample weight (leveraging: none) and all classes. k is Poisson(1) for OzaBagging, OzaBaggingADWIN and the majority rows of SMOTE bagging; with a=(i+1)/M for member i, under-over bagging draws Poisson(a*sampling_rate) for class 1 and Poisson(a) otherwise, SMOTE bagging Poisson(a*sampling_rate) real and Poisson((1-a)*sampling_rate) synthetic lessons for class 1, a synthetic row lying between the row and one of its nearest positive rows; leveraging draws Poisson(w), 1 on an error and with probability e/(1-e) otherwise (e the detector\'s estimate), 1 or 0 evenly, 1+Poisson(1) or min(1, Poisson(1)) by algorithm. After its lessons each member\'s ADWIN hears once per row whether the member errs on it; when a detector signals a change and its error estimate rose, the member with the highest estimate is reset and gets a new detector (of the given delta), no other. With output codes a member learns and is judged on the code bit of the class, codes split the classes evenly, and it votes for the classes with the bit it finds likelier. predict_proba is the normalised sum of the members\' probabilities (zeros before training), predict a most probable class. The classes are needed in the first call and may not change; the base estimator is never trained; arguments are untouched; reset gives a new ensemble.',
   ['inputs', 'histories', 'configurations'], 'every base estimator, stream, batching, weighting, sequence of draws and detector signals',
   'The tests compare the predictions of a few ensembles after one stream without drift and with single rows or one batch size.',
   [SRC + 'meta/' + f + '.py' for f in ('oza_bagging', 'oza_bagging_adwin', 'leverage_bagging', 'online_under_over_bagging', 'online_smote_bagging')],
   [('draws and lessons', 'partial_fit, __partial_fit'), ('drift', 'the adwin_ensemble blocks of partial_fit'), ('output codes', '__init_output_codes, predict_binary_proba'), ('votes', 'predict_proba, predict')], NOTE),
 P('C17', 'Online boosting: row weights, vote weights and drift follow each member\'s record',
   'OnlineBoosting, OnlineAdaC2, OnlineRUSBoost and OnlineCSB2 hold max(n_estimators, number of classes) copies of the base estimator. For every row lambda starts at 1 and goes through the members in turn: each draws k from Poisson(lambda) (RUSBoost: a rate made from lambda as below), learns the row exactly k times with its own label, own sample weight and all classes, and hands lambda on. OnlineBoosting: if it was drawn, a member right afterwards adds lambda to its SC, a wrong one to its SW; eps = SW/(SW+SC); lambda becomes lambda/(2(1-eps)) if it was right and lambda/(2 eps) if wrong. RUSBoost does the same whether drawn or not; its draws use, with C the sampling rate, a and b the sums of lambda of class 1 and the others at the member, p and n their counts (per member reached): algorithm 1: lambda (a+b)/(a + b C p/n) (C+1)p/(p+n) for class 1 and lambda (a+b)/(a + b n/(C p)) (C+1)p/(p+n) otherwise (1 while n or p is zero), 2: lambda p/(p+n) / (a/(a+b)) and lambda C p/(p+n) / (b/(a+b)), 3: lambda and lambda/C. AdaC2 (classes 0 and 1): SUM grows by lambda at every member; a drawn member adds cost*lambda to its TP, TN, FN or FP, acc = (TP+TN)/SUM, err = (FP+FN)/SUM, lambda becomes cost*lambda/(2 acc) if right, cost*lambda/(2 err) if wrong. predict_proba sums the members\' probabilities weighted by log((1-eps)/eps) (AdaC2: log(acc/err)), members with no errors or only errors not voting, normalised where the sum is positive (zeros before training); predict takes a largest one. With drift_detection each member\'s ADWIN hears once per row whether the member errs on it; when a detector signals and its error estimate rose, the member with the highest estimate is reset and its detector renewed, no other. The classes are needed first and may not change; the base estimator is never trained; arguments are untouched; reset gives a new ensemble.',
   ['inputs', 'histories', 'configurations'], 'every base estimator, stream, batching, weighting, cost, sequence of draws and detector signals',
   'The tests compare the predictions of one configuration each after one short stream without drift.',
   [SRC + 'meta/' + f + '.py' for f in ('online_boosting', 'online_adac2', 'online_rus_boost', 'online_csb2')],
   [('weights and draws', 'partial_fit'), ('drift', 'the adwin_ensemble blocks of partial_fit'), ('votes', 'predict_proba, predict')], NOTE),
 P('C18', 'Weighted experts and models per chunk: weights, votes and members are as defined',
   'DynamicWeightedMajority and AdditiveExpertEnsemble hold 1 to n_estimators experts, copies of the base estimator; predict gives, row by row, the label with the highest sum of the weights of the experts predicting it (lowest label on ties), and every row of partial_fit is learned once by every expert present after the step, with its own label and sample weight and the classes last given, also when given in an earlier call. DynamicWeightedMajority, on every period-th row only: experts wrong on it are multiplied by beta, the weighted vote is taken, weights are scaled to a maximum of 1, experts below theta go, and if the vote was wrong a new expert of weight 1 is added (the lightest leaves if n_estimators remain). AdditiveExpertEnsemble, on every row: the vote is taken, wrong experts are multiplied by beta, after a wrong vote an expert weighing gamma times the sum is added, the lightest (weakest) or first (oldest) leaving a full ensemble; weights are then normalised to sum 1, except on every 1000th row. AccuracyWeightedEnsemble cuts the rows into chunks of window_size, across calls; a full chunk gives a model taught its rows, labels and sample weights; every older model then weighs max(0, MSE_r - MSE_i) on that chunk, with MSE_i the mean of (1 - probability of the true label)^2 (1 for labels it was not taught) and MSE_r = sum p(c)(1-p(c))^2, the new one the same by n_splits-fold cross-validation of the base estimator; with n_kept_estimators models the new one replaces the lightest if heavier; predict is the weighted vote of the n_estimators heaviest (zeros before the first chunk). BatchIncremental keeps one model per full window (rows, labels, weights), the last n_estimators; predict_proba is the share of models saying 1, predict is 1 from a half on. LearnPPNSE, per full window: rows the ensemble gets right weigh E/m, others 1/m (normalised; E its error rate), a new member is taught the window (again if its weighted error exceeds a half), errors of older members are capped at a half, beta = e/(1-e) is appended to each history with sigmoid weights 1/(1+exp(-slope(t-k-crossing_point))), normalised by the weights before, and each member weighs log(1/weighted mean beta); pruning drops the oldest or the one with the highest error over n_estimators; predict_proba sums the normalised probabilities, put in place by class, of members with positive weight. LearnPP follows Learn++ per full window: draws half the window twice by the row weights, retrains the hypothesis until its error and that of the composite vote (log of inverse normalised errors) are below error_threshold, reduces the weight of rows the composite gets right, keeps n_ensembles ensembles. All: partial_fit returns self and leaves its arguments alone, models never see rows given later, the base estimator is never trained, reset returns self in the state of a new object.',
   ['inputs', 'histories', 'configurations'], 'every base estimator (scikit-learn or skmultiflow style), stream, batching, weighting and configuration',
   'The tests run one configuration per class on a short stream and pin one accuracy; batches with a different answer per row, weights, rare labels and pruning are not reached.',
   [SRC + 'meta/' + f + '.py' for f in ('dynamic_weighted_majority', 'additive_expert_ensemble', 'accuracy_weighted_ensemble', 'batch_incremental', 'learn_nse', 'learn_pp')],
   [('experts', 'fit_single_sample, predict'), ('chunks', 'partial_fit, compute_weight, compute_score, predict'), ('Learn++', '__fit_batch, __vote_proba')], NOTE),
 P('C19', 'Transforms scale, fill in and decode samples as defined; pipelines chain steps',
   'WindowedStandardScaler and WindowedMinmaxScaler transform each sample, row by row, with the statistics of the last window_size samples before it (in their original units; NaN ignored): per feature (x-mean)/std with the population standard deviation (1 where it is 0; mean 0 and std 1 before the first sample), and (x-min)/(max-min) (0 where they are equal; min 0 and max 1 at first); the sample then joins the window. MissingValuesCleaner keeps every observed value and replaces each NaN and each value equal to (one of) missing_value by 0 (zero), new_value (custom), or the mean, median or mode (smallest of the most frequent values) of the observed values of the feature among the last window_size samples, the sample itself included, and by new_value while there are none. partial_fit only adds the samples to the window, partial_fit_transform transforms; window contents are values, not references; the given samples (arrays or lists, also of integers) are never modified and their number and width is kept; partial_fit and reset return self, reset gives a new transform. OneHotToCategorical replaces each group of columns by the position of its first 1 (the width of the group if there is none) and keeps all other features in order, before, between and after the groups. Pipeline accepts steps that can transform and learn (fit, fit_transform, partial_fit or partial_fit_transform; others: TypeError) and skips steps that are None; predict passes the samples through transform of every step and returns the predictions of the last one, teaching nothing; fit, partial_fit and partial_fit_predict let every step learn and transform exactly once (fit_transform or partial_fit_transform if it has it, else (partial_)fit then transform) the result of the step before, with y, and with classes in partial_fit where it takes them, and teach the last step (if any) the final result; fit and partial_fit return the pipeline. InstanceHeader gives the label at an index of the header, None outside it.',
   ['inputs', 'histories', 'configurations'], 'every sequence of transform, partial_fit and reset calls, window size, strategy, missing value code, group layout and combination of steps',
   'The tests transform one batch of floating point numbers per class and run one pipeline with one transform.',
   [SRC + 'transform/', SRC + 'core/pipeline.py', SRC + 'core/instance_header.py'],
   [('scalers', 'WindowedStandardScaler and WindowedMinmaxScaler transform/partial_fit'), ('missing values', 'MissingValuesCleaner.transform, _get_substitute'), ('groups', 'OneHotToCategorical.transform'), ('steps', 'Pipeline')], NOTE),
 P('C20', 'Half-space trees: masses, reference profiles and anomaly scores are as defined',
   'HalfSpaceTrees builds n_estimators trees once, at the first sample: full binary trees whose leaves are at level depth (the root at 1), each inner node splitting a drawn feature in the middle of the node\'s range of it, the range of feature j in a tree being [s-m, s+m] with s drawn from [0,1) per tree and feature and m = 2 max(s, 1-s) (recorded findings: the last feature is never drawn, and lower ends of ranges are not restored after a right subtree). Every sample, in order, adds one to a mass of every node on its path in every tree (values above the cut go right) and of no other node: to the reference mass during the first window_size samples, to the latest mass afterwards. At samples number 0, window_size, 2 window_size, ... (after adding the sample, see the recorded finding) the latest masses become the reference masses in every node and start from zero again. Once more than window_size+1 samples were seen, the score of a sample in a tree is the reference mass times 2^level of the first node on its path that is a leaf or whose reference mass is at most size_limit, its probability of being normal the score divided by window_size * 2^depth, and of being an anomaly the rest (one half each before); predict_proba gives, sample by sample, the mean over the trees scaled to absolute sum 1 (zeros before training), predict 1 for exactly the samples whose anomaly probability exceeds anomaly_threshold. Predicting changes nothing, samples are never modified, partial_fit returns self, and reset returns self without trees and samples.',
   ['inputs', 'histories', 'configurations'], 'every sequence of batches, queries and resets, every tree, depth, window size, size limit and threshold',
   'The test compares nine single-row predictions of one configuration on one stream.',
   [SRC + 'anomaly_detection/half_space_trees.py'],
   [('masses', '_update_mass, update_model, _partial_fit'), ('scores', '_anomaly_score, get_votes_for_instance, predict_proba, predict'), ('trees', 'build_trees, initialise_work_space, build_tree')], NOTE),
 P('C21', 'Adaptive random forests vote and replace their trees as defined',
   'An AdaptiveRandomForest classifier or regressor teaches every tree each row with the drawn Poisson(lambda) weight times the sample weight, only the rows drawn; feeds its prediction errors to the warning and drift detectors of that tree; starts an untrained background tree exactly on a warning and replaces the tree by it (or by a new one when there is none) exactly on a drift, with fresh detectors and evaluator. The classifier answers the normalised sum of the trees\' normalised votes, weighted by their accuracy or kappa; the regressor the mean, weighted mean or median of the trees\' predictions. Every leaf watches max_features distinct features as documented.',
   ['inputs', 'histories', 'configurations'], 'every sequence of batches with any sample weights and draws, every answer of the trees and signal of the detectors, every setting of the forest',
   'The tests compare the predictions of one forest with one seed on one stream; warnings, drifts, weights and most settings are not covered.',
   [SRC + 'meta/adaptive_random_forests.py', SRC + 'meta/adaptive_random_forest_regressor.py', SRC + 'trees/arf_hoeffding_tree.py', SRC + 'trees/arf_hoeffding_tree_regressor.py'],
   [('online bagging', 'AdaptiveRandomForestClassifier.partial_fit/_partial_fit, AdaptiveRandomForestRegressor.partial_fit'), ('warnings and drifts', 'ARFBaseLearner.partial_fit/reset, ARFRegBaseLearner.partial_fit/reset'), ('votes', 'get_votes_for_instance, predict_proba, predict'), ('features', '_set_max_features, random learning nodes')], NOTE),
 P('C22', 'Streaming random patches teach, vote and redraw features as defined',
   'A StreamingRandomPatchesClassifier gives every learner a subspace of the documented number of distinct features (all of them in resampling mode), different while subspaces are left; teaches it each row restricted to these features with the drawn Poisson(lambda) weight (no draw for randomsubspaces) times the sample weight and with the nominal attributes among them; feeds the errors to the detectors of the learner; starts an untrained background learner on redrawn features exactly on a warning and switches to it (or starts again on redrawn features) exactly on a drift. It answers the normalised sum of the normalised probabilities weighted by accuracy.',
   ['inputs', 'histories', 'configurations'], 'every sequence of batches with any sample weights and draws, every answer of the learners and signal of the detectors, every training method and subspace setting',
   'The tests compare the predictions of one ensemble per training method with one seed on one stream.',
   [SRC + 'meta/streaming_random_patches.py'],
   [('subspaces', '_init_ensemble, get_all_k_combinations, get_random_k_combinations'), ('online bagging', '_partial_fit'), ('warnings and drifts', 'StreamingRandomPatchesBaseLearner.partial_fit/_trigger_warning/reset'), ('votes', '_predict_proba, predict_proba, predict')], NOTE),
 P('C23', 'Every estimator keeps its parameters, and clone, copies and reset work',
   'Every learner, change detector and scaler/cleaner of the package keeps each constructor parameter: get_params answers the values given, set_params sets them (also those of contained estimators) and refuses unknown ones, and learning and predicting leave them as they are (forests set max_features, rule sets the defaults of nominal_attributes and rule_prediction). clone gives, after any history, an untrained estimator of the same class that is like a new one of the same parameters and shares no mutable parameter. reset gives, after any history, the state of a new one; learners return themselves from reset and partial_fit. Equal seeds and data give equal models; predicting changes neither the model nor its inputs, and a batch is answered row by row; a deepcopy or pickle goes on exactly as the original.',
   ['inputs', 'histories', 'configurations'], 'every estimator class with any numeric and boolean parameters; any history before clone or reset (all state a method can change is overwritten)',
   'The tests look at get_info and reset of a few estimators with defaults, clone none of them after training, and never compare a copy or a reset estimator with the original.',
   [SRC + 'core/base.py', SRC + 'meta', SRC + 'trees', SRC + 'lazy', SRC + 'drift_detection', SRC + 'transform'],
   [('parameters', 'BaseSKMObject.get_params/set_params, constructors'), ('clone', 'core.clone'), ('reset', 'reset of every class')], NOTE),
]
