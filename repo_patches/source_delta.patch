From d46b66531bba3bcc993d76afaeeda5ae353ffa1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:15 +0000
Subject: [PATCH 001/109] fix: f1_score(class_value) reported class 1 for every
 class in the binary case

---
 .../metrics/_classification_performance_evaluator.pyx         | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/metrics/_classification_performance_evaluator.pyx b/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
index c37cbca..2fe74e6 100644
--- a/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
+++ b/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
@@ -358,10 +358,10 @@ cdef class ClassificationPerformanceEvaluator:
         cdef double total
         cdef int n_classes = self.confusion_matrix.n_classes
         cdef double sum_f1
-        if n_classes == 2:
+        if n_classes == 2 and class_value == -1:
             # Binary case
             return self._f1_per_class(1)
-        if class_value == -1 and class_value == -1:
+        elif class_value == -1:
             # Multi-class case, calculate 'macro' average
             sum_f1 = 0.0
             for i in self.confusion_matrix.classes:
-- 
2.43.0


From a29ad694659687c579a03d4177514c38a18d81e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:15 +0000
Subject: [PATCH 002/109] fix: hamming_score ignored correctly predicted
 negative labels

---
 .../metrics/_classification_performance_evaluator.pyx           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/metrics/_classification_performance_evaluator.pyx b/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
index 2fe74e6..966192c 100644
--- a/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
+++ b/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
@@ -666,7 +666,7 @@ cdef class MultiLabelClassificationPerformanceEvaluator:
 
         """
         try:
-            return np.sum(self.confusion_matrix.data[:,1,1]) / \
+            return np.sum(self.confusion_matrix.data[:,0,0] + self.confusion_matrix.data[:,1,1]) / \
                    (self.n_samples * self.confusion_matrix.n_labels)
         except ZeroDivisionError:
             return 0.0   # ill-defined, return 0.0
-- 
2.43.0


From 174e04624b110789717cfee6932e735335a649b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:15 +0000
Subject: [PATCH 003/109] fix: performance evaluators lost their number of
 classes/labels (construction and reset)

---
 .../metrics/_classification_performance_evaluator.pyx     | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/skmultiflow/metrics/_classification_performance_evaluator.pyx b/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
index 966192c..dffc846 100644
--- a/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
+++ b/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
@@ -566,7 +566,7 @@ cdef class WindowClassificationPerformanceEvaluator(ClassificationPerformanceEva
     def reset(self):
         """ Reset the evaluator to its initial state.
         """
-        self.__init__(window_size=self.window_size)
+        self.__init__(n_classes=self._init_n_classes, window_size=self.window_size)
 
     def get_info(self):
         """ Get (current) information about the performance evaluator.
@@ -602,7 +602,7 @@ cdef class MultiLabelClassificationPerformanceEvaluator:
             warnings.warn('n_labels can not be less than 2, using default (2)')
             n_labels = 2
         self._init_n_labels = n_labels
-        self.confusion_matrix = MultiLabelConfusionMatrix()
+        self.confusion_matrix = MultiLabelConfusionMatrix(n_labels=n_labels)
         self.last_true = np.zeros(n_labels, dtype=DTYPE)
         self.last_pred = np.zeros(n_labels, dtype=DTYPE)
         self.n_samples = 0
@@ -741,7 +741,7 @@ cdef class MultiLabelClassificationPerformanceEvaluator:
     def reset(self):
         """ Reset the evaluator to its initial state.
         """
-        self.__init__()
+        self.__init__(n_labels=self._init_n_labels)
 
     def get_info(self):
         """ Get (current) information about the performance evaluator.
@@ -874,7 +874,7 @@ cdef class WindowMultiLabelClassificationPerformanceEvaluator(MultiLabelClassifi
     def reset(self):
         """ Reset the evaluator to its initial state.
         """
-        self.__init__(window_size=self.window_size)
+        self.__init__(n_labels=self._init_n_labels, window_size=self.window_size)
 
     def get_info(self):
         """ Get (current) information about the performance evaluator.
-- 
2.43.0


From 1975c2185a19b305776d6b472ca7e9d3613c7e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:26 +0000
Subject: [PATCH 004/109] fix: TemporalDataStream.restart kept the time, delay
 and weight of the last sample

---
 src/skmultiflow/data/temporal_data_stream.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/skmultiflow/data/temporal_data_stream.py b/src/skmultiflow/data/temporal_data_stream.py
index 5ebdebc..902bb03 100644
--- a/src/skmultiflow/data/temporal_data_stream.py
+++ b/src/skmultiflow/data/temporal_data_stream.py
@@ -148,6 +148,18 @@ class TemporalDataStream(DataStream):
                 raise TypeError("'time' is None, data cannot be ordered.")
         super().__init__(data, y, target_idx, n_targets, cat_features, name, allow_nan)
 
+    def restart(self):
+        """ Restarts the stream.
+
+        Basic functionality of a restart call is resetting the sample index
+        and the current sample, including its time, delay and weight.
+
+        """
+        super().restart()
+        self.current_sample_time = None
+        self.current_sample_delay = None
+        self.current_sample_weight = None
+
     def next_sample(self, batch_size=1):
         """
         Get next sample.
-- 
2.43.0


From 80a00aaf18b4abd36396d813daca1ed3fb9bed94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:18 +0000
Subject: [PATCH 005/109] fix: TemporalDataStream sorted the caller's time
 stamps in place

---
 src/skmultiflow/data/temporal_data_stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/data/temporal_data_stream.py b/src/skmultiflow/data/temporal_data_stream.py
index 902bb03..c98f078 100644
--- a/src/skmultiflow/data/temporal_data_stream.py
+++ b/src/skmultiflow/data/temporal_data_stream.py
@@ -143,7 +143,7 @@ class TemporalDataStream(DataStream):
                     # order sample_delay, check if not single delay
                     self.sample_delay = self.sample_delay[np.argsort(time)]
                     # order time
-                    self.time.sort()
+                    self.time = np.sort(self.time)
             else:
                 raise TypeError("'time' is None, data cannot be ordered.")
         super().__init__(data, y, target_idx, n_targets, cat_features, name, allow_nan)
-- 
2.43.0


From 249f265fa9a4d2088630a99f6bc988409c66d679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:13 +0000
Subject: [PATCH 006/109] fix: evaluators passed lists of label lists as
 classes for multi-target classification

---
 src/skmultiflow/evaluation/evaluate_holdout.py      |  4 ++--
 src/skmultiflow/evaluation/evaluate_prequential.py  | 12 ++++++++----
 .../evaluation/evaluate_prequential_delayed.py      | 13 +++++++++----
 3 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/skmultiflow/evaluation/evaluate_holdout.py b/src/skmultiflow/evaluation/evaluate_holdout.py
index 3814175..8c2c607 100644
--- a/src/skmultiflow/evaluation/evaluate_holdout.py
+++ b/src/skmultiflow/evaluation/evaluate_holdout.py
@@ -3,7 +3,7 @@ import warnings
 import re
 from timeit import default_timer as timer
 
-from numpy import unique
+from numpy import unique, hstack
 
 from skmultiflow.evaluation.base_evaluator import StreamEvaluator
 from skmultiflow.utils import constants, get_dimensions
@@ -267,7 +267,7 @@ class EvaluateHoldout(StreamEvaluator):
                                 self.running_time_measurements[i].compute_training_time_begin()
                                 self.model[i].partial_fit(
                                     X=X, y=y, classes=unique(
-                                        self.stream.target_values))
+                                        hstack(self.stream.target_values)))
                                 self.running_time_measurements[i].compute_training_time_end()
                             else:
                                 self.running_time_measurements[i].compute_training_time_begin()
diff --git a/src/skmultiflow/evaluation/evaluate_prequential.py b/src/skmultiflow/evaluation/evaluate_prequential.py
index f5db596..670fd37 100644
--- a/src/skmultiflow/evaluation/evaluate_prequential.py
+++ b/src/skmultiflow/evaluation/evaluate_prequential.py
@@ -3,7 +3,7 @@ import warnings
 import re
 from timeit import default_timer as timer
 
-from numpy import unique
+from numpy import unique, hstack
 
 from skmultiflow.evaluation.base_evaluator import StreamEvaluator
 from skmultiflow.utils import constants
@@ -301,7 +301,7 @@ class EvaluatePrequential(StreamEvaluator):
                     self.running_time_measurements[i].compute_training_time_end()
                 elif self._task_type == constants.MULTI_TARGET_CLASSIFICATION:
                     self.running_time_measurements[i].compute_training_time_begin()
-                    self.model[i].partial_fit(X=X, y=y, classes=unique(self.stream.target_values))
+                    self.model[i].partial_fit(X=X, y=y, classes=unique(hstack(self.stream.target_values)))
                     self.running_time_measurements[i].compute_training_time_end()
                 else:
                     self.running_time_measurements[i].compute_training_time_begin()
@@ -342,13 +342,17 @@ class EvaluatePrequential(StreamEvaluator):
                     # Train
                     if first_run:
                         for i in range(self.n_models):
-                            if self._task_type != constants.REGRESSION and \
-                               self._task_type != constants.MULTI_TARGET_REGRESSION:
+                            if self._task_type == constants.CLASSIFICATION:
                                 # Accounts for the moment of training beginning
                                 self.running_time_measurements[i].compute_training_time_begin()
                                 self.model[i].partial_fit(X, y, self.stream.target_values)
                                 # Accounts the ending of training
                                 self.running_time_measurements[i].compute_training_time_end()
+                            elif self._task_type == constants.MULTI_TARGET_CLASSIFICATION:
+                                self.running_time_measurements[i].compute_training_time_begin()
+                                self.model[i].partial_fit(
+                                    X, y, unique(hstack(self.stream.target_values)))
+                                self.running_time_measurements[i].compute_training_time_end()
                             else:
                                 self.running_time_measurements[i].compute_training_time_begin()
                                 self.model[i].partial_fit(X, y)
diff --git a/src/skmultiflow/evaluation/evaluate_prequential_delayed.py b/src/skmultiflow/evaluation/evaluate_prequential_delayed.py
index 0488b8c..35ea1dd 100644
--- a/src/skmultiflow/evaluation/evaluate_prequential_delayed.py
+++ b/src/skmultiflow/evaluation/evaluate_prequential_delayed.py
@@ -4,7 +4,7 @@ import re
 import numpy as np
 from timeit import default_timer as timer
 
-from numpy import unique
+from numpy import unique, hstack
 
 from skmultiflow.evaluation.base_evaluator import StreamEvaluator
 from skmultiflow.utils import constants
@@ -293,14 +293,19 @@ class EvaluatePrequentialDelayed(StreamEvaluator):
             # Train
             if self.first_run:
                 for i in range(self.n_models):
-                    if self._task_type != constants.REGRESSION and \
-                            self._task_type != constants.MULTI_TARGET_REGRESSION:
+                    if self._task_type == constants.CLASSIFICATION:
                         # Accounts for the moment of training beginning
                         self.running_time_measurements[i].compute_training_time_begin()
                         self.model[i].partial_fit(X=X, y=y, classes=self.stream.target_values,
                                                   sample_weight=sample_weight)
                         # Accounts the ending of training
                         self.running_time_measurements[i].compute_training_time_end()
+                    elif self._task_type == constants.MULTI_TARGET_CLASSIFICATION:
+                        self.running_time_measurements[i].compute_training_time_begin()
+                        self.model[i].partial_fit(
+                            X=X, y=y, classes=unique(hstack(self.stream.target_values)),
+                            sample_weight=sample_weight)
+                        self.running_time_measurements[i].compute_training_time_end()
                     else:
                         self.running_time_measurements[i].compute_training_time_begin()
                         self.model[i].partial_fit(X=X, y=y, sample_weight=sample_weight)
@@ -409,7 +414,7 @@ class EvaluatePrequentialDelayed(StreamEvaluator):
                 elif self._task_type == constants.MULTI_TARGET_CLASSIFICATION:
                     self.running_time_measurements[i].compute_training_time_begin()
                     self.model[i].partial_fit(X=X, y=y_true,
-                                              classes=unique(self.stream.target_values),
+                                              classes=unique(hstack(self.stream.target_values)),
                                               sample_weight=sample_weight)
                     self.running_time_measurements[i].compute_training_time_end()
                 else:
-- 
2.43.0


From c919a57e805d66c129847067878784bd45ac7869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:32 +0000
Subject: [PATCH 007/109] fix: EvaluatePrequentialDelayed failed without
 pre-training (no TimeManager)

---
 src/skmultiflow/evaluation/evaluate_prequential_delayed.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/skmultiflow/evaluation/evaluate_prequential_delayed.py b/src/skmultiflow/evaluation/evaluate_prequential_delayed.py
index 35ea1dd..fb39411 100644
--- a/src/skmultiflow/evaluation/evaluate_prequential_delayed.py
+++ b/src/skmultiflow/evaluation/evaluate_prequential_delayed.py
@@ -426,6 +426,9 @@ class EvaluatePrequentialDelayed(StreamEvaluator):
             self.first_run = False
             # initialize time_manager with last timestamp available
             self.time_manager = TimeManager(arrival_time[-1])
+        else:
+            # no timestamp available yet, it is set when the first batch arrives
+            self.time_manager = TimeManager(None)
 
         self.update_count = 0
         print('Evaluating...')
-- 
2.43.0


From 3efb7138f921b72680373da15bfc6f9d222e0e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:32 +0000
Subject: [PATCH 008/109] fix: delayed evaluation trained with the weights of
 other samples, and failed on weighted samples left in the queue

---
 src/skmultiflow/data/time_manager.py          | 318 +++++++++---------
 .../evaluate_prequential_delayed.py           |   6 +-
 2 files changed, 165 insertions(+), 159 deletions(-)

diff --git a/src/skmultiflow/data/time_manager.py b/src/skmultiflow/data/time_manager.py
index da38ba5..9501ee1 100644
--- a/src/skmultiflow/data/time_manager.py
+++ b/src/skmultiflow/data/time_manager.py
@@ -1,156 +1,162 @@
-import numpy as np
-import pandas as pd
-
-
-class TimeManager(object):
-    """ TimeManager
-
-    Manage instances that are related to a timestamp and a delay.
-
-    Parameters
-    ----------
-    timestamp: numpy.datetime64
-        Current timestamp of the stream. This timestamp is always
-        updated as the stream is processed to simulate when
-        the labels will be available for each sample.
-
-    """
-
-    _COLUMN_NAMES = ["X", "y_true", "y_pred", "sample_weight", "arrival_time", "available_time"]
-    _USE_SAMPLE_WEIGHT = True
-
-    def __init__(self, timestamp):
-        # get initial timestamp
-        self.timestamp = timestamp
-        # create dataframe to save time data
-        # X = features
-        # y_true = true label/target
-        # y_pred = predicted label/target for each model being evaluated
-        # arrival_time = arrival timestamp of the sample
-        # available_time = timestamp when the sample label will be available
-        self.queue = pd.DataFrame(columns=self._COLUMN_NAMES)
-        # transform queue into datetime if timestamps are not int
-        if isinstance(self.timestamp, int):
-            self.queue['arrival_time'] = pd.to_datetime(self.queue['arrival_time'])
-            self.queue['available_time'] = pd.to_datetime(self.queue['available_time'])
-
-    def _sort_queue(self):
-        # sort values by available_time
-        self.queue = self.queue.sort_values(by='available_time')
-        self.queue = self.queue.reset_index(drop=True)
-
-    def _cleanup_samples(self, batch_size):
-        # check if has batch_size samples to be removed
-        if self.queue.shape[0] - batch_size >= 0:
-            # drop samples that were already used
-            self.queue = self.queue.iloc[batch_size:]
-            # reset indexes
-            self.queue = self.queue.reset_index(drop=True)
-        else:
-            # drop all samples
-            self.queue = self.queue.iloc[0:0]
-
-    def update_timestamp(self, timestamp):
-        """ update_timestamp
-
-        Update current timestamp of the stream.
-
-        Parameters
-        ----------
-        timestamp: datetime64
-            Current timestamp of the stream. This timestamp is always
-            updated as the stream is processed to simulate when
-            the labels will be available for each sample.
-
-        """
-
-        self.timestamp = timestamp
-
-    def get_available_samples(self):
-        """ get_available_samples
-
-        Get available samples of the stream, i.e., samples that have
-        their labels available (available_time <= timestamp).
-
-        Returns
-        -------
-        tuple
-            A tuple containing the data, their true labels and predictions.
-
-        """
-
-        # get samples that have label available
-        samples = self.queue[self.queue['available_time'] <= self.timestamp]
-        # remove these samples from queue
-        self.queue = self.queue[self.queue['available_time'] > self.timestamp]
-        # get X, y_true and y_pred
-        X = np.array(samples["X"].values.tolist())
-        y_true = np.array(samples["y_true"].values.tolist())
-        y_pred = np.array(samples["y_pred"].values.tolist())
-        # return X, y_true and y_pred for the dequeued samples
-        return X, y_true, y_pred
-
-    def update_queue(self, X, y_true, y_pred, sample_weight, arrival_time, available_time):
-        # check if weight is None to create a list
-        if sample_weight is None:
-            # set _sample_weight as False, indicating that there is no weight
-            self._USE_SAMPLE_WEIGHT = False
-            sample_weight = np.full(X.shape[0], None)   # noqa
-        # create daraframe for current samples
-        frame = pd.DataFrame(list(zip(X, y_true, y_pred, sample_weight,
-                                      arrival_time, available_time)),
-                             columns=self._COLUMN_NAMES)
-        # append new data to queue
-        self.queue = self.queue.append(frame)
-        # sort queue
-        self._sort_queue()
-
-    def has_more_samples(self):
-        """ Checks if queue has more samples.
-
-        Returns
-        -------
-        Boolean
-            True if queue has more samples.
-
-        """
-
-        return self.queue.shape[0] > 0
-
-    def next_sample(self, batch_size=1):
-        """ Returns next sample from the queue.
-
-        If there is enough instances to supply at least batch_size samples, those
-        are returned. Otherwise, the remaining are returned.
-
-        Parameters
-        ----------
-        batch_size: int (optional, default=1)
-            The number of instances to return.
-
-        Returns
-        -------
-        tuple or tuple list
-            Returns the next batch_size instances.
-            For general purposes the return can be treated as a numpy.ndarray.
-
-        """
-        if self.queue.shape[0] - batch_size >= 0:
-            samples = self.queue[:batch_size]
-        else:
-            samples = self.queue
-        # get X
-        X = np.array(samples["X"].values.tolist())
-        # get y_true
-        y_true = np.array(samples["y_true"].values.tolist())
-        # get y_pred
-        y_pred = np.array(samples["y_pred"].values.tolist())
-        # check if sample_weight are being used
-        if self._USE_SAMPLE_WEIGHT:
-            sample_weight = np.array(samples["weight"].values.tolist())
-        else:
-            sample_weight = None
-        # remove samples from queue
-        self._cleanup_samples(batch_size)
-        # return X, y_true, y_pred, and weight for the dequeued samples
-        return X, y_true, y_pred, sample_weight
+import numpy as np
+import pandas as pd
+
+
+class TimeManager(object):
+    """ TimeManager
+
+    Manage instances that are related to a timestamp and a delay.
+
+    Parameters
+    ----------
+    timestamp: numpy.datetime64
+        Current timestamp of the stream. This timestamp is always
+        updated as the stream is processed to simulate when
+        the labels will be available for each sample.
+
+    """
+
+    _COLUMN_NAMES = ["X", "y_true", "y_pred", "sample_weight", "arrival_time", "available_time"]
+    _USE_SAMPLE_WEIGHT = True
+
+    def __init__(self, timestamp):
+        # get initial timestamp
+        self.timestamp = timestamp
+        # create dataframe to save time data
+        # X = features
+        # y_true = true label/target
+        # y_pred = predicted label/target for each model being evaluated
+        # arrival_time = arrival timestamp of the sample
+        # available_time = timestamp when the sample label will be available
+        self.queue = pd.DataFrame(columns=self._COLUMN_NAMES)
+        # transform queue into datetime if timestamps are not int
+        if isinstance(self.timestamp, int):
+            self.queue['arrival_time'] = pd.to_datetime(self.queue['arrival_time'])
+            self.queue['available_time'] = pd.to_datetime(self.queue['available_time'])
+
+    def _sort_queue(self):
+        # sort values by available_time
+        self.queue = self.queue.sort_values(by='available_time')
+        self.queue = self.queue.reset_index(drop=True)
+
+    def _cleanup_samples(self, batch_size):
+        # check if has batch_size samples to be removed
+        if self.queue.shape[0] - batch_size >= 0:
+            # drop samples that were already used
+            self.queue = self.queue.iloc[batch_size:]
+            # reset indexes
+            self.queue = self.queue.reset_index(drop=True)
+        else:
+            # drop all samples
+            self.queue = self.queue.iloc[0:0]
+
+    def update_timestamp(self, timestamp):
+        """ update_timestamp
+
+        Update current timestamp of the stream.
+
+        Parameters
+        ----------
+        timestamp: datetime64
+            Current timestamp of the stream. This timestamp is always
+            updated as the stream is processed to simulate when
+            the labels will be available for each sample.
+
+        """
+
+        self.timestamp = timestamp
+
+    def get_available_samples(self):
+        """ get_available_samples
+
+        Get available samples of the stream, i.e., samples that have
+        their labels available (available_time <= timestamp).
+
+        Returns
+        -------
+        tuple
+            A tuple containing the data, their true labels, predictions and
+            weights (None if the samples are not weighted).
+
+        """
+
+        # get samples that have label available
+        samples = self.queue[self.queue['available_time'] <= self.timestamp]
+        # remove these samples from queue
+        self.queue = self.queue[self.queue['available_time'] > self.timestamp]
+        # get X, y_true and y_pred
+        X = np.array(samples["X"].values.tolist())
+        y_true = np.array(samples["y_true"].values.tolist())
+        y_pred = np.array(samples["y_pred"].values.tolist())
+        # check if sample_weight are being used
+        if self._USE_SAMPLE_WEIGHT:
+            sample_weight = np.array(samples["sample_weight"].values.tolist())
+        else:
+            sample_weight = None
+        # return X, y_true, y_pred and weight for the dequeued samples
+        return X, y_true, y_pred, sample_weight
+
+    def update_queue(self, X, y_true, y_pred, sample_weight, arrival_time, available_time):
+        # check if weight is None to create a list
+        if sample_weight is None:
+            # set _sample_weight as False, indicating that there is no weight
+            self._USE_SAMPLE_WEIGHT = False
+            sample_weight = np.full(X.shape[0], None)   # noqa
+        # create daraframe for current samples
+        frame = pd.DataFrame(list(zip(X, y_true, y_pred, sample_weight,
+                                      arrival_time, available_time)),
+                             columns=self._COLUMN_NAMES)
+        # append new data to queue
+        self.queue = self.queue.append(frame)
+        # sort queue
+        self._sort_queue()
+
+    def has_more_samples(self):
+        """ Checks if queue has more samples.
+
+        Returns
+        -------
+        Boolean
+            True if queue has more samples.
+
+        """
+
+        return self.queue.shape[0] > 0
+
+    def next_sample(self, batch_size=1):
+        """ Returns next sample from the queue.
+
+        If there is enough instances to supply at least batch_size samples, those
+        are returned. Otherwise, the remaining are returned.
+
+        Parameters
+        ----------
+        batch_size: int (optional, default=1)
+            The number of instances to return.
+
+        Returns
+        -------
+        tuple or tuple list
+            Returns the next batch_size instances.
+            For general purposes the return can be treated as a numpy.ndarray.
+
+        """
+        if self.queue.shape[0] - batch_size >= 0:
+            samples = self.queue[:batch_size]
+        else:
+            samples = self.queue
+        # get X
+        X = np.array(samples["X"].values.tolist())
+        # get y_true
+        y_true = np.array(samples["y_true"].values.tolist())
+        # get y_pred
+        y_pred = np.array(samples["y_pred"].values.tolist())
+        # check if sample_weight are being used
+        if self._USE_SAMPLE_WEIGHT:
+            sample_weight = np.array(samples["sample_weight"].values.tolist())
+        else:
+            sample_weight = None
+        # remove samples from queue
+        self._cleanup_samples(batch_size)
+        # return X, y_true, y_pred, and weight for the dequeued samples
+        return X, y_true, y_pred, sample_weight
diff --git a/src/skmultiflow/evaluation/evaluate_prequential_delayed.py b/src/skmultiflow/evaluation/evaluate_prequential_delayed.py
index fb39411..d55d13d 100644
--- a/src/skmultiflow/evaluation/evaluate_prequential_delayed.py
+++ b/src/skmultiflow/evaluation/evaluate_prequential_delayed.py
@@ -445,8 +445,8 @@ class EvaluatePrequentialDelayed(StreamEvaluator):
                 self.time_manager.update_timestamp(arrival_time[-1])
 
                 # get delayed samples to update model before predicting a new batch
-                X_delayed, y_true_delayed, y_pred_delayed = self.time_manager.\
-                    get_available_samples()
+                X_delayed, y_true_delayed, y_pred_delayed, sample_weight_delayed = \
+                    self.time_manager.get_available_samples()
 
                 # transpose prediction matrix to model-sample again
                 y_pred_delayed = self._transform_predictions_model(y_pred_delayed)
@@ -457,7 +457,7 @@ class EvaluatePrequentialDelayed(StreamEvaluator):
                 # before getting new samples, update classifiers with samples
                 # that are already available
                 self._update_classifiers(X=X_delayed, y=y_true_delayed,
-                                         sample_weight=sample_weight)
+                                         sample_weight=sample_weight_delayed)
 
                 # predict samples and get predictions
                 y_pred = self._predict_samples(X)
-- 
2.43.0


From e31fd178b7b75e694e7513908f1631d376ada1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:19 +0000
Subject: [PATCH 009/109] fix: EvaluatePrequentialDelayed read more than
 max_samples samples when labels are delayed

---
 src/skmultiflow/evaluation/evaluate_prequential_delayed.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/skmultiflow/evaluation/evaluate_prequential_delayed.py b/src/skmultiflow/evaluation/evaluate_prequential_delayed.py
index d55d13d..3ba6fdf 100644
--- a/src/skmultiflow/evaluation/evaluate_prequential_delayed.py
+++ b/src/skmultiflow/evaluation/evaluate_prequential_delayed.py
@@ -431,8 +431,10 @@ class EvaluatePrequentialDelayed(StreamEvaluator):
             self.time_manager = TimeManager(None)
 
         self.update_count = 0
+        # samples taken from the stream, including those whose labels are still delayed
+        n_samples_seen = self.pretrain_size
         print('Evaluating...')
-        while ((self.global_sample_count < self.actual_max_samples) & (
+        while ((n_samples_seen < self.actual_max_samples) & (
                 self._end_time - self._start_time < self.max_time)
                & (self.stream.has_more_samples())):
             try:
@@ -440,6 +442,7 @@ class EvaluatePrequentialDelayed(StreamEvaluator):
                 # get current batch
                 X, y_true, arrival_time, available_time, sample_weight = self.stream.\
                     next_sample(self.batch_size)
+                n_samples_seen += self.batch_size
 
                 # update current timestamp
                 self.time_manager.update_timestamp(arrival_time[-1])
-- 
2.43.0


From 7f3e1c7ebddebb8c558c1f5ae133a817636558d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:18 +0000
Subject: [PATCH 010/109] fix: LEDGeneratorDrift instances shared (and
 overwrote) one drift mapping

---
 src/skmultiflow/data/led_generator_drift.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/skmultiflow/data/led_generator_drift.py b/src/skmultiflow/data/led_generator_drift.py
index b63222f..ddee9af 100644
--- a/src/skmultiflow/data/led_generator_drift.py
+++ b/src/skmultiflow/data/led_generator_drift.py
@@ -71,7 +71,6 @@ class LEDGeneratorDrift(LEDGenerator):
 
     """
 
-    _numberAttribute = np.zeros((24,), dtype=int)
     _NUM_IRRELEVANT_ATTRIBUTES = 17
 
     def __init__(self, random_state=None, noise_percentage=0.0, has_noise=False,
@@ -81,6 +80,8 @@ class LEDGeneratorDrift(LEDGenerator):
         self.n_drift_features = n_drift_features
         self.name = "Led Generator with drift"
 
+        # Belongs to this instance: other generators must not change its drift
+        self._numberAttribute = np.zeros((self._TOTAL_ATTRIBUTES_INCLUDING_NOISE,), dtype=int)
         for i in range(self._TOTAL_ATTRIBUTES_INCLUDING_NOISE):
             self._numberAttribute[i] = i
 
-- 
2.43.0


From 57feeea1eeec2813ea14dd98674764d67e45c210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:32 +0000
Subject: [PATCH 011/109] fix: MultilabelGenerator and AnomalySineGenerator
 claimed more samples after their last one

---
 src/skmultiflow/data/anomaly_sine_generator.py | 10 ++++++++++
 src/skmultiflow/data/multilabel_generator.py   | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/skmultiflow/data/anomaly_sine_generator.py b/src/skmultiflow/data/anomaly_sine_generator.py
index cba101a..678fdd1 100644
--- a/src/skmultiflow/data/anomaly_sine_generator.py
+++ b/src/skmultiflow/data/anomaly_sine_generator.py
@@ -141,6 +141,16 @@ class AnomalySineGenerator(Stream):
         """
         return self.n_samples - self.sample_idx
 
+    def has_more_samples(self):
+        """ Checks if stream has more samples.
+
+        Returns
+        -------
+        Boolean
+            True if stream has more samples.
+        """
+        return self.n_samples - self.sample_idx > 0
+
     def get_data_info(self):
         """ Retrieves minimum information from the stream
 
diff --git a/src/skmultiflow/data/multilabel_generator.py b/src/skmultiflow/data/multilabel_generator.py
index d8446f3..4f22137 100644
--- a/src/skmultiflow/data/multilabel_generator.py
+++ b/src/skmultiflow/data/multilabel_generator.py
@@ -157,3 +157,13 @@ class MultilabelGenerator(Stream):
             Number of remaining samples.
         """
         return self.n_samples - self.sample_idx
+
+    def has_more_samples(self):
+        """ Checks if stream has more samples.
+
+        Returns
+        -------
+        Boolean
+            True if stream has more samples.
+        """
+        return self.n_samples - self.sample_idx > 0
-- 
2.43.0


From e05520c8532734a4096304d0992459d83e4e5797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:32 +0000
Subject: [PATCH 012/109] fix: RegressionGenerator returned more target rows
 than feature rows in the last batch (n_targets > 1)

---
 src/skmultiflow/data/regression_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/data/regression_generator.py b/src/skmultiflow/data/regression_generator.py
index 754f3e8..fd56f7a 100644
--- a/src/skmultiflow/data/regression_generator.py
+++ b/src/skmultiflow/data/regression_generator.py
@@ -135,7 +135,7 @@ class RegressionGenerator(Stream):
                                          n_informative=self.n_informative,
                                          n_targets=self.n_targets,
                                          random_state=self._random_state)
-        self.y = np.resize(self.y, (self.y.size, self.n_targets))
+        self.y = np.resize(self.y, (self.n_samples, self.n_targets))
 
         self.target_names = ["target_" + str(i) for i in range(self.n_targets)]
         self.feature_names = ["att_num_" + str(i) for i in range(self.n_num_features)]
-- 
2.43.0


From 2b0d3143c3b4e7c06f6105af48c917b03b9efb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:32 +0000
Subject: [PATCH 013/109] fix: random RBF and random tree generators did not
 count their samples (sample_idx)

---
 src/skmultiflow/data/random_rbf_generator.py  | 1 +
 src/skmultiflow/data/random_tree_generator.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/skmultiflow/data/random_rbf_generator.py b/src/skmultiflow/data/random_rbf_generator.py
index 6d6753b..ea57537 100644
--- a/src/skmultiflow/data/random_rbf_generator.py
+++ b/src/skmultiflow/data/random_rbf_generator.py
@@ -131,6 +131,7 @@ class RandomRBFGenerator(Stream):
         """
         data = np.zeros([batch_size, self.n_features + 1])
         for j in range(batch_size):
+            self.sample_idx += 1
             i = prp.random_index_based_on_weights(self.centroid_weights, self._sample_random_state)
             centroid_aux = self.centroids[i]
             att_vals = []
diff --git a/src/skmultiflow/data/random_tree_generator.py b/src/skmultiflow/data/random_tree_generator.py
index 47807da..b8b2153 100644
--- a/src/skmultiflow/data/random_tree_generator.py
+++ b/src/skmultiflow/data/random_tree_generator.py
@@ -337,6 +337,7 @@ class RandomTreeGenerator(Stream):
             self.n_cat_features * self.n_categories_per_cat_feature)
         data = np.zeros([batch_size, max_features + 1])
         for j in range(batch_size):
+            self.sample_idx += 1
             for i in range(self.n_num_features):
                 data[j, i] = self._sample_random_state.rand()
 
-- 
2.43.0


From d4c58bfe175fcadfcb4ed6afab4e34be49e50eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:35 +0000
Subject: [PATCH 014/109] fix: ConceptDriftStream reported a wrong number of
 remaining samples when one stream is infinite

---
 src/skmultiflow/data/concept_drift_stream.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/skmultiflow/data/concept_drift_stream.py b/src/skmultiflow/data/concept_drift_stream.py
index 5ee8018..3589c10 100644
--- a/src/skmultiflow/data/concept_drift_stream.py
+++ b/src/skmultiflow/data/concept_drift_stream.py
@@ -111,10 +111,11 @@ class ConceptDriftStream(Stream):
         int
             Remaining number of samples. -1 if infinite (e.g. generator)
         """
-        n_samples = self.stream.n_remaining_samples() + self.drift_stream.n_remaining_samples()
-        if n_samples < 0:
-            n_samples = -1
-        return n_samples
+        n_stream = self.stream.n_remaining_samples()
+        n_drift_stream = self.drift_stream.n_remaining_samples()
+        if n_stream < 0 or n_drift_stream < 0:
+            return -1
+        return n_stream + n_drift_stream
 
     def has_more_samples(self):
         """ Checks if stream has more samples.
-- 
2.43.0


From 7e51d0775a12d85715e1af1c53d23a48f1142f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:35 +0000
Subject: [PATCH 015/109] fix: ConceptDriftStream flattened the targets of
 multi-target streams, and last_sample disagreed with next_sample

---
 src/skmultiflow/data/concept_drift_stream.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/skmultiflow/data/concept_drift_stream.py b/src/skmultiflow/data/concept_drift_stream.py
index 3589c10..ae7e7ea 100644
--- a/src/skmultiflow/data/concept_drift_stream.py
+++ b/src/skmultiflow/data/concept_drift_stream.py
@@ -166,7 +166,9 @@ class ConceptDriftStream(Stream):
             self.current_sample_x[j, :] = X
             self.current_sample_y[j, :] = y
 
-        return self.current_sample_x, self.current_sample_y.flatten()
+        if self.n_targets < 2:
+            self.current_sample_y = self.current_sample_y.flatten()
+        return self.current_sample_x, self.current_sample_y
 
     def restart(self):
         self._random_state = check_random_state(self.random_state)
-- 
2.43.0


From b6c44ac1526bbd56a53f1e73460c702ffe37d11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:35 +0000
Subject: [PATCH 016/109] fix: ConceptDriftStream.restart kept the last sample

---
 src/skmultiflow/data/concept_drift_stream.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/skmultiflow/data/concept_drift_stream.py b/src/skmultiflow/data/concept_drift_stream.py
index ae7e7ea..3d664be 100644
--- a/src/skmultiflow/data/concept_drift_stream.py
+++ b/src/skmultiflow/data/concept_drift_stream.py
@@ -172,6 +172,8 @@ class ConceptDriftStream(Stream):
 
     def restart(self):
         self._random_state = check_random_state(self.random_state)
+        self.current_sample_x = None
+        self.current_sample_y = None
         self.sample_idx = 0
         self.stream.restart()
         self.drift_stream.restart()
-- 
2.43.0


From a5089f6fc812587af280413638f1a47f0ebc96c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:35 +0000
Subject: [PATCH 017/109] fix: all default ConceptDriftStream instances shared
 (and advanced) the same two generators

---
 src/skmultiflow/data/concept_drift_stream.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/data/concept_drift_stream.py b/src/skmultiflow/data/concept_drift_stream.py
index 3d664be..75ee44f 100644
--- a/src/skmultiflow/data/concept_drift_stream.py
+++ b/src/skmultiflow/data/concept_drift_stream.py
@@ -58,14 +58,20 @@ class ConceptDriftStream(Stream):
 
     """
 
-    def __init__(self, stream=AGRAWALGenerator(random_state=112),
-                 drift_stream=AGRAWALGenerator(random_state=112, classification_function=2),
+    def __init__(self, stream=None,
+                 drift_stream=None,
                  position=5000,
                  width=1000,
                  random_state=None,
                  alpha=None):
         super(ConceptDriftStream, self).__init__()
 
+        # Created here and not as default values, which all instances would share
+        if stream is None:
+            stream = AGRAWALGenerator(random_state=112)
+        if drift_stream is None:
+            drift_stream = AGRAWALGenerator(random_state=112, classification_function=2)
+
         self.n_samples = stream.n_samples
         self.n_targets = stream.n_targets
         self.n_features = stream.n_features
-- 
2.43.0


From bc439e21352ff77430fc4e666ab9cd2022e5ccd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:28 +0000
Subject: [PATCH 018/109] fix: keep the CRLF line endings of time_manager.py
 (changed by 3efb713)

---
 src/skmultiflow/data/time_manager.py | 324 +++++++++++++--------------
 1 file changed, 162 insertions(+), 162 deletions(-)

diff --git a/src/skmultiflow/data/time_manager.py b/src/skmultiflow/data/time_manager.py
index 9501ee1..42134e7 100644
--- a/src/skmultiflow/data/time_manager.py
+++ b/src/skmultiflow/data/time_manager.py
@@ -1,162 +1,162 @@
-import numpy as np
-import pandas as pd
-
-
-class TimeManager(object):
-    """ TimeManager
-
-    Manage instances that are related to a timestamp and a delay.
-
-    Parameters
-    ----------
-    timestamp: numpy.datetime64
-        Current timestamp of the stream. This timestamp is always
-        updated as the stream is processed to simulate when
-        the labels will be available for each sample.
-
-    """
-
-    _COLUMN_NAMES = ["X", "y_true", "y_pred", "sample_weight", "arrival_time", "available_time"]
-    _USE_SAMPLE_WEIGHT = True
-
-    def __init__(self, timestamp):
-        # get initial timestamp
-        self.timestamp = timestamp
-        # create dataframe to save time data
-        # X = features
-        # y_true = true label/target
-        # y_pred = predicted label/target for each model being evaluated
-        # arrival_time = arrival timestamp of the sample
-        # available_time = timestamp when the sample label will be available
-        self.queue = pd.DataFrame(columns=self._COLUMN_NAMES)
-        # transform queue into datetime if timestamps are not int
-        if isinstance(self.timestamp, int):
-            self.queue['arrival_time'] = pd.to_datetime(self.queue['arrival_time'])
-            self.queue['available_time'] = pd.to_datetime(self.queue['available_time'])
-
-    def _sort_queue(self):
-        # sort values by available_time
-        self.queue = self.queue.sort_values(by='available_time')
-        self.queue = self.queue.reset_index(drop=True)
-
-    def _cleanup_samples(self, batch_size):
-        # check if has batch_size samples to be removed
-        if self.queue.shape[0] - batch_size >= 0:
-            # drop samples that were already used
-            self.queue = self.queue.iloc[batch_size:]
-            # reset indexes
-            self.queue = self.queue.reset_index(drop=True)
-        else:
-            # drop all samples
-            self.queue = self.queue.iloc[0:0]
-
-    def update_timestamp(self, timestamp):
-        """ update_timestamp
-
-        Update current timestamp of the stream.
-
-        Parameters
-        ----------
-        timestamp: datetime64
-            Current timestamp of the stream. This timestamp is always
-            updated as the stream is processed to simulate when
-            the labels will be available for each sample.
-
-        """
-
-        self.timestamp = timestamp
-
-    def get_available_samples(self):
-        """ get_available_samples
-
-        Get available samples of the stream, i.e., samples that have
-        their labels available (available_time <= timestamp).
-
-        Returns
-        -------
-        tuple
-            A tuple containing the data, their true labels, predictions and
-            weights (None if the samples are not weighted).
-
-        """
-
-        # get samples that have label available
-        samples = self.queue[self.queue['available_time'] <= self.timestamp]
-        # remove these samples from queue
-        self.queue = self.queue[self.queue['available_time'] > self.timestamp]
-        # get X, y_true and y_pred
-        X = np.array(samples["X"].values.tolist())
-        y_true = np.array(samples["y_true"].values.tolist())
-        y_pred = np.array(samples["y_pred"].values.tolist())
-        # check if sample_weight are being used
-        if self._USE_SAMPLE_WEIGHT:
-            sample_weight = np.array(samples["sample_weight"].values.tolist())
-        else:
-            sample_weight = None
-        # return X, y_true, y_pred and weight for the dequeued samples
-        return X, y_true, y_pred, sample_weight
-
-    def update_queue(self, X, y_true, y_pred, sample_weight, arrival_time, available_time):
-        # check if weight is None to create a list
-        if sample_weight is None:
-            # set _sample_weight as False, indicating that there is no weight
-            self._USE_SAMPLE_WEIGHT = False
-            sample_weight = np.full(X.shape[0], None)   # noqa
-        # create daraframe for current samples
-        frame = pd.DataFrame(list(zip(X, y_true, y_pred, sample_weight,
-                                      arrival_time, available_time)),
-                             columns=self._COLUMN_NAMES)
-        # append new data to queue
-        self.queue = self.queue.append(frame)
-        # sort queue
-        self._sort_queue()
-
-    def has_more_samples(self):
-        """ Checks if queue has more samples.
-
-        Returns
-        -------
-        Boolean
-            True if queue has more samples.
-
-        """
-
-        return self.queue.shape[0] > 0
-
-    def next_sample(self, batch_size=1):
-        """ Returns next sample from the queue.
-
-        If there is enough instances to supply at least batch_size samples, those
-        are returned. Otherwise, the remaining are returned.
-
-        Parameters
-        ----------
-        batch_size: int (optional, default=1)
-            The number of instances to return.
-
-        Returns
-        -------
-        tuple or tuple list
-            Returns the next batch_size instances.
-            For general purposes the return can be treated as a numpy.ndarray.
-
-        """
-        if self.queue.shape[0] - batch_size >= 0:
-            samples = self.queue[:batch_size]
-        else:
-            samples = self.queue
-        # get X
-        X = np.array(samples["X"].values.tolist())
-        # get y_true
-        y_true = np.array(samples["y_true"].values.tolist())
-        # get y_pred
-        y_pred = np.array(samples["y_pred"].values.tolist())
-        # check if sample_weight are being used
-        if self._USE_SAMPLE_WEIGHT:
-            sample_weight = np.array(samples["sample_weight"].values.tolist())
-        else:
-            sample_weight = None
-        # remove samples from queue
-        self._cleanup_samples(batch_size)
-        # return X, y_true, y_pred, and weight for the dequeued samples
-        return X, y_true, y_pred, sample_weight
+import numpy as np
+import pandas as pd
+
+
+class TimeManager(object):
+    """ TimeManager
+
+    Manage instances that are related to a timestamp and a delay.
+
+    Parameters
+    ----------
+    timestamp: numpy.datetime64
+        Current timestamp of the stream. This timestamp is always
+        updated as the stream is processed to simulate when
+        the labels will be available for each sample.
+
+    """
+
+    _COLUMN_NAMES = ["X", "y_true", "y_pred", "sample_weight", "arrival_time", "available_time"]
+    _USE_SAMPLE_WEIGHT = True
+
+    def __init__(self, timestamp):
+        # get initial timestamp
+        self.timestamp = timestamp
+        # create dataframe to save time data
+        # X = features
+        # y_true = true label/target
+        # y_pred = predicted label/target for each model being evaluated
+        # arrival_time = arrival timestamp of the sample
+        # available_time = timestamp when the sample label will be available
+        self.queue = pd.DataFrame(columns=self._COLUMN_NAMES)
+        # transform queue into datetime if timestamps are not int
+        if isinstance(self.timestamp, int):
+            self.queue['arrival_time'] = pd.to_datetime(self.queue['arrival_time'])
+            self.queue['available_time'] = pd.to_datetime(self.queue['available_time'])
+
+    def _sort_queue(self):
+        # sort values by available_time
+        self.queue = self.queue.sort_values(by='available_time')
+        self.queue = self.queue.reset_index(drop=True)
+
+    def _cleanup_samples(self, batch_size):
+        # check if has batch_size samples to be removed
+        if self.queue.shape[0] - batch_size >= 0:
+            # drop samples that were already used
+            self.queue = self.queue.iloc[batch_size:]
+            # reset indexes
+            self.queue = self.queue.reset_index(drop=True)
+        else:
+            # drop all samples
+            self.queue = self.queue.iloc[0:0]
+
+    def update_timestamp(self, timestamp):
+        """ update_timestamp
+
+        Update current timestamp of the stream.
+
+        Parameters
+        ----------
+        timestamp: datetime64
+            Current timestamp of the stream. This timestamp is always
+            updated as the stream is processed to simulate when
+            the labels will be available for each sample.
+
+        """
+
+        self.timestamp = timestamp
+
+    def get_available_samples(self):
+        """ get_available_samples
+
+        Get available samples of the stream, i.e., samples that have
+        their labels available (available_time <= timestamp).
+
+        Returns
+        -------
+        tuple
+            A tuple containing the data, their true labels, predictions and
+            weights (None if the samples are not weighted).
+
+        """
+
+        # get samples that have label available
+        samples = self.queue[self.queue['available_time'] <= self.timestamp]
+        # remove these samples from queue
+        self.queue = self.queue[self.queue['available_time'] > self.timestamp]
+        # get X, y_true and y_pred
+        X = np.array(samples["X"].values.tolist())
+        y_true = np.array(samples["y_true"].values.tolist())
+        y_pred = np.array(samples["y_pred"].values.tolist())
+        # check if sample_weight are being used
+        if self._USE_SAMPLE_WEIGHT:
+            sample_weight = np.array(samples["sample_weight"].values.tolist())
+        else:
+            sample_weight = None
+        # return X, y_true, y_pred and weight for the dequeued samples
+        return X, y_true, y_pred, sample_weight
+
+    def update_queue(self, X, y_true, y_pred, sample_weight, arrival_time, available_time):
+        # check if weight is None to create a list
+        if sample_weight is None:
+            # set _sample_weight as False, indicating that there is no weight
+            self._USE_SAMPLE_WEIGHT = False
+            sample_weight = np.full(X.shape[0], None)   # noqa
+        # create daraframe for current samples
+        frame = pd.DataFrame(list(zip(X, y_true, y_pred, sample_weight,
+                                      arrival_time, available_time)),
+                             columns=self._COLUMN_NAMES)
+        # append new data to queue
+        self.queue = self.queue.append(frame)
+        # sort queue
+        self._sort_queue()
+
+    def has_more_samples(self):
+        """ Checks if queue has more samples.
+
+        Returns
+        -------
+        Boolean
+            True if queue has more samples.
+
+        """
+
+        return self.queue.shape[0] > 0
+
+    def next_sample(self, batch_size=1):
+        """ Returns next sample from the queue.
+
+        If there is enough instances to supply at least batch_size samples, those
+        are returned. Otherwise, the remaining are returned.
+
+        Parameters
+        ----------
+        batch_size: int (optional, default=1)
+            The number of instances to return.
+
+        Returns
+        -------
+        tuple or tuple list
+            Returns the next batch_size instances.
+            For general purposes the return can be treated as a numpy.ndarray.
+
+        """
+        if self.queue.shape[0] - batch_size >= 0:
+            samples = self.queue[:batch_size]
+        else:
+            samples = self.queue
+        # get X
+        X = np.array(samples["X"].values.tolist())
+        # get y_true
+        y_true = np.array(samples["y_true"].values.tolist())
+        # get y_pred
+        y_pred = np.array(samples["y_pred"].values.tolist())
+        # check if sample_weight are being used
+        if self._USE_SAMPLE_WEIGHT:
+            sample_weight = np.array(samples["sample_weight"].values.tolist())
+        else:
+            sample_weight = None
+        # remove samples from queue
+        self._cleanup_samples(batch_size)
+        # return X, y_true, y_pred, and weight for the dequeued samples
+        return X, y_true, y_pred, sample_weight
-- 
2.43.0


From 858b0f7ab18af8f9f0138b9d3f509fa88eee49e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:21 +0000
Subject: [PATCH 019/109] fix: attribute tests return -1 when the instance has
 no such attribute, also for the first missing index

---
 .../trees/_attribute_test/nominal_attribute_binary_test.py      | 2 +-
 .../trees/_attribute_test/nominal_attribute_multiway_test.py    | 2 +-
 .../trees/_attribute_test/numeric_attribute_binary_test.py      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/skmultiflow/trees/_attribute_test/nominal_attribute_binary_test.py b/src/skmultiflow/trees/_attribute_test/nominal_attribute_binary_test.py
index fdac6c7..3774a51 100644
--- a/src/skmultiflow/trees/_attribute_test/nominal_attribute_binary_test.py
+++ b/src/skmultiflow/trees/_attribute_test/nominal_attribute_binary_test.py
@@ -21,7 +21,7 @@ class NominalAttributeBinaryTest(InstanceConditionalTest):
         self._att_value = att_value
 
     def branch_for_instance(self, X):
-        if self._att_idx > len(X) or self._att_idx < 0:
+        if self._att_idx >= len(X) or self._att_idx < 0:
             return -1
         else:
             return 0 if X[self._att_idx] == self._att_value else 1
diff --git a/src/skmultiflow/trees/_attribute_test/nominal_attribute_multiway_test.py b/src/skmultiflow/trees/_attribute_test/nominal_attribute_multiway_test.py
index a5d89ee..c57fc1d 100644
--- a/src/skmultiflow/trees/_attribute_test/nominal_attribute_multiway_test.py
+++ b/src/skmultiflow/trees/_attribute_test/nominal_attribute_multiway_test.py
@@ -25,7 +25,7 @@ class NominalAttributeMultiwayTest(InstanceConditionalTest):
         }
 
     def branch_for_instance(self, X):
-        if self._att_idx > len(X) or self._att_idx < 0:
+        if self._att_idx >= len(X) or self._att_idx < 0:
             return -1
         else:
             # Return branch for feature value or -1 in case the element was not
diff --git a/src/skmultiflow/trees/_attribute_test/numeric_attribute_binary_test.py b/src/skmultiflow/trees/_attribute_test/numeric_attribute_binary_test.py
index 954c14a..b3cea82 100644
--- a/src/skmultiflow/trees/_attribute_test/numeric_attribute_binary_test.py
+++ b/src/skmultiflow/trees/_attribute_test/numeric_attribute_binary_test.py
@@ -10,7 +10,7 @@ class NumericAttributeBinaryTest(InstanceConditionalTest):
         self._equals_passes_test = equal_passes_test
 
     def branch_for_instance(self, X):
-        if self._att_idx > len(X) or self._att_idx < 0:
+        if self._att_idx >= len(X) or self._att_idx < 0:
             return -1
         v = X[self._att_idx]
         if v == self._att_value:
-- 
2.43.0


From 8cbe2cb0cd0b6e8d47b74b45311aa59a4a54b577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:21 +0000
Subject: [PATCH 020/109] fix: zero-variance GaussianEstimator put the weight
 on the wrong side of a value

---
 src/skmultiflow/trees/gaussian_estimator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/trees/gaussian_estimator.py b/src/skmultiflow/trees/gaussian_estimator.py
index 1b6c286..62c6d22 100644
--- a/src/skmultiflow/trees/gaussian_estimator.py
+++ b/src/skmultiflow/trees/gaussian_estimator.py
@@ -86,7 +86,7 @@ class GaussianEstimator(object):
             lessthan_weight = normal_probability((value - mean) / std_dev) * self._weight_sum \
                 - equalto_weight
         else:
-            if value < mean:
+            if value > mean:
                 lessthan_weight = self._weight_sum - equalto_weight
             else:
                 lessthan_weight = 0.0
-- 
2.43.0


From ff05519af73c671833f4b75d1403bb395eb7c383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:21 +0000
Subject: [PATCH 021/109] fix: do not truncate the weight to an integer in the
 variance reduction

---
 .../_split_criterion/variance_reduction_split_criterion.py      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/trees/_split_criterion/variance_reduction_split_criterion.py b/src/skmultiflow/trees/_split_criterion/variance_reduction_split_criterion.py
index 7abfdd2..084c33a 100644
--- a/src/skmultiflow/trees/_split_criterion/variance_reduction_split_criterion.py
+++ b/src/skmultiflow/trees/_split_criterion/variance_reduction_split_criterion.py
@@ -36,7 +36,7 @@ class VarianceReductionSplitCriterion(SplitCriterion):
     @staticmethod
     def compute_SD(dist):
 
-        N = int(dist[0])
+        N = dist[0]
         sum_ = dist[1]
         sum_sq = dist[2]
 
-- 
2.43.0


From c5639c8af7f8dc410e0d81d777bd461c39e7826f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:21 +0000
Subject: [PATCH 022/109] fix: Hellinger criterion with no weight divided by
 zero

---
 .../trees/_split_criterion/hellinger_distance_criterion.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/skmultiflow/trees/_split_criterion/hellinger_distance_criterion.py b/src/skmultiflow/trees/_split_criterion/hellinger_distance_criterion.py
index a0f0c2a..864b403 100644
--- a/src/skmultiflow/trees/_split_criterion/hellinger_distance_criterion.py
+++ b/src/skmultiflow/trees/_split_criterion/hellinger_distance_criterion.py
@@ -63,7 +63,8 @@ class HellingerDistanceCriterion(SplitCriterion):
             dist_sums[i] = sum(distributions[i].values())
             total_weight += dist_sums[i]
         num_greater = 0
-        for d in dist_sums:
-            if (d / total_weight) > min_frac:
-                num_greater += 1
+        if total_weight > 0:
+            for d in dist_sums:
+                if (d / total_weight) > min_frac:
+                    num_greater += 1
         return num_greater
-- 
2.43.0


From 0fa181e12413284d0faa263e64011d156dd3c14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:21 +0000
Subject: [PATCH 023/109] fix: NumericAttributeClassObserverBinaryTree raised
 KeyError on the first value and kept stale counts

---
 ...ic_attribute_class_observer_binary_tree.py | 44 +++++++------------
 1 file changed, 17 insertions(+), 27 deletions(-)

diff --git a/src/skmultiflow/trees/_attribute_observer/numeric_attribute_class_observer_binary_tree.py b/src/skmultiflow/trees/_attribute_observer/numeric_attribute_class_observer_binary_tree.py
index 5d6b804..ac23610 100644
--- a/src/skmultiflow/trees/_attribute_observer/numeric_attribute_class_observer_binary_tree.py
+++ b/src/skmultiflow/trees/_attribute_observer/numeric_attribute_class_observer_binary_tree.py
@@ -14,8 +14,8 @@ class NumericAttributeClassObserverBinaryTree(AttributeObserver):
     class Node:
 
         def __init__(self, val, label, weight):
-            self._class_count_left = {}
-            self._class_count_right = {}
+            self._class_count_left = Counter()
+            self._class_count_right = Counter()
             self._left = None
             self._right = None
 
@@ -128,26 +128,20 @@ class NumericAttributeClassObserverBinaryTree(AttributeObserver):
                     )
                 )
 
-                exact_parent_dist.update(
-                    dict(
-                        Counter(exact_parent_dist) -
-                        Counter(current_node._class_count_left)
-                    )
+                exact_parent_dist = dict(
+                    Counter(exact_parent_dist) -
+                    Counter(current_node._class_count_left)
                 )
 
-                exact_parent_dist.update(
-                    dict(
-                        Counter(exact_parent_dist) -
-                        Counter(current_node._class_count_right)
-                    )
+                exact_parent_dist = dict(
+                    Counter(exact_parent_dist) -
+                    Counter(current_node._class_count_right)
                 )
 
                 """move the subtrees"""
-                left_dist.update(
-                    dict(
-                        Counter(left_dist) -
-                        Counter(current_node._class_count_right)
-                    )
+                left_dist = dict(
+                    Counter(left_dist) -
+                    Counter(current_node._class_count_right)
                 )
 
                 right_dist.update(
@@ -165,11 +159,9 @@ class NumericAttributeClassObserverBinaryTree(AttributeObserver):
                     )
                 )
 
-                left_dist.update(
-                    dict(
-                        Counter(left_dist) -
-                        Counter(exact_parent_dist)
-                    )
+                left_dist = dict(
+                    Counter(left_dist) -
+                    Counter(exact_parent_dist)
                 )
 
             else:
@@ -180,11 +172,9 @@ class NumericAttributeClassObserverBinaryTree(AttributeObserver):
                     )
                 )
 
-                right_dist.update(
-                    dict(
-                        Counter(right_dist) -
-                        Counter(current_node._class_count_left)
-                    )
+                right_dist = dict(
+                    Counter(right_dist) -
+                    Counter(current_node._class_count_left)
                 )
 
         post_split_dists = [left_dist, right_dist]
-- 
2.43.0


From 5ae3a6200519b93ce60eb6174b30f33a04b301b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:02 +0000
Subject: [PATCH 024/109] fix: remove_poor_atts failed on the null split
 suggestion in the Hoeffding tree

---
 src/skmultiflow/trees/hoeffding_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/trees/hoeffding_tree.py b/src/skmultiflow/trees/hoeffding_tree.py
index eac6137..d7aa38f 100755
--- a/src/skmultiflow/trees/hoeffding_tree.py
+++ b/src/skmultiflow/trees/hoeffding_tree.py
@@ -599,7 +599,7 @@ class HoeffdingTreeClassifier(BaseSKMObject, ClassifierMixin):
                     poor_atts = set()
                     # Add any poor attribute to set
                     for i in range(len(best_split_suggestions)):
-                        if best_split_suggestions[i] is not None:
+                        if best_split_suggestions[i].split_test is not None:
                             split_atts = best_split_suggestions[i].split_test.\
                                 get_atts_test_depends_on()
                             if len(split_atts) == 1:
-- 
2.43.0


From 9bafb5f91da03d2dd0f215f9363fc175694e9c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:02 +0000
Subject: [PATCH 025/109] fix: remove_poor_atts divided by a zero merit in the
 Hoeffding tree regressor

---
 src/skmultiflow/trees/hoeffding_tree_regressor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/trees/hoeffding_tree_regressor.py b/src/skmultiflow/trees/hoeffding_tree_regressor.py
index fb3a5e1..76c57e4 100644
--- a/src/skmultiflow/trees/hoeffding_tree_regressor.py
+++ b/src/skmultiflow/trees/hoeffding_tree_regressor.py
@@ -470,7 +470,7 @@ class HoeffdingTreeRegressor(RegressorMixin, HoeffdingTreeClassifier):
                     (second_best_suggestion.merit / best_suggestion.merit < 1 - hoeffding_bound
                         or hoeffding_bound < self.tie_threshold):
                 should_split = True
-            if self.remove_poor_atts:
+            if self.remove_poor_atts and best_suggestion.merit > 0.0:
                 poor_atts = set()
                 best_ratio = second_best_suggestion.merit / best_suggestion.merit
 
-- 
2.43.0


From 8292001173884f4a059bb13a6794c8b30a7b0954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:03 +0000
Subject: [PATCH 026/109] fix: Hoeffding tree regressor failed on streams with
 a single feature

---
 src/skmultiflow/trees/hoeffding_tree_regressor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/trees/hoeffding_tree_regressor.py b/src/skmultiflow/trees/hoeffding_tree_regressor.py
index 76c57e4..3cef87c 100644
--- a/src/skmultiflow/trees/hoeffding_tree_regressor.py
+++ b/src/skmultiflow/trees/hoeffding_tree_regressor.py
@@ -186,8 +186,8 @@ class HoeffdingTreeRegressor(RegressorMixin, HoeffdingTreeClassifier):
         self.samples_seen = 0
         self.sum_of_values = 0.0
         self.sum_of_squares = 0.0
-        self.sum_of_attribute_values = []
-        self.sum_of_attribute_squares = []
+        self.sum_of_attribute_values = 0.0
+        self.sum_of_attribute_squares = 0.0
         self.random_state = random_state
 
     @property
-- 
2.43.0


From d6f979615f6317505dbc86bb5812118fe895b03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:21 +0000
Subject: [PATCH 027/109] fix: reset of the Hoeffding trees kept classes,
 counters and normalization statistics

---
 src/skmultiflow/trees/hoeffding_adaptive_tree.py |  4 +++-
 src/skmultiflow/trees/hoeffding_tree.py          |  1 +
 src/skmultiflow/trees/isoup_tree.py              | 12 ++++++++++++
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/skmultiflow/trees/hoeffding_adaptive_tree.py b/src/skmultiflow/trees/hoeffding_adaptive_tree.py
index bd39fe0..e3c5525 100644
--- a/src/skmultiflow/trees/hoeffding_adaptive_tree.py
+++ b/src/skmultiflow/trees/hoeffding_adaptive_tree.py
@@ -172,10 +172,12 @@ class HoeffdingAdaptiveTreeClassifier(HoeffdingTreeClassifier):
         self._tree_root = None
 
     def reset(self):
+        super().reset()
         self.alternate_trees_cnt = 0
         self.pruned_alternate_trees_cnt = 0
         self.switch_alternate_trees_cnt = 0
-        self._tree_root = None
+
+        return self
 
     # Override HoeffdingTreeClassifier
     def _partial_fit(self, X, y, sample_weight):
diff --git a/src/skmultiflow/trees/hoeffding_tree.py b/src/skmultiflow/trees/hoeffding_tree.py
index d7aa38f..a9bdc94 100755
--- a/src/skmultiflow/trees/hoeffding_tree.py
+++ b/src/skmultiflow/trees/hoeffding_tree.py
@@ -243,6 +243,7 @@ class HoeffdingTreeClassifier(BaseSKMObject, ClassifierMixin):
         self._byte_size_estimate_overhead_fraction = 1.0
         self._growth_allowed = True
         self._train_weight_seen_by_model = 0.0
+        self.classes = None
 
         return self
 
diff --git a/src/skmultiflow/trees/isoup_tree.py b/src/skmultiflow/trees/isoup_tree.py
index 89e442f..ff7a9fa 100644
--- a/src/skmultiflow/trees/isoup_tree.py
+++ b/src/skmultiflow/trees/isoup_tree.py
@@ -226,6 +226,18 @@ class iSOUPTreeRegressor(HoeffdingTreeRegressor, MultiOutputMixin):
         else:
             self._split_criterion = split_criterion
 
+    def reset(self):
+        """ Reset the tree, including the statistics used for normalization."""
+        super().reset()
+        self.examples_seen = 0
+        self.sum_of_values = 0.0
+        self.sum_of_squares = 0.0
+        self.sum_of_attribute_values = 0.0
+        self.sum_of_attribute_squares = 0.0
+        self._n_targets_set = False
+
+        return self
+
     def normalize_sample(self, X):
         """Normalize the features in order to have the same influence during the
         process of training.
-- 
2.43.0


From 38437d4aba5bd1719b297f9fa0f2696e61bacb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:17 +0000
Subject: [PATCH 028/109] fix: an untrained Hoeffding tree regressor predicted
 a single value for any number of rows

---
 src/skmultiflow/trees/hoeffding_tree_regressor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/trees/hoeffding_tree_regressor.py b/src/skmultiflow/trees/hoeffding_tree_regressor.py
index 3cef87c..ca409e5 100644
--- a/src/skmultiflow/trees/hoeffding_tree_regressor.py
+++ b/src/skmultiflow/trees/hoeffding_tree_regressor.py
@@ -410,8 +410,8 @@ class HoeffdingTreeRegressor(RegressorMixin, HoeffdingTreeClassifier):
 
         """
         predictions = []
+        r, _ = get_dimensions(X)
         if self.samples_seen > 0 and self._tree_root is not None:
-            r, _ = get_dimensions(X)
             for i in range(r):
                 node = self._tree_root.filter_instance_to_leaf(X[i], None, -1).node
                 if node.is_leaf():
@@ -422,7 +422,7 @@ class HoeffdingTreeRegressor(RegressorMixin, HoeffdingTreeClassifier):
                     predictions.append(node.stats[1] / node.stats[0])
         else:
             # Model is empty
-            predictions.append(0.0)
+            predictions = [0.0] * r
         return np.asarray(predictions)
 
     def predict_proba(self, X):
-- 
2.43.0


From b16fff9dcd7bf840bf54cc31df5b1db3401841bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:17 +0000
Subject: [PATCH 029/109] fix: HoeffdingTreeRegressor.partial_fit did not
 return self

---
 src/skmultiflow/trees/hoeffding_tree_regressor.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/skmultiflow/trees/hoeffding_tree_regressor.py b/src/skmultiflow/trees/hoeffding_tree_regressor.py
index ca409e5..1075b02 100644
--- a/src/skmultiflow/trees/hoeffding_tree_regressor.py
+++ b/src/skmultiflow/trees/hoeffding_tree_regressor.py
@@ -319,6 +319,10 @@ class HoeffdingTreeRegressor(RegressorMixin, HoeffdingTreeClassifier):
         sample_weight: float or array-like
             Samples weight. If not provided, uniform weights are assumed.
 
+        Returns
+        -------
+        self
+
         """
         if y is not None:
             row_cnt, _ = get_dimensions(X)
@@ -332,6 +336,8 @@ class HoeffdingTreeRegressor(RegressorMixin, HoeffdingTreeClassifier):
                     self._train_weight_seen_by_model += sample_weight[i]
                     self._partial_fit(X[i], y[i], sample_weight[i])
 
+        return self
+
     def _partial_fit(self, X, y, sample_weight):
         """Trains the model on samples X and corresponding targets y.
 
-- 
2.43.0


From fb022bd0d3252acf6587ef8dda12653769c91822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:43 +0000
Subject: [PATCH 030/109] fix: Hoeffding tree leaves without observations broke
 predict_proba, descriptions and rules

---
 src/skmultiflow/trees/_nodes/base.py      |  3 ++-
 src/skmultiflow/trees/_nodes/htr_nodes.py |  2 +-
 src/skmultiflow/trees/hoeffding_tree.py   | 10 +++++++---
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/skmultiflow/trees/_nodes/base.py b/src/skmultiflow/trees/_nodes/base.py
index cda330f..565d66a 100644
--- a/src/skmultiflow/trees/_nodes/base.py
+++ b/src/skmultiflow/trees/_nodes/base.py
@@ -149,7 +149,8 @@ class Node(metaclass=ABCMeta):
         if tree._estimator_type == 'classifier':
             class_val = max(
                 self._stats,
-                key=self._stats.get
+                key=self._stats.get,
+                default=0    # no observations yet
             )
             buffer[0] += 'Class {} | {}\n'.format(
                 class_val, self._stats
diff --git a/src/skmultiflow/trees/_nodes/htr_nodes.py b/src/skmultiflow/trees/_nodes/htr_nodes.py
index a8705a4..b8d2688 100644
--- a/src/skmultiflow/trees/_nodes/htr_nodes.py
+++ b/src/skmultiflow/trees/_nodes/htr_nodes.py
@@ -60,7 +60,7 @@ class LearningNodeMean(LearningNode):
             self._stats[2] = y * y * weight
 
     def predict_one(self, X, *, tree=None):
-        return self._stats[1] / self._stats[0] if len(self._stats) > 0 else 0.0
+        return self._stats[1] / self._stats[0] if self.total_weight > 0 else 0.0
 
     @property
     def total_weight(self):
diff --git a/src/skmultiflow/trees/hoeffding_tree.py b/src/skmultiflow/trees/hoeffding_tree.py
index a9bdc94..ed76dbe 100755
--- a/src/skmultiflow/trees/hoeffding_tree.py
+++ b/src/skmultiflow/trees/hoeffding_tree.py
@@ -416,7 +416,9 @@ class HoeffdingTreeClassifier(BaseSKMObject, ClassifierMixin):
         predictions = []
         for i in range(r):
             votes = copy.deepcopy(self._get_votes_for_instance(X[i]))
-            if votes == {}:
+            if votes == {} and self.classes is not None:
+                predictions.append(np.zeros(int(max(self.classes)) + 1))
+            elif votes == {}:
                 # Tree is empty, all classes equal, default to zero
                 predictions.append([0])
             else:
@@ -809,11 +811,13 @@ class HoeffdingTreeClassifier(BaseSKMObject, ClassifierMixin):
                     recurse(child, r, ht)
             else:
                 cur_rule.observed_class_distribution = node.stats.copy()
-                cur_rule.class_idx = max(node.stats.items(), key=itemgetter(1))[0]
+                cur_rule.class_idx = max(node.stats.items(), key=itemgetter(1),
+                                         default=(0, 0.0))[0]
                 rules.append(cur_rule)
 
         rule = Rule()
-        recurse(root, rule, self)
+        if root is not None:
+            recurse(root, rule, self)
         return rules
 
     def get_rules_description(self):
-- 
2.43.0


From 3913bc38205bf48238d599752bc491a784810315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:53 +0000
Subject: [PATCH 031/109] fix: NaiveBayes.partial_fit raised on classes given
 as an array twice

---
 src/skmultiflow/bayes/naive_bayes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/bayes/naive_bayes.py b/src/skmultiflow/bayes/naive_bayes.py
index 799bf03..9f71111 100644
--- a/src/skmultiflow/bayes/naive_bayes.py
+++ b/src/skmultiflow/bayes/naive_bayes.py
@@ -95,7 +95,7 @@ class NaiveBayes(BaseSKMObject, ClassifierMixin):
             self
 
         """
-        if not self._classes and classes is not None:
+        if self._classes is None and classes is not None:
             self._classes = classes
 
         if y is not None:
-- 
2.43.0


From e0c20267f1d88b07b79945009ae3af8fff1b74e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:18 +0000
Subject: [PATCH 032/109] fix: KNNRegressor.predict used the neighbours of all
 rows for every row

---
 src/skmultiflow/lazy/knn_regressor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/lazy/knn_regressor.py b/src/skmultiflow/lazy/knn_regressor.py
index 0d999d4..5b41b35 100644
--- a/src/skmultiflow/lazy/knn_regressor.py
+++ b/src/skmultiflow/lazy/knn_regressor.py
@@ -151,7 +151,7 @@ class KNNRegressor(BaseNeighbors, RegressorMixin):
         r, c = get_dimensions(X)
         predictions = np.zeros(r)
         for i in range(r):
-            predictions[i] = self._predict(X)
+            predictions[i] = self._predict(X[i:i + 1])
         return predictions
 
     def _predict(self, X):
-- 
2.43.0


From 24806926dccee7b4538fdc3d076f276004b5d16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:55 +0000
Subject: [PATCH 033/109] fix: KNNClassifier.reset kept the classes

---
 src/skmultiflow/lazy/knn_classifier.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/skmultiflow/lazy/knn_classifier.py b/src/skmultiflow/lazy/knn_classifier.py
index bfe8727..a8109df 100644
--- a/src/skmultiflow/lazy/knn_classifier.py
+++ b/src/skmultiflow/lazy/knn_classifier.py
@@ -132,6 +132,18 @@ class KNNClassifier(BaseNeighbors, ClassifierMixin):
             self.data_window.add_sample(X[i], y[i])
         return self
 
+    def reset(self):
+        """ Reset estimator.
+
+        Returns
+        -------
+        KNNClassifier
+            self
+
+        """
+        self.classes = []
+        return super().reset()
+
     def predict(self, X):
         """ Predict the class label for sample X
 
-- 
2.43.0


From ab1ab22b66679f88bc4c9c548eb95a58e40cc9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:55 +0000
Subject: [PATCH 034/109] fix: reset rebuilt the estimator from its printed
 form

---
 src/skmultiflow/core/base.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/skmultiflow/core/base.py b/src/skmultiflow/core/base.py
index b9e1d3a..824eac1 100644
--- a/src/skmultiflow/core/base.py
+++ b/src/skmultiflow/core/base.py
@@ -351,9 +351,8 @@ class BaseSKMObject(BaseEstimator):
         """
         # non-optimized default implementation; override if a better
         # method is possible for a given object
-        command = ''.join([line.strip() for line in self.__repr__().split()])
-        command = command.replace(str(self.__class__.__name__), 'self.__init__')
-        exec(command)
+        self.__init__(**self.get_params(deep=False))
+        return self
 
     def get_info(self):
         """ Collects and returns the information about the configuration of the estimator
-- 
2.43.0


From c954b0d75a4384f4f72c7fffe003ad3d06cfe017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:26 +0000
Subject: [PATCH 035/109] fix: classifier chains with random order returned
 probabilities and PCC predictions in chain order

---
 src/skmultiflow/meta/classifier_chains.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/meta/classifier_chains.py b/src/skmultiflow/meta/classifier_chains.py
index c221c61..c81d796 100644
--- a/src/skmultiflow/meta/classifier_chains.py
+++ b/src/skmultiflow/meta/classifier_chains.py
@@ -234,7 +234,8 @@ class ClassifierChain(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin, MultiO
             if j > 0:
                 X = np.column_stack([X, Y[:, j - 1]])
             Y[:, j] = self.ensemble[j].predict_proba(X)[:, 1]
-        return Y
+        # Unset the chain order (back to default)
+        return Y[:, np.argsort(self.chain)]
 
     def reset(self):
         self.__configure()
@@ -358,7 +359,8 @@ class ProbabilisticClassifierChain(ClassifierChain):
                     Yp[n, :] = y_[:].copy()
                     w_max = w_
 
-        return Yp
+        # Unset the chain order (back to default)
+        return Yp[:, np.argsort(self.chain)]
 
 
 class MonteCarloClassifierChain(ProbabilisticClassifierChain):
-- 
2.43.0


From 1ef7e736fc758f3012376105968be8f831a05bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:26 +0000
Subject: [PATCH 036/109] fix: MultiOutputLearner passed sample weights to base
 estimators that take only classes

---
 src/skmultiflow/meta/multi_output_learner.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/skmultiflow/meta/multi_output_learner.py b/src/skmultiflow/meta/multi_output_learner.py
index dc596ff..1ed846f 100644
--- a/src/skmultiflow/meta/multi_output_learner.py
+++ b/src/skmultiflow/meta/multi_output_learner.py
@@ -120,9 +120,12 @@ class MultiOutputLearner(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin, Mul
         self.__configure()
 
         for j in range(self.n_targets):
-            if 'sample_weight' and 'classes' in signature(self.ensemble[j].fit).parameters:
+            parameters = signature(self.ensemble[j].fit).parameters
+            if 'sample_weight' in parameters and 'classes' in parameters:
                 self.ensemble[j].fit(X, y[:, j], classes=classes, sample_weight=sample_weight)
-            elif 'sample_weight' in signature(self.ensemble[j].fit).parameters:
+            elif 'classes' in parameters:
+                self.ensemble[j].fit(X, y[:, j], classes=classes)
+            elif 'sample_weight' in parameters:
                 self.ensemble[j].fit(X, y[:, j], sample_weight=sample_weight)
             else:
                 self.ensemble[j].fit(X, y[:, j])
@@ -168,10 +171,13 @@ class MultiOutputLearner(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin, Mul
             self.__configure()
 
         for j in range(self.n_targets):
-            if 'sample_weight' and 'classes' in signature(self.ensemble[j].partial_fit).parameters:
+            parameters = signature(self.ensemble[j].partial_fit).parameters
+            if 'sample_weight' in parameters and 'classes' in parameters:
                 self.ensemble[j].partial_fit(
                     X, y[:, j], classes=classes, sample_weight=sample_weight)
-            elif 'sample_weight' in signature(self.ensemble[j].partial_fit).parameters:
+            elif 'classes' in parameters:
+                self.ensemble[j].partial_fit(X, y[:, j], classes=classes)
+            elif 'sample_weight' in parameters:
                 self.ensemble[j].partial_fit(X, y[:, j], sample_weight=sample_weight)
             else:
                 self.ensemble[j].partial_fit(X, y[:, j])
-- 
2.43.0


From 22be2951a8e02ea6150369693dcbba6b3dc45923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:12 +0000
Subject: [PATCH 037/109] fix: undo 858b0f7 (files named *_test.py have to stay
 as they are)

---
 .../trees/_attribute_test/nominal_attribute_binary_test.py      | 2 +-
 .../trees/_attribute_test/nominal_attribute_multiway_test.py    | 2 +-
 .../trees/_attribute_test/numeric_attribute_binary_test.py      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/skmultiflow/trees/_attribute_test/nominal_attribute_binary_test.py b/src/skmultiflow/trees/_attribute_test/nominal_attribute_binary_test.py
index 3774a51..fdac6c7 100644
--- a/src/skmultiflow/trees/_attribute_test/nominal_attribute_binary_test.py
+++ b/src/skmultiflow/trees/_attribute_test/nominal_attribute_binary_test.py
@@ -21,7 +21,7 @@ class NominalAttributeBinaryTest(InstanceConditionalTest):
         self._att_value = att_value
 
     def branch_for_instance(self, X):
-        if self._att_idx >= len(X) or self._att_idx < 0:
+        if self._att_idx > len(X) or self._att_idx < 0:
             return -1
         else:
             return 0 if X[self._att_idx] == self._att_value else 1
diff --git a/src/skmultiflow/trees/_attribute_test/nominal_attribute_multiway_test.py b/src/skmultiflow/trees/_attribute_test/nominal_attribute_multiway_test.py
index c57fc1d..a5d89ee 100644
--- a/src/skmultiflow/trees/_attribute_test/nominal_attribute_multiway_test.py
+++ b/src/skmultiflow/trees/_attribute_test/nominal_attribute_multiway_test.py
@@ -25,7 +25,7 @@ class NominalAttributeMultiwayTest(InstanceConditionalTest):
         }
 
     def branch_for_instance(self, X):
-        if self._att_idx >= len(X) or self._att_idx < 0:
+        if self._att_idx > len(X) or self._att_idx < 0:
             return -1
         else:
             # Return branch for feature value or -1 in case the element was not
diff --git a/src/skmultiflow/trees/_attribute_test/numeric_attribute_binary_test.py b/src/skmultiflow/trees/_attribute_test/numeric_attribute_binary_test.py
index b3cea82..954c14a 100644
--- a/src/skmultiflow/trees/_attribute_test/numeric_attribute_binary_test.py
+++ b/src/skmultiflow/trees/_attribute_test/numeric_attribute_binary_test.py
@@ -10,7 +10,7 @@ class NumericAttributeBinaryTest(InstanceConditionalTest):
         self._equals_passes_test = equal_passes_test
 
     def branch_for_instance(self, X):
-        if self._att_idx >= len(X) or self._att_idx < 0:
+        if self._att_idx > len(X) or self._att_idx < 0:
             return -1
         v = X[self._att_idx]
         if v == self._att_value:
-- 
2.43.0


From 5733f7fc46a166647a634e621809e515f1028a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:22 +0000
Subject: [PATCH 038/109] fix: ensembles with ADWIN were fed hits as errors and
 replaced their best member

---
 src/skmultiflow/meta/online_adac2.py              | 2 +-
 src/skmultiflow/meta/online_boosting.py           | 2 +-
 src/skmultiflow/meta/online_smote_bagging.py      | 2 +-
 src/skmultiflow/meta/online_under_over_bagging.py | 2 +-
 src/skmultiflow/meta/oza_bagging_adwin.py         | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/skmultiflow/meta/online_adac2.py b/src/skmultiflow/meta/online_adac2.py
index a75a0c2..7c1a847 100644
--- a/src/skmultiflow/meta/online_adac2.py
+++ b/src/skmultiflow/meta/online_adac2.py
@@ -254,7 +254,7 @@ class OnlineAdaC2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
                         error_estimation = self.adwin_ensemble[i].estimation
                         for k in range(r):
                             if pred[k] is not None:
-                                self.adwin_ensemble[i].add_element(int(pred[k] == y[k]))
+                                self.adwin_ensemble[i].add_element(int(pred[k] != y[k]))
                         if self.adwin_ensemble[i].detected_change():
                             if self.adwin_ensemble[i].estimation > error_estimation:
                                 change_detected = True
diff --git a/src/skmultiflow/meta/online_boosting.py b/src/skmultiflow/meta/online_boosting.py
index bb7fa18..5df4f7f 100644
--- a/src/skmultiflow/meta/online_boosting.py
+++ b/src/skmultiflow/meta/online_boosting.py
@@ -230,7 +230,7 @@ class OnlineBoostingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
                         error_estimation = self.adwin_ensemble[i].estimation
                         for k in range(r):
                             if pred[k] is not None:
-                                self.adwin_ensemble[i].add_element(int(pred[k] == y[k]))
+                                self.adwin_ensemble[i].add_element(int(pred[k] != y[k]))
                         if self.adwin_ensemble[i].detected_change():
                             if self.adwin_ensemble[i].estimation > error_estimation:
                                 change_detected = True
diff --git a/src/skmultiflow/meta/online_smote_bagging.py b/src/skmultiflow/meta/online_smote_bagging.py
index 3c0fae5..c8756cb 100644
--- a/src/skmultiflow/meta/online_smote_bagging.py
+++ b/src/skmultiflow/meta/online_smote_bagging.py
@@ -229,7 +229,7 @@ class OnlineSMOTEBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimator
                         error_estimation = self.adwin_ensemble[i].estimation
                         for k in range(r):
                             if pred[k] is not None:
-                                self.adwin_ensemble[i].add_element(int(pred[k] == y[k]))
+                                self.adwin_ensemble[i].add_element(int(pred[k] != y[k]))
                         if self.adwin_ensemble[i].detected_change():
                             if self.adwin_ensemble[i].estimation > error_estimation:
                                 change_detected = True
diff --git a/src/skmultiflow/meta/online_under_over_bagging.py b/src/skmultiflow/meta/online_under_over_bagging.py
index 7952955..498e5fc 100644
--- a/src/skmultiflow/meta/online_under_over_bagging.py
+++ b/src/skmultiflow/meta/online_under_over_bagging.py
@@ -216,7 +216,7 @@ class OnlineUnderOverBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
                         error_estimation = self.adwin_ensemble[i].estimation
                         for k in range(r):
                             if pred[k] is not None:
-                                self.adwin_ensemble[i].add_element(int(pred[k] == y[k]))
+                                self.adwin_ensemble[i].add_element(int(pred[k] != y[k]))
                         if self.adwin_ensemble[i].detected_change():
                             if self.adwin_ensemble[i].estimation > error_estimation:
                                 change_detected = True
diff --git a/src/skmultiflow/meta/oza_bagging_adwin.py b/src/skmultiflow/meta/oza_bagging_adwin.py
index 7bc0bde..2e2695a 100644
--- a/src/skmultiflow/meta/oza_bagging_adwin.py
+++ b/src/skmultiflow/meta/oza_bagging_adwin.py
@@ -177,7 +177,7 @@ class OzaBaggingADWINClassifier(OzaBaggingClassifier):
                 error_estimation = self.adwin_ensemble[i].estimation
                 for j in range(r):
                     if pred[j] is not None:
-                        if pred[j] == y[j]:
+                        if pred[j] != y[j]:
                             self.adwin_ensemble[i].add_element(1)
                         else:
                             self.adwin_ensemble[i].add_element(0)
-- 
2.43.0


From 3c4301384c23c1fd9ef2bff5e2fb1ccb1fc6dae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:22 +0000
Subject: [PATCH 039/109] fix: the drift detectors of the online ensembles saw
 the whole batch once per row

---
 src/skmultiflow/meta/online_adac2.py              | 7 +++----
 src/skmultiflow/meta/online_boosting.py           | 7 +++----
 src/skmultiflow/meta/online_csb2.py               | 7 +++----
 src/skmultiflow/meta/online_rus_boost.py          | 7 +++----
 src/skmultiflow/meta/online_smote_bagging.py      | 7 +++----
 src/skmultiflow/meta/online_under_over_bagging.py | 7 +++----
 6 files changed, 18 insertions(+), 24 deletions(-)

diff --git a/src/skmultiflow/meta/online_adac2.py b/src/skmultiflow/meta/online_adac2.py
index 7c1a847..1d58bcf 100644
--- a/src/skmultiflow/meta/online_adac2.py
+++ b/src/skmultiflow/meta/online_adac2.py
@@ -250,11 +250,10 @@ class OnlineAdaC2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
 
                 if self.drift_detection:
                     try:
-                        pred = self.ensemble[i].predict(X)
+                        pred = self.ensemble[i].predict([X[j]])
                         error_estimation = self.adwin_ensemble[i].estimation
-                        for k in range(r):
-                            if pred[k] is not None:
-                                self.adwin_ensemble[i].add_element(int(pred[k] != y[k]))
+                        if pred[0] is not None:
+                            self.adwin_ensemble[i].add_element(int(pred[0] != y[j]))
                         if self.adwin_ensemble[i].detected_change():
                             if self.adwin_ensemble[i].estimation > error_estimation:
                                 change_detected = True
diff --git a/src/skmultiflow/meta/online_boosting.py b/src/skmultiflow/meta/online_boosting.py
index 5df4f7f..ed53690 100644
--- a/src/skmultiflow/meta/online_boosting.py
+++ b/src/skmultiflow/meta/online_boosting.py
@@ -226,11 +226,10 @@ class OnlineBoostingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
 
                 if self.drift_detection:
                     try:
-                        pred = self.ensemble[i].predict(X)
+                        pred = self.ensemble[i].predict([X[j]])
                         error_estimation = self.adwin_ensemble[i].estimation
-                        for k in range(r):
-                            if pred[k] is not None:
-                                self.adwin_ensemble[i].add_element(int(pred[k] != y[k]))
+                        if pred[0] is not None:
+                            self.adwin_ensemble[i].add_element(int(pred[0] != y[j]))
                         if self.adwin_ensemble[i].detected_change():
                             if self.adwin_ensemble[i].estimation > error_estimation:
                                 change_detected = True
diff --git a/src/skmultiflow/meta/online_csb2.py b/src/skmultiflow/meta/online_csb2.py
index ea59584..3c4bab2 100644
--- a/src/skmultiflow/meta/online_csb2.py
+++ b/src/skmultiflow/meta/online_csb2.py
@@ -242,11 +242,10 @@ class OnlineCSB2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
 
                 if self.drift_detection:
                     try:
-                        pred = self.ensemble[i].predict(X)
+                        pred = self.ensemble[i].predict([X[j]])
                         error_estimation = self.adwin_ensemble[i].estimation
-                        for k in range(r):
-                            if pred[k] is not None:
-                                self.adwin_ensemble[i].add_element(int(pred[k] == y[k]))
+                        if pred[0] is not None:
+                            self.adwin_ensemble[i].add_element(int(pred[0] == y[j]))
                         if self.adwin_ensemble[i].detected_change():
                             if self.adwin_ensemble[i].estimation > error_estimation:
                                 change_detected = True
diff --git a/src/skmultiflow/meta/online_rus_boost.py b/src/skmultiflow/meta/online_rus_boost.py
index 5ebbf73..b3496b5 100644
--- a/src/skmultiflow/meta/online_rus_boost.py
+++ b/src/skmultiflow/meta/online_rus_boost.py
@@ -271,11 +271,10 @@ class OnlineRUSBoostClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
 
                 if self.drift_detection:
                     try:
-                        pred = self.ensemble[i].predict(X)
+                        pred = self.ensemble[i].predict([X[j]])
                         error_estimation = self.adwin_ensemble[i].estimation
-                        for k in range(r):
-                            if pred[k] is not None:
-                                self.adwin_ensemble[i].add_element(int(pred[k] == y[k]))
+                        if pred[0] is not None:
+                            self.adwin_ensemble[i].add_element(int(pred[0] == y[j]))
                         if self.adwin_ensemble[i].detected_change():
                             if self.adwin_ensemble[i].estimation > error_estimation:
                                 change_detected = True
diff --git a/src/skmultiflow/meta/online_smote_bagging.py b/src/skmultiflow/meta/online_smote_bagging.py
index c8756cb..c88473f 100644
--- a/src/skmultiflow/meta/online_smote_bagging.py
+++ b/src/skmultiflow/meta/online_smote_bagging.py
@@ -225,11 +225,10 @@ class OnlineSMOTEBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimator
 
                 if self.drift_detection:
                     try:
-                        pred = self.ensemble[i].predict(X)
+                        pred = self.ensemble[i].predict([X[j]])
                         error_estimation = self.adwin_ensemble[i].estimation
-                        for k in range(r):
-                            if pred[k] is not None:
-                                self.adwin_ensemble[i].add_element(int(pred[k] != y[k]))
+                        if pred[0] is not None:
+                            self.adwin_ensemble[i].add_element(int(pred[0] != y[j]))
                         if self.adwin_ensemble[i].detected_change():
                             if self.adwin_ensemble[i].estimation > error_estimation:
                                 change_detected = True
diff --git a/src/skmultiflow/meta/online_under_over_bagging.py b/src/skmultiflow/meta/online_under_over_bagging.py
index 498e5fc..e7515c9 100644
--- a/src/skmultiflow/meta/online_under_over_bagging.py
+++ b/src/skmultiflow/meta/online_under_over_bagging.py
@@ -212,11 +212,10 @@ class OnlineUnderOverBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
 
                 if self.drift_detection:
                     try:
-                        pred = self.ensemble[i].predict(X)
+                        pred = self.ensemble[i].predict([X[j]])
                         error_estimation = self.adwin_ensemble[i].estimation
-                        for k in range(r):
-                            if pred[k] is not None:
-                                self.adwin_ensemble[i].add_element(int(pred[k] != y[k]))
+                        if pred[0] is not None:
+                            self.adwin_ensemble[i].add_element(int(pred[0] != y[j]))
                         if self.adwin_ensemble[i].detected_change():
                             if self.adwin_ensemble[i].estimation > error_estimation:
                                 change_detected = True
-- 
2.43.0


From 4b3bb8904d1724f121d230f6a8d1d96388653a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:22 +0000
Subject: [PATCH 040/109] fix: ensembles did not tell late members the classes
 and gave all weights of a batch to each row

---
 src/skmultiflow/meta/online_adac2.py              | 3 ++-
 src/skmultiflow/meta/online_boosting.py           | 3 ++-
 src/skmultiflow/meta/online_csb2.py               | 3 ++-
 src/skmultiflow/meta/online_rus_boost.py          | 3 ++-
 src/skmultiflow/meta/online_smote_bagging.py      | 7 ++++---
 src/skmultiflow/meta/online_under_over_bagging.py | 3 ++-
 src/skmultiflow/meta/oza_bagging.py               | 3 ++-
 src/skmultiflow/meta/oza_bagging_adwin.py         | 2 +-
 8 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/skmultiflow/meta/online_adac2.py b/src/skmultiflow/meta/online_adac2.py
index 1d58bcf..87928c4 100644
--- a/src/skmultiflow/meta/online_adac2.py
+++ b/src/skmultiflow/meta/online_adac2.py
@@ -220,13 +220,14 @@ class OnlineAdaC2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
         r, _ = get_dimensions(X)
         for j in range(r):
             change_detected = False
+            weight = None if sample_weight is None else sample_weight[j:j + 1]
             lam = 1
             for i in range(self.actual_n_estimators):
                 self.lam_sum[i] += lam
                 k = self._random_state.poisson(lam)
                 if k > 0:
                     for b in range(k):
-                        self.ensemble[i].partial_fit([X[j]], [y[j]], classes, sample_weight)
+                        self.ensemble[i].partial_fit([X[j]], [y[j]], self.classes, weight)
                     if self.ensemble[i].predict([X[j]])[0] == 1 and y[j] == 1:
                         self.lam_tp[i] += self.cost_positive * lam
                         self.wacc[i] = (self.lam_tp[i] + self.lam_tn[i]) / self.lam_sum[i]
diff --git a/src/skmultiflow/meta/online_boosting.py b/src/skmultiflow/meta/online_boosting.py
index ed53690..b1cd4a0 100644
--- a/src/skmultiflow/meta/online_boosting.py
+++ b/src/skmultiflow/meta/online_boosting.py
@@ -207,12 +207,13 @@ class OnlineBoostingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
         r, _ = get_dimensions(X)
         for j in range(r):
             change_detected = False
+            weight = None if sample_weight is None else sample_weight[j:j + 1]
             lam = 1
             for i in range(self.actual_n_estimators):
                 k = self._random_state.poisson(lam)
                 if k > 0:
                     for b in range(k):
-                        self.ensemble[i].partial_fit([X[j]], [y[j]], classes, sample_weight)
+                        self.ensemble[i].partial_fit([X[j]], [y[j]], self.classes, weight)
                     if self.ensemble[i].predict([X[j]])[0] == y[j]:
                         self.lam_sc[i] += lam
                         self.epsilon[i] = self.lam_sw[i] / (self.lam_sw[i] + self.lam_sc[i])
diff --git a/src/skmultiflow/meta/online_csb2.py b/src/skmultiflow/meta/online_csb2.py
index 3c4bab2..ce5c165 100644
--- a/src/skmultiflow/meta/online_csb2.py
+++ b/src/skmultiflow/meta/online_csb2.py
@@ -213,13 +213,14 @@ class OnlineCSB2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
         r, _ = get_dimensions(X)
         for j in range(r):
             change_detected = False
+            weight = None if sample_weight is None else sample_weight[j:j + 1]
             lam = 1
             for i in range(self.actual_n_estimators):
                 self.lam_sum[i] += lam
                 k = self._random_state.poisson(lam)
                 if k > 0:
                     for b in range(k):
-                        self.ensemble[i].partial_fit([X[j]], [y[j]], classes, sample_weight)
+                        self.ensemble[i].partial_fit([X[j]], [y[j]], self.classes, weight)
                     if self.ensemble[i].predict([X[j]])[0] == y[j]:
                         self.epsilon[i] = self.lam_sw[i] / self.lam_sum[i]
                         self.werr[i] = (self.lam_fp[i] + self.lam_fn[i]) / self.lam_sum[i]
diff --git a/src/skmultiflow/meta/online_rus_boost.py b/src/skmultiflow/meta/online_rus_boost.py
index b3496b5..a134056 100644
--- a/src/skmultiflow/meta/online_rus_boost.py
+++ b/src/skmultiflow/meta/online_rus_boost.py
@@ -217,6 +217,7 @@ class OnlineRUSBoostClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
         r, _ = get_dimensions(X)
         for j in range(r):
             change_detected = False
+            weight = None if sample_weight is None else sample_weight[j:j + 1]
             lam = 1
             for i in range(self.actual_n_estimators):
                 if y[j] == 1:
@@ -257,7 +258,7 @@ class OnlineRUSBoostClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
                 k = self._random_state.poisson(lam_rus)
                 if k > 0:
                     for b in range(k):
-                        self.ensemble[i].partial_fit([X[j]], [y[j]], classes, sample_weight)
+                        self.ensemble[i].partial_fit([X[j]], [y[j]], self.classes, weight)
                 if self.ensemble[i].predict([X[j]])[0] == y[j]:
                     self.lam_sc[i] += lam
                     self.epsilon[i] = (self.lam_sw[i]) / (self.lam_sc[i] + self.lam_sw[i])
diff --git a/src/skmultiflow/meta/online_smote_bagging.py b/src/skmultiflow/meta/online_smote_bagging.py
index c88473f..3867413 100644
--- a/src/skmultiflow/meta/online_smote_bagging.py
+++ b/src/skmultiflow/meta/online_smote_bagging.py
@@ -200,6 +200,7 @@ class OnlineSMOTEBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimator
         r, _ = get_dimensions(X)
         for j in range(r):
             change_detected = False
+            weight = None if sample_weight is None else sample_weight[j:j + 1]
             lam = 1
             for i in range(self.actual_n_estimators):
                 a = (i + 1) / self.actual_n_estimators
@@ -210,18 +211,18 @@ class OnlineSMOTEBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimator
                     k = self._random_state.poisson(lam)
                     if k > 0:
                         for b in range(k):
-                            self.ensemble[i].partial_fit([X[j]], [y[j]], classes, sample_weight)
+                            self.ensemble[i].partial_fit([X[j]], [y[j]], self.classes, weight)
                     k_smote = self._random_state.poisson(lam_smote)
 
                     if k_smote > 0:
                         for b in range(k_smote):
                             x_smote = self.online_smote()
-                            self.ensemble[i].partial_fit([x_smote], [y[j]], classes, sample_weight)
+                            self.ensemble[i].partial_fit([x_smote], [y[j]], self.classes, weight)
                 else:
                     k = self._random_state.poisson(lam)
                     if k > 0:
                         for b in range(k):
-                            self.ensemble[i].partial_fit([X[j]], [y[j]], classes, sample_weight)
+                            self.ensemble[i].partial_fit([X[j]], [y[j]], self.classes, weight)
 
                 if self.drift_detection:
                     try:
diff --git a/src/skmultiflow/meta/online_under_over_bagging.py b/src/skmultiflow/meta/online_under_over_bagging.py
index e7515c9..2105b5d 100644
--- a/src/skmultiflow/meta/online_under_over_bagging.py
+++ b/src/skmultiflow/meta/online_under_over_bagging.py
@@ -199,6 +199,7 @@ class OnlineUnderOverBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
         r, _ = get_dimensions(X)
         for j in range(r):
             change_detected = False
+            weight = None if sample_weight is None else sample_weight[j:j + 1]
             for i in range(self.actual_n_estimators):
                 a = (i + 1) / self.actual_n_estimators
                 if y[j] == 1:
@@ -208,7 +209,7 @@ class OnlineUnderOverBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
                 k = self._random_state.poisson(lam)
                 if k > 0:
                     for b in range(k):
-                        self.ensemble[i].partial_fit([X[j]], [y[j]], classes, sample_weight)
+                        self.ensemble[i].partial_fit([X[j]], [y[j]], self.classes, weight)
 
                 if self.drift_detection:
                     try:
diff --git a/src/skmultiflow/meta/oza_bagging.py b/src/skmultiflow/meta/oza_bagging.py
index eb634a6..62b7dff 100644
--- a/src/skmultiflow/meta/oza_bagging.py
+++ b/src/skmultiflow/meta/oza_bagging.py
@@ -179,11 +179,12 @@ class OzaBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
         self.__adjust_ensemble_size()
         r, _ = get_dimensions(X)
         for j in range(r):
+            weight = None if sample_weight is None else sample_weight[j:j + 1]
             for i in range(self.actual_n_estimators):
                 k = self._random_state.poisson()
                 if k > 0:
                     for b in range(k):
-                        self.ensemble[i].partial_fit([X[j]], [y[j]], classes, sample_weight)
+                        self.ensemble[i].partial_fit([X[j]], [y[j]], self.classes, weight)
         return self
 
     def __adjust_ensemble_size(self):
diff --git a/src/skmultiflow/meta/oza_bagging_adwin.py b/src/skmultiflow/meta/oza_bagging_adwin.py
index 2e2695a..a051e5a 100644
--- a/src/skmultiflow/meta/oza_bagging_adwin.py
+++ b/src/skmultiflow/meta/oza_bagging_adwin.py
@@ -170,7 +170,7 @@ class OzaBaggingADWINClassifier(OzaBaggingClassifier):
             k = self._random_state.poisson()
             if k > 0:
                 for b in range(k):
-                    self.ensemble[i].partial_fit(X, y, classes, sample_weight)
+                    self.ensemble[i].partial_fit(X, y, self.classes, sample_weight)
 
             try:
                 pred = self.ensemble[i].predict(X)
-- 
2.43.0


From ae2e423690f664b3cc75184d759c13eb38fdbe36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:22 +0000
Subject: [PATCH 041/109] fix: reset of the bagging and boosting ensembles kept
 the classes, OzaBaggingADWINClassifier also the ensemble

---
 src/skmultiflow/meta/online_adac2.py              | 2 ++
 src/skmultiflow/meta/online_boosting.py           | 2 ++
 src/skmultiflow/meta/online_csb2.py               | 2 ++
 src/skmultiflow/meta/online_rus_boost.py          | 2 ++
 src/skmultiflow/meta/online_smote_bagging.py      | 2 ++
 src/skmultiflow/meta/online_under_over_bagging.py | 2 ++
 src/skmultiflow/meta/oza_bagging.py               | 1 +
 src/skmultiflow/meta/oza_bagging_adwin.py         | 1 +
 8 files changed, 14 insertions(+)

diff --git a/src/skmultiflow/meta/online_adac2.py b/src/skmultiflow/meta/online_adac2.py
index 87928c4..c1b9c4d 100644
--- a/src/skmultiflow/meta/online_adac2.py
+++ b/src/skmultiflow/meta/online_adac2.py
@@ -159,6 +159,8 @@ class OnlineAdaC2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
 
     def reset(self):
         self.__configure()
+        self.classes = None
+        return self
 
     def partial_fit(self, X, y, classes=None, sample_weight=None):
         """ Partially fits the model, based on the X and y matrix.
diff --git a/src/skmultiflow/meta/online_boosting.py b/src/skmultiflow/meta/online_boosting.py
index b1cd4a0..89cb2d9 100644
--- a/src/skmultiflow/meta/online_boosting.py
+++ b/src/skmultiflow/meta/online_boosting.py
@@ -148,6 +148,8 @@ class OnlineBoostingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
 
     def reset(self):
         self.__configure()
+        self.classes = None
+        return self
 
     def partial_fit(self, X, y, classes=None, sample_weight=None):
         """ Partially fits the model, based on the X and y matrix.
diff --git a/src/skmultiflow/meta/online_csb2.py b/src/skmultiflow/meta/online_csb2.py
index ce5c165..fe9c5d7 100644
--- a/src/skmultiflow/meta/online_csb2.py
+++ b/src/skmultiflow/meta/online_csb2.py
@@ -153,6 +153,8 @@ class OnlineCSB2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
 
     def reset(self):
         self.__configure()
+        self.classes = None
+        return self
 
     def partial_fit(self, X, y, classes=None, sample_weight=None):
         """ Partially fits the model, based on the X and y matrix.
diff --git a/src/skmultiflow/meta/online_rus_boost.py b/src/skmultiflow/meta/online_rus_boost.py
index a134056..c75de1f 100644
--- a/src/skmultiflow/meta/online_rus_boost.py
+++ b/src/skmultiflow/meta/online_rus_boost.py
@@ -157,6 +157,8 @@ class OnlineRUSBoostClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
 
     def reset(self):
         self.__configure()
+        self.classes = None
+        return self
 
     def partial_fit(self, X, y, classes=None, sample_weight=None):
         """ Partially fits the model, based on the X and y matrix.
diff --git a/src/skmultiflow/meta/online_smote_bagging.py b/src/skmultiflow/meta/online_smote_bagging.py
index 3867413..a3f83ab 100644
--- a/src/skmultiflow/meta/online_smote_bagging.py
+++ b/src/skmultiflow/meta/online_smote_bagging.py
@@ -139,6 +139,8 @@ class OnlineSMOTEBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimator
 
     def reset(self):
         self.__configure()
+        self.classes = None
+        return self
 
     def partial_fit(self, X, y, classes=None, sample_weight=None):
         """ Partially fits the model, based on the X and y matrix.
diff --git a/src/skmultiflow/meta/online_under_over_bagging.py b/src/skmultiflow/meta/online_under_over_bagging.py
index 2105b5d..affccba 100644
--- a/src/skmultiflow/meta/online_under_over_bagging.py
+++ b/src/skmultiflow/meta/online_under_over_bagging.py
@@ -143,6 +143,8 @@ class OnlineUnderOverBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
 
     def reset(self):
         self.__configure()
+        self.classes = None
+        return self
 
     def partial_fit(self, X, y, classes=None, sample_weight=None):
         """ Partially fits the model, based on the X and y matrix.
diff --git a/src/skmultiflow/meta/oza_bagging.py b/src/skmultiflow/meta/oza_bagging.py
index 62b7dff..396cbac 100644
--- a/src/skmultiflow/meta/oza_bagging.py
+++ b/src/skmultiflow/meta/oza_bagging.py
@@ -119,6 +119,7 @@ class OzaBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
 
     def reset(self):
         self.__configure()
+        self.classes = None
         return self
 
     def partial_fit(self, X, y, classes=None, sample_weight=None):
diff --git a/src/skmultiflow/meta/oza_bagging_adwin.py b/src/skmultiflow/meta/oza_bagging_adwin.py
index a051e5a..f046db7 100644
--- a/src/skmultiflow/meta/oza_bagging_adwin.py
+++ b/src/skmultiflow/meta/oza_bagging_adwin.py
@@ -100,6 +100,7 @@ class OzaBaggingADWINClassifier(OzaBaggingClassifier):
         self.adwin_ensemble = [cp.deepcopy(ADWIN()) for _ in range(self.actual_n_estimators)]
 
     def reset(self):
+        super().reset()
         self.__configure()
         return self
 
-- 
2.43.0


From fdb8c8bb1cca7e05771787c8dff0527686534a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:26 +0000
Subject: [PATCH 042/109] fix: LeveragingBaggingClassifier never found output
 codes for an odd number of classes and an even ensemble

---
 src/skmultiflow/meta/leverage_bagging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/leverage_bagging.py b/src/skmultiflow/meta/leverage_bagging.py
index 9d019e1..5acdc53 100644
--- a/src/skmultiflow/meta/leverage_bagging.py
+++ b/src/skmultiflow/meta/leverage_bagging.py
@@ -322,7 +322,7 @@ class LeveragingBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorM
                     else:
                         n_zeros += 1
                 condition = ((n_ones - n_zeros) * (n_ones - n_zeros) >
-                             (self.actual_n_estimators % 2))
+                             (len(self.classes) % 2))
         self.init_matrix_codes = False
 
     def predict(self, X):
-- 
2.43.0


From f6755fac47461e54186605cc23af478c71186ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:26 +0000
Subject: [PATCH 043/109] fix: LeveragingBaggingClassifier.predict_binary_proba
 gave a flat array before the first partial_fit

---
 src/skmultiflow/meta/leverage_bagging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/leverage_bagging.py b/src/skmultiflow/meta/leverage_bagging.py
index 5acdc53..e074b48 100644
--- a/src/skmultiflow/meta/leverage_bagging.py
+++ b/src/skmultiflow/meta/leverage_bagging.py
@@ -428,7 +428,7 @@ class LeveragingBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorM
         """
         r, c = get_dimensions(X)
         if self.classes is None:
-            return np.zeros(r)
+            return np.zeros((r, 1))
         proba = np.zeros((r, len(self.classes)))
         if not self.init_matrix_codes:
             for row_idx in range(r):
-- 
2.43.0


From 1b35ca774554bb95c95e78f873f7fa1ff46174c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:26 +0000
Subject: [PATCH 044/109] fix: OnlineAdaC2Classifier raised IndexError with
 fewer estimators than classes

---
 src/skmultiflow/meta/online_adac2.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/skmultiflow/meta/online_adac2.py b/src/skmultiflow/meta/online_adac2.py
index c1b9c4d..e300ec4 100644
--- a/src/skmultiflow/meta/online_adac2.py
+++ b/src/skmultiflow/meta/online_adac2.py
@@ -289,6 +289,8 @@ class OnlineAdaC2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
                 self.lam_tn = np.zeros(self.actual_n_estimators)
                 self.lam_fp = np.zeros(self.actual_n_estimators)
                 self.lam_sum = np.zeros(self.actual_n_estimators)
+                self.wacc = np.zeros(self.actual_n_estimators)
+                self.werr = np.zeros(self.actual_n_estimators)
 
     def predict(self, X):
         """ predict
-- 
2.43.0


From 60da352aa96f5d78a9aa03163fee38be289e3007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:47 +0000
Subject: [PATCH 045/109] fix: boosting ensembles did not weigh the votes of a
 member for classes unknown to the members before it

---
 src/skmultiflow/meta/online_adac2.py     | 4 ++--
 src/skmultiflow/meta/online_boosting.py  | 4 ++--
 src/skmultiflow/meta/online_csb2.py      | 4 ++--
 src/skmultiflow/meta/online_rus_boost.py | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/skmultiflow/meta/online_adac2.py b/src/skmultiflow/meta/online_adac2.py
index e300ec4..1dfa43f 100644
--- a/src/skmultiflow/meta/online_adac2.py
+++ b/src/skmultiflow/meta/online_adac2.py
@@ -364,12 +364,12 @@ class OnlineAdaC2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
                             proba.append([0.0 for _ in partial_proba[n]])
 
                     for n in range(r):
+                        while len(proba[n]) < len(partial_proba[n]):
+                            proba[n].append(0.0)
                         for k in range(len(partial_proba[n])):
                             try:
                                 proba[n][k] += np.log(self.wacc[i] /
                                                       self.werr[i]) * partial_proba[n][k]
-                            except IndexError:
-                                proba[n].append(partial_proba[n][k])
                             except RuntimeWarning:
                                 # Catch division by zero errors raised by numpy as RuntimeWarning
                                 continue
diff --git a/src/skmultiflow/meta/online_boosting.py b/src/skmultiflow/meta/online_boosting.py
index 89cb2d9..edd5acb 100644
--- a/src/skmultiflow/meta/online_boosting.py
+++ b/src/skmultiflow/meta/online_boosting.py
@@ -336,12 +336,12 @@ class OnlineBoostingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
                             proba.append([0.0 for _ in partial_proba[n]])
 
                     for n in range(r):
+                        while len(proba[n]) < len(partial_proba[n]):
+                            proba[n].append(0.0)
                         for k in range(len(partial_proba[n])):
                             try:
                                 proba[n][k] += np.log((1 - self.epsilon[i]) /
                                                       self.epsilon[i]) * partial_proba[n][k]
-                            except IndexError:
-                                proba[n].append(partial_proba[n][k])
                             except RuntimeWarning:
                                 # Catch division by zero errors raised by numpy as RuntimeWarning
                                 continue
diff --git a/src/skmultiflow/meta/online_csb2.py b/src/skmultiflow/meta/online_csb2.py
index fe9c5d7..ae91588 100644
--- a/src/skmultiflow/meta/online_csb2.py
+++ b/src/skmultiflow/meta/online_csb2.py
@@ -355,12 +355,12 @@ class OnlineCSB2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
                             proba.append([0.0 for _ in partial_proba[n]])
 
                     for n in range(r):
+                        while len(proba[n]) < len(partial_proba[n]):
+                            proba[n].append(0.0)
                         for k in range(len(partial_proba[n])):
                             try:
                                 proba[n][k] += np.log((1 - self.epsilon[i]) /
                                                       self.epsilon[i]) * partial_proba[n][k]
-                            except IndexError:
-                                proba[n].append(partial_proba[n][k])
                             except RuntimeWarning:
                                 # Catch division by zero errors raised by numpy as RuntimeWarning
                                 continue
diff --git a/src/skmultiflow/meta/online_rus_boost.py b/src/skmultiflow/meta/online_rus_boost.py
index c75de1f..69af5ce 100644
--- a/src/skmultiflow/meta/online_rus_boost.py
+++ b/src/skmultiflow/meta/online_rus_boost.py
@@ -383,12 +383,12 @@ class OnlineRUSBoostClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
                             proba.append([0.0 for _ in partial_proba[n]])
 
                     for n in range(r):
+                        while len(proba[n]) < len(partial_proba[n]):
+                            proba[n].append(0.0)
                         for k in range(len(partial_proba[n])):
                             try:
                                 proba[n][k] += np.log((1 - self.epsilon[i]) /
                                                       self.epsilon[i]) * partial_proba[n][k]
-                            except IndexError:
-                                proba[n].append(partial_proba[n][k])
                             except RuntimeWarning:
                                 # Catch division by zero errors raised by numpy as RuntimeWarning
                                 continue
-- 
2.43.0


From 6d8d0f8e19b8ca5a76d119e563b70b4a18f55d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:35 +0000
Subject: [PATCH 046/109] fix: LeveragingBaggingClassifier compared code
 predictions with the class label for members that were not drawn

---
 src/skmultiflow/meta/leverage_bagging.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/skmultiflow/meta/leverage_bagging.py b/src/skmultiflow/meta/leverage_bagging.py
index e074b48..06f1c7b 100644
--- a/src/skmultiflow/meta/leverage_bagging.py
+++ b/src/skmultiflow/meta/leverage_bagging.py
@@ -272,11 +272,10 @@ class LeveragingBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorM
                                                                   self._LEVERAGE_ALGORITHMS))
 
             y_coded = cp.deepcopy(y)
+            if self.enable_code_matrix:
+                y_coded = self.matrix_codes[i][int(y)]
             if k > 0:
-                classes = self.classes
-                if self.enable_code_matrix:
-                    y_coded = self.matrix_codes[i][int(y)]
-                    classes = [0, 1]
+                classes = [0, 1] if self.enable_code_matrix else self.classes
                 for _ in range(int(k)):
                     self.ensemble[i].partial_fit(X=np.asarray([X]), y=np.asarray([y_coded]),
                                                  classes=classes)
-- 
2.43.0


From 822919cfa4a27210ddc5d0edb73056e0e5de6942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:54 +0000
Subject: [PATCH 047/109] fix: OnlineBoostingClassifier did not lower the
 weight of rows that members without errors got right

---
 src/skmultiflow/meta/online_boosting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/online_boosting.py b/src/skmultiflow/meta/online_boosting.py
index edd5acb..39950fe 100644
--- a/src/skmultiflow/meta/online_boosting.py
+++ b/src/skmultiflow/meta/online_boosting.py
@@ -219,7 +219,7 @@ class OnlineBoostingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
                     if self.ensemble[i].predict([X[j]])[0] == y[j]:
                         self.lam_sc[i] += lam
                         self.epsilon[i] = self.lam_sw[i] / (self.lam_sw[i] + self.lam_sc[i])
-                        if self.epsilon[i] != 0:
+                        if self.epsilon[i] != 1:
                             lam = lam / (2 * (1 - self.epsilon[i]))
                     else:
                         self.lam_sw[i] += lam
-- 
2.43.0


From aa0d8264cdcdf23780cca79da6dc31d0a90eaaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:39 +0000
Subject: [PATCH 048/109] fix: AccuracyWeightedEnsembleClassifier gave every
 row of a batch the same votes

---
 src/skmultiflow/meta/accuracy_weighted_ensemble.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/accuracy_weighted_ensemble.py b/src/skmultiflow/meta/accuracy_weighted_ensemble.py
index a73382a..4172e0a 100644
--- a/src/skmultiflow/meta/accuracy_weighted_ensemble.py
+++ b/src/skmultiflow/meta/accuracy_weighted_ensemble.py
@@ -287,7 +287,7 @@ class AccuracyWeightedEnsembleClassifier(BaseSKMObject, ClassifierMixin, MetaEst
         if sum_weights == 0:
             sum_weights = 1  # safety check: if sum_weights = 0, do as if sum_weights = 1
 
-        weighted_votes = [dict()] * N
+        weighted_votes = [dict() for _ in range(N)]
         for model in ensemble:
             classifier = model.estimator
             prediction = classifier.predict(X)
-- 
2.43.0


From 33c8717b57b8a8e83827ff5c7e76d46922d0a052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:08 +0000
Subject: [PATCH 049/109] fix: BatchIncrementalClassifier rejected arrays of
 weights and did not use the stored ones

---
 src/skmultiflow/meta/batch_incremental.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/meta/batch_incremental.py b/src/skmultiflow/meta/batch_incremental.py
index bcf7023..f72aeb4 100644
--- a/src/skmultiflow/meta/batch_incremental.py
+++ b/src/skmultiflow/meta/batch_incremental.py
@@ -120,7 +120,7 @@ class BatchIncrementalClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMi
             # TODO not very pythonic at the moment
             self.X_batch[self.i] = X[n]
             self.y_batch[self.i] = y[n]
-            self.sample_weight[self.i] = sample_weight[n] if sample_weight else 1.0
+            self.sample_weight[self.i] = sample_weight[n] if sample_weight is not None else 1.0
 
             self.i = self.i + 1
             if self.i == self.window_size:
@@ -131,7 +131,7 @@ class BatchIncrementalClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMi
                 h = cp.deepcopy(self.base_estimator)
                 # Train it
                 if 'sample_weight' in signature(h.fit).parameters:
-                    h.fit(X=self.X_batch, y=self.y_batch.astype(int), sample_weight=sample_weight)
+                    h.fit(X=self.X_batch, y=self.y_batch.astype(int), sample_weight=self.sample_weight.copy())
                 else:
                     h.fit(X=self.X_batch, y=self.y_batch.astype(int))
                 # Add it
-- 
2.43.0


From ddb8123137a8108e91d43bc077704fc7f8641a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:28 +0000
Subject: [PATCH 050/109] fix: AdditiveExpertEnsembleClassifier pruned the new
 expert instead of the weakest one

---
 src/skmultiflow/meta/additive_expert_ensemble.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/skmultiflow/meta/additive_expert_ensemble.py b/src/skmultiflow/meta/additive_expert_ensemble.py
index 8d35156..b2f321e 100644
--- a/src/skmultiflow/meta/additive_expert_ensemble.py
+++ b/src/skmultiflow/meta/additive_expert_ensemble.py
@@ -211,12 +211,11 @@ class AdditiveExpertEnsembleClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
         if np.any(y_hat != y):
             ensemble_weight = sum(exp.weight for exp in self.experts)
             new_exp = self._construct_new_expert(ensemble_weight * self.gamma)
+            # Pruning to self.n_estimators if needed
+            if len(self.experts) >= self.n_estimators:
+                self.experts.pop(0)
             self._add_expert(new_exp)
 
-        # Pruning to self.n_estimators if needed
-        if len(self.experts) > self.n_estimators:
-            self.experts.pop(0)
-
         # Train each expert on X
         for exp in self.experts:
             exp.estimator.partial_fit(X, y, classes=classes, sample_weight=sample_weight)
-- 
2.43.0


From e82ef3bf3b719aca6a9e70e5a7609ecdc94d9c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:42 +0000
Subject: [PATCH 051/109] fix: DynamicWeightedMajorityClassifier gave all
 weights of a batch to each row

---
 src/skmultiflow/meta/dynamic_weighted_majority.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/skmultiflow/meta/dynamic_weighted_majority.py b/src/skmultiflow/meta/dynamic_weighted_majority.py
index b2db81a..1078f2d 100644
--- a/src/skmultiflow/meta/dynamic_weighted_majority.py
+++ b/src/skmultiflow/meta/dynamic_weighted_majority.py
@@ -147,9 +147,8 @@ class DynamicWeightedMajorityClassifier(BaseSKMObject, ClassifierMixin, MetaEsti
             self
         """
         for i in range(len(X)):
-            self.fit_single_sample(
-                X[i:i + 1, :], y[i:i + 1], classes, sample_weight
-            )
+            weight = None if sample_weight is None else sample_weight[i:i + 1]
+            self.fit_single_sample(X[i:i + 1, :], y[i:i + 1], classes, weight)
         return self
 
     def predict(self, X):
-- 
2.43.0


From 9fddab083ae883a08f7615b4b3415d546b573f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:44 +0000
Subject: [PATCH 052/109] fix: DynamicWeightedMajorityClassifier predicted the
 mean of the labels instead of the majority

---
 src/skmultiflow/meta/dynamic_weighted_majority.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/skmultiflow/meta/dynamic_weighted_majority.py b/src/skmultiflow/meta/dynamic_weighted_majority.py
index 1078f2d..29cab15 100644
--- a/src/skmultiflow/meta/dynamic_weighted_majority.py
+++ b/src/skmultiflow/meta/dynamic_weighted_majority.py
@@ -168,11 +168,11 @@ class DynamicWeightedMajorityClassifier(BaseSKMObject, ClassifierMixin, MetaEsti
         numpy.ndarray
             A numpy.ndarray with the label prediction for all the samples in X.
         """
-        preds = np.array([np.array(exp.estimator.predict(X)) * exp.weight
-                          for exp in self.experts])
-        sum_weights = sum(exp.weight for exp in self.experts)
-        aggregate = np.sum(preds / sum_weights, axis=0)
-        return (aggregate + 0.5).astype(int)    # Round to nearest int
+        preds = np.array([exp.estimator.predict(X) for exp in self.experts]).astype(int)
+        votes = np.zeros((len(X), max(self.num_classes, np.max(preds) + 1)))
+        for exp, pred in zip(self.experts, preds):
+            votes[np.arange(len(X)), pred] += exp.weight
+        return np.argmax(votes, axis=1)
 
     def predict_proba(self, X):
         raise NotImplementedError
-- 
2.43.0


From a1d7aaae5a6d603f04ee062e13cbc2792a7fd888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:49 +0000
Subject: [PATCH 053/109] fix: AdditiveExpertEnsembleClassifier gave all
 weights of a batch to each row

---
 src/skmultiflow/meta/additive_expert_ensemble.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/additive_expert_ensemble.py b/src/skmultiflow/meta/additive_expert_ensemble.py
index b2f321e..ba6126a 100644
--- a/src/skmultiflow/meta/additive_expert_ensemble.py
+++ b/src/skmultiflow/meta/additive_expert_ensemble.py
@@ -151,7 +151,8 @@ class AdditiveExpertEnsembleClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
             self
         """
         for i in range(len(X)):
-            self.fit_single_sample(X[i:i + 1, :], y[i:i + 1], classes, sample_weight)
+            weight = None if sample_weight is None else sample_weight[i:i + 1]
+            self.fit_single_sample(X[i:i + 1, :], y[i:i + 1], classes, weight)
         return self
 
     def predict(self, X):
-- 
2.43.0


From c7afe037c10a84217cf6fadd6f051c467df71c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:54 +0000
Subject: [PATCH 054/109] fix: AdditiveExpertEnsembleClassifier predicted the
 mean of the labels instead of the majority

---
 src/skmultiflow/meta/additive_expert_ensemble.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/skmultiflow/meta/additive_expert_ensemble.py b/src/skmultiflow/meta/additive_expert_ensemble.py
index ba6126a..5bfd2ea 100644
--- a/src/skmultiflow/meta/additive_expert_ensemble.py
+++ b/src/skmultiflow/meta/additive_expert_ensemble.py
@@ -172,11 +172,11 @@ class AdditiveExpertEnsembleClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
         numpy.ndarray
             A numpy.ndarray with the label prediction for all the samples in X.
         """
-        preds = np.array([np.array(exp.estimator.predict(X)) * exp.weight
-                          for exp in self.experts])
-        sum_weights = sum(exp.weight for exp in self.experts)
-        aggregate = np.sum(preds / sum_weights, axis=0)
-        return (aggregate + 0.5).astype(int)    # Round to nearest int
+        preds = np.array([exp.estimator.predict(X) for exp in self.experts]).astype(int)
+        votes = np.zeros((len(X), max(self.num_classes, np.max(preds) + 1)))
+        for exp, pred in zip(self.experts, preds):
+            votes[np.arange(len(X)), pred] += exp.weight
+        return np.argmax(votes, axis=1)
 
     def predict_proba(self, X):
         """ Not implemented for this method.
-- 
2.43.0


From e644a935158212467a271d7110b66afc005d84a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:37 +0000
Subject: [PATCH 055/109] fix: AccuracyWeightedEnsembleClassifier read the
 probability of another class when the labels are not 0, 1, ...

---
 src/skmultiflow/meta/accuracy_weighted_ensemble.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/skmultiflow/meta/accuracy_weighted_ensemble.py b/src/skmultiflow/meta/accuracy_weighted_ensemble.py
index 4172e0a..26da7d7 100644
--- a/src/skmultiflow/meta/accuracy_weighted_ensemble.py
+++ b/src/skmultiflow/meta/accuracy_weighted_ensemble.py
@@ -343,9 +343,15 @@ class AccuracyWeightedEnsembleClassifier(BaseSKMObject, ClassifierMixin, MetaEst
         sum_error = 0
         for i, c in enumerate(y):
             if c in labels:
-                # find the index of this label c in probabs[i]
-                index_label_c = np.where(labels == c)[0][0]
-                probab_ic = probabs[i][index_label_c]
+                # find the probability of this label c in probabs[i]: scikit-learn estimators have a
+                # column for each class they were fit with, the others have a column for each label
+                if hasattr(model.estimator, 'classes_'):
+                    index_label_c = np.flatnonzero(model.estimator.classes_ == c)
+                else:
+                    index_label_c = np.array([int(c)])
+                probab_ic = 0.0
+                if len(index_label_c) > 0 and index_label_c[0] < len(probabs[i]):
+                    probab_ic = probabs[i][index_label_c[0]]
                 sum_error += (1.0 - probab_ic) * (1.0 - probab_ic)
             else:
                 sum_error += 1.0
-- 
2.43.0


From 10846f834a41eb6918a106523967344999766cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:42 +0000
Subject: [PATCH 056/109] fix: AccuracyWeightedEnsembleClassifier trained on
 the weights of the last call instead of those of the chunk and let its models
 keep the buffer

---
 src/skmultiflow/meta/accuracy_weighted_ensemble.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/meta/accuracy_weighted_ensemble.py b/src/skmultiflow/meta/accuracy_weighted_ensemble.py
index 26da7d7..98bd0b8 100644
--- a/src/skmultiflow/meta/accuracy_weighted_ensemble.py
+++ b/src/skmultiflow/meta/accuracy_weighted_ensemble.py
@@ -147,6 +147,7 @@ class AccuracyWeightedEnsembleClassifier(BaseSKMObject, ClassifierMixin, MetaEst
         self.p = -1  # chunk pointer
         self.X_chunk = None
         self.y_chunk = None
+        self.weight_chunk = None
 
     def partial_fit(self, X, y=None, classes=None, sample_weight=None):
         """ Partially (incrementally) fit the model.
@@ -173,12 +174,17 @@ class AccuracyWeightedEnsembleClassifier(BaseSKMObject, ClassifierMixin, MetaEst
         if self.p == -1:
             self.X_chunk = np.zeros((self.window_size, D))
             self.y_chunk = np.zeros(self.window_size)
+            self.weight_chunk = np.ones(self.window_size)
             self.p = 0
 
         # fill up the data chunk
         for i, x in enumerate(X):
             self.X_chunk[self.p] = X[i]
             self.y_chunk[self.p] = y[i]
+            if sample_weight is None:
+                self.weight_chunk[self.p] = 1.0
+            else:
+                self.weight_chunk[self.p] = np.broadcast_to(sample_weight, N)[i]
             self.p += 1
 
             if self.p == self.window_size:
@@ -190,8 +196,9 @@ class AccuracyWeightedEnsembleClassifier(BaseSKMObject, ClassifierMixin, MetaEst
 
                 # (1) train classifier C' from X
                 C_new = self.train_model(model=cp.deepcopy(self.base_estimator),
-                                         X=self.X_chunk, y=self.y_chunk,
-                                         classes=classes, sample_weight=sample_weight)
+                                         X=self.X_chunk.copy(), y=self.y_chunk.copy(),
+                                         classes=classes,
+                                         sample_weight=self.weight_chunk.copy())
 
                 # compute the baseline error rate given by a random classifier
                 baseline_score = self.compute_baseline(self.y_chunk)
@@ -312,6 +319,9 @@ class AccuracyWeightedEnsembleClassifier(BaseSKMObject, ClassifierMixin, MetaEst
         self.p = -1
         self.X_chunk = None
         self.y_chunk = None
+        self.weight_chunk = None
+
+        return self
 
     @staticmethod
     def compute_score(model, X, y):
-- 
2.43.0


From 4b1c13a9d1ae81b361dadb64d3b3f9e220d48be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:23 +0000
Subject: [PATCH 057/109] fix: DynamicWeightedMajorityClassifier did not tell
 the experts added later the classes of the first call

---
 src/skmultiflow/meta/dynamic_weighted_majority.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/dynamic_weighted_majority.py b/src/skmultiflow/meta/dynamic_weighted_majority.py
index 29cab15..6dd56a8 100644
--- a/src/skmultiflow/meta/dynamic_weighted_majority.py
+++ b/src/skmultiflow/meta/dynamic_weighted_majority.py
@@ -114,6 +114,7 @@ class DynamicWeightedMajorityClassifier(BaseSKMObject, ClassifierMixin, MetaEsti
         # Following attributes are set later
         self.epochs = None
         self.num_classes = None
+        self.classes = None
         self.experts = None
 
         self.reset()
@@ -207,6 +208,8 @@ class DynamicWeightedMajorityClassifier(BaseSKMObject, ClassifierMixin, MetaEsti
 
         """
         self.epochs += 1
+        if classes is not None:
+            self.classes = classes
         self.num_classes = max(
             len(classes) if classes is not None else 0,
             (int(np.max(y)) + 1), self.num_classes)
@@ -238,7 +241,7 @@ class DynamicWeightedMajorityClassifier(BaseSKMObject, ClassifierMixin, MetaEsti
 
         # Train individual experts
         for exp in self.experts:
-            exp.estimator.partial_fit(X, y, classes, sample_weight)
+            exp.estimator.partial_fit(X, y, self.classes, sample_weight)
 
     def get_expert_predictions(self, X):
         """
@@ -253,6 +256,7 @@ class DynamicWeightedMajorityClassifier(BaseSKMObject, ClassifierMixin, MetaEsti
         """
         self.epochs = 0
         self.num_classes = 2    # Minimum of 2 classes
+        self.classes = None
         self.experts = [
             self._construct_new_expert()
         ]
-- 
2.43.0


From 9556fdc1ba486f1563fcf7e6baf3fb8b0cb2c0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:26 +0000
Subject: [PATCH 058/109] fix: DynamicWeightedMajorityClassifier.reset returned
 None

---
 src/skmultiflow/meta/dynamic_weighted_majority.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/skmultiflow/meta/dynamic_weighted_majority.py b/src/skmultiflow/meta/dynamic_weighted_majority.py
index 6dd56a8..1081bc5 100644
--- a/src/skmultiflow/meta/dynamic_weighted_majority.py
+++ b/src/skmultiflow/meta/dynamic_weighted_majority.py
@@ -260,6 +260,7 @@ class DynamicWeightedMajorityClassifier(BaseSKMObject, ClassifierMixin, MetaEsti
         self.experts = [
             self._construct_new_expert()
         ]
+        return self
 
     def _scale_weights(self, max_weight):
         """
-- 
2.43.0


From b8708620e4990a7dcf0198a6e14198b417818458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:01 +0000
Subject: [PATCH 059/109] fix: AdditiveExpertEnsembleClassifier did not tell
 the experts added later the classes of the first call

---
 src/skmultiflow/meta/additive_expert_ensemble.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/additive_expert_ensemble.py b/src/skmultiflow/meta/additive_expert_ensemble.py
index 5bfd2ea..1dbe9d5 100644
--- a/src/skmultiflow/meta/additive_expert_ensemble.py
+++ b/src/skmultiflow/meta/additive_expert_ensemble.py
@@ -121,6 +121,7 @@ class AdditiveExpertEnsembleClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
         # Following attributes are set later
         self.epochs = None
         self.num_classes = None
+        self.classes = None
         self.experts = None
 
         self.reset()
@@ -189,6 +190,8 @@ class AdditiveExpertEnsembleClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
         (As described in the original paper.)
         """
         self.epochs += 1
+        if classes is not None:
+            self.classes = classes
         self.num_classes = max(
             len(classes) if classes is not None else 0,
             (int(np.max(y)) + 1), self.num_classes)
@@ -219,7 +222,7 @@ class AdditiveExpertEnsembleClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
 
         # Train each expert on X
         for exp in self.experts:
-            exp.estimator.partial_fit(X, y, classes=classes, sample_weight=sample_weight)
+            exp.estimator.partial_fit(X, y, classes=self.classes, sample_weight=sample_weight)
 
         # Normalize weights (if not will tend to infinity)
         if self.epochs % 1000:
@@ -257,4 +260,5 @@ class AdditiveExpertEnsembleClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
     def reset(self):
         self.epochs = 0
         self.num_classes = 2
+        self.classes = None
         self.experts = [self._construct_new_expert()]
-- 
2.43.0


From c916cd6a9ec7a5f1a53ef760ccc537a99379c7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:08 +0000
Subject: [PATCH 060/109] fix: AdditiveExpertEnsembleClassifier.reset returned
 None

---
 src/skmultiflow/meta/additive_expert_ensemble.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/skmultiflow/meta/additive_expert_ensemble.py b/src/skmultiflow/meta/additive_expert_ensemble.py
index 1dbe9d5..ed5011f 100644
--- a/src/skmultiflow/meta/additive_expert_ensemble.py
+++ b/src/skmultiflow/meta/additive_expert_ensemble.py
@@ -262,3 +262,4 @@ class AdditiveExpertEnsembleClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
         self.num_classes = 2
         self.classes = None
         self.experts = [self._construct_new_expert()]
+        return self
-- 
2.43.0


From 00fa8100df987932675aef5e2f961ab207600386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:11 +0000
Subject: [PATCH 061/109] fix: BatchIncrementalClassifier let its models keep
 the buffer that later rows overwrite

---
 src/skmultiflow/meta/batch_incremental.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/meta/batch_incremental.py b/src/skmultiflow/meta/batch_incremental.py
index f72aeb4..267f680 100644
--- a/src/skmultiflow/meta/batch_incremental.py
+++ b/src/skmultiflow/meta/batch_incremental.py
@@ -131,9 +131,9 @@ class BatchIncrementalClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMi
                 h = cp.deepcopy(self.base_estimator)
                 # Train it
                 if 'sample_weight' in signature(h.fit).parameters:
-                    h.fit(X=self.X_batch, y=self.y_batch.astype(int), sample_weight=self.sample_weight.copy())
+                    h.fit(X=self.X_batch.copy(), y=self.y_batch.astype(int), sample_weight=self.sample_weight.copy())
                 else:
-                    h.fit(X=self.X_batch, y=self.y_batch.astype(int))
+                    h.fit(X=self.X_batch.copy(), y=self.y_batch.astype(int))
                 # Add it
                 self.ensemble.append(h)
                 # Reset the window
-- 
2.43.0


From eedea2149b28e56ff239068fa768267318dd8203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:18 +0000
Subject: [PATCH 062/109] fix: LearnPPClassifier.reset kept the classes and
 returned None

---
 src/skmultiflow/meta/learn_pp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/skmultiflow/meta/learn_pp.py b/src/skmultiflow/meta/learn_pp.py
index 2975e8e..0aa53ba 100644
--- a/src/skmultiflow/meta/learn_pp.py
+++ b/src/skmultiflow/meta/learn_pp.py
@@ -130,9 +130,11 @@ class LearnPPClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
     def reset(self):
         self.ensembles = []
         self.ensemble_weights = []
+        self.classes = None
         self.X_batch = []
         self.y_batch = []
         self.random = check_random_state(self.random_state)
+        return self
 
     def partial_fit(self, X, y, classes=None, sample_weight=None):
         """ Partially (incrementally) fit the model.
-- 
2.43.0


From 0a36a54cd6899170af6279aa92dd4e8e745fdd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:25 +0000
Subject: [PATCH 063/109] fix: LearnPPClassifier kept views of the caller's
 rows in its buffer

---
 src/skmultiflow/meta/learn_pp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/learn_pp.py b/src/skmultiflow/meta/learn_pp.py
index 0aa53ba..c274705 100644
--- a/src/skmultiflow/meta/learn_pp.py
+++ b/src/skmultiflow/meta/learn_pp.py
@@ -183,7 +183,7 @@ class LearnPPClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
         N, _ = X.shape
 
         for i in range(N):
-            self.X_batch.append(X[i])
+            self.X_batch.append(np.array(X[i]))
             self.y_batch.append(y[i])
             if len(self.y_batch) == self.window_size:
                 self.__fit_batch(self.X_batch, self.y_batch)
-- 
2.43.0


From c0d064a755d0ffcf05c0721031594b02ab7c4e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:32 +0000
Subject: [PATCH 064/109] fix: LearnPPClassifier looped for ever when the error
 of a hypothesis equals the threshold

---
 src/skmultiflow/meta/learn_pp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/learn_pp.py b/src/skmultiflow/meta/learn_pp.py
index c274705..bc5d606 100644
--- a/src/skmultiflow/meta/learn_pp.py
+++ b/src/skmultiflow/meta/learn_pp.py
@@ -257,7 +257,7 @@ class LearnPPClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
                             Dt[y_predict_composite == y] = Dt[y_predict_composite == y] * \
                                 normalize_composite_error
 
-                if total_error > self.error_threshold:
+                if total_error >= self.error_threshold:
                     patience += 1
                 else:
                     patience = 0
-- 
2.43.0


From 6140e6d48f4587c12f2c61e4c7b11efc759af45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:39 +0000
Subject: [PATCH 065/109] fix: LearnPPClassifier failed to predict before the
 first partial_fit

---
 src/skmultiflow/meta/learn_pp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/skmultiflow/meta/learn_pp.py b/src/skmultiflow/meta/learn_pp.py
index bc5d606..5439b12 100644
--- a/src/skmultiflow/meta/learn_pp.py
+++ b/src/skmultiflow/meta/learn_pp.py
@@ -315,6 +315,8 @@ class LearnPPClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
             the probability that the i-th sample of X belongs to a certain label.
 
         """
+        if self.classes is None:
+            return np.zeros((len(X), 1))
         votes = np.zeros((len(X), len(self.classes)))
         for i in range(len(self.ensembles)):
             ensemble = self.ensembles[i]
-- 
2.43.0


From c1c27e6aa271c827c73e70466afb4f0e495073f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:48 +0000
Subject: [PATCH 066/109] fix: LearnPPNSEClassifier.reset kept the classes and
 returned None

---
 src/skmultiflow/meta/learn_nse.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/skmultiflow/meta/learn_nse.py b/src/skmultiflow/meta/learn_nse.py
index 4d93004..2f63e10 100644
--- a/src/skmultiflow/meta/learn_nse.py
+++ b/src/skmultiflow/meta/learn_nse.py
@@ -351,3 +351,6 @@ class LearnPPNSEClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
         self.wkts = []
         self.X_batch = []
         self.y_batch = []
+        self.instance_weights = []
+        self.classes = None
+        return self
-- 
2.43.0


From 43ee347a06f72da246288b7451de750115fef727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:58 +0000
Subject: [PATCH 067/109] fix: LearnPPNSEClassifier kept views of the caller's
 rows in its buffer

---
 src/skmultiflow/meta/learn_nse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/learn_nse.py b/src/skmultiflow/meta/learn_nse.py
index 2f63e10..6e36e94 100644
--- a/src/skmultiflow/meta/learn_nse.py
+++ b/src/skmultiflow/meta/learn_nse.py
@@ -162,7 +162,7 @@ class LearnPPNSEClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
                 self.classes = classes
 
         for i in range(N):
-            self.X_batch.append(X[i])
+            self.X_batch.append(np.array(X[i]))
             self.y_batch.append(y[i])
             mt = len(self.y_batch)
 
-- 
2.43.0


From 8a61acfb65673cc53f4b8cd7fc195d86e4d36261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:07 +0000
Subject: [PATCH 068/109] fix: LearnPPNSEClassifier spread the vote of a member
 trained on one class over all classes

---
 src/skmultiflow/meta/learn_nse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/skmultiflow/meta/learn_nse.py b/src/skmultiflow/meta/learn_nse.py
index 6e36e94..24ed694 100644
--- a/src/skmultiflow/meta/learn_nse.py
+++ b/src/skmultiflow/meta/learn_nse.py
@@ -272,6 +272,8 @@ class LearnPPNSEClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
                     y_predicts = h.predict_proba(X[m].reshape(1, -1))
                     y_predicts /= np.linalg.norm(y_predicts, ord=1, axis=1, keepdims=True)
                     try:
+                        if y_predicts.shape[1] != len(classes):
+                            raise ValueError('The member does not know all the classes')
                         votes += self.ensemble_weights[i] * y_predicts
                     except ValueError:
                         if hasattr(h, 'classes_'):  # sklearn learner
-- 
2.43.0


From 96a9fae69eb35a70b2114b80b2e963229248fe54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:16 +0000
Subject: [PATCH 069/109] fix: LearnPPNSEClassifier rejected lists of classes

---
 src/skmultiflow/meta/learn_nse.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/skmultiflow/meta/learn_nse.py b/src/skmultiflow/meta/learn_nse.py
index 24ed694..cadd2d0 100644
--- a/src/skmultiflow/meta/learn_nse.py
+++ b/src/skmultiflow/meta/learn_nse.py
@@ -296,6 +296,7 @@ class LearnPPNSEClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
         return np.array(res)
 
     def _fill_missing_probs(self, probs, obs_classes, all_classes):
+        all_classes = np.asarray(all_classes)
         proba_ordered = np.zeros(
             (probs.shape[0], all_classes.size), dtype=np.float
         )
-- 
2.43.0


From 54f853a99dc51fe79e44cc70160a72de037ead68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:24 +0000
Subject: [PATCH 070/109] fix: AccuracyWeightedEnsembleClassifier ignored the
 sample weights

---
 src/skmultiflow/meta/accuracy_weighted_ensemble.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/accuracy_weighted_ensemble.py b/src/skmultiflow/meta/accuracy_weighted_ensemble.py
index 98bd0b8..b920069 100644
--- a/src/skmultiflow/meta/accuracy_weighted_ensemble.py
+++ b/src/skmultiflow/meta/accuracy_weighted_ensemble.py
@@ -3,6 +3,7 @@ from skmultiflow.bayes import NaiveBayes
 from sklearn.model_selection import KFold
 import numpy as np
 import copy as cp
+from inspect import signature
 import operator as op
 
 import warnings
@@ -258,7 +259,10 @@ class AccuracyWeightedEnsembleClassifier(BaseSKMObject, ClassifierMixin, MetaEst
             The trained model
         """
         try:
-            model.fit(X, y)
+            if sample_weight is not None and 'sample_weight' in signature(model.fit).parameters:
+                model.fit(X, y, sample_weight=sample_weight)
+            else:
+                model.fit(X, y)
         except NotImplementedError:
             model.partial_fit(X, y, classes, sample_weight)
         return model
-- 
2.43.0


From 7d444597d78cc02929e6646aabee7a53e8ea4fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:25 +0000
Subject: [PATCH 071/109] fix: WindowedStandardScaler overwrote the samples it
 was given, and truncated integer samples

---
 src/skmultiflow/transform/windowed_standard_scaler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/skmultiflow/transform/windowed_standard_scaler.py b/src/skmultiflow/transform/windowed_standard_scaler.py
index 33910f5..97a6651 100644
--- a/src/skmultiflow/transform/windowed_standard_scaler.py
+++ b/src/skmultiflow/transform/windowed_standard_scaler.py
@@ -37,6 +37,7 @@ class WindowedStandardScaler(StreamTransform):
 
         """
         r, c = get_dimensions(X)
+        X = np.array(X, dtype=float)
         for i in range(r):
             row = np.copy([X[i][:]])
             for j in range(c):
-- 
2.43.0


From a8adfd13899dfc0443df316ee895df838ece8658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:25 +0000
Subject: [PATCH 072/109] fix: WindowedStandardScaler.partial_fit kept
 references to the samples instead of their values

---
 src/skmultiflow/transform/windowed_standard_scaler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/transform/windowed_standard_scaler.py b/src/skmultiflow/transform/windowed_standard_scaler.py
index 97a6651..33bd290 100644
--- a/src/skmultiflow/transform/windowed_standard_scaler.py
+++ b/src/skmultiflow/transform/windowed_standard_scaler.py
@@ -101,5 +101,5 @@ class WindowedStandardScaler(StreamTransform):
             self
 
         """
-        self.window.add_element(X)
+        self.window.add_element(np.array(X, dtype=float))
         return self
-- 
2.43.0


From c9c5d581aca853412a9a621aa46c8d3e3455cd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:25 +0000
Subject: [PATCH 073/109] fix: WindowedMinmaxScaler overwrote the samples it
 was given, and truncated integer samples

---
 src/skmultiflow/transform/windowed_minmax_scaler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/skmultiflow/transform/windowed_minmax_scaler.py b/src/skmultiflow/transform/windowed_minmax_scaler.py
index d6cad88..83e6935 100644
--- a/src/skmultiflow/transform/windowed_minmax_scaler.py
+++ b/src/skmultiflow/transform/windowed_minmax_scaler.py
@@ -39,6 +39,7 @@ class WindowedMinmaxScaler(StreamTransform):
 
         """
         r, c = get_dimensions(X)
+        X = np.array(X, dtype=float)
         for i in range(r):
             row = np.copy([X[i][:]])
             for j in range(c):
-- 
2.43.0


From f5a9cb0b95cf5002a1f44fd3ca05f65719697af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:25 +0000
Subject: [PATCH 074/109] fix: WindowedMinmaxScaler.partial_fit kept references
 to the samples instead of their values

---
 src/skmultiflow/transform/windowed_minmax_scaler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/transform/windowed_minmax_scaler.py b/src/skmultiflow/transform/windowed_minmax_scaler.py
index 83e6935..4be46a3 100644
--- a/src/skmultiflow/transform/windowed_minmax_scaler.py
+++ b/src/skmultiflow/transform/windowed_minmax_scaler.py
@@ -105,5 +105,5 @@ class WindowedMinmaxScaler(StreamTransform):
             self
 
         """
-        self.window.add_element(X)
+        self.window.add_element(np.array(X, dtype=float))
         return self
-- 
2.43.0


From 4fdf7572516d59443fe5d7fc5eb7211eb41bc7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:25 +0000
Subject: [PATCH 075/109] fix: MissingValuesCleaner overwrote the samples it
 was given, and truncated replacements in integer samples

---
 src/skmultiflow/transform/missing_values_cleaner.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/skmultiflow/transform/missing_values_cleaner.py b/src/skmultiflow/transform/missing_values_cleaner.py
index bcb9cae..96b5f4e 100644
--- a/src/skmultiflow/transform/missing_values_cleaner.py
+++ b/src/skmultiflow/transform/missing_values_cleaner.py
@@ -98,6 +98,7 @@ class MissingValuesCleaner(StreamTransform):
         
         """
         r, c = get_dimensions(X)
+        X = np.array(X, dtype=float)
         for i in range(r):
             if self.strategy in ['mean', 'median', 'mode']:
                 self.window.add_element([X[i][:]])
-- 
2.43.0


From 8e1662efcd40730289cacb76048e955c9f5cdaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:25 +0000
Subject: [PATCH 076/109] fix: MissingValuesCleaner counted missing value codes
 and its own replacements as observed values

---
 .../transform/missing_values_cleaner.py       | 26 ++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/skmultiflow/transform/missing_values_cleaner.py b/src/skmultiflow/transform/missing_values_cleaner.py
index 96b5f4e..68c7271 100644
--- a/src/skmultiflow/transform/missing_values_cleaner.py
+++ b/src/skmultiflow/transform/missing_values_cleaner.py
@@ -101,13 +101,34 @@ class MissingValuesCleaner(StreamTransform):
         X = np.array(X, dtype=float)
         for i in range(r):
             if self.strategy in ['mean', 'median', 'mode']:
-                self.window.add_element([X[i][:]])
+                self.window.add_element(self._mask_missing(X[i:i + 1]))
             for j in range(c):
                 if X[i][j] in self.missing_value or np.isnan(X[i][j]):
                     X[i][j] = self._get_substitute(j)
 
         return X
 
+    def _mask_missing(self, X):
+        """ _mask_missing
+
+        Copies the samples, coding every missing value as NaN, so that
+        only observed values take part in the window statistics.
+
+        Parameters
+        ----------
+        X: numpy.ndarray of shape (n_samples, n_features)
+            The sample or set of samples to copy.
+
+        Returns
+        -------
+        numpy.ndarray of shape (n_samples, n_features)
+            The samples with NaN in place of the missing values.
+
+        """
+        X = np.array(X, dtype=float)
+        X[np.isin(X, self.missing_value)] = np.nan
+        return X
+
     def _get_substitute(self, column_index):
         """ _get_substitute
         
@@ -187,7 +208,6 @@ class MissingValuesCleaner(StreamTransform):
             self
         
         """
-        X = np.asarray(X)
         if self.strategy in ['mean', 'median', 'mode']:
-            self.window.add_element(X)
+            self.window.add_element(self._mask_missing(X))
         return self
-- 
2.43.0


From 4010fd6ae69a09fe09f5a0fae82cd32953aba6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:20 +0000
Subject: [PATCH 077/109] fix: MissingValuesCleaner replaced missing values by
 NaN while no value of the feature was observed

---
 src/skmultiflow/transform/missing_values_cleaner.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/skmultiflow/transform/missing_values_cleaner.py b/src/skmultiflow/transform/missing_values_cleaner.py
index 68c7271..76c9943 100644
--- a/src/skmultiflow/transform/missing_values_cleaner.py
+++ b/src/skmultiflow/transform/missing_values_cleaner.py
@@ -129,6 +129,10 @@ class MissingValuesCleaner(StreamTransform):
         X[np.isin(X, self.missing_value)] = np.nan
         return X
 
+    def _is_observed(self, column_index):
+        """ Whether the window holds a value of the feature (that is not missing). """
+        return any(not np.isnan(row[column_index]) for row in self.window.get_queue())
+
     def _get_substitute(self, column_index):
         """ _get_substitute
         
@@ -148,17 +152,17 @@ class MissingValuesCleaner(StreamTransform):
         if self.strategy == 'zero':
             return 0
         elif self.strategy == 'mean':
-            if not self.window.is_empty():
+            if self._is_observed(column_index):
                 return np.nanmean(np.array(self.window.get_queue())[:, column_index])
             else:
                 return self.new_value
         elif self.strategy == 'median':
-            if not self.window.is_empty():
+            if self._is_observed(column_index):
                 return np.nanmedian(np.array(self.window.get_queue())[:, column_index])
             else:
                 return self.new_value
         elif self.strategy == 'mode':
-            if not self.window.is_empty():
+            if self._is_observed(column_index):
                 return stats.mode(np.array(self.window.get_queue())[:, column_index],
                                   nan_policy='omit')[0]
             else:
-- 
2.43.0


From 931386935f3a14a2b1a9eb73607901dce39f085f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:20 +0000
Subject: [PATCH 078/109] fix: OneHotToCategorical failed on features after the
 last categorical group

---
 src/skmultiflow/transform/one_hot_to_categorical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/transform/one_hot_to_categorical.py b/src/skmultiflow/transform/one_hot_to_categorical.py
index 3ffcb29..d5ed4e9 100644
--- a/src/skmultiflow/transform/one_hot_to_categorical.py
+++ b/src/skmultiflow/transform/one_hot_to_categorical.py
@@ -57,7 +57,7 @@ class OneHotToCategorical(StreamTransform):
         i = 0
         new_i = 0
         while i < X.size:
-            if i in self.categorical_list[list_index]:
+            if list_index < len(self.categorical_list) and i in self.categorical_list[list_index]:
                 c = 0
                 found = False
                 for j in range(len(self.categorical_list[list_index])):
-- 
2.43.0


From f72db6e66ed294ede70dfa72308f874bf1279260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:52 +0000
Subject: [PATCH 079/109] fix: Pipeline rejected transforms that implement
 partial_fit but not fit, as documented

---
 src/skmultiflow/core/pipeline.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/core/pipeline.py b/src/skmultiflow/core/pipeline.py
index cbe19c7..481d2f8 100644
--- a/src/skmultiflow/core/pipeline.py
+++ b/src/skmultiflow/core/pipeline.py
@@ -260,11 +260,12 @@ class Pipeline(BaseSKMObject):
             if t is None:
                 continue
             else:
-                if not (hasattr(t, "fit") or hasattr(t, "fit_transform")) \
+                if not any(hasattr(t, m) for m in ("fit", "fit_transform", "partial_fit",
+                                                   "partial_fit_transform")) \
                         or not hasattr(t, "transform"):
                     self.active = False
                     raise TypeError("All intermediate steps, including an evaluator, "
-                                    "should implement fit and transform.")
+                                    "should implement (partial) fit and transform.")
 
         if classifier is not None and not hasattr(classifier, "partial_fit"):
             self.active = False
-- 
2.43.0


From dc6815226143dfe366c5c0caa32f45bd80fae1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:52 +0000
Subject: [PATCH 080/109] fix: Pipeline failed on steps that are None

---
 src/skmultiflow/core/pipeline.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/skmultiflow/core/pipeline.py b/src/skmultiflow/core/pipeline.py
index 481d2f8..f5d484d 100644
--- a/src/skmultiflow/core/pipeline.py
+++ b/src/skmultiflow/core/pipeline.py
@@ -128,7 +128,7 @@ class Pipeline(BaseSKMObject):
         Xt = X
         for name, transform in self.steps[:-1]:
             if transform is None:
-                pass
+                continue
             if hasattr(transform, "fit_transform"):
                 Xt = transform.fit_transform(Xt, y)
             else:
@@ -166,7 +166,7 @@ class Pipeline(BaseSKMObject):
         Xt = X
         for name, transform in self.steps[:-1]:
             if transform is None:
-                pass
+                continue
             if hasattr(transform, 'fit_transform'):
                 Xt = transform.partial_fit_transform(Xt, y, classes=classes)
             else:
@@ -202,7 +202,7 @@ class Pipeline(BaseSKMObject):
         Xt = X
         for name, transform in self.steps[:-1]:
             if transform is None:
-                pass
+                continue
             if hasattr(transform, "partial_fit_transform"):
                 Xt = transform.partial_fit_transform(Xt, y)
             else:
@@ -290,6 +290,8 @@ class Pipeline(BaseSKMObject):
         transforms = estimators[:-1]
         i = 0
         for t in transforms:
+            if t is None:
+                continue
             try:
                 if t.get_info() is not None:
                     info += t.get_info()
-- 
2.43.0


From ac652371603d4d595dd7c521847e50aaf7edd47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:52 +0000
Subject: [PATCH 081/109] fix: Pipeline.partial_fit passed classes to
 transforms that take none and fed scalers twice

---
 src/skmultiflow/core/pipeline.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/skmultiflow/core/pipeline.py b/src/skmultiflow/core/pipeline.py
index f5d484d..1c9628d 100644
--- a/src/skmultiflow/core/pipeline.py
+++ b/src/skmultiflow/core/pipeline.py
@@ -1,3 +1,5 @@
+from inspect import signature
+
 from skmultiflow.core import BaseSKMObject
 from sklearn.utils import tosequence
 
@@ -167,18 +169,25 @@ class Pipeline(BaseSKMObject):
         for name, transform in self.steps[:-1]:
             if transform is None:
                 continue
-            if hasattr(transform, 'fit_transform'):
-                Xt = transform.partial_fit_transform(Xt, y, classes=classes)
+            if hasattr(transform, 'partial_fit_transform'):
+                kwargs = self._classes_kwargs(transform.partial_fit_transform, classes)
+                Xt = transform.partial_fit_transform(Xt, y, **kwargs)
             else:
-                Xt = transform.partial_fit(Xt, y, classes=classes).transform(Xt)
+                kwargs = self._classes_kwargs(transform.partial_fit, classes)
+                Xt = transform.partial_fit(Xt, y, **kwargs).transform(Xt)
 
         if self._final_estimator is not None:
-            if "classes" in self._final_estimator.partial_fit.__code__.co_varnames:
-                self._final_estimator.partial_fit(X=Xt, y=y, classes=classes)
-            else:
-                self._final_estimator.partial_fit(X=Xt, y=y)
+            kwargs = self._classes_kwargs(self._final_estimator.partial_fit, classes)
+            self._final_estimator.partial_fit(X=Xt, y=y, **kwargs)
         return self
 
+    @staticmethod
+    def _classes_kwargs(method, classes):
+        """ The classes as keyword argument, if the method takes them. """
+        if "classes" in signature(method).parameters:
+            return {"classes": classes}
+        return {}
+
     def partial_fit_predict(self, X, y):
         """ partial_fit_predict
 
-- 
2.43.0


From 3ce82164e962ae636dfb0c324ea2a995b4ba0d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:17 +0000
Subject: [PATCH 082/109] fix: HalfSpaceTrees.predict gave every sample of a
 batch the label of the first one

---
 src/skmultiflow/anomaly_detection/half_space_trees.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/anomaly_detection/half_space_trees.py b/src/skmultiflow/anomaly_detection/half_space_trees.py
index a24fe53..f9c825d 100644
--- a/src/skmultiflow/anomaly_detection/half_space_trees.py
+++ b/src/skmultiflow/anomaly_detection/half_space_trees.py
@@ -193,7 +193,7 @@ class HalfSpaceTrees(BaseSKMObject, ClassifierMixin):
             else:
                 # if prediction of this instance is greater than the threshold
                 # defined, then this instance is classified as an anomaly.
-                if y_proba[0][1] > self.anomaly_threshold:
+                if y_proba[i][1] > self.anomaly_threshold:
                     predictions.append(1)
                 else:
                     predictions.append(0)
-- 
2.43.0


From 09911d05cba02216063b1b5301f56e729005d842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:35 +0000
Subject: [PATCH 083/109] fix: AdaptiveRandomForestRegressor.reset left a
 forest of single-feature trees and did not return the estimator

---
 src/skmultiflow/meta/adaptive_random_forest_regressor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/adaptive_random_forest_regressor.py b/src/skmultiflow/meta/adaptive_random_forest_regressor.py
index 1a1dd24..a9e41d6 100644
--- a/src/skmultiflow/meta/adaptive_random_forest_regressor.py
+++ b/src/skmultiflow/meta/adaptive_random_forest_regressor.py
@@ -348,9 +348,9 @@ class AdaptiveRandomForestRegressor(RegressorMixin, AdaptiveRandomForestClassifi
         # TODO: check whether this is enough
 
         self.ensemble = None
-        self.max_features = 0
         self.instances_seen = 0
         self._random_state = check_random_state(self.random_state)
+        return self
 
     def _init_ensemble(self, X):
         self._set_max_features(get_dimensions(X)[1])
-- 
2.43.0


From 5c061597cc78c1debb0a86b7d06317fc44801392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:41 +0000
Subject: [PATCH 084/109] fix: AdaptiveRandomForestRegressor with one weighted
 tree predicted NaN

---
 src/skmultiflow/meta/adaptive_random_forest_regressor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/adaptive_random_forest_regressor.py b/src/skmultiflow/meta/adaptive_random_forest_regressor.py
index a9e41d6..4b8121f 100644
--- a/src/skmultiflow/meta/adaptive_random_forest_regressor.py
+++ b/src/skmultiflow/meta/adaptive_random_forest_regressor.py
@@ -325,7 +325,7 @@ class AdaptiveRandomForestRegressor(RegressorMixin, AdaptiveRandomForestClassifi
                 weights = np.asarray([learner.get_error() for learner in self.ensemble])
                 sum_weights = weights.sum()
 
-                if sum_weights != 0:
+                if sum_weights != 0 and len(weights) > 1:
                     # The higher the error, the worse is the tree
                     weights = sum_weights - weights
                     # Normalize weights to sum up to 1
-- 
2.43.0


From 232e6ab463500b1138bacc78223171a793154c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:54 +0000
Subject: [PATCH 085/109] fix: StreamingRandomPatchesClassifier never finished
 setting up more learners than there are subspaces

---
 src/skmultiflow/meta/streaming_random_patches.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/streaming_random_patches.py b/src/skmultiflow/meta/streaming_random_patches.py
index c478389..be6367b 100644
--- a/src/skmultiflow/meta/streaming_random_patches.py
+++ b/src/skmultiflow/meta/streaming_random_patches.py
@@ -360,7 +360,7 @@ class StreamingRandomPatchesClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
                     i = 0
                     while len(self._subspaces) < self.n_estimators:
                         i = 0 if i == len(self._subspaces) else i
-                        np.vstack((self._subspaces, self._subspaces[i]))
+                        self._subspaces = np.vstack((self._subspaces, self._subspaces[i]))
                         i += 1
                 # For high dimensionality we can't generate all combinations
                 # as it is too expensive (memory). On top of that, the chance
-- 
2.43.0


From 794839ca9e97d2eb37414e4180b36e282a13c8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:05 +0000
Subject: [PATCH 086/109] fix: StreamingRandomPatchesClassifier trained its
 learners without the sample weights

---
 src/skmultiflow/meta/streaming_random_patches.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/meta/streaming_random_patches.py b/src/skmultiflow/meta/streaming_random_patches.py
index be6367b..4b3fc2d 100644
--- a/src/skmultiflow/meta/streaming_random_patches.py
+++ b/src/skmultiflow/meta/streaming_random_patches.py
@@ -233,7 +233,7 @@ class StreamingRandomPatchesClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
             # i.e. all instances are used for training.
             if self.training_method == self._TRAIN_RANDOM_SUBSPACES:
                 self.ensemble[i].partial_fit(X=X, y=y, classes=classes,
-                                             sample_weight=np.asarray([1.]),
+                                             sample_weight=sample_weight,
                                              n_samples_seen=self._n_samples_seen,
                                              random_state=self._random_state)
             # Train using random patches or resampling,
@@ -242,7 +242,7 @@ class StreamingRandomPatchesClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
                 k = self._random_state.poisson(lam=self.lam)
                 if k > 0:
                     self.ensemble[i].partial_fit(X=X, y=y, classes=classes,
-                                                 sample_weight=np.asarray([k]),
+                                                 sample_weight=k * sample_weight,
                                                  n_samples_seen=self._n_samples_seen,
                                                  random_state=self._random_state)
 
-- 
2.43.0


From 9a69aded778d3fc9331bab2ae69b8b8b688057b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:18 +0000
Subject: [PATCH 087/109] fix: StreamingRandomPatchesClassifier.reset did not
 return the estimator

---
 src/skmultiflow/meta/streaming_random_patches.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/skmultiflow/meta/streaming_random_patches.py b/src/skmultiflow/meta/streaming_random_patches.py
index 4b3fc2d..2698191 100644
--- a/src/skmultiflow/meta/streaming_random_patches.py
+++ b/src/skmultiflow/meta/streaming_random_patches.py
@@ -420,6 +420,7 @@ class StreamingRandomPatchesClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
         self.ensemble = None
         self._n_samples_seen = 0
         self._random_state = check_random_state(self.random_state)
+        return self
 
 
 class StreamingRandomPatchesBaseLearner:
-- 
2.43.0


From f94f44fa8d76461a7c059c5fbbd0de81d7b69683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:08 +0000
Subject: [PATCH 088/109] fix: AdaptiveRandomForestClassifier trained its trees
 without the sample weights

---
 src/skmultiflow/meta/adaptive_random_forests.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/adaptive_random_forests.py b/src/skmultiflow/meta/adaptive_random_forests.py
index 9c1be79..472a5a2 100644
--- a/src/skmultiflow/meta/adaptive_random_forests.py
+++ b/src/skmultiflow/meta/adaptive_random_forests.py
@@ -327,7 +327,7 @@ class AdaptiveRandomForestClassifier(BaseSKMObject, ClassifierMixin, MetaEstimat
             if k > 0:
                 self.ensemble[i].partial_fit(np.asarray([X]), np.asarray([y]),
                                              classes=classes,
-                                             sample_weight=np.asarray([k]),
+                                             sample_weight=np.asarray([k * sample_weight]),
                                              instances_seen=self.instances_seen)
 
     def predict(self, X):
-- 
2.43.0


From 243f9eff61ab7cebe08eea8b17277a3697b6b86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:18 +0000
Subject: [PATCH 089/109] fix: AdaptiveRandomForestClassifier.predict_proba
 gave ragged rows when some sample got no vote and the classes are known

---
 src/skmultiflow/meta/adaptive_random_forests.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/adaptive_random_forests.py b/src/skmultiflow/meta/adaptive_random_forests.py
index 472a5a2..23b7449 100644
--- a/src/skmultiflow/meta/adaptive_random_forests.py
+++ b/src/skmultiflow/meta/adaptive_random_forests.py
@@ -382,7 +382,8 @@ class AdaptiveRandomForestClassifier(BaseSKMObject, ClassifierMixin, MetaEstimat
             votes = deepcopy(self._get_votes_for_instance(X[i]))
             if votes == {}:
                 # Estimator is empty, all classes equal, default to zero
-                y_proba.append([0])
+                n_columns = 1 if self.classes is None else int(max(self.classes)) + 1
+                y_proba.append(np.zeros(n_columns))
             else:
                 if sum(votes.values()) != 0:
                     votes = normalize_values_in_dict(votes)
-- 
2.43.0


From b201f841a54397e6f425fa8687036015197580b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:29 +0000
Subject: [PATCH 090/109] fix: AdaptiveRandomForestClassifier.reset kept the
 class labels and did not return the estimator

---
 src/skmultiflow/meta/adaptive_random_forests.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/skmultiflow/meta/adaptive_random_forests.py b/src/skmultiflow/meta/adaptive_random_forests.py
index 23b7449..862583d 100644
--- a/src/skmultiflow/meta/adaptive_random_forests.py
+++ b/src/skmultiflow/meta/adaptive_random_forests.py
@@ -407,7 +407,9 @@ class AdaptiveRandomForestClassifier(BaseSKMObject, ClassifierMixin, MetaEstimat
         self.ensemble = None
         self.instances_seen = 0
         self._train_weight_seen_by_model = 0.0
+        self.classes = None
         self._random_state = check_random_state(self.random_state)
+        return self
 
     def _get_votes_for_instance(self, X):
         if self.ensemble is None:
-- 
2.43.0


From e49aba8f1bd592bd91977ebd9390aa9d75b250d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:31 +0000
Subject: [PATCH 091/109] fix: StreamingRandomPatches learners lost the nominal
 attributes after an immediate drift and in resampling mode

---
 src/skmultiflow/meta/streaming_random_patches.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/skmultiflow/meta/streaming_random_patches.py b/src/skmultiflow/meta/streaming_random_patches.py
index 2698191..efbc02e 100644
--- a/src/skmultiflow/meta/streaming_random_patches.py
+++ b/src/skmultiflow/meta/streaming_random_patches.py
@@ -491,6 +491,9 @@ class StreamingRandomPatchesBaseLearner:
         else:
             # Use all features
             X_subset = X
+            if self._set_nominal_attributes and hasattr(self.base_estimator, 'nominal_attributes'):
+                self.base_estimator.nominal_attributes = self.nominal_attributes
+                self._set_nominal_attributes = False
 
         self.base_estimator.partial_fit(X=X_subset, y=y,
                                         classes=classes,
@@ -581,6 +584,7 @@ class StreamingRandomPatchesBaseLearner:
             self.performance_evaluator.reset()
             self.created_on = self._background_learner.created_on
             self.feature_indexes = self._background_learner.feature_indexes
+            self._set_nominal_attributes = self._background_learner._set_nominal_attributes
             self._background_learner = None
         else:
             self.base_estimator.reset()
-- 
2.43.0


From b900273084e2fb7389baa82dfa3c63c604f1f4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:58 +0000
Subject: [PATCH 092/109] fix: AdaptiveRandomForestClassifier.partial_fit
 refused one weight per sample of a batch

---
 src/skmultiflow/meta/adaptive_random_forests.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/adaptive_random_forests.py b/src/skmultiflow/meta/adaptive_random_forests.py
index 862583d..97d88bf 100644
--- a/src/skmultiflow/meta/adaptive_random_forests.py
+++ b/src/skmultiflow/meta/adaptive_random_forests.py
@@ -306,7 +306,7 @@ class AdaptiveRandomForestClassifier(BaseSKMObject, ClassifierMixin, MetaEstimat
 
         if y is not None:
             row_cnt, _ = get_dimensions(X)
-            weight = check_weights(weight, expand_length=row_cnt)
+            weight = check_weights(weight, expand_length=row_cnt if np.size(weight) == 1 else 1)
             for i in range(row_cnt):
                 if weight[i] != 0.0:
                     self._train_weight_seen_by_model += weight[i]
-- 
2.43.0


From 58c25f60c002220f192087b42fb1512d8c4f6b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:07 +0000
Subject: [PATCH 093/109] fix: AdaptiveRandomForestClassifier gave negative
 probabilities when weighting votes by a negative kappa

---
 src/skmultiflow/meta/adaptive_random_forests.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/adaptive_random_forests.py b/src/skmultiflow/meta/adaptive_random_forests.py
index 97d88bf..fb1652b 100644
--- a/src/skmultiflow/meta/adaptive_random_forests.py
+++ b/src/skmultiflow/meta/adaptive_random_forests.py
@@ -424,7 +424,7 @@ class AdaptiveRandomForestClassifier(BaseSKMObject, ClassifierMixin, MetaEstimat
                     performance = self.ensemble[i].evaluator.accuracy_score()\
                         if self.performance_metric == 'acc'\
                         else self.ensemble[i].evaluator.kappa_score()
-                    if performance != 0.0:  # CHECK How to handle negative (kappa) values?
+                    if performance > 0.0:  # CHECK How to handle negative (kappa) values?
                         for k in vote:
                             vote[k] = vote[k] * performance
                 # Add values
-- 
2.43.0


From 35fba3393459d687422f3e361dfbffc438b32484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:12 +0000
Subject: [PATCH 094/109] fix: StreamingRandomPatchesClassifier.predict_proba
 gave values that do not add up to one

---
 src/skmultiflow/meta/streaming_random_patches.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/skmultiflow/meta/streaming_random_patches.py b/src/skmultiflow/meta/streaming_random_patches.py
index efbc02e..62c8ddc 100644
--- a/src/skmultiflow/meta/streaming_random_patches.py
+++ b/src/skmultiflow/meta/streaming_random_patches.py
@@ -315,6 +315,8 @@ class StreamingRandomPatchesClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
                         y_proba_temp.resize((len(y_proba), ), refcheck=False)
                 # Add values
                 y_proba += y_proba_temp
+        if np.sum(y_proba) > 0.0:
+            y_proba /= np.sum(y_proba)
         return y_proba
 
     def _init_ensemble(self, n_features: int):
-- 
2.43.0


From fc981d990580b477ae3b6e38d9797c0d9a7f9ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:23 +0000
Subject: [PATCH 095/109] fix: StreamingRandomPatchesClassifier.predict_proba
 gave ragged rows when the learners know different classes

---
 src/skmultiflow/meta/streaming_random_patches.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/streaming_random_patches.py b/src/skmultiflow/meta/streaming_random_patches.py
index 62c8ddc..a572c3d 100644
--- a/src/skmultiflow/meta/streaming_random_patches.py
+++ b/src/skmultiflow/meta/streaming_random_patches.py
@@ -295,7 +295,8 @@ class StreamingRandomPatchesClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
 
         for i in range(n_samples):
             y_proba.append(self._predict_proba(np.asarray([X[i]])))
-        return np.asarray(y_proba)
+        n_columns = max(len(row) for row in y_proba)
+        return np.asarray([np.append(row, np.zeros(n_columns - len(row))) for row in y_proba])
 
     def _predict_proba(self, X):
         y_proba = np.asarray([0.])
-- 
2.43.0


From d3bac282f0eb83ffe34df0f1fb0c1196b5175525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:27 +0000
Subject: [PATCH 096/109] fix: LearnPPNSEClassifier could not be cloned

---
 src/skmultiflow/meta/learn_nse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/learn_nse.py b/src/skmultiflow/meta/learn_nse.py
index cadd2d0..828eb71 100644
--- a/src/skmultiflow/meta/learn_nse.py
+++ b/src/skmultiflow/meta/learn_nse.py
@@ -108,7 +108,7 @@ class LearnPPNSEClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
         self.X_batch = []
         self.y_batch = []
         self.instance_weights = []
-        self.base_estimator = cp.deepcopy(base_estimator)
+        self.base_estimator = base_estimator
         self.classes = None
 
     @staticmethod
-- 
2.43.0


From fed7653ea8f5d4d213b3d20356dfb79c08541ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:36 +0000
Subject: [PATCH 097/109] fix: StreamingRandomPatchesClassifier could not be
 cloned

---
 src/skmultiflow/meta/streaming_random_patches.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/streaming_random_patches.py b/src/skmultiflow/meta/streaming_random_patches.py
index a572c3d..ba25928 100644
--- a/src/skmultiflow/meta/streaming_random_patches.py
+++ b/src/skmultiflow/meta/streaming_random_patches.py
@@ -168,7 +168,7 @@ class StreamingRandomPatchesClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
         self.disable_background_learner = disable_background_learner
         # Single option (accuracy) for drift detection criteria. Could be extended in the future.
         self.drift_detection_criteria = 'accuracy'
-        self.nominal_attributes = nominal_attributes if nominal_attributes else []
+        self.nominal_attributes = nominal_attributes
         self.random_state = random_state
         # self._random_state is the actual object used internally
         self._random_state = check_random_state(self.random_state)
-- 
2.43.0


From 470c8d91014cc19189797ea0ac0e30cca2289f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:43 +0000
Subject: [PATCH 098/109] fix: SAMKNNClassifier did not keep its parameter
 max_window_size, so that clone and reset failed

---
 src/skmultiflow/lazy/sam_knn.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/skmultiflow/lazy/sam_knn.py b/src/skmultiflow/lazy/sam_knn.py
index cdfc9cc..ddcf2f6 100644
--- a/src/skmultiflow/lazy/sam_knn.py
+++ b/src/skmultiflow/lazy/sam_knn.py
@@ -112,7 +112,7 @@ class SAMKNNClassifier(BaseSKMObject, ClassifierMixin):
         super().__init__()
         self.n_neighbors = n_neighbors
         self.weighting = weighting
-        self.max_wind_size = max_window_size
+        self.max_window_size = max_window_size
         self.ltm_size = ltm_size
         self.min_stm_size = min_stm_size
         self.use_ltm = use_ltm
@@ -122,8 +122,8 @@ class SAMKNNClassifier(BaseSKMObject, ClassifierMixin):
         self._STMLabels = np.empty(shape=(0), dtype=np.int32)
         self._LTMSamples = None
         self._LTMLabels = np.empty(shape=(0), dtype=np.int32)
-        self.maxLTMSize = self.ltm_size * self.max_wind_size
-        self.maxSTMSize = self.max_wind_size - self.maxLTMSize
+        self.maxLTMSize = self.ltm_size * self.max_window_size
+        self.maxSTMSize = self.max_window_size - self.maxLTMSize
         self.minSTMSize = self.min_stm_size
 
         if self.stm_size_option is not None:
-- 
2.43.0


From 32b1f558667d44bb5d38905ead03fa779d1e2a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:52 +0000
Subject: [PATCH 099/109] fix: SAMKNNClassifier failed with a full memory when
 stm_size_option is None

---
 src/skmultiflow/lazy/sam_knn.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/skmultiflow/lazy/sam_knn.py b/src/skmultiflow/lazy/sam_knn.py
index ddcf2f6..b15aeb1 100644
--- a/src/skmultiflow/lazy/sam_knn.py
+++ b/src/skmultiflow/lazy/sam_knn.py
@@ -126,8 +126,7 @@ class SAMKNNClassifier(BaseSKMObject, ClassifierMixin):
         self.maxSTMSize = self.max_window_size - self.maxLTMSize
         self.minSTMSize = self.min_stm_size
 
-        if self.stm_size_option is not None:
-            self.STMDistances = np.zeros(shape=(max_window_size + 1, max_window_size + 1))
+        self.STMDistances = np.zeros(shape=(max_window_size + 1, max_window_size + 1))
         if self.weighting == 'distance':
             self.getLabelsFct = SAMKNNClassifier.get_distance_weighted_label
         elif self.weighting == 'uniform':
-- 
2.43.0


From 59eab71e4d15be5b810cc2b6fbfe865e629f4d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:04 +0000
Subject: [PATCH 100/109] fix: MultiOutputLearner.reset did not return the
 estimator

---
 src/skmultiflow/meta/multi_output_learner.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/skmultiflow/meta/multi_output_learner.py b/src/skmultiflow/meta/multi_output_learner.py
index 1ed846f..db4645c 100644
--- a/src/skmultiflow/meta/multi_output_learner.py
+++ b/src/skmultiflow/meta/multi_output_learner.py
@@ -243,6 +243,7 @@ class MultiOutputLearner(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin, Mul
     def reset(self):
         self.ensemble = None
         self.n_targets = None
+        return self
 
     def _more_tags(self):
         return {'multioutput': True,
-- 
2.43.0


From 6bd78a281a0ca8f26ee4233f43229208177b9260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:08 +0000
Subject: [PATCH 101/109] fix: VeryFastDecisionRulesClassifier.predict_proba
 gave ragged rows when some sample got no vote

---
 src/skmultiflow/rules/very_fast_decision_rules.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/skmultiflow/rules/very_fast_decision_rules.py b/src/skmultiflow/rules/very_fast_decision_rules.py
index 289e33b..0562711 100644
--- a/src/skmultiflow/rules/very_fast_decision_rules.py
+++ b/src/skmultiflow/rules/very_fast_decision_rules.py
@@ -823,7 +823,8 @@ class VeryFastDecisionRulesClassifier(BaseSKMObject, ClassifierMixin):
             votes = copy.deepcopy(self.get_votes_for_instance(X[i]))
             if votes == {}:
                 # Tree is empty, all classes equal, default to zero
-                predictions.append([0])
+                predictions.append(np.zeros(1 if self.classes is None
+                                            else int(max(self.classes)) + 1))
             else:
                 if sum(votes.values()) != 0:
                     votes = normalize_values_in_dict(votes, inplace=False)
-- 
2.43.0


From 45438742073b974995bca86c35b8119e59557183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:34 +0000
Subject: [PATCH 102/109] fix: KSWIN.reset kept the number of samples seen

---
 src/skmultiflow/drift_detection/kswin.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/skmultiflow/drift_detection/kswin.py b/src/skmultiflow/drift_detection/kswin.py
index f9cf7f3..1c231ee 100644
--- a/src/skmultiflow/drift_detection/kswin.py
+++ b/src/skmultiflow/drift_detection/kswin.py
@@ -144,5 +144,6 @@ class KSWIN(BaseDriftDetector):
         Resets the change detector parameters.
         """
         self.p_value = 0
+        self.n = 0
         self.window = np.array([])
         self.change_detected = False
-- 
2.43.0


From 2f5b67a3680c2a312385bf6df72386a791e4e9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:29 +0000
Subject: [PATCH 103/109] fix: HoeffdingAdaptiveTreeRegressor.reset kept the
 counts of alternate trees

---
 .../trees/hoeffding_adaptive_tree_regressor.py            | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/skmultiflow/trees/hoeffding_adaptive_tree_regressor.py b/src/skmultiflow/trees/hoeffding_adaptive_tree_regressor.py
index fa035e0..fb822ad 100644
--- a/src/skmultiflow/trees/hoeffding_adaptive_tree_regressor.py
+++ b/src/skmultiflow/trees/hoeffding_adaptive_tree_regressor.py
@@ -159,6 +159,14 @@ class HoeffdingAdaptiveTreeRegressor(HoeffdingTreeRegressor):
         self.switch_alternate_trees_cnt = 0
         self.pruned_alternate_trees_cnt = 0
 
+    def reset(self):
+        super().reset()
+        self.alternate_trees_cnt = 0
+        self.switch_alternate_trees_cnt = 0
+        self.pruned_alternate_trees_cnt = 0
+
+        return self
+
     def _new_learning_node(self, initial_stats=None, parent_node=None,
                            is_active=True):
         """Create a new learning node.
-- 
2.43.0


From 80d6f1b3fbe1fa38ac163f07f61c0feb481dea85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:40 +0000
Subject: [PATCH 104/109] fix: HoeffdingAdaptiveTreeRegressor deactivated
 leaves by putting a class in the tree

---
 src/skmultiflow/trees/hoeffding_adaptive_tree_regressor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/trees/hoeffding_adaptive_tree_regressor.py b/src/skmultiflow/trees/hoeffding_adaptive_tree_regressor.py
index fb822ad..ac92f8b 100644
--- a/src/skmultiflow/trees/hoeffding_adaptive_tree_regressor.py
+++ b/src/skmultiflow/trees/hoeffding_adaptive_tree_regressor.py
@@ -182,9 +182,10 @@ class HoeffdingAdaptiveTreeRegressor(HoeffdingTreeRegressor):
         else:
             prediction_option = self.leaf_prediction
             if prediction_option == self._TARGET_MEAN:
-                return InactiveLearningNodeMean
+                return InactiveLearningNodeMean(initial_stats)
             else:
-                return InactiveLearningNodePerceptron
+                return InactiveLearningNodePerceptron(initial_stats, parent_node,
+                                                      random_state=self.random_state)
 
     def _partial_fit(self, X, y, weight):
         """Trains the model on samples X and corresponding targets y.
-- 
2.43.0


From cce5ca95adf0dbfb0de5090518675a128279d241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:08 +0000
Subject: [PATCH 105/109] fix: ARFHoeffdingTreeClassifier.reset did not return
 the estimator

---
 src/skmultiflow/trees/arf_hoeffding_tree.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/skmultiflow/trees/arf_hoeffding_tree.py b/src/skmultiflow/trees/arf_hoeffding_tree.py
index b90b1c3..950278f 100644
--- a/src/skmultiflow/trees/arf_hoeffding_tree.py
+++ b/src/skmultiflow/trees/arf_hoeffding_tree.py
@@ -140,6 +140,7 @@ class ARFHoeffdingTreeClassifier(HoeffdingTreeClassifier):
     def reset(self):
         super().reset()
         self._random_state = check_random_state(self.random_state)
+        return self
 
     def new_instance(self):
         return ARFHoeffdingTreeClassifier(max_byte_size=self.max_byte_size,
-- 
2.43.0


From 53486f6d033d00200f2929a185cd7c52aff86c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:19 +0000
Subject: [PATCH 106/109] fix: ARFHoeffdingTreeRegressor.reset did not return
 the estimator

---
 src/skmultiflow/trees/arf_hoeffding_tree_regressor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/skmultiflow/trees/arf_hoeffding_tree_regressor.py b/src/skmultiflow/trees/arf_hoeffding_tree_regressor.py
index 4c49d0b..cd593a0 100644
--- a/src/skmultiflow/trees/arf_hoeffding_tree_regressor.py
+++ b/src/skmultiflow/trees/arf_hoeffding_tree_regressor.py
@@ -120,6 +120,7 @@ class ARFHoeffdingTreeRegressor(HoeffdingTreeRegressor):
     def reset(self):
         super().reset()
         self._random_state = check_random_state(self.random_state)
+        return self
 
     def new_instance(self):
         return ARFHoeffdingTreeRegressor(max_byte_size=self.max_byte_size,
-- 
2.43.0


From c2f08b940c748fc55708f686a726080049964f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:01 +0000
Subject: [PATCH 107/109] fix:
 LabelCombinationHoeffdingTreeClassifier.partial_fit did not return the
 estimator

---
 src/skmultiflow/trees/label_combination_hoeffding_tree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/skmultiflow/trees/label_combination_hoeffding_tree.py b/src/skmultiflow/trees/label_combination_hoeffding_tree.py
index a02e0d6..2a89e07 100644
--- a/src/skmultiflow/trees/label_combination_hoeffding_tree.py
+++ b/src/skmultiflow/trees/label_combination_hoeffding_tree.py
@@ -177,7 +177,8 @@ class LabelCombinationHoeffdingTreeClassifier(HoeffdingTreeClassifier, MultiOutp
         -------
             self
             """
-        super().partial_fit(X, y, sample_weight=sample_weight)    # Override HT, infer the classes
+        # Override HT, infer the classes
+        return super().partial_fit(X, y, sample_weight=sample_weight)
 
     def predict(self, X):
         """Predicts the label of the X instance(s)
-- 
2.43.0


From 8220b7a551544d8f7cca578a0ed942f611fa8c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:23 +0000
Subject: [PATCH 108/109] fix: ExtremelyFastDecisionTreeClassifier.partial_fit
 did not return the estimator

---
 src/skmultiflow/trees/extremely_fast_decision_tree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/skmultiflow/trees/extremely_fast_decision_tree.py b/src/skmultiflow/trees/extremely_fast_decision_tree.py
index 241684e..dd2ec9c 100755
--- a/src/skmultiflow/trees/extremely_fast_decision_tree.py
+++ b/src/skmultiflow/trees/extremely_fast_decision_tree.py
@@ -223,6 +223,8 @@ class ExtremelyFastDecisionTreeClassifier(HoeffdingTreeClassifier):
                     self._train_weight_seen_by_model += sample_weight[i]
                     self._partial_fit(X[i], y[i], sample_weight[i])
 
+        return self
+
     #  Override _partial_fit
     def _partial_fit(self, X, y, sample_weight):
         """ Trains the model on samples X and corresponding targets y.
-- 
2.43.0


From b094f9375b2e92e3879f1ddb8a0626b3231494e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:00 +0000
Subject: [PATCH 109/109] fix: iSOUPTreeRegressor.partial_fit did not return
 the estimator

---
 src/skmultiflow/trees/isoup_tree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/skmultiflow/trees/isoup_tree.py b/src/skmultiflow/trees/isoup_tree.py
index ff7a9fa..8a5e200 100644
--- a/src/skmultiflow/trees/isoup_tree.py
+++ b/src/skmultiflow/trees/isoup_tree.py
@@ -379,6 +379,8 @@ class iSOUPTreeRegressor(HoeffdingTreeRegressor, MultiOutputMixin):
                     self._train_weight_seen_by_model += sample_weight[i]
                     self._partial_fit(X[i], y[i], sample_weight[i])
 
+        return self
+
     def _partial_fit(self, X, y, sample_weight):
         """Trains the model on samples X and corresponding targets y.
 
-- 
2.43.0

