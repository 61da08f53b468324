From 804d62cc855bd5a1fdf6e30dcb32c751951875ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:07 +0000
Subject: [PATCH 01/70] fix: compare tree features in single precision like the
 native trees

---
 pure_sklearn/tree/_classes.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/tree/_classes.py b/pure_sklearn/tree/_classes.py
index e389c50..311d532 100644
--- a/pure_sklearn/tree/_classes.py
+++ b/pure_sklearn/tree/_classes.py
@@ -4,6 +4,7 @@ Classes for tree based models
 
 import warnings
 
+from array import array
 from math import isnan
 
 from ..base import safe_log
@@ -56,9 +57,11 @@ class _DecisionTreeBase:
 
     def _get_leaf_node(self, x):
         if isinstance(x, dict):
-            left_equal = lambda nd: x.get(self.feature_[nd], 0.0)
+            value = lambda nd: x.get(self.feature_[nd], 0.0)
         else:
-            left_equal = lambda nd: x[self.feature_[nd]]
+            value = lambda nd: x[self.feature_[nd]]
+        # features are compared in single precision, as the native trees do
+        left_equal = lambda nd: array("f", [value(nd)])[0]
         found_node = False
         node_id = 0
         while not found_node:
-- 
2.43.0


From d6c4e73b918c355353482b38f855cda4fe6cf933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:15 +0000
Subject: [PATCH 02/70] fix: place the probabilities of bagging members that
 saw only some classes

---
 pure_sklearn/ensemble/_bagging.py | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/pure_sklearn/ensemble/_bagging.py b/pure_sklearn/ensemble/_bagging.py
index f10446d..4563331 100644
--- a/pure_sklearn/ensemble/_bagging.py
+++ b/pure_sklearn/ensemble/_bagging.py
@@ -30,15 +30,33 @@ class _BaseBaggingPure:
         for est in estimator.estimators_:
             est_ = convert_estimator(est)
             self.estimators_.append(est_)
+        # index of the ensemble class behind each class known to a member;
+        # a member may have seen only some of the classes when it was fitted
+        self.class_index_ = [
+            [int(a) for a in est.classes_.tolist()] for est in estimator.estimators_
+        ]
         check_types(self)
 
+    def _member_proba(self, idx, X):
+        """ Class probabilities of one member, for all classes of the ensemble """
+        proba = self.estimators_[idx].predict_proba(
+            _feat_slice(X, self._get_feats(idx))
+        )
+        columns = self.class_index_[idx]
+        if columns == list(range(len(self.classes_))):
+            return proba
+        out = []
+        for row in proba:
+            full = [0.0] * len(self.classes_)
+            for column, value in zip(columns, row):
+                full[column] = value
+            out.append(full)
+        return out
+
     def predict_proba(self, X):
-        proba = self.estimators_[0].predict_proba(_feat_slice(X, self._get_feats(0)))
+        proba = self._member_proba(0, X)
         for idx in range(len(self.estimators_))[1:]:
-            proba_idx = self.estimators_[idx].predict_proba(
-                _feat_slice(X, self._get_feats(idx))
-            )
-            proba = operate_2d(proba, proba_idx, add)
+            proba = operate_2d(proba, self._member_proba(idx, X), add)
         func = lambda x: x / float(len(self.estimators_))
         return apply_2d(proba, func)
 
-- 
2.43.0


From accdd042fe04d07f008dfd441a0714870d7174b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:52 +0000
Subject: [PATCH 03/70] fix: softmax overflows or underflows for large scores

---
 pure_sklearn/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/base.py b/pure_sklearn/base.py
index ee53d0a..f15cd79 100644
--- a/pure_sklearn/base.py
+++ b/pure_sklearn/base.py
@@ -74,11 +74,13 @@ def expit(x):
 def sfmax(arr):
     """ Softmax function for 1-D list or a single sparse_list element """
     if isinstance(arr, dict):
-        expons = {k: safe_exp(v) for k, v in arr.items()}
+        max_val = max(arr.values()) if arr else 0.0
+        expons = {k: safe_exp(v - max_val) for k, v in arr.items()}
         denom = sum(expons.values())
         out = {k: (v / float(denom)) for k, v in expons.items()}
     else:
-        expons = list(map(safe_exp, arr))
+        max_val = max(arr)
+        expons = [safe_exp(x - max_val) for x in arr]
         out = list(map(lambda x: x / float(sum(expons)), expons))
     return out
 
-- 
2.43.0


From 690bc6ebb857715cd01b4767604229d6e02a4fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:58 +0000
Subject: [PATCH 04/70] fix: naive Bayes probabilities underflow for unlikely
 samples

---
 pure_sklearn/base.py        | 8 ++++++++
 pure_sklearn/naive_bayes.py | 4 ++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/base.py b/pure_sklearn/base.py
index f15cd79..5556d0c 100644
--- a/pure_sklearn/base.py
+++ b/pure_sklearn/base.py
@@ -85,6 +85,14 @@ def sfmax(arr):
     return out
 
 
+def logsumexp(arr):
+    """ Logarithm of the sum of exponentials of a 1-D list """
+    max_val = max(arr)
+    if max_val in (-float("Inf"), float("Inf")):
+        max_val = 0.0
+    return max_val + safe_log(sum(safe_exp(x - max_val) for x in arr))
+
+
 def safe_log(x):
     """ Equivalent to numpy log with scalar input """
     if x == 0:
diff --git a/pure_sklearn/naive_bayes.py b/pure_sklearn/naive_bayes.py
index 07b0cd6..a609347 100644
--- a/pure_sklearn/naive_bayes.py
+++ b/pure_sklearn/naive_bayes.py
@@ -5,7 +5,7 @@ Naive Bayes
 from abc import abstractmethod
 from math import pi
 
-from .base import dot, transpose, safe_log, safe_exp
+from .base import dot, transpose, safe_log, safe_exp, logsumexp
 from .utils import check_array, check_types, check_version
 
 __all__ = ["GaussianNBPure", "MultinomialNBPure", "ComplementNBPure"]
@@ -33,7 +33,7 @@ class _BaseNBPure:
         """
         X = check_array(X, handle_sparse="error")
         jll = self._joint_log_likelihood(X)
-        log_prob_x = list(map(lambda a: safe_log(sum(map(safe_exp, a))), jll))
+        log_prob_x = list(map(logsumexp, jll))
         return [
             list(map(lambda a: a - log_prob_x[index], jll[index]))
             for index in range(len(jll))
-- 
2.43.0


From e38c95e2dc8ec0c296a6778e6cb174227c4a3327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:05 +0000
Subject: [PATCH 05/70] fix: GaussianNB raises OverflowError for samples far
 from every class

---
 pure_sklearn/naive_bayes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pure_sklearn/naive_bayes.py b/pure_sklearn/naive_bayes.py
index a609347..db628ec 100644
--- a/pure_sklearn/naive_bayes.py
+++ b/pure_sklearn/naive_bayes.py
@@ -73,7 +73,9 @@ class GaussianNBPure(_BaseNBPure):
             jll = [
                 list(
                     map(
-                        lambda b: ((a[b] - self.theta_[i][b]) ** 2) / self.sigma_[i][b],
+                        lambda b: (a[b] - self.theta_[i][b])
+                        * (a[b] - self.theta_[i][b])
+                        / self.sigma_[i][b],
                         range(len(a)),
                     )
                 )
-- 
2.43.0


From 8be9989d7e39a7217df43c589df9f476600f96f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:41 +0000
Subject: [PATCH 06/70] fix: bagging members without class probabilities vote
 for a class

---
 pure_sklearn/ensemble/_bagging.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pure_sklearn/ensemble/_bagging.py b/pure_sklearn/ensemble/_bagging.py
index 4563331..eb43ba3 100644
--- a/pure_sklearn/ensemble/_bagging.py
+++ b/pure_sklearn/ensemble/_bagging.py
@@ -35,13 +35,23 @@ class _BaseBaggingPure:
         self.class_index_ = [
             [int(a) for a in est.classes_.tolist()] for est in estimator.estimators_
         ]
+        # members without class probabilities vote for a class
+        self.voting_ = [
+            not hasattr(est, "predict_proba") for est in estimator.estimators_
+        ]
         check_types(self)
 
     def _member_proba(self, idx, X):
         """ Class probabilities of one member, for all classes of the ensemble """
-        proba = self.estimators_[idx].predict_proba(
-            _feat_slice(X, self._get_feats(idx))
-        )
+        member = self.estimators_[idx]
+        X = _feat_slice(X, self._get_feats(idx))
+        if self.voting_[idx]:
+            n_classes = len(self.classes_)
+            return [
+                [1.0 if i == int(label) else 0.0 for i in range(n_classes)]
+                for label in member.predict(X)
+            ]
+        proba = member.predict_proba(X)
         columns = self.class_index_[idx]
         if columns == list(range(len(self.classes_))):
             return proba
-- 
2.43.0


From 492412cfbad74dee8107bd65ab903dc5c416b615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:22 +0000
Subject: [PATCH 07/70] fix: bagging log-probabilities are lost when member
 probabilities underflow

---
 pure_sklearn/ensemble/_bagging.py | 33 +++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/pure_sklearn/ensemble/_bagging.py b/pure_sklearn/ensemble/_bagging.py
index eb43ba3..8458512 100644
--- a/pure_sklearn/ensemble/_bagging.py
+++ b/pure_sklearn/ensemble/_bagging.py
@@ -2,10 +2,11 @@
 Bagging classifier 
 """
 
+from math import log
 from operator import add
 
 from ..map import MAPPING, convert_estimator
-from ..base import safe_log, operate_2d, apply_2d
+from ..base import safe_log, logsumexp, operate_2d, apply_2d
 from ..utils import shape, check_types, check_version
 
 
@@ -41,8 +42,10 @@ class _BaseBaggingPure:
         ]
         check_types(self)
 
-    def _member_proba(self, idx, X):
-        """ Class probabilities of one member, for all classes of the ensemble """
+    def _member_proba(self, idx, X, log_space=False):
+        """
+        Class (log-)probabilities of one member, for all classes of the ensemble
+        """
         member = self.estimators_[idx]
         X = _feat_slice(X, self._get_feats(idx))
         if self.voting_[idx]:
@@ -51,13 +54,13 @@ class _BaseBaggingPure:
                 [1.0 if i == int(label) else 0.0 for i in range(n_classes)]
                 for label in member.predict(X)
             ]
-        proba = member.predict_proba(X)
+        proba = member.predict_log_proba(X) if log_space else member.predict_proba(X)
         columns = self.class_index_[idx]
         if columns == list(range(len(self.classes_))):
             return proba
         out = []
         for row in proba:
-            full = [0.0] * len(self.classes_)
+            full = [-float("Inf") if log_space else 0.0] * len(self.classes_)
             for column, value in zip(columns, row):
                 full[column] = value
             out.append(full)
@@ -91,4 +94,22 @@ class BaggingClassifierPure(_BaseBaggingPure):
         estimator (sklearn estimator): fitted `BaggingClassifier` object
     """
 
-    pass
+    def __init__(self, estimator):
+        super().__init__(estimator)
+        self.log_members_ = hasattr(estimator.base_estimator_, "predict_log_proba")
+
+    def predict_log_proba(self, X):
+        if not self.log_members_:
+            return super().predict_log_proba(X)
+        # sum in log space, where small member probabilities do not vanish
+        log_probas = [
+            self._member_proba(idx, X, log_space=True)
+            for idx in range(len(self.estimators_))
+        ]
+        return [
+            [
+                logsumexp([rows[col] for rows in member_rows]) - log(len(log_probas))
+                for col in range(len(self.classes_))
+            ]
+            for member_rows in zip(*log_probas)
+        ]
-- 
2.43.0


From 41a1790b9d01ac59dad682b4033bb069a6cd8e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:30 +0000
Subject: [PATCH 08/70] fix: column selection on sparse data keeps the original
 column numbers

---
 pure_sklearn/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/base.py b/pure_sklearn/base.py
index 5556d0c..a1dcac0 100644
--- a/pure_sklearn/base.py
+++ b/pure_sklearn/base.py
@@ -169,8 +169,8 @@ def slice_column(A, idx):
             return [a[idx] for a in A]
     if isinstance(idx, (list, tuple)):
         if issparse(A):
-            A_ = [{k: v for k, v in a.items() if k in idx} for a in A]
-            return sparse_list(A_, size=A.size, dtype=A.dtype)
+            A_ = [{j: a[k] for j, k in enumerate(idx) if k in a} for a in A]
+            return sparse_list(A_, size=len(idx), dtype=A.dtype)
         else:
             return [[a[i] for i in idx] for a in A]
 
-- 
2.43.0


From ffd2a4d62b364f2c72d451a841a653efea7be1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:12 +0000
Subject: [PATCH 09/70] fix: bagging fails on sparse rows with missing columns

---
 pure_sklearn/ensemble/_bagging.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/ensemble/_bagging.py b/pure_sklearn/ensemble/_bagging.py
index 8458512..778d50c 100644
--- a/pure_sklearn/ensemble/_bagging.py
+++ b/pure_sklearn/ensemble/_bagging.py
@@ -6,7 +6,7 @@ from math import log
 from operator import add
 
 from ..map import MAPPING, convert_estimator
-from ..base import safe_log, logsumexp, operate_2d, apply_2d
+from ..base import safe_log, logsumexp, operate_2d, apply_2d, slice_column
 from ..utils import shape, check_types, check_version
 
 
@@ -14,7 +14,7 @@ def _feat_slice(X, feats):
     if feats is None:
         return X
     else:
-        return [[a[i] for i in feats] for a in X]
+        return slice_column(X, feats)
 
 
 class _BaseBaggingPure:
-- 
2.43.0


From e2938896f6fdc4597a37f5a7c5718d5057b21446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:09 +0000
Subject: [PATCH 10/70] fix: multiclass gradient boosting probabilities
 overflow for large raw scores

---
 pure_sklearn/ensemble/_gb_losses.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pure_sklearn/ensemble/_gb_losses.py b/pure_sklearn/ensemble/_gb_losses.py
index 38501ca..03002f3 100644
--- a/pure_sklearn/ensemble/_gb_losses.py
+++ b/pure_sklearn/ensemble/_gb_losses.py
@@ -2,7 +2,7 @@
 Gradient boosting loss classes
 """
 
-from ..base import transpose, apply_axis_2d, apply_2d, safe_exp, safe_log, ravel, expit
+from ..base import transpose, apply_2d, safe_exp, safe_log, logsumexp, ravel, expit
 from ..utils import check_types, shape
 
 EPS = 1.1920929e-07
@@ -31,12 +31,10 @@ class _MultinomialDeviancePure:
         check_types(self)
 
     def _raw_prediction_to_proba(self, raw_predictions):
-        logsumexp = list(
-            map(safe_log, apply_axis_2d(apply_2d(raw_predictions, safe_exp), sum))
-        )
+        log_sums = list(map(logsumexp, raw_predictions))
         return [
             [
-                safe_exp(raw_predictions[index][i] - logsumexp[index])
+                safe_exp(raw_predictions[index][i] - log_sums[index])
                 for i in range(self.n_classes_)
             ]
             for index in range(len(raw_predictions))
-- 
2.43.0


From e42da69c647230f7ff1e626bc2ba78331a9bc101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:16 +0000
Subject: [PATCH 11/70] fix: wrong probabilities for gradient boosting with
 exponential loss

---
 pure_sklearn/ensemble/_gb_losses.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pure_sklearn/ensemble/_gb_losses.py b/pure_sklearn/ensemble/_gb_losses.py
index 03002f3..26f10dc 100644
--- a/pure_sklearn/ensemble/_gb_losses.py
+++ b/pure_sklearn/ensemble/_gb_losses.py
@@ -102,7 +102,7 @@ class _ExponentialLossPure:
             if shape(raw_predictions)[1] == 1
             else raw_predictions
         )
-        func = lambda x: expit(x) * 2.0
+        func = lambda x: expit(2.0 * x)
         proba_1 = list(map(func, proba))
         proba = [[(1 - x) for x in proba_1], proba_1]
         return transpose(proba)
-- 
2.43.0


From ec9cd9aaa3095e6d59a9fd653f61897d79e4a3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:23 +0000
Subject: [PATCH 12/70] fix: gradient boosting ignores the decision rule of its
 loss

---
 pure_sklearn/ensemble/_gb.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/ensemble/_gb.py b/pure_sklearn/ensemble/_gb.py
index ef90d56..78e7221 100644
--- a/pure_sklearn/ensemble/_gb.py
+++ b/pure_sklearn/ensemble/_gb.py
@@ -88,5 +88,6 @@ class GradientBoostingClassifierPure:
         return apply_2d(self.predict_proba(X), safe_log)
 
     def predict(self, X):
-        proba = self.predict_proba(X)
-        return [self.classes_[a.index(max(a))] for a in proba]
+        raw_predictions = self._raw_predict(X)
+        decisions = self.loss_._raw_prediction_to_decision(raw_predictions)
+        return [self.classes_[a] for a in decisions]
-- 
2.43.0


From 80501a144aa50ff280d1aa0ef97154b565055313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:31 +0000
Subject: [PATCH 13/70] fix: gradient boosting with init='zero' cannot be
 converted

---
 pure_sklearn/ensemble/_gb.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/ensemble/_gb.py b/pure_sklearn/ensemble/_gb.py
index 78e7221..b095cb0 100644
--- a/pure_sklearn/ensemble/_gb.py
+++ b/pure_sklearn/ensemble/_gb.py
@@ -34,7 +34,10 @@ class GradientBoostingClassifierPure:
                 est_arr_.append(est_)
             self.estimators_.append(est_arr_)
         if hasattr(estimator, "init_"):
-            self.init_ = convert_estimator(estimator.init_)
+            if isinstance(estimator.init_, str):
+                self.init_ = str(estimator.init_)
+            else:
+                self.init_ = convert_estimator(estimator.init_)
         self.loss = estimator.loss
         self.learning_rate = estimator.learning_rate
         self.n_features_ = estimator.n_features_
@@ -60,7 +63,7 @@ class GradientBoostingClassifierPure:
                 )
             )
         if self.init_ == "zero":
-            raw_predictions = [[0.0] * shape(X)[1]] * shape(X)[0]
+            raw_predictions = [[0.0] * len(self.estimators_[0]) for _ in X]
         else:
             raw_predictions = self.loss_.get_init_raw_predictions(X, self.init_)
         return raw_predictions
-- 
2.43.0


From a3e2efe66fdea2b0349a10dde0e455dbee8665ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:01 +0000
Subject: [PATCH 14/70] fix: xgboost rows on a split threshold go to the wrong
 branch

---
 pure_sklearn/tree/_classes.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pure_sklearn/tree/_classes.py b/pure_sklearn/tree/_classes.py
index 311d532..21470aa 100644
--- a/pure_sklearn/tree/_classes.py
+++ b/pure_sklearn/tree/_classes.py
@@ -18,8 +18,13 @@ class _DecisionTreeBase:
         if isinstance(estimator, dict):
             # sourced from xgboost booster object tree dictionary
             self.threshold_ = list(
-                map(lambda x: -2 if isnan(x) else x, estimator["Split"])
+                map(
+                    lambda x: -2 if isnan(x) else array("f", [x])[0],
+                    estimator["Split"],
+                )
             )
+            # xgboost sends a row to the left when x < threshold, not x <= threshold
+            self.strict_ = True
             self.value_ = [[a] for a in estimator["Gain"]]
             self.children_left_ = list(
                 map(
@@ -47,6 +52,7 @@ class _DecisionTreeBase:
             self.feature_ = estimator.tree_.feature.tolist()
             self.threshold_ = estimator.tree_.threshold.tolist()
             self.value_ = [a[0] for a in estimator.tree_.value.tolist()]
+            self.strict_ = False
             with warnings.catch_warnings():
                 warnings.simplefilter("ignore")
                 if hasattr(estimator, "classes_") and (estimator.classes_ is not None):
@@ -61,14 +67,15 @@ class _DecisionTreeBase:
         else:
             value = lambda nd: x[self.feature_[nd]]
         # features are compared in single precision, as the native trees do
-        left_equal = lambda nd: array("f", [value(nd)])[0]
+        single = lambda nd: array("f", [value(nd)])[0]
         found_node = False
         node_id = 0
         while not found_node:
             if self.children_left_[node_id] == self.children_right_[node_id]:
                 found_node = True
             else:
-                if left_equal(node_id) <= self.threshold_[node_id]:
+                val, threshold = single(node_id), self.threshold_[node_id]
+                if val < threshold or (val == threshold and not self.strict_):
                     node_id = self.children_left_[node_id]
                 else:
                     node_id = self.children_right_[node_id]
-- 
2.43.0


From 19a05a96e2b5a4fd212209bbf1e27c1239d23af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:07 +0000
Subject: [PATCH 15/70] fix: xgboost models with ten or more features or with
 feature names split on the wrong feature

---
 pure_sklearn/tree/_classes.py    | 2 +-
 pure_sklearn/xgboost/_classes.py | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/tree/_classes.py b/pure_sklearn/tree/_classes.py
index 21470aa..259a2ba 100644
--- a/pure_sklearn/tree/_classes.py
+++ b/pure_sklearn/tree/_classes.py
@@ -40,7 +40,7 @@ class _DecisionTreeBase:
             )
             self.feature_ = list(
                 map(
-                    lambda x: -2 if x == "Leaf" else int(x.replace("f", "")[-1]),
+                    lambda x: -2 if x == "Leaf" else int(x.replace("f", "")),
                     estimator["Feature"],
                 )
             )
diff --git a/pure_sklearn/xgboost/_classes.py b/pure_sklearn/xgboost/_classes.py
index 3ed4c32..c42eccd 100644
--- a/pure_sklearn/xgboost/_classes.py
+++ b/pure_sklearn/xgboost/_classes.py
@@ -50,7 +50,12 @@ class XGBClassifierPure:
                 "This xgboost estimator was likely fitted with version < {} "
                 "which is not supported".format(MIN_VERSION)
             )
-        tree_df = estimator.get_booster().trees_to_dataframe()
+        # dump a copy without feature names and types, so that split features
+        # are always named 'f<index>' and thresholds are never rounded
+        booster = estimator.get_booster().copy()
+        booster.feature_names = None
+        booster.feature_types = None
+        tree_df = booster.trees_to_dataframe()
         estimators_ = []
         idx = 0
         for est_id in range(self.n_estimators):
-- 
2.43.0


From f46a2b076742c3b206cffa4af52067a8869be831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:27 +0000
Subject: [PATCH 16/70] fix: xgboost models ignore the branch learned for
 missing values

---
 pure_sklearn/tree/_classes.py    | 14 ++++++++++++--
 pure_sklearn/xgboost/_classes.py |  6 ++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/pure_sklearn/tree/_classes.py b/pure_sklearn/tree/_classes.py
index 259a2ba..8988539 100644
--- a/pure_sklearn/tree/_classes.py
+++ b/pure_sklearn/tree/_classes.py
@@ -14,7 +14,7 @@ from ..utils import check_array, check_types, check_version
 class _DecisionTreeBase:
     """ Decision tree base class """
 
-    def __init__(self, estimator):
+    def __init__(self, estimator, missing=float("NaN")):
         if isinstance(estimator, dict):
             # sourced from xgboost booster object tree dictionary
             self.threshold_ = list(
@@ -38,6 +38,14 @@ class _DecisionTreeBase:
                     estimator["No"],
                 )
             )
+            # branch taken by rows whose split feature is missing
+            self.children_missing_ = list(
+                map(
+                    lambda x: -1 if not isinstance(x, str) else int(x.split("-")[-1]),
+                    estimator["Missing"],
+                )
+            )
+            self.missing_ = array("f", [missing])[0]
             self.feature_ = list(
                 map(
                     lambda x: -2 if x == "Leaf" else int(x.replace("f", "")),
@@ -75,7 +83,9 @@ class _DecisionTreeBase:
                 found_node = True
             else:
                 val, threshold = single(node_id), self.threshold_[node_id]
-                if val < threshold or (val == threshold and not self.strict_):
+                if self.strict_ and (isnan(val) or val == self.missing_):
+                    node_id = self.children_missing_[node_id]
+                elif val < threshold or (val == threshold and not self.strict_):
                     node_id = self.children_left_[node_id]
                 else:
                     node_id = self.children_right_[node_id]
diff --git a/pure_sklearn/xgboost/_classes.py b/pure_sklearn/xgboost/_classes.py
index c42eccd..509ba28 100644
--- a/pure_sklearn/xgboost/_classes.py
+++ b/pure_sklearn/xgboost/_classes.py
@@ -56,18 +56,20 @@ class XGBClassifierPure:
         booster.feature_names = None
         booster.feature_types = None
         tree_df = booster.trees_to_dataframe()
+        missing = getattr(estimator, "missing", None)
+        missing = float("NaN") if missing is None else float(missing)
         estimators_ = []
         idx = 0
         for est_id in range(self.n_estimators):
             if self.n_classes_ == 2:
                 tree = tree_df[tree_df["Tree"] == idx].to_dict(orient="list")
-                est_row_ = DecisionTreeRegressorPure(tree)
+                est_row_ = DecisionTreeRegressorPure(tree, missing)
                 idx += 1
             else:
                 est_row_ = []
                 for cls_id in range(self.n_classes_):
                     tree = tree_df[tree_df["Tree"] == idx].to_dict(orient="list")
-                    est_row_.append(DecisionTreeRegressorPure(tree))
+                    est_row_.append(DecisionTreeRegressorPure(tree, missing))
                     idx += 1
             estimators_.append(est_row_)
         return estimators_
-- 
2.43.0


From 9ef1d2bafd65cb33f736639ffa2d63f875845124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:08 +0000
Subject: [PATCH 17/70] fix: pruned xgboost trees cannot be walked

---
 pure_sklearn/tree/_classes.py | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/pure_sklearn/tree/_classes.py b/pure_sklearn/tree/_classes.py
index 8988539..809edca 100644
--- a/pure_sklearn/tree/_classes.py
+++ b/pure_sklearn/tree/_classes.py
@@ -26,25 +26,17 @@ class _DecisionTreeBase:
             # xgboost sends a row to the left when x < threshold, not x <= threshold
             self.strict_ = True
             self.value_ = [[a] for a in estimator["Gain"]]
-            self.children_left_ = list(
-                map(
-                    lambda x: -1 if not isinstance(x, str) else int(x.split("-")[-1]),
-                    estimator["Yes"],
-                )
-            )
-            self.children_right_ = list(
-                map(
-                    lambda x: -1 if not isinstance(x, str) else int(x.split("-")[-1]),
-                    estimator["No"],
-                )
+            # nodes removed by pruning leave gaps in the node numbers
+            position = {node: i for i, node in enumerate(estimator["Node"])}
+            child = (
+                lambda x: -1
+                if not isinstance(x, str)
+                else position[int(x.split("-")[-1])]
             )
+            self.children_left_ = list(map(child, estimator["Yes"]))
+            self.children_right_ = list(map(child, estimator["No"]))
             # branch taken by rows whose split feature is missing
-            self.children_missing_ = list(
-                map(
-                    lambda x: -1 if not isinstance(x, str) else int(x.split("-")[-1]),
-                    estimator["Missing"],
-                )
-            )
+            self.children_missing_ = list(map(child, estimator["Missing"]))
             self.missing_ = array("f", [missing])[0]
             self.feature_ = list(
                 map(
-- 
2.43.0


From ef076757534cd81cfa00996923db905a80e27f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:15 +0000
Subject: [PATCH 18/70] fix: xgboost models use the number of trees the booster
 predicts with

---
 pure_sklearn/xgboost/_classes.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/pure_sklearn/xgboost/_classes.py b/pure_sklearn/xgboost/_classes.py
index 509ba28..addbd9c 100644
--- a/pure_sklearn/xgboost/_classes.py
+++ b/pure_sklearn/xgboost/_classes.py
@@ -39,7 +39,6 @@ class XGBClassifierPure:
             self.booster = estimator.booster
         self.classes_ = estimator.classes_.tolist()
         self.n_classes_ = estimator.n_classes_
-        self.n_estimators = estimator.n_estimators
         self.estimators_ = self._build_estimators(estimator)
         check_types(self)
 
@@ -58,20 +57,26 @@ class XGBClassifierPure:
         tree_df = booster.trees_to_dataframe()
         missing = getattr(estimator, "missing", None)
         missing = float("NaN") if missing is None else float(missing)
+        # the booster may hold fewer or more rounds than 'n_estimators', and
+        # predicts with the rounds up to the best one after early stopping
+        n_groups = 1 if self.objective == "binary:logistic" else self.n_classes_
+        n_parallel = getattr(estimator, "num_parallel_tree", None) or 1
+        n_trees = int(tree_df["Tree"].max()) + 1
+        n_rounds = n_trees // (n_groups * n_parallel)
+        try:
+            n_rounds = min(n_rounds, estimator.best_iteration + 1)
+        except AttributeError:
+            pass
         estimators_ = []
-        idx = 0
-        for est_id in range(self.n_estimators):
-            if self.n_classes_ == 2:
-                tree = tree_df[tree_df["Tree"] == idx].to_dict(orient="list")
-                est_row_ = DecisionTreeRegressorPure(tree, missing)
-                idx += 1
-            else:
+        for round_id in range(n_rounds):
+            for parallel_id in range(n_parallel):
                 est_row_ = []
-                for cls_id in range(self.n_classes_):
+                for cls_id in range(n_groups):
+                    idx = (round_id * n_groups + cls_id) * n_parallel + parallel_id
                     tree = tree_df[tree_df["Tree"] == idx].to_dict(orient="list")
                     est_row_.append(DecisionTreeRegressorPure(tree, missing))
-                    idx += 1
-            estimators_.append(est_row_)
+                estimators_.append(est_row_ if n_groups > 1 else est_row_[0])
+        self.n_estimators = len(estimators_)
         return estimators_
 
     def _predict(self, X):
-- 
2.43.0


From faf2ef614813d3da4845d018cc0969ea6763a60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:23 +0000
Subject: [PATCH 19/70] fix: xgboost models ignore the base score

---
 pure_sklearn/xgboost/_classes.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/xgboost/_classes.py b/pure_sklearn/xgboost/_classes.py
index addbd9c..40376ba 100644
--- a/pure_sklearn/xgboost/_classes.py
+++ b/pure_sklearn/xgboost/_classes.py
@@ -2,7 +2,9 @@
 Estimator classes for xgboost
 """
 
-from math import exp
+import json
+
+from math import exp, log
 
 from ..base import sfmax, expit
 from ..utils import check_types, check_array
@@ -39,9 +41,23 @@ class XGBClassifierPure:
             self.booster = estimator.booster
         self.classes_ = estimator.classes_.tolist()
         self.n_classes_ = estimator.n_classes_
+        self.base_margin_ = self._base_margin(estimator)
         self.estimators_ = self._build_estimators(estimator)
         check_types(self)
 
+    def _base_margin(self, estimator):
+        """ Initial raw prediction; only matters for the binary objective """
+        if self.objective != "binary:logistic":
+            return 0.0
+        booster = estimator.get_booster()
+        if hasattr(booster, "save_config"):
+            config = json.loads(booster.save_config())
+            base_score = config["learner"]["learner_model_param"]["base_score"]
+        else:
+            base_score = estimator.base_score
+        base_score = float(base_score)
+        return log(base_score / (1.0 - base_score))
+
     def _build_estimators(self, estimator):
         """ Convert booster to list of pure decision tree regressors """
         if not hasattr(estimator.get_booster(), "trees_to_dataframe"):
@@ -92,7 +108,7 @@ class XGBClassifierPure:
 
     def _predict_binary(self, X):
         """ Raw sums of estimator predictions for each class for binary """
-        preds = [0] * len(X)
+        preds = [self.base_margin_] * len(X)
         for estimator in self.estimators_:
             preds = list(map(lambda x, y: x + y, preds, estimator.predict(X)))
         return preds
-- 
2.43.0


From 9e0f4beea1b1ede431b1a2c1e4ef40d0ae79721e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:30 +0000
Subject: [PATCH 20/70] fix: xgboost models with the default booster are
 refused

---
 pure_sklearn/xgboost/_classes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pure_sklearn/xgboost/_classes.py b/pure_sklearn/xgboost/_classes.py
index 40376ba..a3aa0ca 100644
--- a/pure_sklearn/xgboost/_classes.py
+++ b/pure_sklearn/xgboost/_classes.py
@@ -35,10 +35,10 @@ class XGBClassifierPure:
             )
         else:
             self.objective = estimator.objective
-        if estimator.booster not in SUPPORTED_BOOSTER:
-            raise ValueError("Booster: '{}' not supported".format(estimator.booster))
-        else:
-            self.booster = estimator.booster
+        # recent versions leave the booster unset when it is the default one
+        self.booster = "gbtree" if estimator.booster is None else estimator.booster
+        if self.booster not in SUPPORTED_BOOSTER:
+            raise ValueError("Booster: '{}' not supported".format(self.booster))
         self.classes_ = estimator.classes_.tolist()
         self.n_classes_ = estimator.n_classes_
         self.base_margin_ = self._base_margin(estimator)
-- 
2.43.0


From 73c699218f2dbf49bbf424753822b664e08e028d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:21 +0000
Subject: [PATCH 21/70] fix: DummyClassifier predicts the class position
 instead of the class label

---
 pure_sklearn/dummy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pure_sklearn/dummy.py b/pure_sklearn/dummy.py
index 3697848..1938781 100644
--- a/pure_sklearn/dummy.py
+++ b/pure_sklearn/dummy.py
@@ -26,12 +26,14 @@ class DummyClassifierPure:
         if self._strategy != "prior":
             raise ValueError("Strategy '{}' not supported".format(self._strategy))
         self.class_prior_ = estimator.class_prior_.tolist()
+        self.classes_ = estimator.classes_.tolist()
         self.n_classes_ = estimator.n_classes_
         self.n_outputs_ = estimator.n_outputs_
         check_types(self)
 
     def predict(self, X):
-        return [self.class_prior_.index(max(self.class_prior_))] * len(X)
+        index = self.class_prior_.index(max(self.class_prior_))
+        return [self.classes_[index]] * len(X)
 
     def predict_proba(self, X):
         return [self.class_prior_] * len(X)
-- 
2.43.0


From e97b128c56ad672ad9c3b11ffa3c4bbd473072ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:29 +0000
Subject: [PATCH 22/70] fix: DummyClassifier hands out its own prior as the
 probabilities of every row

---
 pure_sklearn/dummy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pure_sklearn/dummy.py b/pure_sklearn/dummy.py
index 1938781..9f82243 100644
--- a/pure_sklearn/dummy.py
+++ b/pure_sklearn/dummy.py
@@ -36,7 +36,7 @@ class DummyClassifierPure:
         return [self.classes_[index]] * len(X)
 
     def predict_proba(self, X):
-        return [self.class_prior_] * len(X)
+        return [list(self.class_prior_) for _ in X]
 
     def predict_log_proba(self, X):
         return apply_2d(self.predict_proba(X), safe_log)
-- 
2.43.0


From c991eda28afad095a54d9187e663c577e7f57528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:23 +0000
Subject: [PATCH 23/70] fix: max norm ignores the size of negative values

---
 pure_sklearn/preprocessing/_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/preprocessing/_data.py b/pure_sklearn/preprocessing/_data.py
index 4eb49e0..28e1dfd 100644
--- a/pure_sklearn/preprocessing/_data.py
+++ b/pure_sklearn/preprocessing/_data.py
@@ -57,7 +57,7 @@ def normalize_pure(X, norm="l2", axis=1, copy=True, return_norm=False):
         elif norm == "l2":
             norms = _row_norms(X)
         elif norm == "max":
-            norms = [max(list(x.values()) + [0]) for x in X]
+            norms = [max(list(map(abs, x.values())) + [0]) for x in X]
         norms = _handle_zeros_in_scale(norms, copy=False)
         X_sparse = [
             {k: (v / float(norms[index])) for k, v in X[index].items()}
@@ -70,7 +70,7 @@ def normalize_pure(X, norm="l2", axis=1, copy=True, return_norm=False):
         elif norm == "l2":
             norms = _row_norms(X)
         elif norm == "max":
-            norms = apply_axis_2d(X, max, axis=1)
+            norms = apply_axis_2d(apply_2d(X, abs), max, axis=1)
         norms = _handle_zeros_in_scale(norms, copy=False)
         X = [
             list(map(lambda a: a / float(norms[index]), X[index]))
-- 
2.43.0


From 58e9f238e1a033054bd0c401c82333a8d5504c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:30 +0000
Subject: [PATCH 24/70] fix: OneHotEncoder puts the categories of the third and
 later columns in the wrong place

---
 pure_sklearn/preprocessing/_encoders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pure_sklearn/preprocessing/_encoders.py b/pure_sklearn/preprocessing/_encoders.py
index a6606b1..23d503f 100644
--- a/pure_sklearn/preprocessing/_encoders.py
+++ b/pure_sklearn/preprocessing/_encoders.py
@@ -130,7 +130,7 @@ class OneHotEncoderPure(_BaseEncoderPure):
         data = [
             dict(
                 [
-                    (n_values[i] + X_int[j][i], self.dtype(1))
+                    (feature_indices[i] + X_int[j][i], self.dtype(1))
                     for i in range(n_features)
                     if X_mask[j][i]
                 ]
-- 
2.43.0


From 5d267b404bd70a8f627298b0549b0ba06b8a3659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 25/70] fix: MissingIndicator compares counts of missing values
 with column numbers

---
 pure_sklearn/impute/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pure_sklearn/impute/_base.py b/pure_sklearn/impute/_base.py
index a3e594c..001613e 100644
--- a/pure_sklearn/impute/_base.py
+++ b/pure_sklearn/impute/_base.py
@@ -70,7 +70,7 @@ class MissingIndicatorPure:
         if self.features == "all":
             features_indices = range(shape(X)[1])
         else:
-            features_indices = [a for a in n_missing if a != 0]
+            features_indices = [i for i, a in enumerate(n_missing) if a != 0]
         return imputer_mask, features_indices
 
 
-- 
2.43.0


From 4940d50b34ec2e9f14e3118ec82c42fe7f857568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:23 +0000
Subject: [PATCH 26/70] fix: imputation of strings and of None markers fails

---
 pure_sklearn/impute/_base.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pure_sklearn/impute/_base.py b/pure_sklearn/impute/_base.py
index 001613e..8b934a0 100644
--- a/pure_sklearn/impute/_base.py
+++ b/pure_sklearn/impute/_base.py
@@ -2,15 +2,18 @@
 Imputer transformers
 """
 
-from math import isnan
-
 from ..utils import shape, check_array, check_types, check_version
 from ..base import apply_2d, apply_axis_2d
 
 
+def _is_nan(val):
+    """ Checks if a value of any type, including strings and None, is NaN """
+    return isinstance(val, float) and val != val
+
+
 def _to_impute(val, missing_values):
-    if isnan(missing_values):
-        return isnan(val)
+    if _is_nan(missing_values):
+        return _is_nan(val)
     else:
         return val == missing_values
 
@@ -146,7 +149,7 @@ class SimpleImputerPure:
             to_remove = [
                 index
                 for index in range(len(self.statistics_))
-                if isnan(self.statistics_[index])
+                if _is_nan(self.statistics_[index])
             ]
             if len(to_remove) > 0:
                 X = [[a[i] for i in range(len(a)) if i not in to_remove] for a in X]
-- 
2.43.0


From b355f6890f567fc5203927a7e242427c501513b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:45 +0000
Subject: [PATCH 27/70] fix: HashingVectorizer loses repeated and colliding
 tokens

---
 pure_sklearn/feature_extraction/_hash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pure_sklearn/feature_extraction/_hash.py b/pure_sklearn/feature_extraction/_hash.py
index 05ddeae..5212039 100755
--- a/pure_sklearn/feature_extraction/_hash.py
+++ b/pure_sklearn/feature_extraction/_hash.py
@@ -109,7 +109,7 @@ def _hashing_transform(raw_X, n_features, dtype, alternate_sign=1, seed=0):
             index = abs(h) % n_features
             if alternate_sign:
                 value *= (h >= 0) * 2 - 1
-            row[index] = value
+            row[index] = row.get(index, 0) + value
         X.append(row)
     return sparse_list(X, size=n_features, dtype=dtype)
 
-- 
2.43.0


From 72c71c886e118bbcccf88266f9d912510a66b915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:51 +0000
Subject: [PATCH 28/70] fix: binary text features are not a sparse_list

---
 pure_sklearn/feature_extraction/text.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/feature_extraction/text.py b/pure_sklearn/feature_extraction/text.py
index e3164cf..0749b88 100755
--- a/pure_sklearn/feature_extraction/text.py
+++ b/pure_sklearn/feature_extraction/text.py
@@ -377,7 +377,9 @@ class CountVectorizerPure(_VectorizerMixinPure):
 
         _, X = self._count_vocab(raw_documents)
         if self.binary:
-            X = [dict.fromkeys(x, 1) for x in X]
+            X = sparse_list(
+                [dict.fromkeys(x, 1) for x in X], size=X.size, dtype=self.dtype
+            )
         return X
 
 
@@ -481,7 +483,9 @@ class HashingVectorizerPure(_VectorizerMixinPure):
         analyzer = self.build_analyzer()
         X = self._get_hasher().transform(analyzer(doc) for doc in X)
         if self.binary:
-            X = [dict.fromkeys(x, 1) for x in X]
+            X = sparse_list(
+                [dict.fromkeys(x, 1) for x in X], size=X.size, dtype=self.dtype
+            )
 
         if self.norm is not None:
             X = normalize_pure(X, norm=self.norm, copy=False)
-- 
2.43.0


From 9eb56b6e4b0bcd0081b5b95fa361a66b9fda94d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:59 +0000
Subject: [PATCH 29/70] fix: TfidfTransformer without idf cannot be converted

---
 pure_sklearn/feature_extraction/text.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/feature_extraction/text.py b/pure_sklearn/feature_extraction/text.py
index 0749b88..92023f9 100755
--- a/pure_sklearn/feature_extraction/text.py
+++ b/pure_sklearn/feature_extraction/text.py
@@ -416,8 +416,9 @@ class TfidfTransformerPure:
         self.use_idf = estimator.use_idf
         self.smooth_idf = estimator.smooth_idf
         self.sublinear_tf = estimator.sublinear_tf
-        self.idf_ = estimator.idf_.tolist()
-        self.expected_n_features_ = estimator._idf_diag.shape[0]
+        if self.use_idf:
+            self.idf_ = estimator.idf_.tolist()
+            self.expected_n_features_ = estimator._idf_diag.shape[0]
         check_types(self)
 
     def transform(self, X, copy=True):
-- 
2.43.0


From f65b9563446d74b021f455606a3716228213d678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:06 +0000
Subject: [PATCH 30/70] fix: TfidfTransformer overwrites the matrix it is given

---
 pure_sklearn/feature_extraction/text.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pure_sklearn/feature_extraction/text.py b/pure_sklearn/feature_extraction/text.py
index 92023f9..39bb4de 100755
--- a/pure_sklearn/feature_extraction/text.py
+++ b/pure_sklearn/feature_extraction/text.py
@@ -434,11 +434,13 @@ class TfidfTransformerPure:
                 raise ValueError(
                     "Input has n_features=%d while the model"
                     " has been trained with n_features=%d"
-                    % (n_features, expected_n_features)
+                    % (n_features, self.expected_n_features_)
                 )
-            for index in range(len(X)):
-                for k, v in X[index].items():
-                    X[index][k] = v * self.idf_[k]
+            X = sparse_list(
+                [{k: v * self.idf_[k] for k, v in x.items()} for x in X],
+                size=n_features,
+                dtype=float,
+            )
 
         if self.norm:
             X = normalize_pure(X, norm=self.norm, copy=False)
-- 
2.43.0


From b6c764dc789fdb8f106dbb41eaeabefe6e9b45cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:13 +0000
Subject: [PATCH 31/70] fix: TfidfTransformer fails with sublinear_tf

---
 pure_sklearn/feature_extraction/text.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/feature_extraction/text.py b/pure_sklearn/feature_extraction/text.py
index 39bb4de..43259e8 100755
--- a/pure_sklearn/feature_extraction/text.py
+++ b/pure_sklearn/feature_extraction/text.py
@@ -19,6 +19,7 @@ from ..utils import (
     check_types,
     check_version,
 )
+from ..base import safe_log
 from ..map import convert_estimator
 from ..preprocessing import normalize_pure
 from ._hash import _FeatureHasherPure
@@ -426,8 +427,11 @@ class TfidfTransformerPure:
         n_samples, n_features = shape(X)
 
         if self.sublinear_tf:
-            for index in range(len(X)):
-                X[index] = safe_log(X[index]) + 1
+            X = sparse_list(
+                [{k: safe_log(v) + 1 for k, v in x.items() if v != 0} for x in X],
+                size=n_features,
+                dtype=float,
+            )
 
         if self.use_idf:
             if n_features != self.expected_n_features_:
-- 
2.43.0


From 5957f1d6a50b71e1caa49a9ca2b30d37f3350317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:22 +0000
Subject: [PATCH 32/70] fix: TfidfTransformer fails on dense input

---
 pure_sklearn/feature_extraction/text.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pure_sklearn/feature_extraction/text.py b/pure_sklearn/feature_extraction/text.py
index 43259e8..25ae3d6 100755
--- a/pure_sklearn/feature_extraction/text.py
+++ b/pure_sklearn/feature_extraction/text.py
@@ -14,9 +14,10 @@ from ..utils import (
     check_types,
     convert_type,
     sparse_list,
+    issparse,
+    tosparse,
     shape,
     check_array,
-    check_types,
     check_version,
 )
 from ..base import safe_log
@@ -425,6 +426,8 @@ class TfidfTransformerPure:
     def transform(self, X, copy=True):
         X = check_array(X, handle_sparse="allow")
         n_samples, n_features = shape(X)
+        if not issparse(X):
+            X = tosparse(X)
 
         if self.sublinear_tf:
             X = sparse_list(
-- 
2.43.0


From 53c5adfa96f8e1dc5135cde6a0bfb768258d7133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:30 +0000
Subject: [PATCH 33/70] fix: inconsistent stop words are never warned about

---
 pure_sklearn/feature_extraction/text.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pure_sklearn/feature_extraction/text.py b/pure_sklearn/feature_extraction/text.py
index 25ae3d6..953c4ad 100755
--- a/pure_sklearn/feature_extraction/text.py
+++ b/pure_sklearn/feature_extraction/text.py
@@ -5,6 +5,7 @@ build feature vectors from text documents.
 
 import re
 import unicodedata
+import warnings
 
 from functools import partial
 from collections import defaultdict
-- 
2.43.0


From f960698f2cd66eabc48a800d22f600070dc65b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:53 +0000
Subject: [PATCH 34/70] fix: DictVectorizer keeps only the last of several
 entries for one feature

---
 pure_sklearn/feature_extraction/_dict_vectorizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pure_sklearn/feature_extraction/_dict_vectorizer.py b/pure_sklearn/feature_extraction/_dict_vectorizer.py
index cee2858..bb87bdb 100755
--- a/pure_sklearn/feature_extraction/_dict_vectorizer.py
+++ b/pure_sklearn/feature_extraction/_dict_vectorizer.py
@@ -38,7 +38,7 @@ class DictVectorizerPure:
                     f = "%s%s%s" % (f, self.separator, v)
                     v = 1
                 if f in vocab:
-                    row[vocab[f]] = dtype(v)
+                    row[vocab[f]] = dtype(row.get(vocab[f], 0) + dtype(v))
             data.append(row)
         result_matrix = sparse_list(data, size=len(vocab), dtype=dtype)
         if not self.sparse:
-- 
2.43.0


From 1bcbab010d066207f95b27c616667dfc35e5b64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:01 +0000
Subject: [PATCH 35/70] fix: converted DictVectorizer shares its vocabulary
 with the original

---
 pure_sklearn/feature_extraction/_dict_vectorizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/feature_extraction/_dict_vectorizer.py b/pure_sklearn/feature_extraction/_dict_vectorizer.py
index bb87bdb..d0a19f4 100755
--- a/pure_sklearn/feature_extraction/_dict_vectorizer.py
+++ b/pure_sklearn/feature_extraction/_dict_vectorizer.py
@@ -17,8 +17,8 @@ class DictVectorizerPure:
 
     def __init__(self, estimator):
         check_version(estimator)
-        self.vocabulary_ = estimator.vocabulary_
-        self.feature_names_ = estimator.feature_names_
+        self.vocabulary_ = dict(estimator.vocabulary_)
+        self.feature_names_ = list(estimator.feature_names_)
         self.sparse = estimator.sparse
         self.dtype = convert_type(estimator.dtype)
         self.separator = estimator.separator
-- 
2.43.0


From 6f428559ecf002458fea7ea02a37ef55d81208e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:21 +0000
Subject: [PATCH 36/70] fix: dense DictVectorizer output keeps the last entry
 of a feature

---
 pure_sklearn/feature_extraction/_dict_vectorizer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pure_sklearn/feature_extraction/_dict_vectorizer.py b/pure_sklearn/feature_extraction/_dict_vectorizer.py
index d0a19f4..c3aebfa 100755
--- a/pure_sklearn/feature_extraction/_dict_vectorizer.py
+++ b/pure_sklearn/feature_extraction/_dict_vectorizer.py
@@ -38,7 +38,11 @@ class DictVectorizerPure:
                     f = "%s%s%s" % (f, self.separator, v)
                     v = 1
                 if f in vocab:
-                    row[vocab[f]] = dtype(row.get(vocab[f], 0) + dtype(v))
+                    value = dtype(v)
+                    if self.sparse:
+                        # like scikit-learn, only sparse entries are summed
+                        value = dtype(row.get(vocab[f], 0) + value)
+                    row[vocab[f]] = value
             data.append(row)
         result_matrix = sparse_list(data, size=len(vocab), dtype=dtype)
         if not self.sparse:
-- 
2.43.0


From 15aee676a5b7bd9560e510212646e5a814cd814b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:19 +0000
Subject: [PATCH 37/70] fix: FeatureUnion weights fail on sparse blocks

---
 pure_sklearn/pipeline.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/pipeline.py b/pure_sklearn/pipeline.py
index 41196f8..16c7422 100644
--- a/pure_sklearn/pipeline.py
+++ b/pure_sklearn/pipeline.py
@@ -6,7 +6,7 @@ from operator import add, attrgetter
 from functools import update_wrapper, reduce
 from itertools import islice
 
-from .base import accumu, apply_2d
+from .base import accumu, apply_2d, apply_2d_sparse
 from .utils import (
     issparse,
     tosparse,
@@ -61,7 +61,8 @@ def _transform_one(transformer, X, y, weight, **fit_params):
     # if we have a weight for this transformer, multiply output
     if weight is None:
         return res
-    return apply_2d(res, lambda x: x * weight)
+    apply = apply_2d_sparse if issparse(res) else apply_2d
+    return apply(res, lambda x: x * weight)
 
 
 class PipelinePure:
-- 
2.43.0


From b70262c3811b237107a1d115e9dd11edc70d4ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:27 +0000
Subject: [PATCH 38/70] fix: pipelines and unions with skipped steps cannot be
 converted

---
 pure_sklearn/pipeline.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/pipeline.py b/pure_sklearn/pipeline.py
index 16c7422..227460d 100644
--- a/pure_sklearn/pipeline.py
+++ b/pure_sklearn/pipeline.py
@@ -77,7 +77,10 @@ class PipelinePure:
         check_version(estimator)
         self.steps = []
         for step in estimator.steps:
-            step_ = convert_estimator(step[1])
+            if step[1] is None or step[1] == "passthrough":
+                step_ = step[1]
+            else:
+                step_ = convert_estimator(step[1])
             self.steps.append((step[0], step_))
         check_types(self)
 
@@ -164,7 +167,10 @@ class FeatureUnionPure:
         check_version(estimator)
         self.transformer_list = []
         for step in estimator.transformer_list:
-            step_ = convert_estimator(step[1])
+            if step[1] is None or step[1] == "drop":
+                step_ = step[1]
+            else:
+                step_ = convert_estimator(step[1])
             self.transformer_list.append((step[0], step_))
 
         if hasattr(estimator, "transformer_weights"):
-- 
2.43.0


From f45352f4ec45d034fc464f2cbc4535a6bb9b360b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:34 +0000
Subject: [PATCH 39/70] fix: FeatureUnion with every step dropped returns
 columns

---
 pure_sklearn/pipeline.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pure_sklearn/pipeline.py b/pure_sklearn/pipeline.py
index 227460d..341f2f7 100644
--- a/pure_sklearn/pipeline.py
+++ b/pure_sklearn/pipeline.py
@@ -10,7 +10,6 @@ from .base import accumu, apply_2d, apply_2d_sparse
 from .utils import (
     issparse,
     tosparse,
-    shape,
     check_array,
     check_types,
     sparse_list,
@@ -201,7 +200,7 @@ class FeatureUnionPure:
             for name, trans, weight in self._iter()
         ]
         if not Xs:
-            return [[0.0] * shape(X)[1]] * shape(X)[0]
+            return [[] for _ in X]
 
         if any(issparse(f) for f in Xs):
             Xs = [tosparse(X_) if not issparse(X_) else X_ for X_ in Xs]
-- 
2.43.0


From 255cf9c45cbb389c7200bf8d4f9a42d0dc5a3daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:06 +0000
Subject: [PATCH 40/70] fix: fastText models read from disk cannot be converted

---
 pure_fasttext/FastText.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pure_fasttext/FastText.py b/pure_fasttext/FastText.py
index fe2dcb4..2ff75b8 100644
--- a/pure_fasttext/FastText.py
+++ b/pure_fasttext/FastText.py
@@ -62,19 +62,21 @@ class _FastText(object):
     """
 
     def __init__(self, model):
-        self.supervised_ = model.label in model.get_labels()[0]
-        if (model.maxn != 0) and not self.supervised_:
+        # models read with `load_model` only have the arguments of the C++ model
+        args = model.f.getArgs()
+        self.supervised_ = args.model.name == "supervised"
+        if (args.maxn != 0) and not self.supervised_:
             raise ValueError(
                 "Only maxn=0 is supported for unsupervised mode (no subwords support)."
             )
-        if self.supervised_ and (model.loss.name not in ("softmax")):
+        if self.supervised_ and (args.loss.name != "softmax"):
             raise Exception("Only 'softmax' loss is supported for supervised mode.")
         self.words_ = model.get_words()
         self.input_matrix_ = model.get_input_matrix().tolist()
         self.dim_ = model.get_dimension()
 
         if self.supervised_:
-            self.loss_ = model.loss.name
+            self.loss_ = args.loss.name
             self.labels_ = model.get_labels()
             self.output_matrix_ = model.get_output_matrix().tolist()
             self.is_quantized_ = model.is_quantized()
-- 
2.43.0


From 497ac98637c7f147a97ffaebefdf96867a339ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:13 +0000
Subject: [PATCH 41/70] fix: fastText models with word n-grams or subwords are
 answered without them

---
 pure_fasttext/FastText.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pure_fasttext/FastText.py b/pure_fasttext/FastText.py
index 2ff75b8..268fb62 100644
--- a/pure_fasttext/FastText.py
+++ b/pure_fasttext/FastText.py
@@ -71,6 +71,10 @@ class _FastText(object):
             )
         if self.supervised_ and (args.loss.name != "softmax"):
             raise Exception("Only 'softmax' loss is supported for supervised mode.")
+        if self.supervised_ and (args.maxn > 0 or args.wordNgrams > 1):
+            raise ValueError(
+                "Subwords and word n-grams are not supported for supervised mode."
+            )
         self.words_ = model.get_words()
         self.input_matrix_ = model.get_input_matrix().tolist()
         self.dim_ = model.get_dimension()
-- 
2.43.0


From af078aabf7b0d21e1acecc9350d5bde889b14508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:19 +0000
Subject: [PATCH 42/70] fix: fastText prediction fails on a list of lines

---
 pure_fasttext/FastText.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/pure_fasttext/FastText.py b/pure_fasttext/FastText.py
index 268fb62..bbbcca5 100644
--- a/pure_fasttext/FastText.py
+++ b/pure_fasttext/FastText.py
@@ -156,12 +156,8 @@ class _FastText(object):
             raise ValueError("Model needs to be supervised for prediction!")
 
         if isinstance(text, list):
-            text = [entry for entry in text]
             all_labels = []
             all_probs = []
-            all_labels, all_probs = self.f.multilinePredict(
-                text, k, threshold, on_unicode_error
-            )
             for text_ in text:
                 labels, probs = self._predict(text_, k, threshold)
                 all_labels.append(labels)
-- 
2.43.0


From 5d3c1a342204258348faff7066a5043a54ef26c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:27 +0000
Subject: [PATCH 43/70] fix: fastText prediction with k=-1 drops the last label

---
 pure_fasttext/FastText.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pure_fasttext/FastText.py b/pure_fasttext/FastText.py
index bbbcca5..d42b220 100644
--- a/pure_fasttext/FastText.py
+++ b/pure_fasttext/FastText.py
@@ -137,6 +137,10 @@ class _FastText(object):
 
     def _predict(self, text, k=1, threshold=0.0):
         """ Guts of prediction method """
+        if k == -1:
+            k = len(self.labels_)
+        elif k <= 0:
+            raise ValueError("k needs to be 1 or higher!")
         A = self.get_sentence_vector(text)
         if self.loss_ == "softmax":
             preds = sfmax(dot(A, self.output_matrix_))
-- 
2.43.0


From c1457109f9ebf57de52c4074370edbb523a83a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:35 +0000
Subject: [PATCH 44/70] fix: fastText sentence vector of a line without known
 words is empty

---
 pure_fasttext/FastText.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pure_fasttext/FastText.py b/pure_fasttext/FastText.py
index d42b220..9e7cd14 100644
--- a/pure_fasttext/FastText.py
+++ b/pure_fasttext/FastText.py
@@ -45,8 +45,10 @@ def argsort(seq):
     return sorted(range(len(seq)), key=seq.__getitem__)
 
 
-def average(l):
-    """ Computes average of 2-D list """
+def average(l, dim):
+    """ Computes average of 2-D list with `dim` columns """
+    if not l:
+        return [0.0] * dim
     llen = len(l)
 
     def divide(x):
@@ -110,14 +112,14 @@ class _FastText(object):
                 for word in (text.split() + [EOS])
                 if word in self.words_
             ]
-            return average(raw_words)
+            return average(raw_words, self.dim_)
         else:
             raw_words = [
                 self.get_word_vector(word)
                 for word in text.split()
                 if word in self.words_
             ]
-            return average(list(map(div_norm, raw_words)))
+            return average(list(map(div_norm, raw_words)), self.dim_)
 
     def get_word_id(self, word):
         """
-- 
2.43.0


From f0770e37b80788e3d7e3fc7408724519a6310226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:42 +0000
Subject: [PATCH 45/70] fix: fastText sentence vectors count words with a zero
 vector

---
 pure_fasttext/FastText.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pure_fasttext/FastText.py b/pure_fasttext/FastText.py
index 9e7cd14..6283708 100644
--- a/pure_fasttext/FastText.py
+++ b/pure_fasttext/FastText.py
@@ -119,7 +119,8 @@ class _FastText(object):
                 for word in text.split()
                 if word in self.words_
             ]
-            return average(list(map(div_norm, raw_words)), self.dim_)
+            # like fasttext, words with a zero vector are not counted
+            return average([div_norm(w) for w in raw_words if any(w)], self.dim_)
 
     def get_word_id(self, word):
         """
-- 
2.43.0


From 0db385a7b79c83f8227ee3020bc5af7d8ed720d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:48 +0000
Subject: [PATCH 46/70] fix: fastText word vectors share their list with the
 model

---
 pure_fasttext/FastText.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pure_fasttext/FastText.py b/pure_fasttext/FastText.py
index 6283708..431dd68 100644
--- a/pure_fasttext/FastText.py
+++ b/pure_fasttext/FastText.py
@@ -136,7 +136,7 @@ class _FastText(object):
         """
         Given an index, get the corresponding vector of the Input Matrix.
         """
-        return self.input_matrix_[ind]
+        return list(self.input_matrix_[ind])
 
     def _predict(self, text, k=1, threshold=0.0):
         """ Guts of prediction method """
-- 
2.43.0


From 1c2ad04021e98948ccacf253137760888de6cda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:28 +0000
Subject: [PATCH 47/70] fix: fastText lines are split on other white space than
 by fasttext

---
 pure_fasttext/FastText.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pure_fasttext/FastText.py b/pure_fasttext/FastText.py
index 431dd68..74226e6 100644
--- a/pure_fasttext/FastText.py
+++ b/pure_fasttext/FastText.py
@@ -2,11 +2,18 @@
 Base class for fasttext API implemented in pure python
 """
 
+import re
+
 from math import exp, sqrt
 from operator import mul
 
 EOS = "</s>"
 
+# characters that end a word, fasttext knows no other white space; the null
+# character only separates words in supervised mode
+SEPARATORS_SUPERVISED = re.compile("[ \\n\\r\\t\\v\\f\\0]+")
+SEPARATORS_UNSUPERVISED = re.compile("[ \\n\\r\\t\\v\\f]+")
+
 
 def l2_norm(arr):
     """ Computes l2 norm of input list """
@@ -109,14 +116,14 @@ class _FastText(object):
         if self.supervised_:
             raw_words = [
                 self.get_word_vector(word)
-                for word in (text.split() + [EOS])
+                for word in (SEPARATORS_SUPERVISED.split(text) + [EOS])
                 if word in self.words_
             ]
             return average(raw_words, self.dim_)
         else:
             raw_words = [
                 self.get_word_vector(word)
-                for word in text.split()
+                for word in SEPARATORS_UNSUPERVISED.split(text)
                 if word in self.words_
             ]
             # like fasttext, words with a zero vector are not counted
-- 
2.43.0


From 0ecbd61fa624f8664668d2724ac7b5ff56d7da43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:36 +0000
Subject: [PATCH 48/70] fix: fastText lines do not end at an end of sentence
 token

---
 pure_fasttext/FastText.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pure_fasttext/FastText.py b/pure_fasttext/FastText.py
index 74226e6..ffd91aa 100644
--- a/pure_fasttext/FastText.py
+++ b/pure_fasttext/FastText.py
@@ -114,10 +114,11 @@ class _FastText(object):
         text += "\n"
 
         if self.supervised_:
+            words = SEPARATORS_SUPERVISED.split(text) + [EOS]
+            # the end of sentence token ends the line wherever it occurs
+            words = words[: words.index(EOS) + 1]
             raw_words = [
-                self.get_word_vector(word)
-                for word in (SEPARATORS_SUPERVISED.split(text) + [EOS])
-                if word in self.words_
+                self.get_word_vector(word) for word in words if word in self.words_
             ]
             return average(raw_words, self.dim_)
         else:
-- 
2.43.0


From 199e6d9962254ab86e1f3eb4ac82e673b6fc2284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:44 +0000
Subject: [PATCH 49/70] fix: fastText word id of labels

---
 pure_fasttext/FastText.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pure_fasttext/FastText.py b/pure_fasttext/FastText.py
index ffd91aa..cb089ca 100644
--- a/pure_fasttext/FastText.py
+++ b/pure_fasttext/FastText.py
@@ -97,7 +97,7 @@ class _FastText(object):
     def get_word_vector(self, word):
         """ Get the vector representation of word """
         idx = self.get_word_id(word)
-        if idx >= 0:
+        if 0 <= idx < len(self.words_):
             return self.get_input_vector(idx)
         else:
             return [0.0] * self.dim_
@@ -137,6 +137,8 @@ class _FastText(object):
         """
         if word in self.words_:
             return self.words_.index(word)
+        elif self.supervised_ and word in self.labels_:
+            return len(self.words_) + self.labels_.index(word)
         else:
             return -1
 
-- 
2.43.0


From effb27342efef2cfc23f36a2463b697ad2d1d30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:53 +0000
Subject: [PATCH 50/70] fix: fastText predicts labels for lines without known
 words

---
 pure_fasttext/FastText.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pure_fasttext/FastText.py b/pure_fasttext/FastText.py
index cb089ca..66decfd 100644
--- a/pure_fasttext/FastText.py
+++ b/pure_fasttext/FastText.py
@@ -114,12 +114,7 @@ class _FastText(object):
         text += "\n"
 
         if self.supervised_:
-            words = SEPARATORS_SUPERVISED.split(text) + [EOS]
-            # the end of sentence token ends the line wherever it occurs
-            words = words[: words.index(EOS) + 1]
-            raw_words = [
-                self.get_word_vector(word) for word in words if word in self.words_
-            ]
+            raw_words = [self.get_word_vector(word) for word in self._get_words(text)]
             return average(raw_words, self.dim_)
         else:
             raw_words = [
@@ -130,6 +125,13 @@ class _FastText(object):
             # like fasttext, words with a zero vector are not counted
             return average([div_norm(w) for w in raw_words if any(w)], self.dim_)
 
+    def _get_words(self, text):
+        """ Get the known words of a line of text in supervised mode """
+        words = SEPARATORS_SUPERVISED.split(text) + [EOS]
+        # the end of sentence token ends the line wherever it occurs
+        words = words[: words.index(EOS) + 1]
+        return [word for word in words if word in self.words_]
+
     def get_word_id(self, word):
         """
         Given a word, get the word id within the dictionary.
@@ -155,6 +157,8 @@ class _FastText(object):
         elif k <= 0:
             raise ValueError("k needs to be 1 or higher!")
         A = self.get_sentence_vector(text)
+        if not self._get_words(text):
+            return ((), [])
         if self.loss_ == "softmax":
             preds = sfmax(dot(A, self.output_matrix_))
         else:
-- 
2.43.0


From 92efb1c4e9fc9138cb724171495d23404a95adb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:33 +0000
Subject: [PATCH 51/70] fix: refuse empty batches and rows of different lengths

---
 pure_sklearn/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pure_sklearn/utils.py b/pure_sklearn/utils.py
index 2787413..32131dc 100644
--- a/pure_sklearn/utils.py
+++ b/pure_sklearn/utils.py
@@ -94,7 +94,11 @@ def check_array(X, handle_sparse="error"):
     if not isinstance(X, list):
         raise TypeError("Input 'X' must be a list")
     if len(X) == 0:
-        return ValueError("Input 'X' must not be empty")
+        raise ValueError("Input 'X' must not be empty")
+    if isinstance(X[0], list) and not all(
+        isinstance(x, list) and len(x) == len(X[0]) for x in X
+    ):
+        raise ValueError("Rows of input 'X' must all have the same length")
     return X
 
 
-- 
2.43.0


From 15422a19837b4f5a3276742274f45a28e44c0649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:16 +0000
Subject: [PATCH 52/70] fix: trees refuse data with the wrong number of columns

---
 pure_sklearn/tree/_classes.py | 15 +++++++++++----
 pure_sklearn/utils.py         | 15 +++++++++++++++
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/pure_sklearn/tree/_classes.py b/pure_sklearn/tree/_classes.py
index 809edca..c6539d3 100644
--- a/pure_sklearn/tree/_classes.py
+++ b/pure_sklearn/tree/_classes.py
@@ -8,7 +8,7 @@ from array import array
 from math import isnan
 
 from ..base import safe_log
-from ..utils import check_array, check_types, check_version
+from ..utils import check_array, check_n_features, check_types, check_version
 
 
 class _DecisionTreeBase:
@@ -25,6 +25,7 @@ class _DecisionTreeBase:
             )
             # xgboost sends a row to the left when x < threshold, not x <= threshold
             self.strict_ = True
+            self.n_features_ = None
             self.value_ = [[a] for a in estimator["Gain"]]
             # nodes removed by pruning leave gaps in the node numbers
             position = {node: i for i, node in enumerate(estimator["Node"])}
@@ -53,6 +54,7 @@ class _DecisionTreeBase:
             self.threshold_ = estimator.tree_.threshold.tolist()
             self.value_ = [a[0] for a in estimator.tree_.value.tolist()]
             self.strict_ = False
+            self.n_features_ = int(estimator.tree_.n_features)
             with warnings.catch_warnings():
                 warnings.simplefilter("ignore")
                 if hasattr(estimator, "classes_") and (estimator.classes_ is not None):
@@ -61,6 +63,11 @@ class _DecisionTreeBase:
                     self.classes_ = [0, 1]
         check_types(self)
 
+    def _check_X(self, X):
+        X = check_array(X, handle_sparse="allow")
+        check_n_features(X, self.n_features_)
+        return X
+
     def _get_leaf_node(self, x):
         if isinstance(x, dict):
             value = lambda nd: x.get(self.feature_[nd], 0.0)
@@ -99,13 +106,13 @@ class DecisionTreeClassifierPure(_DecisionTreeBase):
         return [a / sum(self.value_[node_id]) for a in self.value_[node_id]]
 
     def predict(self, X):
-        X = check_array(X, handle_sparse="allow")
+        X = self._check_X(X)
         leaves = [self._get_leaf_node(x) for x in X]
         preds = [self._get_pred_from_leaf_node(x) for x in leaves]
         return [self.classes_[x] for x in preds]
 
     def predict_proba(self, X):
-        X = check_array(X, handle_sparse="allow")
+        X = self._check_X(X)
         leaves = [self._get_leaf_node(x) for x in X]
         return [self._get_proba_from_leaf_node(x) for x in leaves]
 
@@ -125,7 +132,7 @@ class DecisionTreeRegressorPure(_DecisionTreeBase):
         return self.value_[node_id][0]
 
     def predict(self, X):
-        X = check_array(X, handle_sparse="allow")
+        X = self._check_X(X)
         leaves = [self._get_leaf_node(x) for x in X]
         return [self._get_pred_from_leaf_node(x) for x in leaves]
 
diff --git a/pure_sklearn/utils.py b/pure_sklearn/utils.py
index 32131dc..93847cf 100644
--- a/pure_sklearn/utils.py
+++ b/pure_sklearn/utils.py
@@ -102,6 +102,21 @@ def check_array(X, handle_sparse="error"):
     return X
 
 
+def check_n_features(X, n_features):
+    """
+    Checks that input 'X' is 2-D and has the expected number of
+    columns. The number of columns is not checked if unknown.
+    """
+    if ndim(X) != 2:
+        raise ValueError("Input 'X' must be 2-D")
+    if n_features is None or (issparse(X) and X.size is None):
+        return
+    if shape(X)[1] != n_features:
+        raise ValueError(
+            "X has %d features per sample; expecting %d" % (shape(X)[1], n_features)
+        )
+
+
 def shape(X):
     """
     Checks the shape of input list. Similar to
-- 
2.43.0


From e53d48146434aeba85dc445c1bdef55186637f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:24 +0000
Subject: [PATCH 53/70] fix: bagging and forests refuse data with the wrong
 number of columns

---
 pure_sklearn/ensemble/_bagging.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pure_sklearn/ensemble/_bagging.py b/pure_sklearn/ensemble/_bagging.py
index 778d50c..24ef1f3 100644
--- a/pure_sklearn/ensemble/_bagging.py
+++ b/pure_sklearn/ensemble/_bagging.py
@@ -7,7 +7,7 @@ from operator import add
 
 from ..map import MAPPING, convert_estimator
 from ..base import safe_log, logsumexp, operate_2d, apply_2d, slice_column
-from ..utils import shape, check_types, check_version
+from ..utils import check_array, check_n_features, check_types, check_version
 
 
 def _feat_slice(X, feats):
@@ -27,6 +27,7 @@ class _BaseBaggingPure:
                 a.tolist() for a in estimator.estimators_features_
             ]
         self.classes_ = estimator.classes_.tolist()
+        self.n_features_ = int(estimator.n_features_)
         self.estimators_ = []
         for est in estimator.estimators_:
             est_ = convert_estimator(est)
@@ -42,6 +43,11 @@ class _BaseBaggingPure:
         ]
         check_types(self)
 
+    def _check_X(self, X):
+        X = check_array(X, handle_sparse="allow")
+        check_n_features(X, self.n_features_)
+        return X
+
     def _member_proba(self, idx, X, log_space=False):
         """
         Class (log-)probabilities of one member, for all classes of the ensemble
@@ -67,6 +73,7 @@ class _BaseBaggingPure:
         return out
 
     def predict_proba(self, X):
+        X = self._check_X(X)
         proba = self._member_proba(0, X)
         for idx in range(len(self.estimators_))[1:]:
             proba = operate_2d(proba, self._member_proba(idx, X), add)
@@ -101,6 +108,7 @@ class BaggingClassifierPure(_BaseBaggingPure):
     def predict_log_proba(self, X):
         if not self.log_members_:
             return super().predict_log_proba(X)
+        X = self._check_X(X)
         # sum in log space, where small member probabilities do not vanish
         log_probas = [
             self._member_proba(idx, X, log_space=True)
-- 
2.43.0


From 40a9c341a6f719010860f94b96c8237ba29446ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:31 +0000
Subject: [PATCH 54/70] fix: naive Bayes refuses data with the wrong number of
 columns

---
 pure_sklearn/naive_bayes.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pure_sklearn/naive_bayes.py b/pure_sklearn/naive_bayes.py
index db628ec..53230c9 100644
--- a/pure_sklearn/naive_bayes.py
+++ b/pure_sklearn/naive_bayes.py
@@ -6,7 +6,7 @@ from abc import abstractmethod
 from math import pi
 
 from .base import dot, transpose, safe_log, safe_exp, logsumexp
-from .utils import check_array, check_types, check_version
+from .utils import check_array, check_n_features, check_types, check_version
 
 __all__ = ["GaussianNBPure", "MultinomialNBPure", "ComplementNBPure"]
 
@@ -18,11 +18,17 @@ class _BaseNBPure:
     def _joint_log_likelihood(self, X):
         """ Compute the unnormalized posterior log probability of X """
 
+    def _n_features(self):
+        """ Number of columns of the data the model was fitted on """
+        params = self.theta_ if hasattr(self, "theta_") else self.feature_log_prob_
+        return len(params[0])
+
     def predict(self, X):
         """
         Perform classification on an array of test vectors X.
         """
         X = check_array(X, handle_sparse="error")
+        check_n_features(X, self._n_features())
         jll = self._joint_log_likelihood(X)
         indices = map(lambda a: a.index(max(a)), jll)
         return [self.classes_[i] for i in indices]
@@ -32,6 +38,7 @@ class _BaseNBPure:
         Return log-probability estimates for the test vector X.
         """
         X = check_array(X, handle_sparse="error")
+        check_n_features(X, self._n_features())
         jll = self._joint_log_likelihood(X)
         log_prob_x = list(map(logsumexp, jll))
         return [
-- 
2.43.0


From 7c63bc6e9db1a9f51c4b59687e275e6ca31d5bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:37 +0000
Subject: [PATCH 55/70] fix: scalers refuse data with the wrong number of
 columns

---
 pure_sklearn/preprocessing/_data.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/pure_sklearn/preprocessing/_data.py b/pure_sklearn/preprocessing/_data.py
index 28e1dfd..3c752f8 100644
--- a/pure_sklearn/preprocessing/_data.py
+++ b/pure_sklearn/preprocessing/_data.py
@@ -5,7 +5,14 @@ Normalization and scaling
 from math import sqrt
 from copy import copy as cp
 
-from ..utils import sparse_list, issparse, check_array, check_types, check_version
+from ..utils import (
+    sparse_list,
+    issparse,
+    check_array,
+    check_n_features,
+    check_types,
+    check_version,
+)
 from ..base import transpose, apply_2d, apply_axis_2d, matmult_same_dim
 
 
@@ -119,6 +126,7 @@ class StandardScalerPure:
         check_version(estimator)
         self.with_mean = estimator.with_mean
         self.with_std = estimator.with_std
+        self.n_features_in_ = getattr(estimator, "n_features_in_", None)
         if estimator.scale_ is None:
             self.scale_ = None
         else:
@@ -129,9 +137,17 @@ class StandardScalerPure:
             self.mean_ = estimator.mean_.tolist()
         check_types(self)
 
+    def _n_features(self):
+        """ Number of columns of the data the scaler was fitted on """
+        for param in (self.scale_, self.mean_):
+            if param is not None:
+                return len(param)
+        return self.n_features_in_
+
     def transform(self, X, copy=None):
         """ Perform standardization by centering and scaling """
         X = check_array(X, handle_sparse="allow")
+        check_n_features(X, self._n_features())
 
         if issparse(X):
             if self.with_mean:
@@ -181,6 +197,7 @@ class MinMaxScalerPure:
                 "Consider using MaxAbsScalerPure instead."
             )
         X = check_array(X)
+        check_n_features(X, len(self.scale_))
         return [
             [(x[i] * self.scale_[i]) + self.min_[i] for i in range(len(self.scale_))]
             for x in X
@@ -211,6 +228,7 @@ class MaxAbsScalerPure:
     def transform(self, X):
         """ Scale the data """
         X = check_array(X, handle_sparse="allow")
+        check_n_features(X, len(self.scale_))
         if issparse(X):
             X_ = [{k: (v / self.scale_[k]) for k, v in x.items()} for x in X]
             X = sparse_list(X_, size=X.size, dtype=X.dtype)
-- 
2.43.0


From feab7eb1e34a8d4483b4d398524cb55345e13f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:44 +0000
Subject: [PATCH 56/70] fix: XGBClassifierPure refuses data with the wrong
 number of columns

---
 pure_sklearn/xgboost/_classes.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pure_sklearn/xgboost/_classes.py b/pure_sklearn/xgboost/_classes.py
index a3aa0ca..491eefb 100644
--- a/pure_sklearn/xgboost/_classes.py
+++ b/pure_sklearn/xgboost/_classes.py
@@ -7,7 +7,7 @@ import json
 from math import exp, log
 
 from ..base import sfmax, expit
-from ..utils import check_types, check_array
+from ..utils import check_types, check_array, check_n_features
 from ..tree import DecisionTreeRegressorPure
 
 MIN_VERSION = "0.82"
@@ -41,6 +41,10 @@ class XGBClassifierPure:
             raise ValueError("Booster: '{}' not supported".format(self.booster))
         self.classes_ = estimator.classes_.tolist()
         self.n_classes_ = estimator.n_classes_
+        booster = estimator.get_booster()
+        self.n_features_ = (
+            int(booster.num_features()) if hasattr(booster, "num_features") else None
+        )
         self.base_margin_ = self._base_margin(estimator)
         self.estimators_ = self._build_estimators(estimator)
         check_types(self)
@@ -119,6 +123,7 @@ class XGBClassifierPure:
 
     def predict_proba(self, X):
         X = check_array(X)
+        check_n_features(X, self.n_features_)
         if self.objective == "multi:softprob":
             preds = self._predict(X)
             out = []
-- 
2.43.0


From c768f9d6e3ec9408bcb915e12b6069b0bc044ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:51 +0000
Subject: [PATCH 57/70] fix: dot products refuse arguments of different widths

---
 pure_sklearn/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pure_sklearn/base.py b/pure_sklearn/base.py
index a1dcac0..9ddf8cc 100644
--- a/pure_sklearn/base.py
+++ b/pure_sklearn/base.py
@@ -14,11 +14,15 @@ def dot(A, B):
     A -> n_dim = 1
     B -> n_dim = 2
     """
+    if issparse(B):
+        raise ValueError("Sparse input not supported for 'B'.")
     arr = []
     for i in range(len(B)):
         if isinstance(A, dict):
             val = sum([v * B[i][k] for k, v in A.items()])
         else:
+            if len(A) != len(B[i]):
+                raise ValueError("'A' and the rows of 'B' must have the same length.")
             val = sum(map(mul, A, B[i]))
         arr.append(val)
     return arr
-- 
2.43.0


From 1aa8abebfa03a1acb09290ff205756bebcb6df07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:58 +0000
Subject: [PATCH 58/70] fix: DummyClassifierPure refuses empty and non-list
 input

---
 pure_sklearn/dummy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pure_sklearn/dummy.py b/pure_sklearn/dummy.py
index 9f82243..e3d048b 100644
--- a/pure_sklearn/dummy.py
+++ b/pure_sklearn/dummy.py
@@ -3,7 +3,7 @@ Dummy classifier
 """
 
 from .base import apply_2d, safe_log
-from .utils import check_types, check_version
+from .utils import check_array, check_types, check_version
 
 __all__ = ["DummyClassifierPure"]
 
@@ -32,10 +32,12 @@ class DummyClassifierPure:
         check_types(self)
 
     def predict(self, X):
+        X = check_array(X, handle_sparse="allow")
         index = self.class_prior_.index(max(self.class_prior_))
         return [self.classes_[index]] * len(X)
 
     def predict_proba(self, X):
+        X = check_array(X, handle_sparse="allow")
         return [list(self.class_prior_) for _ in X]
 
     def predict_log_proba(self, X):
-- 
2.43.0


From 3f92a6f988cf4bfbd982860002791c24b494e4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:16 +0000
Subject: [PATCH 59/70] fix: ravel flattens every column

---
 pure_sklearn/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/base.py b/pure_sklearn/base.py
index 9ddf8cc..e5e7a09 100644
--- a/pure_sklearn/base.py
+++ b/pure_sklearn/base.py
@@ -5,7 +5,7 @@ Base functions for matrix calculations
 from math import exp, log
 from operator import mul
 
-from .utils import shape, check_array, sparse_list, todense, issparse
+from .utils import shape, ndim, check_array, sparse_list, todense, issparse
 
 
 def dot(A, B):
@@ -161,7 +161,9 @@ def ravel(A):
     """ Equivalent of numpy ravel on 2-D list """
     if issparse(A):
         raise ValueError("Sparse input not supported.")
-    return list(transpose(A)[0])
+    if ndim(A) != 2:
+        raise ValueError("Input must be 2-D.")
+    return [value for row in A for value in row]
 
 
 def slice_column(A, idx):
-- 
2.43.0


From 42342acf0abf1139af21659d18850b6b3f90eefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:22 +0000
Subject: [PATCH 60/70] fix: slice_column refuses columns outside of sparse
 data

---
 pure_sklearn/base.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pure_sklearn/base.py b/pure_sklearn/base.py
index e5e7a09..ac92414 100644
--- a/pure_sklearn/base.py
+++ b/pure_sklearn/base.py
@@ -168,6 +168,13 @@ def ravel(A):
 
 def slice_column(A, idx):
     """ Slice columns from 2-D list A. Handles sparse data """
+    if issparse(A) and (A.size is not None):
+        # missing keys of sparse rows are zeros only within the matrix
+        position = range(A.size)
+        if isinstance(idx, int):
+            idx = position[idx]
+        elif isinstance(idx, (list, tuple)):
+            idx = [position[k] for k in idx]
     if isinstance(idx, int):
         if issparse(A):
             return [a.get(idx, A.dtype(0)) for a in A]
@@ -179,6 +186,7 @@ def slice_column(A, idx):
             return sparse_list(A_, size=len(idx), dtype=A.dtype)
         else:
             return [[a[i] for i in idx] for a in A]
+    raise TypeError("Columns must be given as an int or a list of ints")
 
 
 def accumu(lis):
-- 
2.43.0


From f58220554a8fda38893e7ad0ef704ac1947517a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:33 +0000
Subject: [PATCH 61/70] fix: do not depend on distutils, which recent python
 lacks

---
 pure_sklearn/utils.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pure_sklearn/utils.py b/pure_sklearn/utils.py
index 93847cf..b1552fb 100644
--- a/pure_sklearn/utils.py
+++ b/pure_sklearn/utils.py
@@ -3,10 +3,10 @@ Utility functions
 """
 
 import pickle
+import re
 import time
 
 from warnings import warn
-from distutils.version import LooseVersion
 
 CONTAINERS = (list, dict, tuple)
 TYPES = (int, float, str, bool, type)
@@ -40,6 +40,15 @@ def check_types(obj, containers=CONTAINERS, types=TYPES):
         raise ValueError("Object contains invalid type: {}".format(type(obj)))
 
 
+def _version(version):
+    """ Numeric release of a version string, without trailing zeros """
+    release = re.match(r"\d+(\.\d+)*", version)
+    numbers = [int(x) for x in release.group().split(".")] if release else []
+    while numbers and numbers[-1] == 0:
+        numbers.pop()
+    return numbers
+
+
 def check_version(estimator, min_version=None):
     """ Checks the version of the scikit-learn estimator """
     warning_str = (
@@ -52,15 +61,13 @@ def check_version(estimator, min_version=None):
     except:
         warn(warning_str)
         return
-    if (min_version is not None) and (
-        LooseVersion(version_) < LooseVersion(min_version)
-    ):
+    if (min_version is not None) and (_version(version_) < _version(min_version)):
         raise Exception(
             "The sklearn version is too low for this estimator; must be >= {}".format(
                 min_version
             )
         )
-    elif LooseVersion(version_) < LooseVersion(MIN_VERSION):
+    elif _version(version_) < _version(MIN_VERSION):
         warn(warning_str)
 
 
-- 
2.43.0


From 0dec87bc38405b1660ada24a0dbb726dbad05e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:08 +0000
Subject: [PATCH 62/70] fix: keep numpy values and other foreign objects out of
 converted models

---
 pure_sklearn/utils.py | 60 +++++++++++++++++++++++++++++++++----------
 1 file changed, 46 insertions(+), 14 deletions(-)

diff --git a/pure_sklearn/utils.py b/pure_sklearn/utils.py
index b1552fb..2661226 100644
--- a/pure_sklearn/utils.py
+++ b/pure_sklearn/utils.py
@@ -13,27 +13,59 @@ TYPES = (int, float, str, bool, type)
 MIN_VERSION = "0.20"
 
 
+def _is_pure(obj):
+    """ Checks if input object is an instance of a `pure_sklearn` class """
+    return type(obj).__module__.split(".")[0] == "pure_sklearn"
+
+
+def to_builtin(obj):
+    """
+    Replaces numpy values by the equivalent python ones, also inside
+    of containers, which are copied.
+    """
+    if hasattr(obj, "tolist") and not isinstance(obj, type):
+        obj = obj.tolist()
+    if _is_pure(obj):
+        return obj
+    if isinstance(obj, dict):
+        return {to_builtin(k): to_builtin(v) for k, v in obj.items()}
+    if isinstance(obj, list):
+        return [to_builtin(ob) for ob in obj]
+    if isinstance(obj, tuple):
+        return tuple(to_builtin(ob) for ob in obj)
+    return obj
+
+
 def check_types(obj, containers=CONTAINERS, types=TYPES):
     """
     Checks if input object is an allowed type. Objects can be
     acceptable containers or acceptable types themselves.
     Containers are checked recursively to ensure all contained
-    types are valid. If object is a `pure_sklearn` type, its
-    attributes are all recursively checked.
+    types are valid. If object is a `pure_sklearn` type, numpy
+    values in its attributes are first replaced by python ones,
+    and then its attributes are all recursively checked.
     """
-    if isinstance(obj, containers):
-        if isinstance(obj, (list, tuple)):
-            for ob in obj:
-                check_types(ob)
-        else:
-            for k, v in obj.items():
-                check_types(k)
-                check_types(v)
-    elif isinstance(obj, types):
+    if _is_pure(obj):
+        for attr, value in list(vars(obj).items()):
+            setattr(obj, attr, to_builtin(value))
+    _check_types(obj, containers, types)
+
+
+def _check_types(obj, containers, types):
+    """ Guts of `check_types`, subclasses of the allowed types are not allowed """
+    if _is_pure(obj):
+        for value in vars(obj).values():
+            _check_types(value, containers, types)
+    elif type(obj) in containers:
+        for ob in obj:
+            _check_types(ob, containers, types)
+        if isinstance(obj, dict):
+            for ob in obj.values():
+                _check_types(ob, containers, types)
+    elif isinstance(obj, type) and (type in types) and obj.__module__ == "builtins":
+        pass
+    elif (type(obj) in types) and not isinstance(obj, type):
         pass
-    elif "pure_sklearn" in str(type(obj)):
-        for attr in vars(obj):
-            check_types(getattr(obj, attr))
     elif obj is None:
         pass
     else:
-- 
2.43.0


From 76d2cb520c1c9f60b95b7851f7880bbe05509082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:02 +0000
Subject: [PATCH 63/70] fix: accept numpy dtype objects as dtype of
 transformers

---
 pure_sklearn/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pure_sklearn/utils.py b/pure_sklearn/utils.py
index 2661226..1de7f7f 100644
--- a/pure_sklearn/utils.py
+++ b/pure_sklearn/utils.py
@@ -105,6 +105,8 @@ def check_version(estimator, min_version=None):
 
 def convert_type(dtype):
     """ Converts a datatype to its pure python equivalent """
+    # numpy `dtype` objects hold the type itself
+    dtype = getattr(dtype, "type", dtype)
     val = dtype(0)
     if hasattr(val, "item"):
         return type(val.item())
-- 
2.43.0


From 47181a53cf16a0e21ce66eecc4abe46f02440011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:18 +0000
Subject: [PATCH 64/70] fix: sparse_list of a matrix without columns

---
 pure_sklearn/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pure_sklearn/utils.py b/pure_sklearn/utils.py
index 1de7f7f..940be07 100644
--- a/pure_sklearn/utils.py
+++ b/pure_sklearn/utils.py
@@ -229,7 +229,7 @@ class sparse_list(list):
         else:
             A = check_array(A)
             self.size = shape(A)[1]
-            self.dtype = type(A[0][0])
+            self.dtype = type(A[0][0]) if self.size > 0 else float
             for row in A:
                 self.append(
                     dict([(i, row[i]) for i in range(self.size) if row[i] != 0])
-- 
2.43.0


From fae2e27f5f0f50a200ab645109ca7f6e7d37c2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:31 +0000
Subject: [PATCH 65/70] fix: refuse multi-output trees, only their first output
 was predicted

---
 pure_sklearn/tree/_classes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pure_sklearn/tree/_classes.py b/pure_sklearn/tree/_classes.py
index c6539d3..9de34e4 100644
--- a/pure_sklearn/tree/_classes.py
+++ b/pure_sklearn/tree/_classes.py
@@ -48,6 +48,8 @@ class _DecisionTreeBase:
         else:
             # sourced from sklearn decision tree
             check_version(estimator)
+            if estimator.tree_.n_outputs != 1:
+                raise ValueError("Multi-output trees are not supported")
             self.children_left_ = estimator.tree_.children_left.tolist()
             self.children_right_ = estimator.tree_.children_right.tolist()
             self.feature_ = estimator.tree_.feature.tolist()
-- 
2.43.0


From 0ff846632f9fa270f899363923d8841e56231723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:36 +0000
Subject: [PATCH 66/70] fix: refuse multi-output XGBClassifier, whose labels
 were mistaken for classes

---
 pure_sklearn/xgboost/_classes.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pure_sklearn/xgboost/_classes.py b/pure_sklearn/xgboost/_classes.py
index 491eefb..280b3bb 100644
--- a/pure_sklearn/xgboost/_classes.py
+++ b/pure_sklearn/xgboost/_classes.py
@@ -42,6 +42,11 @@ class XGBClassifierPure:
         self.classes_ = estimator.classes_.tolist()
         self.n_classes_ = estimator.n_classes_
         booster = estimator.get_booster()
+        if hasattr(booster, "save_config"):
+            config = json.loads(booster.save_config())
+            params = config["learner"]["learner_model_param"]
+            if int(params.get("num_target", 1)) > 1:
+                raise ValueError("Multi-output models are not supported")
         self.n_features_ = (
             int(booster.num_features()) if hasattr(booster, "num_features") else None
         )
-- 
2.43.0


From a29e898d3960af9ff6a9c0b2e19ae9d4ff8bac6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:28 +0000
Subject: [PATCH 67/70] fix: convert_estimator ignored the min_version it was
 given

---
 pure_sklearn/map.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pure_sklearn/map.py b/pure_sklearn/map.py
index bbcab5c..eb1b4d4 100644
--- a/pure_sklearn/map.py
+++ b/pure_sklearn/map.py
@@ -2,6 +2,8 @@
 Mappings from `sklearn` class names to `pure_sklearn` equivalents
 """
 
+from .utils import check_version
+
 MAPPING = {
     "LogisticRegression": "pure_sklearn.linear_model.LogisticRegressionPure",
     "RidgeClassifier": "pure_sklearn.linear_model.RidgeClassifierPure",
@@ -53,6 +55,8 @@ def convert_estimator(est, min_version=None):
         raise ValueError(
             "Cannot find 'pure_sklearn' counterpart for {}".format(est_name)
         )
+    if min_version is not None:
+        check_version(est, min_version)
     module = ".".join(pure_est_name.split(".")[:-1])
     name = pure_est_name.split(".")[-1]
     return _instantiate_class(module, name)(est)
-- 
2.43.0


From 7e149e69cbdca962cf3d644e461cfa5c4055f689 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 03:51:44 +0000
Subject: [PATCH 68/70] fix: sparse rows with columns the model does not have,
 or without rows at all, were answered

Keys below zero counted from the last column, keys beyond the columns were
ignored by trees when the number of columns was not given, and empty sparse
batches were answered.
---
 pure_sklearn/metrics/pairwise.py |  4 ++--
 pure_sklearn/utils.py            | 19 ++++++++++++++++++-
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/pure_sklearn/metrics/pairwise.py b/pure_sklearn/metrics/pairwise.py
index 3c407bf..6ddc597 100644
--- a/pure_sklearn/metrics/pairwise.py
+++ b/pure_sklearn/metrics/pairwise.py
@@ -5,7 +5,7 @@ Pairwise distance and similarity metrics
 from math import sqrt
 
 from ..base import dot_2d, apply_2d, transpose
-from ..utils import shape, ndim, issparse
+from ..utils import shape, ndim, issparse, check_array
 from ..preprocessing import normalize_pure
 
 __all__ = ["cosine_similarity_pure", "cosine_distances_pure", "linear_kernel_pure"]
@@ -37,7 +37,7 @@ def _check_pairwise_arrays(X, Y):
         raise ValueError("Input arrays must have same 2nd dimension.")
     if issparse(Y):
         raise ValueError("Input array 'Y' cannot be sparse.")
-    return X, Y
+    return check_array(X, handle_sparse="allow"), Y
 
 
 def cosine_similarity_pure(X, Y=None):
diff --git a/pure_sklearn/utils.py b/pure_sklearn/utils.py
index 940be07..cd87dad 100644
--- a/pure_sklearn/utils.py
+++ b/pure_sklearn/utils.py
@@ -124,6 +124,7 @@ def check_array(X, handle_sparse="error"):
     """
     if issparse(X):
         if handle_sparse == "allow":
+            _check_columns(X, X.size)
             return X
         elif handle_sparse == "error":
             raise ValueError("Sparse input is not supported " "for this estimator")
@@ -143,6 +144,19 @@ def check_array(X, handle_sparse="error"):
     return X
 
 
+def _check_columns(X, n_columns):
+    """
+    Checks that 'X' is not empty and that the keys of its rows are
+    column indices, below the number of columns if it is known.
+    """
+    if len(X) == 0:
+        raise ValueError("Input 'X' must not be empty")
+    for row in X:
+        for k in row:
+            if (k < 0) or ((n_columns is not None) and (k >= n_columns)):
+                raise ValueError("Sparse input 'X' has no column %d" % k)
+
+
 def check_n_features(X, n_features):
     """
     Checks that input 'X' is 2-D and has the expected number of
@@ -150,7 +164,10 @@ def check_n_features(X, n_features):
     """
     if ndim(X) != 2:
         raise ValueError("Input 'X' must be 2-D")
-    if n_features is None or (issparse(X) and X.size is None):
+    if n_features is None:
+        return
+    if issparse(X) and X.size is None:
+        _check_columns(X, n_features)
         return
     if shape(X)[1] != n_features:
         raise ValueError(
-- 
2.43.0


From 38cf355920425e33312f60f659f4b0cf0ff855d6 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 03:52:51 +0000
Subject: [PATCH 69/70] fix: the column numbers of sparse rows in a plain list
 were taken for values

Slicing a sparse_list gives a list of dicts, which Normalizer, normalize_pure,
SimpleImputer and MissingIndicator answered by iterating over the keys.
---
 pure_sklearn/impute/_base.py        | 10 +++++++++-
 pure_sklearn/preprocessing/_data.py |  3 +++
 pure_sklearn/utils.py               |  6 ++++++
 3 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/pure_sklearn/impute/_base.py b/pure_sklearn/impute/_base.py
index 8b934a0..f2a8a99 100644
--- a/pure_sklearn/impute/_base.py
+++ b/pure_sklearn/impute/_base.py
@@ -2,7 +2,13 @@
 Imputer transformers
 """
 
-from ..utils import shape, check_array, check_types, check_version
+from ..utils import (
+    shape,
+    check_array,
+    check_dense_rows,
+    check_types,
+    check_version,
+)
 from ..base import apply_2d, apply_axis_2d
 
 
@@ -41,6 +47,7 @@ class MissingIndicatorPure:
 
     def transform(self, X):
         X = check_array(X)
+        check_dense_rows(X)
         if shape(X)[1] != self._n_features:
             raise ValueError(
                 "X has a different number of features than during fitting."
@@ -134,6 +141,7 @@ class SimpleImputerPure:
     def transform(self, X):
         """ Transform inpute X by imputing values """
         X = check_array(X)
+        check_dense_rows(X)
         X_indicator = self._transform_indicator(X)
 
         if shape(X)[1] != shape(self.statistics_)[0]:
diff --git a/pure_sklearn/preprocessing/_data.py b/pure_sklearn/preprocessing/_data.py
index 3c752f8..cbaa436 100644
--- a/pure_sklearn/preprocessing/_data.py
+++ b/pure_sklearn/preprocessing/_data.py
@@ -9,6 +9,7 @@ from ..utils import (
     sparse_list,
     issparse,
     check_array,
+    check_dense_rows,
     check_n_features,
     check_types,
     check_version,
@@ -48,6 +49,8 @@ def normalize_pure(X, norm="l2", axis=1, copy=True, return_norm=False):
     if axis not in [0, 1]:
         raise ValueError("'%d' is not a supported axis" % axis)
     X = check_array(X, handle_sparse="allow")
+    if not issparse(X):
+        check_dense_rows(X)
 
     if axis == 0:
         X = transpose(X)
diff --git a/pure_sklearn/utils.py b/pure_sklearn/utils.py
index cd87dad..cf0b21b 100644
--- a/pure_sklearn/utils.py
+++ b/pure_sklearn/utils.py
@@ -157,6 +157,12 @@ def _check_columns(X, n_columns):
                 raise ValueError("Sparse input 'X' has no column %d" % k)
 
 
+def check_dense_rows(X):
+    """ Checks that the rows of input 'X' are not those of a `sparse_list` """
+    if any(isinstance(x, dict) for x in X):
+        raise TypeError("Rows of input 'X' must be lists, unless it is a sparse_list")
+
+
 def check_n_features(X, n_features):
     """
     Checks that input 'X' is 2-D and has the expected number of
-- 
2.43.0


From 0f39622d4c8e54ec0434a979da521f95e41f1f1c Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 03:54:25 +0000
Subject: [PATCH 70/70] fix: dot_2d of a sparse matrix ignored a wrong number
 of columns

---
 pure_sklearn/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pure_sklearn/base.py b/pure_sklearn/base.py
index ac92414..97110b6 100644
--- a/pure_sklearn/base.py
+++ b/pure_sklearn/base.py
@@ -34,6 +34,8 @@ def dot_2d(A, B):
     A -> n_dim = 2
     B -> n_dim = 2
     """
+    if issparse(A) and (A.size is not None) and any(len(b) != A.size for b in B):
+        raise ValueError("'A' and the rows of 'B' must have the same length.")
     return [dot(a, B) for a in A]
 
 
-- 
2.43.0

