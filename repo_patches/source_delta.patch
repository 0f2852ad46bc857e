From 80bbea91c6e1268e699c582b9ba771691320aab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:47 +0000
Subject: [PATCH 01/61] fix: one-hot column offsets are cumulative for three or
 more features

---
 pure_sklearn/preprocessing/_encoders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pure_sklearn/preprocessing/_encoders.py b/pure_sklearn/preprocessing/_encoders.py
index a6606b1..23d503f 100644
--- a/pure_sklearn/preprocessing/_encoders.py
+++ b/pure_sklearn/preprocessing/_encoders.py
@@ -130,7 +130,7 @@ class OneHotEncoderPure(_BaseEncoderPure):
         data = [
             dict(
                 [
-                    (n_values[i] + X_int[j][i], self.dtype(1))
+                    (feature_indices[i] + X_int[j][i], self.dtype(1))
                     for i in range(n_features)
                     if X_mask[j][i]
                 ]
-- 
2.43.0


From 970e29367f34f1529a26bce67e21d0668d78ffca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:47 +0000
Subject: [PATCH 02/61] fix: exponential loss probability is expit(2 * raw
 score)

---
 pure_sklearn/ensemble/_gb_losses.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pure_sklearn/ensemble/_gb_losses.py b/pure_sklearn/ensemble/_gb_losses.py
index 38501ca..36fb1f6 100644
--- a/pure_sklearn/ensemble/_gb_losses.py
+++ b/pure_sklearn/ensemble/_gb_losses.py
@@ -104,7 +104,7 @@ class _ExponentialLossPure:
             if shape(raw_predictions)[1] == 1
             else raw_predictions
         )
-        func = lambda x: expit(x) * 2.0
+        func = lambda x: expit(x * 2.0)
         proba_1 = list(map(func, proba))
         proba = [[(1 - x) for x in proba_1], proba_1]
         return transpose(proba)
-- 
2.43.0


From 8f5f41bdf810cd2e065d8072814888abc8a566b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:47 +0000
Subject: [PATCH 03/61] fix: gradient boosting predicts with the decision rule
 of its loss

---
 pure_sklearn/ensemble/_gb.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/ensemble/_gb.py b/pure_sklearn/ensemble/_gb.py
index ef90d56..4e85360 100644
--- a/pure_sklearn/ensemble/_gb.py
+++ b/pure_sklearn/ensemble/_gb.py
@@ -88,5 +88,6 @@ class GradientBoostingClassifierPure:
         return apply_2d(self.predict_proba(X), safe_log)
 
     def predict(self, X):
-        proba = self.predict_proba(X)
-        return [self.classes_[a.index(max(a))] for a in proba]
+        raw_predictions = self._raw_predict(X)
+        decision = self.loss_._raw_prediction_to_decision(raw_predictions)
+        return [self.classes_[i] for i in decision]
-- 
2.43.0


From 24f11b25f2f80756f56e27aad16d5868734b7be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:47 +0000
Subject: [PATCH 04/61] fix: dummy classifier predicts class labels instead of
 class indices

---
 pure_sklearn/dummy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pure_sklearn/dummy.py b/pure_sklearn/dummy.py
index 3697848..1dd4e2f 100644
--- a/pure_sklearn/dummy.py
+++ b/pure_sklearn/dummy.py
@@ -26,12 +26,14 @@ class DummyClassifierPure:
         if self._strategy != "prior":
             raise ValueError("Strategy '{}' not supported".format(self._strategy))
         self.class_prior_ = estimator.class_prior_.tolist()
+        self.classes_ = estimator.classes_.tolist()
         self.n_classes_ = estimator.n_classes_
         self.n_outputs_ = estimator.n_outputs_
         check_types(self)
 
     def predict(self, X):
-        return [self.class_prior_.index(max(self.class_prior_))] * len(X)
+        idx = self.class_prior_.index(max(self.class_prior_))
+        return [self.classes_[idx]] * len(X)
 
     def predict_proba(self, X):
         return [self.class_prior_] * len(X)
-- 
2.43.0


From d57f00cf89820c77a216281225dcf3d31a8b3f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:47 +0000
Subject: [PATCH 05/61] fix: dummy classifier does not hand out its own prior
 list

---
 pure_sklearn/dummy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pure_sklearn/dummy.py b/pure_sklearn/dummy.py
index 1dd4e2f..2d6f004 100644
--- a/pure_sklearn/dummy.py
+++ b/pure_sklearn/dummy.py
@@ -36,7 +36,7 @@ class DummyClassifierPure:
         return [self.classes_[idx]] * len(X)
 
     def predict_proba(self, X):
-        return [self.class_prior_] * len(X)
+        return [list(self.class_prior_) for _ in range(len(X))]
 
     def predict_log_proba(self, X):
         return apply_2d(self.predict_proba(X), safe_log)
-- 
2.43.0


From 0623557b7f98a994159079c697a186495050fcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:34 +0000
Subject: [PATCH 06/61] fix: softmax does not overflow or divide by zero on
 large scores

---
 pure_sklearn/base.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/base.py b/pure_sklearn/base.py
index ee53d0a..a9e849c 100644
--- a/pure_sklearn/base.py
+++ b/pure_sklearn/base.py
@@ -73,12 +73,15 @@ def expit(x):
 
 def sfmax(arr):
     """ Softmax function for 1-D list or a single sparse_list element """
+    # subtract the maximum so that large values cannot overflow
     if isinstance(arr, dict):
-        expons = {k: safe_exp(v) for k, v in arr.items()}
+        max_val = max(arr.values())
+        expons = {k: safe_exp(v - max_val) for k, v in arr.items()}
         denom = sum(expons.values())
         out = {k: (v / float(denom)) for k, v in expons.items()}
     else:
-        expons = list(map(safe_exp, arr))
+        max_val = max(arr)
+        expons = list(map(lambda x: safe_exp(x - max_val), arr))
         out = list(map(lambda x: x / float(sum(expons)), expons))
     return out
 
-- 
2.43.0


From efd2b0a8973c55da6e2fd28b4911e698ad17637c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:35 +0000
Subject: [PATCH 07/61] fix: naive Bayes posteriors survive underflow of all
 likelihoods

---
 pure_sklearn/base.py        | 8 ++++++++
 pure_sklearn/naive_bayes.py | 4 ++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/base.py b/pure_sklearn/base.py
index a9e849c..e7c97ac 100644
--- a/pure_sklearn/base.py
+++ b/pure_sklearn/base.py
@@ -104,6 +104,14 @@ def safe_exp(x):
         return float("Inf")
 
 
+def logsumexp(arr):
+    """ Log of the sum of exponentials of a 1-D list without over/underflow """
+    max_val = max(arr)
+    if max_val in (float("Inf"), -float("Inf")):
+        return max_val
+    return max_val + log(sum(map(lambda x: safe_exp(x - max_val), arr)))
+
+
 def operate_2d(A, B, func):
     """ Apply elementwise function to 2-D lists """
     if issparse(A) or issparse(B):
diff --git a/pure_sklearn/naive_bayes.py b/pure_sklearn/naive_bayes.py
index 07b0cd6..a609347 100644
--- a/pure_sklearn/naive_bayes.py
+++ b/pure_sklearn/naive_bayes.py
@@ -5,7 +5,7 @@ Naive Bayes
 from abc import abstractmethod
 from math import pi
 
-from .base import dot, transpose, safe_log, safe_exp
+from .base import dot, transpose, safe_log, safe_exp, logsumexp
 from .utils import check_array, check_types, check_version
 
 __all__ = ["GaussianNBPure", "MultinomialNBPure", "ComplementNBPure"]
@@ -33,7 +33,7 @@ class _BaseNBPure:
         """
         X = check_array(X, handle_sparse="error")
         jll = self._joint_log_likelihood(X)
-        log_prob_x = list(map(lambda a: safe_log(sum(map(safe_exp, a))), jll))
+        log_prob_x = list(map(logsumexp, jll))
         return [
             list(map(lambda a: a - log_prob_x[index], jll[index]))
             for index in range(len(jll))
-- 
2.43.0


From 3211fd573edf53b5b0ef4909782d4b1d0532b82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:35 +0000
Subject: [PATCH 08/61] fix: multinomial deviance probabilities survive large
 raw scores

---
 pure_sklearn/ensemble/_gb_losses.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pure_sklearn/ensemble/_gb_losses.py b/pure_sklearn/ensemble/_gb_losses.py
index 36fb1f6..ae5d49f 100644
--- a/pure_sklearn/ensemble/_gb_losses.py
+++ b/pure_sklearn/ensemble/_gb_losses.py
@@ -2,7 +2,16 @@
 Gradient boosting loss classes
 """
 
-from ..base import transpose, apply_axis_2d, apply_2d, safe_exp, safe_log, ravel, expit
+from ..base import (
+    transpose,
+    apply_axis_2d,
+    apply_2d,
+    safe_exp,
+    safe_log,
+    ravel,
+    expit,
+    logsumexp,
+)
 from ..utils import check_types, shape
 
 EPS = 1.1920929e-07
@@ -31,12 +40,10 @@ class _MultinomialDeviancePure:
         check_types(self)
 
     def _raw_prediction_to_proba(self, raw_predictions):
-        logsumexp = list(
-            map(safe_log, apply_axis_2d(apply_2d(raw_predictions, safe_exp), sum))
-        )
+        log_norm = apply_axis_2d(raw_predictions, logsumexp)
         return [
             [
-                safe_exp(raw_predictions[index][i] - logsumexp[index])
+                safe_exp(raw_predictions[index][i] - log_norm[index])
                 for i in range(self.n_classes_)
             ]
             for index in range(len(raw_predictions))
-- 
2.43.0


From dc0faac1f97dec0a93f3314b8b33450151f3a435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:35 +0000
Subject: [PATCH 09/61] fix: trees compare with thresholds at the native single
 precision

---
 pure_sklearn/tree/_classes.py | 37 ++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/pure_sklearn/tree/_classes.py b/pure_sklearn/tree/_classes.py
index e389c50..fc4e481 100644
--- a/pure_sklearn/tree/_classes.py
+++ b/pure_sklearn/tree/_classes.py
@@ -5,11 +5,44 @@ Classes for tree based models
 import warnings
 
 from math import isnan
+from struct import pack, unpack
 
 from ..base import safe_log
 from ..utils import check_array, check_types, check_version
 
 
+def _next_float(x, up, float_fmt, int_fmt):
+    """ Next representable float after 'x' in the given `struct` format """
+    if x == 0.0:
+        tiny = unpack(float_fmt, pack(int_fmt, 1))[0]
+        return tiny if up else -tiny
+    bits = unpack(int_fmt, pack(float_fmt, x))[0]
+    bits += 1 if (x > 0) == up else -1
+    return unpack(float_fmt, pack(int_fmt, bits))[0]
+
+
+def _to_float32(x):
+    """ Rounds 'x' to single precision """
+    return unpack("<f", pack("<f", x))[0]
+
+
+def _float32_threshold(threshold):
+    """
+    Native trees round their input to single precision before comparing it
+    with a threshold. Returns the largest value which, after that rounding,
+    is still less than or equal to 'threshold', such that inputs can be
+    compared without being rounded.
+    """
+    lower = _to_float32(threshold)
+    if lower > threshold:
+        lower = _next_float(lower, False, "<f", "<I")
+    upper = _next_float(lower, True, "<f", "<I")
+    middle = (lower + upper) / 2.0
+    if _to_float32(middle) <= lower:
+        return middle
+    return _next_float(middle, False, "<d", "<Q")
+
+
 class _DecisionTreeBase:
     """ Decision tree base class """
 
@@ -44,7 +77,9 @@ class _DecisionTreeBase:
             self.children_left_ = estimator.tree_.children_left.tolist()
             self.children_right_ = estimator.tree_.children_right.tolist()
             self.feature_ = estimator.tree_.feature.tolist()
-            self.threshold_ = estimator.tree_.threshold.tolist()
+            self.threshold_ = list(
+                map(_float32_threshold, estimator.tree_.threshold.tolist())
+            )
             self.value_ = [a[0] for a in estimator.tree_.value.tolist()]
             with warnings.catch_warnings():
                 warnings.simplefilter("ignore")
-- 
2.43.0


From b0264e8ffe59965623b1c9bd287f1e3224282e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:30 +0000
Subject: [PATCH 10/61] fix: xgboost trees use the booster's features, nodes,
 missing branch, base score and rounds

Feature names with more than one digit or not of the form f<i>, node ids
left non-contiguous by pruning, missing values, a base score other than
0.5, early stopping and parallel trees silently gave wrong predictions;
splits are strict single precision comparisons.
---
 pure_sklearn/tree/_classes.py    | 44 +++++++++++++++---
 pure_sklearn/xgboost/_classes.py | 79 ++++++++++++++++++++++++--------
 2 files changed, 97 insertions(+), 26 deletions(-)

diff --git a/pure_sklearn/tree/_classes.py b/pure_sklearn/tree/_classes.py
index fc4e481..1237026 100644
--- a/pure_sklearn/tree/_classes.py
+++ b/pure_sklearn/tree/_classes.py
@@ -43,31 +43,60 @@ def _float32_threshold(threshold):
     return _next_float(middle, False, "<d", "<Q")
 
 
+def _float32_threshold_strict(threshold):
+    """
+    Same as `_float32_threshold`, for native trees which send a value to the
+    left only if it is strictly less than 'threshold'.
+    """
+    return _float32_threshold(
+        _next_float(_to_float32(threshold), False, "<f", "<I")
+    )
+
+
 class _DecisionTreeBase:
     """ Decision tree base class """
 
-    def __init__(self, estimator):
+    # next node for missing values, if the native tree supports them
+    children_missing_ = None
+
+    def __init__(self, estimator, feature_names=None):
         if isinstance(estimator, dict):
             # sourced from xgboost booster object tree dictionary
             self.threshold_ = list(
-                map(lambda x: -2 if isnan(x) else x, estimator["Split"])
+                map(
+                    lambda x: -2 if isnan(x) else _float32_threshold_strict(x),
+                    estimator["Split"],
+                )
             )
             self.value_ = [[a] for a in estimator["Gain"]]
+            if feature_names is None:
+                # features have default names 'f0', 'f1', ...
+                feature_index = lambda x: int(x[1:])
+            else:
+                feature_index = feature_names.index
+            # node ids are not contiguous when the tree has been pruned
+            index = {node_id: i for i, node_id in enumerate(estimator["ID"])}
             self.children_left_ = list(
                 map(
-                    lambda x: -1 if not isinstance(x, str) else int(x.split("-")[-1]),
+                    lambda x: -1 if not isinstance(x, str) else index[x],
                     estimator["Yes"],
                 )
             )
             self.children_right_ = list(
                 map(
-                    lambda x: -1 if not isinstance(x, str) else int(x.split("-")[-1]),
+                    lambda x: -1 if not isinstance(x, str) else index[x],
                     estimator["No"],
                 )
             )
+            self.children_missing_ = list(
+                map(
+                    lambda x: -1 if not isinstance(x, str) else index[x],
+                    estimator["Missing"],
+                )
+            )
             self.feature_ = list(
                 map(
-                    lambda x: -2 if x == "Leaf" else int(x.replace("f", "")[-1]),
+                    lambda x: -2 if x == "Leaf" else feature_index(x),
                     estimator["Feature"],
                 )
             )
@@ -100,7 +129,10 @@ class _DecisionTreeBase:
             if self.children_left_[node_id] == self.children_right_[node_id]:
                 found_node = True
             else:
-                if left_equal(node_id) <= self.threshold_[node_id]:
+                val = left_equal(node_id)
+                if (self.children_missing_ is not None) and (val != val):
+                    node_id = self.children_missing_[node_id]
+                elif val <= self.threshold_[node_id]:
                     node_id = self.children_left_[node_id]
                 else:
                     node_id = self.children_right_[node_id]
diff --git a/pure_sklearn/xgboost/_classes.py b/pure_sklearn/xgboost/_classes.py
index 3ed4c32..ae6d2be 100644
--- a/pure_sklearn/xgboost/_classes.py
+++ b/pure_sklearn/xgboost/_classes.py
@@ -2,7 +2,9 @@
 Estimator classes for xgboost
 """
 
-from math import exp
+import json
+
+from math import log
 
 from ..base import sfmax, expit
 from ..utils import check_types, check_array
@@ -39,34 +41,71 @@ class XGBClassifierPure:
             self.booster = estimator.booster
         self.classes_ = estimator.classes_.tolist()
         self.n_classes_ = estimator.n_classes_
-        self.n_estimators = estimator.n_estimators
+        self.missing = (
+            float("Nan") if estimator.missing is None else float(estimator.missing)
+        )
+        self.base_margin = self._get_base_margin(estimator)
         self.estimators_ = self._build_estimators(estimator)
+        self.n_estimators = len(self.estimators_)
         check_types(self)
 
+    def _get_base_margin(self, estimator):
+        """ Initial raw prediction which tree predictions are added to """
+        if self.objective == "multi:softprob":
+            # a constant which is the same for all classes has no effect
+            return 0.0
+        base_score = None
+        try:
+            config = json.loads(estimator.get_booster().save_config())
+            base_score = config["learner"]["learner_model_param"]["base_score"]
+        except (AttributeError, KeyError):
+            base_score = estimator.base_score
+        base_score = 0.5 if base_score is None else float(base_score)
+        return log(base_score / (1.0 - base_score))
+
     def _build_estimators(self, estimator):
-        """ Convert booster to list of pure decision tree regressors """
-        if not hasattr(estimator.get_booster(), "trees_to_dataframe"):
+        """
+        Convert booster to list of pure decision tree regressors. For
+        multi-class, every element has one tree per class.
+        """
+        booster = estimator.get_booster()
+        if not hasattr(booster, "trees_to_dataframe"):
             raise Exception(
                 "This xgboost estimator was likely fitted with version < {} "
                 "which is not supported".format(MIN_VERSION)
             )
-        tree_df = estimator.get_booster().trees_to_dataframe()
+        tree_df = booster.trees_to_dataframe()
+        trees = [
+            DecisionTreeRegressorPure(
+                tree.to_dict(orient="list"), booster.feature_names
+            )
+            for _, tree in tree_df.groupby("Tree", sort=True)
+        ]
+        # each boosting round has 'n_parallel' consecutive trees per class
+        n_groups = self.n_classes_ if self.objective == "multi:softprob" else 1
+        n_parallel = getattr(estimator, "num_parallel_tree", None) or 1
+        best_iteration = getattr(estimator, "best_iteration", None)
+        if best_iteration is not None:
+            # early stopping only uses trees up to the best iteration
+            trees = trees[: (best_iteration + 1) * n_groups * n_parallel]
         estimators_ = []
-        idx = 0
-        for est_id in range(self.n_estimators):
-            if self.n_classes_ == 2:
-                tree = tree_df[tree_df["Tree"] == idx].to_dict(orient="list")
-                est_row_ = DecisionTreeRegressorPure(tree)
-                idx += 1
-            else:
-                est_row_ = []
-                for cls_id in range(self.n_classes_):
-                    tree = tree_df[tree_df["Tree"] == idx].to_dict(orient="list")
-                    est_row_.append(DecisionTreeRegressorPure(tree))
-                    idx += 1
-            estimators_.append(est_row_)
+        for start in range(0, len(trees), n_groups * n_parallel):
+            for offset in range(start, start + n_parallel):
+                est_row_ = [
+                    trees[offset + group * n_parallel] for group in range(n_groups)
+                ]
+                if n_groups == 1:
+                    estimators_.append(est_row_[0])
+                else:
+                    estimators_.append(est_row_)
         return estimators_
 
+    def _mask_missing(self, X):
+        """ Replace the missing value indicator with nan """
+        if self.missing != self.missing:
+            return X
+        return [[float("Nan") if x == self.missing else x for x in row] for row in X]
+
     def _predict(self, X):
         """ Raw sums of estimator predictions for each class for multi-class """
         preds = []
@@ -80,7 +119,7 @@ class XGBClassifierPure:
 
     def _predict_binary(self, X):
         """ Raw sums of estimator predictions for each class for binary """
-        preds = [0] * len(X)
+        preds = [self.base_margin] * len(X)
         for estimator in self.estimators_:
             preds = list(map(lambda x, y: x + y, preds, estimator.predict(X)))
         return preds
@@ -90,7 +129,7 @@ class XGBClassifierPure:
         return [self.classes_[a.index(max(a))] for a in proba]
 
     def predict_proba(self, X):
-        X = check_array(X)
+        X = self._mask_missing(check_array(X))
         if self.objective == "multi:softprob":
             preds = self._predict(X)
             out = []
-- 
2.43.0


From 44c7ddaf326438c55cf5ed1a05e233961b9fe9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:08 +0000
Subject: [PATCH 11/61] fix: feature hashing adds up the values that share a
 column

---
 pure_sklearn/feature_extraction/_hash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pure_sklearn/feature_extraction/_hash.py b/pure_sklearn/feature_extraction/_hash.py
index 05ddeae..5212039 100755
--- a/pure_sklearn/feature_extraction/_hash.py
+++ b/pure_sklearn/feature_extraction/_hash.py
@@ -109,7 +109,7 @@ def _hashing_transform(raw_X, n_features, dtype, alternate_sign=1, seed=0):
             index = abs(h) % n_features
             if alternate_sign:
                 value *= (h >= 0) * 2 - 1
-            row[index] = value
+            row[index] = row.get(index, 0) + value
         X.append(row)
     return sparse_list(X, size=n_features, dtype=dtype)
 
-- 
2.43.0


From 339f3dc260fc441fbddeba685f48c1ff0aece404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:08 +0000
Subject: [PATCH 12/61] fix: binary text vectorizers return a sparse_list

---
 pure_sklearn/feature_extraction/text.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/feature_extraction/text.py b/pure_sklearn/feature_extraction/text.py
index e3164cf..a9db839 100755
--- a/pure_sklearn/feature_extraction/text.py
+++ b/pure_sklearn/feature_extraction/text.py
@@ -377,7 +377,9 @@ class CountVectorizerPure(_VectorizerMixinPure):
 
         _, X = self._count_vocab(raw_documents)
         if self.binary:
-            X = [dict.fromkeys(x, 1) for x in X]
+            X = sparse_list(
+                [dict.fromkeys(x, 1) for x in X], size=X.size, dtype=X.dtype
+            )
         return X
 
 
@@ -481,7 +483,9 @@ class HashingVectorizerPure(_VectorizerMixinPure):
         analyzer = self.build_analyzer()
         X = self._get_hasher().transform(analyzer(doc) for doc in X)
         if self.binary:
-            X = [dict.fromkeys(x, 1) for x in X]
+            X = sparse_list(
+                [dict.fromkeys(x, 1) for x in X], size=X.size, dtype=X.dtype
+            )
 
         if self.norm is not None:
             X = normalize_pure(X, norm=self.norm, copy=False)
-- 
2.43.0


From c3e7dba3d53a3a5aa17f45041499865af0c91591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:08 +0000
Subject: [PATCH 13/61] fix: tf-idf without idf weights can be converted

---
 pure_sklearn/feature_extraction/text.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/feature_extraction/text.py b/pure_sklearn/feature_extraction/text.py
index a9db839..59b1c1a 100755
--- a/pure_sklearn/feature_extraction/text.py
+++ b/pure_sklearn/feature_extraction/text.py
@@ -416,8 +416,9 @@ class TfidfTransformerPure:
         self.use_idf = estimator.use_idf
         self.smooth_idf = estimator.smooth_idf
         self.sublinear_tf = estimator.sublinear_tf
-        self.idf_ = estimator.idf_.tolist()
-        self.expected_n_features_ = estimator._idf_diag.shape[0]
+        if self.use_idf:
+            self.idf_ = estimator.idf_.tolist()
+            self.expected_n_features_ = estimator._idf_diag.shape[0]
         check_types(self)
 
     def transform(self, X, copy=True):
-- 
2.43.0


From 407100a900bc87759fc56dc1120b34c86afcf7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:08 +0000
Subject: [PATCH 14/61] fix: sublinear term frequency scaling of tf-idf

---
 pure_sklearn/feature_extraction/text.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/feature_extraction/text.py b/pure_sklearn/feature_extraction/text.py
index 59b1c1a..a6483cd 100755
--- a/pure_sklearn/feature_extraction/text.py
+++ b/pure_sklearn/feature_extraction/text.py
@@ -19,6 +19,7 @@ from ..utils import (
     check_types,
     check_version,
 )
+from ..base import apply_2d_sparse, safe_log
 from ..map import convert_estimator
 from ..preprocessing import normalize_pure
 from ._hash import _FeatureHasherPure
@@ -426,8 +427,7 @@ class TfidfTransformerPure:
         n_samples, n_features = shape(X)
 
         if self.sublinear_tf:
-            for index in range(len(X)):
-                X[index] = safe_log(X[index]) + 1
+            X = apply_2d_sparse(X, lambda v: safe_log(v) + 1)
 
         if self.use_idf:
             if n_features != self.expected_n_features_:
-- 
2.43.0


From df36cc740436f249700fd87a581db5d1cf7a687a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:08 +0000
Subject: [PATCH 15/61] fix: tf-idf reports a wrong number of features instead
 of a NameError

---
 pure_sklearn/feature_extraction/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pure_sklearn/feature_extraction/text.py b/pure_sklearn/feature_extraction/text.py
index a6483cd..6790279 100755
--- a/pure_sklearn/feature_extraction/text.py
+++ b/pure_sklearn/feature_extraction/text.py
@@ -434,7 +434,7 @@ class TfidfTransformerPure:
                 raise ValueError(
                     "Input has n_features=%d while the model"
                     " has been trained with n_features=%d"
-                    % (n_features, expected_n_features)
+                    % (n_features, self.expected_n_features_)
                 )
             for index in range(len(X)):
                 for k, v in X[index].items():
-- 
2.43.0


From 2a2088b95800530d11cabf18f6ee62230e7c1566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:08 +0000
Subject: [PATCH 16/61] fix: tf-idf does not overwrite the term counts it is
 given

---
 pure_sklearn/feature_extraction/text.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pure_sklearn/feature_extraction/text.py b/pure_sklearn/feature_extraction/text.py
index 6790279..4bbd65e 100755
--- a/pure_sklearn/feature_extraction/text.py
+++ b/pure_sklearn/feature_extraction/text.py
@@ -436,9 +436,8 @@ class TfidfTransformerPure:
                     " has been trained with n_features=%d"
                     % (n_features, self.expected_n_features_)
                 )
-            for index in range(len(X)):
-                for k, v in X[index].items():
-                    X[index][k] = v * self.idf_[k]
+            X_ = [{k: (v * self.idf_[k]) for k, v in x.items()} for x in X]
+            X = sparse_list(X_, size=X.size, dtype=X.dtype)
 
         if self.norm:
             X = normalize_pure(X, norm=self.norm, copy=False)
-- 
2.43.0


From 002286c6fa9abf934a03e74ec76bf3ad500ac28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:31 +0000
Subject: [PATCH 17/61] fix: feature union weights apply to sparse blocks

---
 pure_sklearn/pipeline.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pure_sklearn/pipeline.py b/pure_sklearn/pipeline.py
index 41196f8..75c7ad1 100644
--- a/pure_sklearn/pipeline.py
+++ b/pure_sklearn/pipeline.py
@@ -6,7 +6,7 @@ from operator import add, attrgetter
 from functools import update_wrapper, reduce
 from itertools import islice
 
-from .base import accumu, apply_2d
+from .base import accumu, apply_2d, apply_2d_sparse
 from .utils import (
     issparse,
     tosparse,
@@ -61,6 +61,8 @@ def _transform_one(transformer, X, y, weight, **fit_params):
     # if we have a weight for this transformer, multiply output
     if weight is None:
         return res
+    if issparse(res):
+        return apply_2d_sparse(res, lambda x: x * weight)
     return apply_2d(res, lambda x: x * weight)
 
 
-- 
2.43.0


From 255d7a91d4de5bac45b3fdbf1f602a798a740622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:36 +0000
Subject: [PATCH 18/61] fix: missing indicator compares feature indices, not
 counts of missing values

---
 pure_sklearn/impute/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pure_sklearn/impute/_base.py b/pure_sklearn/impute/_base.py
index a3e594c..001613e 100644
--- a/pure_sklearn/impute/_base.py
+++ b/pure_sklearn/impute/_base.py
@@ -70,7 +70,7 @@ class MissingIndicatorPure:
         if self.features == "all":
             features_indices = range(shape(X)[1])
         else:
-            features_indices = [a for a in n_missing if a != 0]
+            features_indices = [i for i, a in enumerate(n_missing) if a != 0]
         return imputer_mask, features_indices
 
 
-- 
2.43.0


From 58c51d9e164f0dcca1b1b724173fdeea6f443c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:41 +0000
Subject: [PATCH 19/61] fix: imputers accept string and None values and markers

---
 pure_sklearn/impute/_base.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pure_sklearn/impute/_base.py b/pure_sklearn/impute/_base.py
index 001613e..cf5b634 100644
--- a/pure_sklearn/impute/_base.py
+++ b/pure_sklearn/impute/_base.py
@@ -2,15 +2,18 @@
 Imputer transformers
 """
 
-from math import isnan
-
 from ..utils import shape, check_array, check_types, check_version
 from ..base import apply_2d, apply_axis_2d
 
 
+def _is_nan(val):
+    """ Same as `math.isnan` but also accepts values which are not numbers """
+    return val != val
+
+
 def _to_impute(val, missing_values):
-    if isnan(missing_values):
-        return isnan(val)
+    if _is_nan(missing_values):
+        return _is_nan(val)
     else:
         return val == missing_values
 
@@ -146,7 +149,7 @@ class SimpleImputerPure:
             to_remove = [
                 index
                 for index in range(len(self.statistics_))
-                if isnan(self.statistics_[index])
+                if _is_nan(self.statistics_[index])
             ]
             if len(to_remove) > 0:
                 X = [[a[i] for i in range(len(a)) if i not in to_remove] for a in X]
-- 
2.43.0


From 862864fe6b7b554526e199b5de7c382b7585a758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:45 +0000
Subject: [PATCH 20/61] fix: bagging on feature subsets accepts sparse rows

---
 pure_sklearn/ensemble/_bagging.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pure_sklearn/ensemble/_bagging.py b/pure_sklearn/ensemble/_bagging.py
index f10446d..459ea52 100644
--- a/pure_sklearn/ensemble/_bagging.py
+++ b/pure_sklearn/ensemble/_bagging.py
@@ -6,13 +6,16 @@ from operator import add
 
 from ..map import MAPPING, convert_estimator
 from ..base import safe_log, operate_2d, apply_2d
-from ..utils import shape, check_types, check_version
+from ..utils import shape, check_types, check_version, issparse, sparse_list
 
 
 def _feat_slice(X, feats):
     if feats is None:
         return X
     else:
+        if issparse(X):
+            X_ = [{j: a[i] for j, i in enumerate(feats) if i in a} for a in X]
+            return sparse_list(X_, size=len(feats), dtype=X.dtype)
         return [[a[i] for i in feats] for a in X]
 
 
-- 
2.43.0


From 3d65a0099bae92c67bb790b55f238d525e474627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:49 +0000
Subject: [PATCH 21/61] fix: bagging members that never saw some classes

---
 pure_sklearn/ensemble/_bagging.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/pure_sklearn/ensemble/_bagging.py b/pure_sklearn/ensemble/_bagging.py
index 459ea52..2dcced2 100644
--- a/pure_sklearn/ensemble/_bagging.py
+++ b/pure_sklearn/ensemble/_bagging.py
@@ -35,13 +35,23 @@ class _BaseBaggingPure:
             self.estimators_.append(est_)
         check_types(self)
 
+    def _member_proba(self, idx, X):
+        """ Probabilities of one estimator for all classes of the ensemble """
+        est = self.estimators_[idx]
+        proba = est.predict_proba(_feat_slice(X, self._get_feats(idx)))
+        if len(est.classes_) == len(self.classes_):
+            return proba
+        # the estimator has not seen all classes, it was trained on class indices
+        columns = {int(cls): col for col, cls in enumerate(est.classes_)}
+        return [
+            [a[columns[i]] if i in columns else 0.0 for i in range(len(self.classes_))]
+            for a in proba
+        ]
+
     def predict_proba(self, X):
-        proba = self.estimators_[0].predict_proba(_feat_slice(X, self._get_feats(0)))
+        proba = self._member_proba(0, X)
         for idx in range(len(self.estimators_))[1:]:
-            proba_idx = self.estimators_[idx].predict_proba(
-                _feat_slice(X, self._get_feats(idx))
-            )
-            proba = operate_2d(proba, proba_idx, add)
+            proba = operate_2d(proba, self._member_proba(idx, X), add)
         func = lambda x: x / float(len(self.estimators_))
         return apply_2d(proba, func)
 
-- 
2.43.0


From 407e4148de45c7362d8face5a65a1d3e3e03b289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:20 +0000
Subject: [PATCH 22/61] fix: multi-output trees are refused instead of
 predicting only one output

---
 pure_sklearn/tree/_classes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pure_sklearn/tree/_classes.py b/pure_sklearn/tree/_classes.py
index 1237026..4122e0c 100644
--- a/pure_sklearn/tree/_classes.py
+++ b/pure_sklearn/tree/_classes.py
@@ -103,6 +103,8 @@ class _DecisionTreeBase:
         else:
             # sourced from sklearn decision tree
             check_version(estimator)
+            if estimator.n_outputs_ > 1:
+                raise ValueError("Multi-output trees are not supported")
             self.children_left_ = estimator.tree_.children_left.tolist()
             self.children_right_ = estimator.tree_.children_right.tolist()
             self.feature_ = estimator.tree_.feature.tolist()
-- 
2.43.0


From 8eee47ebed324e9a27433d073adb79b8dfdbb776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:24 +0000
Subject: [PATCH 23/61] fix: max norm uses absolute values

---
 pure_sklearn/preprocessing/_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/preprocessing/_data.py b/pure_sklearn/preprocessing/_data.py
index 4eb49e0..28e1dfd 100644
--- a/pure_sklearn/preprocessing/_data.py
+++ b/pure_sklearn/preprocessing/_data.py
@@ -57,7 +57,7 @@ def normalize_pure(X, norm="l2", axis=1, copy=True, return_norm=False):
         elif norm == "l2":
             norms = _row_norms(X)
         elif norm == "max":
-            norms = [max(list(x.values()) + [0]) for x in X]
+            norms = [max(list(map(abs, x.values())) + [0]) for x in X]
         norms = _handle_zeros_in_scale(norms, copy=False)
         X_sparse = [
             {k: (v / float(norms[index])) for k, v in X[index].items()}
@@ -70,7 +70,7 @@ def normalize_pure(X, norm="l2", axis=1, copy=True, return_norm=False):
         elif norm == "l2":
             norms = _row_norms(X)
         elif norm == "max":
-            norms = apply_axis_2d(X, max, axis=1)
+            norms = apply_axis_2d(apply_2d(X, abs), max, axis=1)
         norms = _handle_zeros_in_scale(norms, copy=False)
         X = [
             list(map(lambda a: a / float(norms[index]), X[index]))
-- 
2.43.0


From b27fe95e964dc5a3adfd1104f4c11e681c6e24bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:29 +0000
Subject: [PATCH 24/61] fix: learning rate and feature range are stored as
 plain floats

---
 pure_sklearn/ensemble/_gb.py        | 2 +-
 pure_sklearn/preprocessing/_data.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/ensemble/_gb.py b/pure_sklearn/ensemble/_gb.py
index 4e85360..866a96d 100644
--- a/pure_sklearn/ensemble/_gb.py
+++ b/pure_sklearn/ensemble/_gb.py
@@ -36,7 +36,7 @@ class GradientBoostingClassifierPure:
         if hasattr(estimator, "init_"):
             self.init_ = convert_estimator(estimator.init_)
         self.loss = estimator.loss
-        self.learning_rate = estimator.learning_rate
+        self.learning_rate = float(estimator.learning_rate)
         self.n_features_ = estimator.n_features_
         if self.loss == "deviance":
             self.loss_ = (
diff --git a/pure_sklearn/preprocessing/_data.py b/pure_sklearn/preprocessing/_data.py
index 28e1dfd..8830bad 100644
--- a/pure_sklearn/preprocessing/_data.py
+++ b/pure_sklearn/preprocessing/_data.py
@@ -162,7 +162,7 @@ class MinMaxScalerPure:
 
     def __init__(self, estimator):
         check_version(estimator)
-        self.feature_range = estimator.feature_range
+        self.feature_range = tuple(map(float, estimator.feature_range))
         if estimator.scale_ is None:
             self.scale_ = None
         else:
-- 
2.43.0


From 4a9e9836ed59ae90c3f6663e480a4076e740ca7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:33 +0000
Subject: [PATCH 25/61] fix: dict vectorizer adds up values of the same feature

---
 pure_sklearn/feature_extraction/_dict_vectorizer.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pure_sklearn/feature_extraction/_dict_vectorizer.py b/pure_sklearn/feature_extraction/_dict_vectorizer.py
index cee2858..f3b6f2b 100755
--- a/pure_sklearn/feature_extraction/_dict_vectorizer.py
+++ b/pure_sklearn/feature_extraction/_dict_vectorizer.py
@@ -38,7 +38,13 @@ class DictVectorizerPure:
                     f = "%s%s%s" % (f, self.separator, v)
                     v = 1
                 if f in vocab:
-                    row[vocab[f]] = dtype(v)
+                    # 'name=value' and 'name': 'value' are the same feature, which
+                    # is only added up when sparse
+                    index = vocab[f]
+                    if self.sparse and (index in row):
+                        row[index] += dtype(v)
+                    else:
+                        row[index] = dtype(v)
             data.append(row)
         result_matrix = sparse_list(data, size=len(vocab), dtype=dtype)
         if not self.sparse:
-- 
2.43.0


From 67e3fefac98e31a5dc30ae42f6507cf845e3229d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:37 +0000
Subject: [PATCH 26/61] fix: converted vectorizers do not share state with the
 native model

---
 pure_sklearn/feature_extraction/_dict_vectorizer.py | 4 ++--
 pure_sklearn/feature_extraction/text.py             | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/pure_sklearn/feature_extraction/_dict_vectorizer.py b/pure_sklearn/feature_extraction/_dict_vectorizer.py
index f3b6f2b..b042235 100755
--- a/pure_sklearn/feature_extraction/_dict_vectorizer.py
+++ b/pure_sklearn/feature_extraction/_dict_vectorizer.py
@@ -17,8 +17,8 @@ class DictVectorizerPure:
 
     def __init__(self, estimator):
         check_version(estimator)
-        self.vocabulary_ = estimator.vocabulary_
-        self.feature_names_ = estimator.feature_names_
+        self.vocabulary_ = dict(estimator.vocabulary_)
+        self.feature_names_ = list(estimator.feature_names_)
         self.sparse = estimator.sparse
         self.dtype = convert_type(estimator.dtype)
         self.separator = estimator.separator
diff --git a/pure_sklearn/feature_extraction/text.py b/pure_sklearn/feature_extraction/text.py
index 4bbd65e..18ac834 100755
--- a/pure_sklearn/feature_extraction/text.py
+++ b/pure_sklearn/feature_extraction/text.py
@@ -6,6 +6,7 @@ build feature vectors from text documents.
 import re
 import unicodedata
 
+from copy import copy as cp
 from functools import partial
 from collections import defaultdict
 from math import isnan
@@ -339,7 +340,7 @@ class CountVectorizerPure(_VectorizerMixinPure):
         self.analyzer = estimator.analyzer
         self.preprocessor = estimator.preprocessor
         self.tokenizer = estimator.tokenizer
-        self.stop_words = estimator.stop_words
+        self.stop_words = cp(estimator.stop_words)
         self.token_pattern = estimator.token_pattern
         self.ngram_range = estimator.ngram_range
         self.strip_accents = estimator.strip_accents
@@ -461,7 +462,7 @@ class HashingVectorizerPure(_VectorizerMixinPure):
         self.analyzer = estimator.analyzer
         self.preprocessor = estimator.preprocessor
         self.tokenizer = estimator.tokenizer
-        self.stop_words = estimator.stop_words
+        self.stop_words = cp(estimator.stop_words)
         self.token_pattern = estimator.token_pattern
         self.ngram_range = estimator.ngram_range
         self.strip_accents = estimator.strip_accents
-- 
2.43.0


From 4d34ca366c932551bf0cb3a3189c7c7331ce7d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:41 +0000
Subject: [PATCH 27/61] fix: empty input is refused

---
 pure_sklearn/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pure_sklearn/utils.py b/pure_sklearn/utils.py
index 2787413..433e195 100644
--- a/pure_sklearn/utils.py
+++ b/pure_sklearn/utils.py
@@ -94,7 +94,7 @@ def check_array(X, handle_sparse="error"):
     if not isinstance(X, list):
         raise TypeError("Input 'X' must be a list")
     if len(X) == 0:
-        return ValueError("Input 'X' must not be empty")
+        raise ValueError("Input 'X' must not be empty")
     return X
 
 
-- 
2.43.0


From b9d6907a43d302e35285cfe823f3ebe73eef120e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:45 +0000
Subject: [PATCH 28/61] fix: package imports on Python versions without
 distutils

---
 pure_sklearn/utils.py | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/pure_sklearn/utils.py b/pure_sklearn/utils.py
index 433e195..ab8c23e 100644
--- a/pure_sklearn/utils.py
+++ b/pure_sklearn/utils.py
@@ -3,10 +3,11 @@ Utility functions
 """
 
 import pickle
+import re
 import time
 
+from itertools import zip_longest
 from warnings import warn
-from distutils.version import LooseVersion
 
 CONTAINERS = (list, dict, tuple)
 TYPES = (int, float, str, bool, type)
@@ -40,6 +41,27 @@ def check_types(obj, containers=CONTAINERS, types=TYPES):
         raise ValueError("Object contains invalid type: {}".format(type(obj)))
 
 
+def _parse_version(version):
+    """ Numeric components of a version string, with a flag for pre-releases """
+    parts = []
+    for part in version.split("+")[0].split("."):
+        number, suffix = re.match(r"(\d*)(.*)", part).groups()
+        if number:
+            parts.append(int(number))
+        if suffix:
+            if not suffix.startswith("post"):
+                # pre-release e.g. '0.24.dev0', '0.24rc1' or '1.0b2'
+                parts.append(-1)
+            break
+    return parts
+
+
+def _version_less_than(version, other):
+    """ Checks if 'version' is lower than 'other' """
+    pairs = zip_longest(_parse_version(version), _parse_version(other), fillvalue=0)
+    return next((a < b for a, b in pairs if a != b), False)
+
+
 def check_version(estimator, min_version=None):
     """ Checks the version of the scikit-learn estimator """
     warning_str = (
@@ -53,14 +75,14 @@ def check_version(estimator, min_version=None):
         warn(warning_str)
         return
     if (min_version is not None) and (
-        LooseVersion(version_) < LooseVersion(min_version)
+        _version_less_than(version_, min_version)
     ):
         raise Exception(
             "The sklearn version is too low for this estimator; must be >= {}".format(
                 min_version
             )
         )
-    elif LooseVersion(version_) < LooseVersion(MIN_VERSION):
+    elif _version_less_than(version_, MIN_VERSION):
         warn(warning_str)
 
 
-- 
2.43.0


From 7e7d2f8bf7ab45228d28efd3d434e86d21217073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:23 +0000
Subject: [PATCH 29/61] fix: numpy scalars that subclass python types are not
 valid in converted models

---
 pure_sklearn/linear_model/_base.py | 2 +-
 pure_sklearn/utils.py              | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/linear_model/_base.py b/pure_sklearn/linear_model/_base.py
index da2db9a..ae80fee 100644
--- a/pure_sklearn/linear_model/_base.py
+++ b/pure_sklearn/linear_model/_base.py
@@ -16,7 +16,7 @@ class LinearClassifierMixinPure:
         self.classes_ = estimator.classes_.tolist()
         if hasattr(estimator, "intercept_"):
             if isinstance(estimator.intercept_, float):
-                self.intercept_ = [estimator.intercept_] * len(self.classes_)
+                self.intercept_ = [float(estimator.intercept_)] * len(self.classes_)
             else:
                 self.intercept_ = estimator.intercept_.tolist()
         if hasattr(estimator, "multi_class"):
diff --git a/pure_sklearn/utils.py b/pure_sklearn/utils.py
index ab8c23e..8e1e8e1 100644
--- a/pure_sklearn/utils.py
+++ b/pure_sklearn/utils.py
@@ -30,7 +30,12 @@ def check_types(obj, containers=CONTAINERS, types=TYPES):
             for k, v in obj.items():
                 check_types(k)
                 check_types(v)
-    elif isinstance(obj, types):
+    elif isinstance(obj, type) and (type in types):
+        # types are stored by reference
+        if obj not in types:
+            raise ValueError("Object contains invalid type: {}".format(obj))
+    elif type(obj) in types:
+        # subclasses could be defined outside of the standard library e.g. in numpy
         pass
     elif "pure_sklearn" in str(type(obj)):
         for attr in vars(obj):
-- 
2.43.0


From 2fa6de3f47bfa10ad6ea80956ebaf57b69306c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:54 +0000
Subject: [PATCH 30/61] fix: n-gram range is not shared with the native
 vectorizer

---
 pure_sklearn/feature_extraction/text.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/feature_extraction/text.py b/pure_sklearn/feature_extraction/text.py
index 18ac834..9733b52 100755
--- a/pure_sklearn/feature_extraction/text.py
+++ b/pure_sklearn/feature_extraction/text.py
@@ -342,7 +342,7 @@ class CountVectorizerPure(_VectorizerMixinPure):
         self.tokenizer = estimator.tokenizer
         self.stop_words = cp(estimator.stop_words)
         self.token_pattern = estimator.token_pattern
-        self.ngram_range = estimator.ngram_range
+        self.ngram_range = tuple(estimator.ngram_range)
         self.strip_accents = estimator.strip_accents
         self.decode_error = estimator.decode_error
         self.encoding = estimator.encoding
@@ -464,7 +464,7 @@ class HashingVectorizerPure(_VectorizerMixinPure):
         self.tokenizer = estimator.tokenizer
         self.stop_words = cp(estimator.stop_words)
         self.token_pattern = estimator.token_pattern
-        self.ngram_range = estimator.ngram_range
+        self.ngram_range = tuple(estimator.ngram_range)
         self.strip_accents = estimator.strip_accents
         self.decode_error = estimator.decode_error
         self.encoding = estimator.encoding
-- 
2.43.0


From bf2811ac76f98f50798cc7cbeab005ee33666255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:58 +0000
Subject: [PATCH 31/61] fix: scalers and naive Bayes refuse input of the wrong
 width

---
 pure_sklearn/naive_bayes.py         |  5 ++++-
 pure_sklearn/preprocessing/_data.py | 14 +++++++++++++-
 pure_sklearn/utils.py               | 10 ++++++++++
 3 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/naive_bayes.py b/pure_sklearn/naive_bayes.py
index a609347..ce6d76c 100644
--- a/pure_sklearn/naive_bayes.py
+++ b/pure_sklearn/naive_bayes.py
@@ -6,7 +6,7 @@ from abc import abstractmethod
 from math import pi
 
 from .base import dot, transpose, safe_log, safe_exp, logsumexp
-from .utils import check_array, check_types, check_version
+from .utils import check_array, check_n_features, check_types, check_version
 
 __all__ = ["GaussianNBPure", "MultinomialNBPure", "ComplementNBPure"]
 
@@ -64,6 +64,7 @@ class GaussianNBPure(_BaseNBPure):
 
     def _joint_log_likelihood(self, X):
         """ Calculate the posterior log probability of the samples X """
+        check_n_features(X, len(self.theta_[0]))
         joint_log_likelihood = []
         for i in range(len(self.classes_)):
             jointi = safe_log(self.class_prior_[i])
@@ -102,6 +103,7 @@ class MultinomialNBPure(_BaseNBPure):
 
     def _joint_log_likelihood(self, X):
         """ Calculate the posterior log probability of the samples X """
+        check_n_features(X, len(self.feature_log_prob_[0]))
         return [self._jll(a) for a in X]
 
     def _jll(self, x):
@@ -130,6 +132,7 @@ class ComplementNBPure(_BaseNBPure):
 
     def _joint_log_likelihood(self, X):
         """ Calculate the class scores for the samples in X """
+        check_n_features(X, len(self.feature_log_prob_[0]))
         jll = [dot(x, self.feature_log_prob_) for x in X]
         if len(self.classes_) == 1:
             jll = [[x[0] + self.class_log_prior_[0]] for x in jll]
diff --git a/pure_sklearn/preprocessing/_data.py b/pure_sklearn/preprocessing/_data.py
index 8830bad..c5db16d 100644
--- a/pure_sklearn/preprocessing/_data.py
+++ b/pure_sklearn/preprocessing/_data.py
@@ -5,7 +5,14 @@ Normalization and scaling
 from math import sqrt
 from copy import copy as cp
 
-from ..utils import sparse_list, issparse, check_array, check_types, check_version
+from ..utils import (
+    sparse_list,
+    issparse,
+    check_array,
+    check_n_features,
+    check_types,
+    check_version,
+)
 from ..base import transpose, apply_2d, apply_axis_2d, matmult_same_dim
 
 
@@ -132,6 +139,9 @@ class StandardScalerPure:
     def transform(self, X, copy=None):
         """ Perform standardization by centering and scaling """
         X = check_array(X, handle_sparse="allow")
+        for fitted in (self.mean_, self.scale_):
+            if fitted is not None:
+                check_n_features(X, len(fitted))
 
         if issparse(X):
             if self.with_mean:
@@ -181,6 +191,7 @@ class MinMaxScalerPure:
                 "Consider using MaxAbsScalerPure instead."
             )
         X = check_array(X)
+        check_n_features(X, len(self.scale_))
         return [
             [(x[i] * self.scale_[i]) + self.min_[i] for i in range(len(self.scale_))]
             for x in X
@@ -211,6 +222,7 @@ class MaxAbsScalerPure:
     def transform(self, X):
         """ Scale the data """
         X = check_array(X, handle_sparse="allow")
+        check_n_features(X, len(self.scale_))
         if issparse(X):
             X_ = [{k: (v / self.scale_[k]) for k, v in x.items()} for x in X]
             X = sparse_list(X_, size=X.size, dtype=X.dtype)
diff --git a/pure_sklearn/utils.py b/pure_sklearn/utils.py
index 8e1e8e1..828d111 100644
--- a/pure_sklearn/utils.py
+++ b/pure_sklearn/utils.py
@@ -125,6 +125,16 @@ def check_array(X, handle_sparse="error"):
     return X
 
 
+def check_n_features(X, n_features):
+    """ Checks that dense or sparse input 'X' has the expected number of columns """
+    n_columns = X.size if issparse(X) else len(X[0])
+    # the number of columns of a `sparse_list` can be unknown
+    if (n_columns is not None) and (n_columns != n_features):
+        raise ValueError(
+            "X has %d features per sample; expecting %d" % (n_columns, n_features)
+        )
+
+
 def shape(X):
     """
     Checks the shape of input list. Similar to
-- 
2.43.0


From 82c94ee929d5329d287afc529b8477cff5ad44b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:42 +0000
Subject: [PATCH 32/61] fix: fasttext predict accepts a list of texts

---
 pure_fasttext/FastText.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/pure_fasttext/FastText.py b/pure_fasttext/FastText.py
index fe2dcb4..1c3c119 100644
--- a/pure_fasttext/FastText.py
+++ b/pure_fasttext/FastText.py
@@ -150,12 +150,8 @@ class _FastText(object):
             raise ValueError("Model needs to be supervised for prediction!")
 
         if isinstance(text, list):
-            text = [entry for entry in text]
             all_labels = []
             all_probs = []
-            all_labels, all_probs = self.f.multilinePredict(
-                text, k, threshold, on_unicode_error
-            )
             for text_ in text:
                 labels, probs = self._predict(text_, k, threshold)
                 all_labels.append(labels)
-- 
2.43.0


From 06120dde1c7efcb8ece7550ce88e196777b0b029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:45 +0000
Subject: [PATCH 33/61] fix: supervised fasttext models with subwords or word
 n-grams are refused

---
 pure_fasttext/FastText.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pure_fasttext/FastText.py b/pure_fasttext/FastText.py
index 1c3c119..2fc000e 100644
--- a/pure_fasttext/FastText.py
+++ b/pure_fasttext/FastText.py
@@ -67,6 +67,11 @@ class _FastText(object):
             raise ValueError(
                 "Only maxn=0 is supported for unsupervised mode (no subwords support)."
             )
+        if self.supervised_ and ((model.maxn != 0) or (model.wordNgrams > 1)):
+            raise ValueError(
+                "Only maxn=0 and wordNgrams=1 are supported for supervised mode "
+                "(no subwords or word n-grams support)."
+            )
         if self.supervised_ and (model.loss.name not in ("softmax")):
             raise Exception("Only 'softmax' loss is supported for supervised mode.")
         self.words_ = model.get_words()
-- 
2.43.0


From 1cf2a7b04d763860f70cec1f268045e556017723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:49 +0000
Subject: [PATCH 34/61] fix: fasttext sentence vector of a text without known
 words is zero

---
 pure_fasttext/FastText.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/pure_fasttext/FastText.py b/pure_fasttext/FastText.py
index 2fc000e..8fabc77 100644
--- a/pure_fasttext/FastText.py
+++ b/pure_fasttext/FastText.py
@@ -103,21 +103,22 @@ class _FastText(object):
             raise ValueError("predict processes one line at a time (remove '\\n')")
         text += "\n"
 
+        raw_words = self._get_known_word_vectors(text)
+        if len(raw_words) == 0:
+            return [0.0] * self.dim_
         if self.supervised_:
-            raw_words = [
-                self.get_word_vector(word)
-                for word in (text.split() + [EOS])
-                if word in self.words_
-            ]
             return average(raw_words)
         else:
-            raw_words = [
-                self.get_word_vector(word)
-                for word in text.split()
-                if word in self.words_
-            ]
             return average(list(map(div_norm, raw_words)))
 
+    def _get_known_word_vectors(self, text):
+        """ Vectors of the words of a line of text which are in the dictionary """
+        if self.supervised_:
+            words = text.split() + [EOS]
+        else:
+            words = text.split()
+        return [self.get_word_vector(word) for word in words if word in self.words_]
+
     def get_word_id(self, word):
         """
         Given a word, get the word id within the dictionary.
-- 
2.43.0


From a7ce45aafe253a8429113d9ec17edc2538e41ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:54 +0000
Subject: [PATCH 35/61] fix: fasttext texts are split into words as natively

---
 pure_fasttext/FastText.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pure_fasttext/FastText.py b/pure_fasttext/FastText.py
index 8fabc77..ce23bb4 100644
--- a/pure_fasttext/FastText.py
+++ b/pure_fasttext/FastText.py
@@ -2,6 +2,8 @@
 Base class for fasttext API implemented in pure python
 """
 
+import re
+
 from math import exp, sqrt
 from operator import mul
 
@@ -114,9 +116,11 @@ class _FastText(object):
     def _get_known_word_vectors(self, text):
         """ Vectors of the words of a line of text which are in the dictionary """
         if self.supervised_:
-            words = text.split() + [EOS]
+            words = re.split("[ \n\r\t\v\f\0]+", text) + [EOS]
+            # the line ends at the first end of sentence token
+            words = words[: words.index(EOS) + 1]
         else:
-            words = text.split()
+            words = re.split("[ \n\r\t\v\f]+", text)
         return [self.get_word_vector(word) for word in words if word in self.words_]
 
     def get_word_id(self, word):
-- 
2.43.0


From 1c1efd0a421047383a7fb44bf20fcaab2eb92e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:00 +0000
Subject: [PATCH 36/61] fix: fasttext predict with k=-1 returns all labels

---
 pure_fasttext/FastText.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pure_fasttext/FastText.py b/pure_fasttext/FastText.py
index ce23bb4..6b9e9ba 100644
--- a/pure_fasttext/FastText.py
+++ b/pure_fasttext/FastText.py
@@ -141,6 +141,10 @@ class _FastText(object):
 
     def _predict(self, text, k=1, threshold=0.0):
         """ Guts of prediction method """
+        if k == -1:
+            k = len(self.labels_)
+        elif k <= 0:
+            raise ValueError("k needs to be 1 or higher!")
         A = self.get_sentence_vector(text)
         if self.loss_ == "softmax":
             preds = sfmax(dot(A, self.output_matrix_))
-- 
2.43.0


From 11792d90a2db47d2a6dbd8c832732de622d4c33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:04 +0000
Subject: [PATCH 37/61] fix: fasttext makes no prediction for a text without
 any known word

---
 pure_fasttext/FastText.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pure_fasttext/FastText.py b/pure_fasttext/FastText.py
index 6b9e9ba..6c13bdb 100644
--- a/pure_fasttext/FastText.py
+++ b/pure_fasttext/FastText.py
@@ -146,6 +146,9 @@ class _FastText(object):
         elif k <= 0:
             raise ValueError("k needs to be 1 or higher!")
         A = self.get_sentence_vector(text)
+        if len(self._get_known_word_vectors(text)) == 0:
+            # no prediction without any known word
+            return ((), [])
         if self.loss_ == "softmax":
             preds = sfmax(dot(A, self.output_matrix_))
         else:
-- 
2.43.0


From 0e90c08439b026b933aa89224968aaac3bb53e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:09 +0000
Subject: [PATCH 38/61] fix: fasttext returns copies of its word vectors

---
 pure_fasttext/FastText.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pure_fasttext/FastText.py b/pure_fasttext/FastText.py
index 6c13bdb..d875a61 100644
--- a/pure_fasttext/FastText.py
+++ b/pure_fasttext/FastText.py
@@ -137,7 +137,7 @@ class _FastText(object):
         """
         Given an index, get the corresponding vector of the Input Matrix.
         """
-        return self.input_matrix_[ind]
+        return list(self.input_matrix_[ind])
 
     def _predict(self, text, k=1, threshold=0.0):
         """ Guts of prediction method """
-- 
2.43.0


From 39a087eb6a1c0b9beb837215d8f8d73f120d9feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:58 +0000
Subject: [PATCH 39/61] fix: Gaussian naive Bayes does not raise for values
 with a huge square

---
 pure_sklearn/naive_bayes.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pure_sklearn/naive_bayes.py b/pure_sklearn/naive_bayes.py
index ce6d76c..090446c 100644
--- a/pure_sklearn/naive_bayes.py
+++ b/pure_sklearn/naive_bayes.py
@@ -11,6 +11,11 @@ from .utils import check_array, check_n_features, check_types, check_version
 __all__ = ["GaussianNBPure", "MultinomialNBPure", "ComplementNBPure"]
 
 
+def _square(x):
+    """ Square of a float which, unlike `x ** 2`, can be infinite """
+    return x * x
+
+
 class _BaseNBPure:
     """ Base class for naive Bayes classifiers """
 
@@ -74,7 +79,8 @@ class GaussianNBPure(_BaseNBPure):
             jll = [
                 list(
                     map(
-                        lambda b: ((a[b] - self.theta_[i][b]) ** 2) / self.sigma_[i][b],
+                        lambda b: _square(a[b] - self.theta_[i][b])
+                        / self.sigma_[i][b],
                         range(len(a)),
                     )
                 )
-- 
2.43.0


From f58ca0c37cdbb50b552847874a8fa117e2afad6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:31 +0000
Subject: [PATCH 40/61] fix: probabilities of a tree leaf without weight

---
 pure_sklearn/tree/_classes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pure_sklearn/tree/_classes.py b/pure_sklearn/tree/_classes.py
index 4122e0c..89510ce 100644
--- a/pure_sklearn/tree/_classes.py
+++ b/pure_sklearn/tree/_classes.py
@@ -153,7 +153,9 @@ class DecisionTreeClassifierPure(_DecisionTreeBase):
         return self.value_[node_id].index(max(self.value_[node_id]))
 
     def _get_proba_from_leaf_node(self, node_id):
-        return [a / sum(self.value_[node_id]) for a in self.value_[node_id]]
+        # the weights of a leaf can add up to zero
+        total = sum(self.value_[node_id]) or 1.0
+        return [a / total for a in self.value_[node_id]]
 
     def predict(self, X):
         X = check_array(X, handle_sparse="allow")
-- 
2.43.0


From 7fac7ce9c5633a50bc5c25785e4f66f73544b6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:30 +0000
Subject: [PATCH 41/61] fix: gradient boosting clips initial probabilities at
 the native epsilon

---
 pure_sklearn/ensemble/_gb_losses.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pure_sklearn/ensemble/_gb_losses.py b/pure_sklearn/ensemble/_gb_losses.py
index ae5d49f..228bedc 100644
--- a/pure_sklearn/ensemble/_gb_losses.py
+++ b/pure_sklearn/ensemble/_gb_losses.py
@@ -14,7 +14,7 @@ from ..base import (
 )
 from ..utils import check_types, shape
 
-EPS = 1.1920929e-07
+EPS = 2.0 ** -23  # machine epsilon of single precision
 
 
 def _clip(a, a_min, a_max):
-- 
2.43.0


From ecf314b51fdfa320c0c134bae98118167c2762c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:00 +0000
Subject: [PATCH 42/61] fix: xgboost missing marker is compared in single
 precision

The native library rounds values and the marker to single precision before
comparing them, so values within rounding of the marker are missing too.
---
 pure_sklearn/xgboost/_classes.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/pure_sklearn/xgboost/_classes.py b/pure_sklearn/xgboost/_classes.py
index ae6d2be..29c5adb 100644
--- a/pure_sklearn/xgboost/_classes.py
+++ b/pure_sklearn/xgboost/_classes.py
@@ -9,6 +9,13 @@ from math import log
 from ..base import sfmax, expit
 from ..utils import check_types, check_array
 from ..tree import DecisionTreeRegressorPure
+from ..tree._classes import (
+    _float32_threshold,
+    _float32_threshold_strict,
+    _to_float32,
+)
+
+MAX_FLOAT32 = (2.0 - 2.0 ** -23) * 2.0 ** 127
 
 MIN_VERSION = "0.82"
 SUPPORTED_OBJ = ["binary:logistic", "multi:softprob"]
@@ -104,7 +111,14 @@ class XGBClassifierPure:
         """ Replace the missing value indicator with nan """
         if self.missing != self.missing:
             return X
-        return [[float("Nan") if x == self.missing else x for x in row] for row in X]
+        if abs(self.missing) < MAX_FLOAT32:
+            # the native model rounds both to single precision first
+            below = _float32_threshold_strict(self.missing)
+            upto = _float32_threshold(_to_float32(self.missing))
+            is_missing = lambda x: below < x <= upto
+        else:
+            is_missing = lambda x: x == self.missing
+        return [[float("Nan") if is_missing(x) else x for x in row] for row in X]
 
     def _predict(self, X):
         """ Raw sums of estimator predictions for each class for multi-class """
-- 
2.43.0


From 12261e8ddd396e6ba9688a5599c1cfb384420ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:32 +0000
Subject: [PATCH 43/61] fix: blocks without any column can be converted to a
 sparse_list

---
 pure_sklearn/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pure_sklearn/utils.py b/pure_sklearn/utils.py
index 828d111..fd2360a 100644
--- a/pure_sklearn/utils.py
+++ b/pure_sklearn/utils.py
@@ -206,7 +206,7 @@ class sparse_list(list):
         else:
             A = check_array(A)
             self.size = shape(A)[1]
-            self.dtype = type(A[0][0])
+            self.dtype = type(A[0][0]) if self.size else float
             for row in A:
                 self.append(
                     dict([(i, row[i]) for i in range(self.size) if row[i] != 0])
-- 
2.43.0


From 5d82a76483bc396d522dd1aff9533eb46b4f98a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:08 +0000
Subject: [PATCH 44/61] fix: fastText models are supervised by their training
 mode, not by their first word

---
 pure_fasttext/FastText.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pure_fasttext/FastText.py b/pure_fasttext/FastText.py
index d875a61..86767ef 100644
--- a/pure_fasttext/FastText.py
+++ b/pure_fasttext/FastText.py
@@ -64,7 +64,7 @@ class _FastText(object):
     """
 
     def __init__(self, model):
-        self.supervised_ = model.label in model.get_labels()[0]
+        self.supervised_ = model.f.getArgs().model.name == "supervised"
         if (model.maxn != 0) and not self.supervised_:
             raise ValueError(
                 "Only maxn=0 is supported for unsupervised mode (no subwords support)."
-- 
2.43.0


From c4edb0cb95d083da4098d2db5013d0f5b096ab82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:32 +0000
Subject: [PATCH 45/61] fix: multi-label xgboost models are refused

---
 pure_sklearn/xgboost/_classes.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/xgboost/_classes.py b/pure_sklearn/xgboost/_classes.py
index 29c5adb..ddcf54d 100644
--- a/pure_sklearn/xgboost/_classes.py
+++ b/pure_sklearn/xgboost/_classes.py
@@ -61,12 +61,15 @@ class XGBClassifierPure:
         if self.objective == "multi:softprob":
             # a constant which is the same for all classes has no effect
             return 0.0
-        base_score = None
         try:
             config = json.loads(estimator.get_booster().save_config())
-            base_score = config["learner"]["learner_model_param"]["base_score"]
+            params = config["learner"]["learner_model_param"]
+            base_score = params["base_score"]
         except (AttributeError, KeyError):
+            params = {}
             base_score = estimator.base_score
+        if int(params.get("num_target", 1)) > 1:
+            raise ValueError("Multi-label classification is not supported")
         base_score = 0.5 if base_score is None else float(base_score)
         return log(base_score / (1.0 - base_score))
 
-- 
2.43.0


From c1a3b2c73dd7c692a54fbe255f964bcf2146c2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:29 +0000
Subject: [PATCH 46/61] fix: rows of differing lengths are refused

---
 pure_sklearn/utils.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/pure_sklearn/utils.py b/pure_sklearn/utils.py
index fd2360a..89e7e20 100644
--- a/pure_sklearn/utils.py
+++ b/pure_sklearn/utils.py
@@ -127,12 +127,16 @@ def check_array(X, handle_sparse="error"):
 
 def check_n_features(X, n_features):
     """ Checks that dense or sparse input 'X' has the expected number of columns """
-    n_columns = X.size if issparse(X) else len(X[0])
     # the number of columns of a `sparse_list` can be unknown
-    if (n_columns is not None) and (n_columns != n_features):
-        raise ValueError(
-            "X has %d features per sample; expecting %d" % (n_columns, n_features)
-        )
+    if issparse(X):
+        widths = [X.size] if X.size is not None else []
+    else:
+        widths = map(len, X)
+    for n_columns in widths:
+        if n_columns != n_features:
+            raise ValueError(
+                "X has %d features per sample; expecting %d" % (n_columns, n_features)
+            )
 
 
 def shape(X):
@@ -147,7 +151,10 @@ def shape(X):
         if issparse(X):
             return (len(X), X.size)
         else:
-            return (len(X), len(X[0]))
+            n_columns = len(X[0])
+            if any(len(x) != n_columns for x in X):
+                raise ValueError("All rows of a 2-D list must have the same length")
+            return (len(X), n_columns)
 
 
 def ndim(X):
-- 
2.43.0


From 401af6f7089f2529be259d4a051eec6c4dbcd64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:46 +0000
Subject: [PATCH 47/61] fix: bagging refuses input which is not a list

---
 pure_sklearn/ensemble/_bagging.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pure_sklearn/ensemble/_bagging.py b/pure_sklearn/ensemble/_bagging.py
index 2dcced2..bb4f5db 100644
--- a/pure_sklearn/ensemble/_bagging.py
+++ b/pure_sklearn/ensemble/_bagging.py
@@ -6,7 +6,7 @@ from operator import add
 
 from ..map import MAPPING, convert_estimator
 from ..base import safe_log, operate_2d, apply_2d
-from ..utils import shape, check_types, check_version, issparse, sparse_list
+from ..utils import check_array, check_types, check_version, issparse, sparse_list
 
 
 def _feat_slice(X, feats):
@@ -49,6 +49,7 @@ class _BaseBaggingPure:
         ]
 
     def predict_proba(self, X):
+        X = check_array(X, handle_sparse="allow")
         proba = self._member_proba(0, X)
         for idx in range(len(self.estimators_))[1:]:
             proba = operate_2d(proba, self._member_proba(idx, X), add)
-- 
2.43.0


From 100dd005d5c20a5325305b0ec76633c302fc59b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:41 +0000
Subject: [PATCH 48/61] fix: sparse input without rows is refused

---
 pure_sklearn/utils.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pure_sklearn/utils.py b/pure_sklearn/utils.py
index 89e7e20..838987e 100644
--- a/pure_sklearn/utils.py
+++ b/pure_sklearn/utils.py
@@ -109,11 +109,9 @@ def check_array(X, handle_sparse="error"):
     or optionally erroring on sparse input.
     """
     if issparse(X):
-        if handle_sparse == "allow":
-            return X
-        elif handle_sparse == "error":
+        if handle_sparse == "error":
             raise ValueError("Sparse input is not supported " "for this estimator")
-        else:
+        elif handle_sparse != "allow":
             raise ValueError(
                 "Invalid value for 'handle_sparse' "
                 "input. Acceptable values are 'allow' or 'error'"
-- 
2.43.0


From 0eea9112e2299daf83ec83188752a1cde6fc509c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:38 +0000
Subject: [PATCH 49/61] fix: words with a zero vector do not count in
 unsupervised fastText sentence vectors

---
 pure_fasttext/FastText.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pure_fasttext/FastText.py b/pure_fasttext/FastText.py
index 86767ef..d0871f1 100644
--- a/pure_fasttext/FastText.py
+++ b/pure_fasttext/FastText.py
@@ -106,6 +106,9 @@ class _FastText(object):
         text += "\n"
 
         raw_words = self._get_known_word_vectors(text)
+        if not self.supervised_:
+            # words with a zero vector do not count
+            raw_words = [vec for vec in raw_words if any(vec)]
         if len(raw_words) == 0:
             return [0.0] * self.dim_
         if self.supervised_:
-- 
2.43.0


From 45fb31abdd326fafa0ddb94d19dc42f159e0bcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:41 +0000
Subject: [PATCH 50/61] fix: transformers which change nothing return a copy of
 their input

---
 pure_sklearn/feature_extraction/text.py | 3 +++
 pure_sklearn/preprocessing/_data.py     | 2 ++
 pure_sklearn/utils.py                   | 7 +++++++
 3 files changed, 12 insertions(+)

diff --git a/pure_sklearn/feature_extraction/text.py b/pure_sklearn/feature_extraction/text.py
index 9733b52..718497d 100755
--- a/pure_sklearn/feature_extraction/text.py
+++ b/pure_sklearn/feature_extraction/text.py
@@ -19,6 +19,7 @@ from ..utils import (
     check_array,
     check_types,
     check_version,
+    copy_rows,
 )
 from ..base import apply_2d_sparse, safe_log
 from ..map import convert_estimator
@@ -426,6 +427,8 @@ class TfidfTransformerPure:
     def transform(self, X, copy=True):
         X = check_array(X, handle_sparse="allow")
         n_samples, n_features = shape(X)
+        if copy:
+            X = copy_rows(X)
 
         if self.sublinear_tf:
             X = apply_2d_sparse(X, lambda v: safe_log(v) + 1)
diff --git a/pure_sklearn/preprocessing/_data.py b/pure_sklearn/preprocessing/_data.py
index c5db16d..ffe05ef 100644
--- a/pure_sklearn/preprocessing/_data.py
+++ b/pure_sklearn/preprocessing/_data.py
@@ -12,6 +12,7 @@ from ..utils import (
     check_n_features,
     check_types,
     check_version,
+    copy_rows,
 )
 from ..base import transpose, apply_2d, apply_axis_2d, matmult_same_dim
 
@@ -142,6 +143,7 @@ class StandardScalerPure:
         for fitted in (self.mean_, self.scale_):
             if fitted is not None:
                 check_n_features(X, len(fitted))
+        X = copy_rows(X)
 
         if issparse(X):
             if self.with_mean:
diff --git a/pure_sklearn/utils.py b/pure_sklearn/utils.py
index 838987e..a7bf52e 100644
--- a/pure_sklearn/utils.py
+++ b/pure_sklearn/utils.py
@@ -226,6 +226,13 @@ class sparse_list(list):
         return A_dense
 
 
+def copy_rows(X):
+    """ Copies a 2-D data structure """
+    if issparse(X):
+        return sparse_list([dict(x) for x in X], size=X.size, dtype=X.dtype)
+    return [list(x) for x in X]
+
+
 def performance_comparison(sklearn_estimator, pure_sklearn_estimator, X):
     """
     Profile performance characteristics between sklearn estimator and
-- 
2.43.0


From def5ed15eaae5e773ffea6bd2902d8b5e22a9440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:45 +0000
Subject: [PATCH 51/61] fix: multiplying sparse rows takes time proportional to
 their entries, not to the square

---
 pure_sklearn/base.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/pure_sklearn/base.py b/pure_sklearn/base.py
index e7c97ac..65b74af 100644
--- a/pure_sklearn/base.py
+++ b/pure_sklearn/base.py
@@ -50,11 +50,7 @@ def matmult_same_dim(A, B):
             X.append([(A[i][j] * B[i][j]) for j in range(shape_A[1])])
     else:
         for i in range(shape_A[0]):
-            nested_res = [
-                [(k_b, v_a * v_b) for k_b, v_b in B[i].items() if k_b == k_a]
-                for k_a, v_a in A[i].items()
-            ]
-            X.append(dict([item for sublist in nested_res for item in sublist]))
+            X.append({k: v * B[i][k] for k, v in A[i].items() if k in B[i]})
         X = sparse_list(X, size=A.size, dtype=A.dtype)
     return X
 
-- 
2.43.0


From 1a2fbf957e95c8acca37c75c46fe55eb20b0d58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:45 +0000
Subject: [PATCH 52/61] fix: the softmax denominator is computed once, not once
 per class

---
 pure_sklearn/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pure_sklearn/base.py b/pure_sklearn/base.py
index 65b74af..0705311 100644
--- a/pure_sklearn/base.py
+++ b/pure_sklearn/base.py
@@ -78,7 +78,8 @@ def sfmax(arr):
     else:
         max_val = max(arr)
         expons = list(map(lambda x: safe_exp(x - max_val), arr))
-        out = list(map(lambda x: x / float(sum(expons)), expons))
+        denom = sum(expons)
+        out = list(map(lambda x: x / float(denom), expons))
     return out
 
 
-- 
2.43.0


From b5944f510863b5a0a0ff44ca9006e71747382b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:45 +0000
Subject: [PATCH 53/61] fix: encoding takes time proportional to the number of
 columns, not to its square

---
 pure_sklearn/preprocessing/_encoders.py | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/pure_sklearn/preprocessing/_encoders.py b/pure_sklearn/preprocessing/_encoders.py
index 23d503f..3df6439 100644
--- a/pure_sklearn/preprocessing/_encoders.py
+++ b/pure_sklearn/preprocessing/_encoders.py
@@ -47,8 +47,8 @@ class _BaseEncoderPure:
 
     def _transform(self, X, handle_unknown="error"):
         X_list, n_samples, n_features = self._check_X(X)
-        X_int = [[0] * n_features] * n_samples
-        X_mask = [[True] * n_features] * n_samples
+        X_int = [[0] * n_features for _ in range(n_samples)]
+        X_mask = [[True] * n_features for _ in range(n_samples)]
 
         if n_features != len(self.categories_):
             raise ValueError(
@@ -76,13 +76,8 @@ class _BaseEncoderPure:
                     )
                     raise ValueError(msg)
                 else:
-                    X_mask = [
-                        [
-                            valid_mask[j] if idx == i else X_mask[j][idx]
-                            for idx in range(n_features)
-                        ]
-                        for j in range(n_samples)
-                    ]
+                    for j in range(n_samples):
+                        X_mask[j][i] = valid_mask[j]
                     Xi = [
                         Xi[idx] if valid_mask[idx] else self.categories_[i][0]
                         for idx in range(len(Xi))
@@ -91,10 +86,8 @@ class _BaseEncoderPure:
             _, encoded = _encode(
                 Xi, self.categories_[i], encode=True, check_unknown=False
             )
-            X_int = [
-                [encoded[j] if idx == i else X_int[j][idx] for idx in range(n_features)]
-                for j in range(n_samples)
-            ]
+            for j in range(n_samples):
+                X_int[j][i] = encoded[j]
         return X_int, X_mask
 
 
-- 
2.43.0


From e266009f4db3d92728de667c0cb852ad80f1ebe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:21 +0000
Subject: [PATCH 54/61] fix: the fastText softmax is computed in one pass, not
 once per label

---
 pure_fasttext/FastText.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pure_fasttext/FastText.py b/pure_fasttext/FastText.py
index d0871f1..b90a6cf 100644
--- a/pure_fasttext/FastText.py
+++ b/pure_fasttext/FastText.py
@@ -38,8 +38,10 @@ def dot(A, B):
 
 def sfmax(arr):
     """ Computes softmax of input list """
-    expons = list(map(lambda x: exp(x - max(arr)), arr))
-    return list(map(lambda x: x / float(sum(expons)), expons))
+    max_val = max(arr)
+    expons = list(map(lambda x: exp(x - max_val), arr))
+    denom = sum(expons)
+    return list(map(lambda x: x / float(denom), expons))
 
 
 def argsort(seq):
-- 
2.43.0


From 68a97d62404acd45cf87a8956a588a59a9fa3910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:29 +0000
Subject: [PATCH 55/61] fix: fastText words are looked up without scanning the
 vocabulary

---
 pure_fasttext/FastText.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pure_fasttext/FastText.py b/pure_fasttext/FastText.py
index b90a6cf..de0c0aa 100644
--- a/pure_fasttext/FastText.py
+++ b/pure_fasttext/FastText.py
@@ -79,6 +79,7 @@ class _FastText(object):
         if self.supervised_ and (model.loss.name not in ("softmax")):
             raise Exception("Only 'softmax' loss is supported for supervised mode.")
         self.words_ = model.get_words()
+        self.word_ids_ = {word: i for i, word in enumerate(self.words_)}
         self.input_matrix_ = model.get_input_matrix().tolist()
         self.dim_ = model.get_dimension()
 
@@ -126,17 +127,14 @@ class _FastText(object):
             words = words[: words.index(EOS) + 1]
         else:
             words = re.split("[ \n\r\t\v\f]+", text)
-        return [self.get_word_vector(word) for word in words if word in self.words_]
+        return [self.get_word_vector(word) for word in words if word in self.word_ids_]
 
     def get_word_id(self, word):
         """
         Given a word, get the word id within the dictionary.
         Returns -1 if word is not in the dictionary.
         """
-        if word in self.words_:
-            return self.words_.index(word)
-        else:
-            return -1
+        return self.word_ids_.get(word, -1)
 
     def get_input_vector(self, ind):
         """
-- 
2.43.0


From 723aae6f72085683e90e4fb30f2fd0f14d1df6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:16 +0000
Subject: [PATCH 56/61] fix: one-vs-rest probabilities sum the scores once per
 row, not once per class

---
 pure_sklearn/linear_model/_base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/linear_model/_base.py b/pure_sklearn/linear_model/_base.py
index ae80fee..4974d70 100644
--- a/pure_sklearn/linear_model/_base.py
+++ b/pure_sklearn/linear_model/_base.py
@@ -68,7 +68,8 @@ class LinearClassifierMixinPure:
             return [[1 - a, a] for a in map(expit, prob)]
         else:
             prob = [list(map(expit, a)) for a in prob]
+            totals = [sum(a) for a in prob]
             return [
-                list(map(lambda b: (b / sum(a)) if sum(a) != 0 else float("NaN"), a))
-                for a in prob
+                list(map(lambda b: (b / total) if total != 0 else float("NaN"), a))
+                for a, total in zip(prob, totals)
             ]
-- 
2.43.0


From 47962a1379a7a7fe21aff2c48f292ffbd7603d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:16 +0000
Subject: [PATCH 57/61] fix: the missing indicator selects its columns without
 scanning their list for every column

---
 pure_sklearn/impute/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pure_sklearn/impute/_base.py b/pure_sklearn/impute/_base.py
index cf5b634..13d964d 100644
--- a/pure_sklearn/impute/_base.py
+++ b/pure_sklearn/impute/_base.py
@@ -59,7 +59,7 @@ class MissingIndicatorPure:
 
             if len(self.features_) < self._n_features:
                 imputer_mask = [
-                    [float(a[i]) for i in range(len(a)) if i in self.features_]
+                    [float(a[i]) for i in self.features_]
                     for a in imputer_mask
                 ]
         return imputer_mask
-- 
2.43.0


From cfd6a4e987ceb7b6c8de63bf5f172b9c02715347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:37 +0000
Subject: [PATCH 58/61] fix: joining the parts of a union takes time
 proportional to their number

---
 pure_sklearn/pipeline.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pure_sklearn/pipeline.py b/pure_sklearn/pipeline.py
index 75c7ad1..39e4557 100644
--- a/pure_sklearn/pipeline.py
+++ b/pure_sklearn/pipeline.py
@@ -2,9 +2,9 @@
 Pipeline and FeatureUnion classes
 """
 
-from operator import add, attrgetter
-from functools import update_wrapper, reduce
-from itertools import islice
+from operator import attrgetter
+from functools import update_wrapper
+from itertools import chain, islice
 
 from .base import accumu, apply_2d, apply_2d_sparse
 from .utils import (
@@ -212,9 +212,9 @@ class FeatureUnionPure:
                 )
                 for i in range(len(Xs))
             ]
-            X_total = [dict(reduce(add, func(index))) for index in range(len(X))]
+            X_total = [dict(chain.from_iterable(func(index))) for index in range(len(X))]
             return sparse_list(X_total, size=sum(sizes), dtype=float)
         else:
             return [
-                list(reduce(add, [X_[index] for X_ in Xs])) for index in range(len(X))
+                list(chain.from_iterable(X_[index] for X_ in Xs)) for index in range(len(X))
             ]
-- 
2.43.0


From dd97eb10bf861071a91290b4ea1356642baa63d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:02 +0000
Subject: [PATCH 59/61] fix: columns sliced from a sparse list are the same as
 from a dense one

---
 pure_sklearn/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/base.py b/pure_sklearn/base.py
index 0705311..0aa668d 100644
--- a/pure_sklearn/base.py
+++ b/pure_sklearn/base.py
@@ -167,8 +167,8 @@ def slice_column(A, idx):
             return [a[idx] for a in A]
     if isinstance(idx, (list, tuple)):
         if issparse(A):
-            A_ = [{k: v for k, v in a.items() if k in idx} for a in A]
-            return sparse_list(A_, size=A.size, dtype=A.dtype)
+            A_ = [{j: a[i] for j, i in enumerate(idx) if i in a} for a in A]
+            return sparse_list(A_, size=len(idx), dtype=A.dtype)
         else:
             return [[a[i] for i in idx] for a in A]
 
-- 
2.43.0


From 3fc36b1b4a2cdae492fa17f4b209680d9e6dccd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:02 +0000
Subject: [PATCH 60/61] fix: ravel returns all columns

---
 pure_sklearn/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pure_sklearn/base.py b/pure_sklearn/base.py
index 0aa668d..38515eb 100644
--- a/pure_sklearn/base.py
+++ b/pure_sklearn/base.py
@@ -155,7 +155,7 @@ def ravel(A):
     """ Equivalent of numpy ravel on 2-D list """
     if issparse(A):
         raise ValueError("Sparse input not supported.")
-    return list(transpose(A)[0])
+    return [x for a in A for x in a]
 
 
 def slice_column(A, idx):
-- 
2.43.0


From 55f2d826cd22103f9ca025b0e06cd0365b4db472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:42 +0000
Subject: [PATCH 61/61] fix: do not ignore the min_version given to
 convert_estimator

---
 pure_sklearn/map.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pure_sklearn/map.py b/pure_sklearn/map.py
index bbcab5c..eb1b4d4 100644
--- a/pure_sklearn/map.py
+++ b/pure_sklearn/map.py
@@ -2,6 +2,8 @@
 Mappings from `sklearn` class names to `pure_sklearn` equivalents
 """
 
+from .utils import check_version
+
 MAPPING = {
     "LogisticRegression": "pure_sklearn.linear_model.LogisticRegressionPure",
     "RidgeClassifier": "pure_sklearn.linear_model.RidgeClassifierPure",
@@ -53,6 +55,8 @@ def convert_estimator(est, min_version=None):
         raise ValueError(
             "Cannot find 'pure_sklearn' counterpart for {}".format(est_name)
         )
+    if min_version is not None:
+        check_version(est, min_version)
     module = ".".join(pure_est_name.split(".")[:-1])
     name = pure_est_name.split(".")[-1]
     return _instantiate_class(module, name)(est)
-- 
2.43.0

