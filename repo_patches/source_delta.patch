From 77032b361fc5d87abd9b3a929e7c993f7b51746f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:14 +0000
Subject: [PATCH 01/30] fix: max_depth=None must not overflow after another fit
 used an integer max_depth

The sentinel 2**64-1 dispatches to the int64 overload of the numba context
constructor as soon as any earlier fit in the process used an integer max_depth,
and then raises OverflowError.
---
 wildwood/forest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index 79fe5e1..6062fab 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -723,7 +723,7 @@ class ForestBase(BaseEstimator):
 
     @staticmethod
     def _get_max_depth_(max_depth):
-        return np.iinfo(np.uintp).max if max_depth is None else max_depth
+        return np.iinfo(np.intp).max if max_depth is None else max_depth
 
     @property
     def min_samples_split(self):
-- 
2.43.0


From cf83679a9c7cbb23ed05533ee3754bd65ce3ce97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:14 +0000
Subject: [PATCH 02/30] fix: honour categorical_features given to the
 constructor of the forest

---
 wildwood/forest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index 6062fab..d0c6779 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -359,7 +359,7 @@ class ForestBase(BaseEstimator):
 
         self._generate_random_states()
 
-        is_categorical = get_is_categorical(categorical_features, n_features)
+        is_categorical = get_is_categorical(self.categorical_features, n_features)
 
         encoder = Encoder(
             max_bins=self.max_bins,
-- 
2.43.0


From 659aa434a88627c52021483061625aada3ae3010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:14 +0000
Subject: [PATCH 03/30] fix: ovr forests grew n_estimators identical trees per
 class

Trees are assigned to class tree_idx // n_estimators, so the seeds must be tiled
(same seeds across the classes) and not repeated (same seed within a class).
---
 wildwood/forest.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index d0c6779..ea73110 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -250,8 +250,8 @@ class ForestBase(BaseEstimator):
                 # TODO: an option random_state_ovr
                 # In the "ovr" case, we want the random_state to be the same across the
                 # trees used in the one-versus all strategy
-                # np.repeat(np.array([2, 1, 17, 3]), repeats=3)
-                _random_states = np.repeat(_random_states, repeats=self._n_classes_)
+                # np.tile(np.array([2, 1, 17, 3]), 3)
+                _random_states = np.tile(_random_states, self._n_classes_)
 
         self._random_states_bootstrap = _random_states
         self._random_states_trees = _random_states
-- 
2.43.0


From 9764944813fa1cbd98c67c19163ceed1436984aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:14 +0000
Subject: [PATCH 04/30] fix: fit with class_weight="balanced" modified the
 caller's sample_weight in place

---
 wildwood/forest.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index ea73110..ff1fb00 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -332,7 +332,10 @@ class ForestBase(BaseEstimator):
             if multiclass == "multinomial":
                 if class_weight is not None:
                     expanded_class_weight = compute_sample_weight(class_weight, y)
-                    sample_weight_ *= expanded_class_weight
+                    # Not inplace: sample_weight_ can be the array given by the user
+                    sample_weight_ = np.ascontiguousarray(
+                        sample_weight_ * expanded_class_weight, dtype=np.float32
+                    )
 
             else:
                 if class_weight is not None:
-- 
2.43.0


From 882974ec5d2285752140836d4044be5319e982f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:14 +0000
Subject: [PATCH 05/30] fix: pass random_state to the encoder so that a seeded
 forest is reproducible

Without it the subsample used for the binning thresholds is not seeded.
---
 wildwood/forest.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index ff1fb00..45684a7 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -370,6 +370,7 @@ class ForestBase(BaseEstimator):
             is_categorical=is_categorical,
             cat_min_categories=self.cat_min_categories,
             handle_unknown=self.handle_unknown,
+            random_state=self.random_state,
         )
 
         encoder.fit(X)
-- 
2.43.0


From 1acd3cc8581bd59b91f1f224285a76f42c1c1709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:14 +0000
Subject: [PATCH 06/30] fix: raise on an invalid random_state instead of
 leaving it undefined

---
 wildwood/forest.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index 45684a7..3e579c4 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -869,9 +869,9 @@ class ForestBase(BaseEstimator):
                 if val >= 0:
                     self._random_state = val
                 else:
-                    ValueError("random_state must be >= 0")
+                    raise ValueError("random_state must be >= 0")
             else:
-                ValueError("random_state must be either None or an integer number")
+                raise ValueError("random_state must be either None or an integer number")
 
     @property
     def verbose(self):
-- 
2.43.0


From dd86ef955eaecc63e27b6c35d31e6b540f69964d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:14 +0000
Subject: [PATCH 07/30] fix: encode every column of a dataframe with duplicated
 column names

---
 wildwood/preprocessing/encoder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wildwood/preprocessing/encoder.py b/wildwood/preprocessing/encoder.py
index 5f41b93..536ba9f 100644
--- a/wildwood/preprocessing/encoder.py
+++ b/wildwood/preprocessing/encoder.py
@@ -374,7 +374,7 @@ class Encoder(TransformerMixin, BaseEstimator):
                 max_values[col_idx] = col_n_bins - 1
 
                 # Save the eventually transformed column (if categorical)
-                X_dict[col_name] = col
+                X_dict[col_idx] = col
         else:
             # First, we need to know if some columns from X have unknown categories,
             # since this might increase by one the number of bins required. Note that
@@ -435,7 +435,7 @@ class Encoder(TransformerMixin, BaseEstimator):
 
         # And to loop again over the columns to fill it
         if is_dataframe:
-            for col_idx, (col_name, col) in enumerate(X_dict.items()):
+            for col_idx, col in X_dict.items():
                 if is_categorical_[col_idx]:
                     col_categories_at_fit = categories[col_idx]
                     # Use the same categories as the ones used in fit and replace
-- 
2.43.0


From c5f171e19fc355b43b5d3411bee6be5fb2d08cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:14 +0000
Subject: [PATCH 08/30] fix: a lightened forest can be pickled and its step
 changed

lighten truncated the arrays without updating the capacities and dropped the tree
contexts, so that unpickling failed and that setting step or dirichlet failed half-way
with an AttributeError. Changing dirichlet needs the training data: it now raises a
ValueError and leaves the forest unchanged.
---
 wildwood/forest.py |  2 +-
 wildwood/tree.py   | 51 ++++++++++++++++++++++++++++++++--------------
 2 files changed, 37 insertions(+), 16 deletions(-)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index 3e579c4..58fd8f2 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -1375,10 +1375,10 @@ class ForestClassifier(ForestBase, ClassifierMixin):
                 raise ValueError("dirichlet must be positive")
             else:
                 recompute = hasattr(self, "_dirichlet") and self._dirichlet != val
-                self._dirichlet = val
                 if self._fitted and recompute:
                     for tree in self.trees:
                         tree.dirichlet = val
+                self._dirichlet = val
 
     @property
     def classes_(self):
diff --git a/wildwood/tree.py b/wildwood/tree.py
index 4550e65..23355c9 100644
--- a/wildwood/tree.py
+++ b/wildwood/tree.py
@@ -156,18 +156,22 @@ class TreeBase(BaseEstimator, metaclass=ABCMeta):
         if self._step != val:
             self._step = val
             if self.is_classifier:
-                if hasattr(self, "_tree_classifier_context"):
-                    self._tree_classifier_context.step = val
-                    if self._tree_classifier_context.aggregation:
+                if self._tree_classifier is not None:
+                    # The context is None if the tree has been lightened
+                    if self._tree_classifier_context is not None:
+                        self._tree_classifier_context.step = val
+                    if self.aggregation:
                         compute_tree_weights(
                             self._tree_classifier.nodes,
                             self._tree_classifier.node_count,
                             val,
                         )
             else:
-                if hasattr(self, "_tree_regressor_context"):
-                    self._tree_regressor_context.step = val
-                    if self._tree_regressor_context.aggregation:
+                if self._tree_regressor is not None:
+                    # The context is None if the tree has been lightened
+                    if self._tree_regressor_context is not None:
+                        self._tree_regressor_context.step = val
+                    if self.aggregation:
                         compute_tree_weights(
                             self._tree_regressor.nodes,
                             self._tree_regressor.node_count,
@@ -177,7 +181,6 @@ class TreeBase(BaseEstimator, metaclass=ABCMeta):
     def lighten(self):
         if hasattr(self, "_train_indices"):
             self._train_indices = None
-
         if hasattr(self, "_valid_indices"):
             self._valid_indices = None
 
@@ -185,14 +188,22 @@ class TreeBase(BaseEstimator, metaclass=ABCMeta):
             if hasattr(self, "_tree_classifier_context"):
                 self._tree_classifier_context = None
             if hasattr(self, "_tree_classifier"):
-                self._tree_classifier.nodes = self._tree_classifier.nodes[:self._tree_classifier.node_count]
-                self._tree_classifier.bin_partitions = self._tree_classifier.bin_partitions[:self._tree_classifier.bin_partitions_end]
+                self._shrink_to_fit(self._tree_classifier)
         else:
             if hasattr(self, "_tree_regressor_context"):
                 self._tree_regressor_context = None
             if hasattr(self, "_tree_regressor"):
-                self._tree_regressor.nodes = self._tree_regressor.nodes[:self._tree_regressor.node_count]
-                self._tree_regressor.bin_partitions = self._tree_regressor.bin_partitions[:self._tree_regressor.bin_partitions_end]
+                self._shrink_to_fit(self._tree_regressor)
+
+    @staticmethod
+    def _shrink_to_fit(tree):
+        # The capacities must follow the sizes of the arrays, since unserialize uses
+        # them to allocate the arrays
+        tree.nodes = tree.nodes[: tree.node_count]
+        tree.y_pred = tree.y_pred[: tree.node_count]
+        tree.capacity = tree.node_count
+        tree.bin_partitions = tree.bin_partitions[: tree.bin_partitions_end]
+        tree.bin_partitions_capacity = tree.bin_partitions_end
 
 
 class TreeClassifier(ClassifierMixin, TreeBase):
@@ -324,10 +335,17 @@ class TreeClassifier(ClassifierMixin, TreeBase):
     def dirichlet(self, val):
         # We skip the checks and assume they are done by the forest
         if val != self.dirichlet:
+            if self._tree_classifier is not None and (
+                self._tree_classifier_context is None
+            ):
+                raise ValueError(
+                    "You cannot change dirichlet after calling lighten: the training "
+                    "data is not available anymore"
+                )
             self._dirichlet = val
-            # If the attribute _tree_classifier_context is there, then the tree has
-            # already been trained and its predictions needs to be recomputed
-            if hasattr(self, "_tree_classifier_context"):
+            # If _tree_classifier_context is there, then the tree has already been
+            # trained and its predictions needs to be recomputed
+            if self._tree_classifier_context is not None:
                 self._tree_classifier_context.dirichlet = val
                 recompute_node_predictions(
                     self._tree_classifier, self._tree_classifier_context, val
@@ -477,7 +495,10 @@ def serialize(obj):
 
 
 def unserialize(key, val):
-    if key == "_tree_classifier":
+    if val is None:
+        # Nothing was serialized: the tree is not fitted or has been lightened
+        return None
+    elif key == "_tree_classifier":
         n_features = val["n_features"]
         n_classes = val["n_classes"]
         random_state = val["random_state"]
-- 
2.43.0


From 29bc08f7087c5f2b7d9988f9adbf7e5b7e2c372a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:46 +0000
Subject: [PATCH 09/30] fix: aggregation weights were wrong for large
 validation losses

0.5 * exp(loss - log_weight_tree) cancels catastrophically in float32 when the losses
are large (regression labels of a few thousands, large weights or steps): the weight of
a node was off by a factor up to 2 and could exceed 1, so that predictions could leave
the range of the labels. Compute it from the log-weights of the childs.
---
 wildwood/_tree.py | 43 +++++++++++++++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 10 deletions(-)

diff --git a/wildwood/_tree.py b/wildwood/_tree.py
index 41d2478..2066f37 100644
--- a/wildwood/_tree.py
+++ b/wildwood/_tree.py
@@ -858,7 +858,9 @@ def tree_apply(tree, features_bitarray):
         "node": node_type,
         "node_pred": float32[::1],
         "loss": float32,
-        "log_weight_tree": float32,
+        "left_child": node_type,
+        "right_child": node_type,
+        "log_weight_childs": float32,
         "alpha": float32,
     },
 )
@@ -910,8 +912,14 @@ def tree_classifier_predict_proba(tree, features_bitarray, aggregation, step):
                 node_pred = y_pred[idx_current]
                 # logarithm of the aggregation weight
                 loss = -step * node["loss_valid"]
-                log_weight_tree = node["log_weight_tree"]
-                alpha = 0.5 * exp(loss - log_weight_tree)
+                left_child = nodes[node["left_child"]]
+                right_child = nodes[node["right_child"]]
+                log_weight_childs = (
+                    left_child["log_weight_tree"] + right_child["log_weight_tree"]
+                )
+                # This equals 0.5 * exp(loss - log_weight_tree) but does not suffer
+                # from the rounding of log_weight_tree when the losses are large
+                alpha = 1.0 / (1.0 + exp(log_weight_childs - loss))
                 # Context tree weighting dark magic
                 pred_i[:] = alpha * node_pred + (1 - alpha) * pred_i
 
@@ -935,7 +943,9 @@ def tree_classifier_predict_proba(tree, features_bitarray, aggregation, step):
         "node": node_type,
         "node_pred": float32,
         "loss": float32,
-        "log_weight_tree": float32,
+        "left_child": node_type,
+        "right_child": node_type,
+        "log_weight_childs": float32,
         "alpha": float32,
     },
 )
@@ -983,9 +993,14 @@ def tree_regressor_predict(tree, features_bitarray, aggregation, step):
                 node_pred = y_pred[idx_current]
                 # logarithm of the aggregation weight
                 loss = -step * node["loss_valid"]
-                log_weight_tree = node["log_weight_tree"]
-                # Compute the aggregation weight for this subtree
-                alpha = 0.5 * exp(loss - log_weight_tree)
+                left_child = nodes[node["left_child"]]
+                right_child = nodes[node["right_child"]]
+                log_weight_childs = (
+                    left_child["log_weight_tree"] + right_child["log_weight_tree"]
+                )
+                # This equals 0.5 * exp(loss - log_weight_tree) but does not suffer
+                # from the rounding of log_weight_tree when the losses are large
+                alpha = 1.0 / (1.0 + exp(log_weight_childs - loss))
                 # Context tree weighting dark magic
                 pred_i = alpha * node_pred + (1 - alpha) * pred_i
 
@@ -1035,7 +1050,9 @@ def tree_regressor_predict(tree, features_bitarray, aggregation, step):
         "weighted_depth": float32,
         "node_pred": float32,
         "loss": float32,
-        "log_weight_tree": float32,
+        "left_child": node_type,
+        "right_child": node_type,
+        "log_weight_childs": float32,
         "alpha": float32,
     },
 )
@@ -1073,8 +1090,14 @@ def tree_regressor_weighted_depth(tree, features_bitarray, step):
             node = nodes[idx_current]
             depth_new = node["depth"]
             loss = -step * node["loss_valid"]
-            log_weight_tree = node["log_weight_tree"]
-            alpha = 0.5 * exp(loss - log_weight_tree)
+            left_child = nodes[node["left_child"]]
+            right_child = nodes[node["right_child"]]
+            log_weight_childs = (
+                left_child["log_weight_tree"] + right_child["log_weight_tree"]
+            )
+            # This equals 0.5 * exp(loss - log_weight_tree) but does not suffer
+            # from the rounding of log_weight_tree when the losses are large
+            alpha = 1.0 / (1.0 + exp(log_weight_childs - loss))
             weighted_depth = alpha * depth_new + (1 - alpha) * weighted_depth
         out[i] = weighted_depth
 
-- 
2.43.0


From d31503c02cb34dc2873c8322c6ac4053ee4467c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:04 +0000
Subject: [PATCH 10/30] fix: categorical splits for regression must sort the
 bins by average label

Bins were sorted by the sum of the labels, which depends on the number of samples in
each bin, so the best split of the categories was missed.
---
 wildwood/_split.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/wildwood/_split.py b/wildwood/_split.py
index f3942c8..0ae0845 100644
--- a/wildwood/_split.py
+++ b/wildwood/_split.py
@@ -885,7 +885,11 @@ def find_best_split_regressor_along_feature(
     cumsum_samples_valid_left = np.zeros(n_samples_train_in_bins.size, dtype=np.uintp)
 
     if is_feature_categorical:
-        idx_sort = np.argsort(y_sum_in_bins[non_empty_bins_train])
+        # Sorting the bins by average label gives the optimal split of the bins
+        idx_sort = np.argsort(
+            y_sum_in_bins[non_empty_bins_train]
+            / w_samples_train_in_bins[non_empty_bins_train]
+        )
         bins_train[:] = non_empty_bins_train[idx_sort]
     else:
         bins_train[:] = np.sort(non_empty_bins_train)
-- 
2.43.0


From 552e55cc81100f35af296f78e0693d51ba99bff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:04 +0000
Subject: [PATCH 11/30] fix: fit with zero sample weights raised
 ZeroDivisionError

---
 wildwood/_split.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/wildwood/_split.py b/wildwood/_split.py
index 0ae0845..bba389c 100644
--- a/wildwood/_split.py
+++ b/wildwood/_split.py
@@ -538,6 +538,10 @@ def try_feature_order_for_classifier_split(
         ):
             break
 
+        # With zero sample weights a child can contain samples but have no weight
+        if w_samples_train_left <= 0.0 or w_samples_train_right <= 0.0:
+            continue
+
         # TODO: we shall pass the child impurity function as an argument to handle
         #  different impurities
         criterion = tree_context.criterion
@@ -943,6 +947,10 @@ def find_best_split_regressor_along_feature(
         ):
             break
 
+        # With zero sample weights a child can contain samples but have no weight
+        if w_samples_train_left <= 0.0 or w_samples_train_right <= 0.0:
+            continue
+
         criterion = tree_context.criterion
         # Get the impurities of the left and right childs
         impurity_left, impurity_right = apply_childs_impurity_function_reg(
-- 
2.43.0


From 0443cf011de854b4587deaa0888348bebb708bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:04 +0000
Subject: [PATCH 12/30] fix: fit on a single sample raised RecursionError

---
 wildwood/forest.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index 58fd8f2..4cb60fe 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -59,6 +59,10 @@ def _generate_train_valid_samples(random_state, n_samples):
         * output[1] contains the indices of the validation samples
         * output[2] contains the counts of the training samples
     """
+    if n_samples < 2:
+        raise ValueError(
+            "At least 2 samples are required to get train and validation samples"
+        )
     random_instance = check_random_state(random_state)
     # Sample the bootstrap samples (uniform sampling with replacement)
     sample_indices = random_instance.randint(0, n_samples, n_samples)
-- 
2.43.0


From a8daad20651250beb8e48d8e993278880cb2665a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:04 +0000
Subject: [PATCH 13/30] fix: ForestRegressor.predict_trees used methods that do
 not exist anymore

---
 wildwood/forest.py | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index 4cb60fe..c72f3af 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -1700,17 +1700,8 @@ class ForestRegressor(ForestBase, RegressorMixin):
         output : ndarray of shape (n_estimators, n_samples)
            The predicted target regression values by each tree for the input samples.
         """
-        check_is_fitted(self)
-        # Check data
-        X = self._validate_X_predict(X)
-        # TODO: we can also avoid data binning for predictions...
-        X_binned = self._bin_data(X, is_training_data=False)
-        n_samples, n_features = X.shape
-        n_estimators = len(self.trees)
-        n_jobs, _, _ = _partition_estimators(self.n_estimators, self.n_jobs)
-        probas = np.empty((n_estimators, n_samples, n_features))
-
-        lock = threading.Lock()
+        features_bitarray, n_jobs, lock = self._predict_helper(X)
+        preds = np.empty((len(self.trees), features_bitarray.n_samples))
         with parallel_config(require="sharedmem"):
             Parallel(
                 n_jobs=n_jobs,
@@ -1718,11 +1709,11 @@ class ForestRegressor(ForestBase, RegressorMixin):
                 # **_joblib_parallel_args(require="sharedmem"),
             )(
                 delayed(_get_tree_prediction)(
-                    e.predict_proba, X_binned, probas, lock, tree_idx
+                    e.predict, features_bitarray, preds, lock, tree_idx
                 )
                 for tree_idx, e in enumerate(self.trees)
             )
-        return probas
+        return preds
 
     @property
     def criterion(self):
-- 
2.43.0


From 454858388dbd5109896e329007e1c0658af8aaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:04 +0000
Subject: [PATCH 14/30] fix: reject dirichlet=0 on a fitted forest with
 aggregation, as fit does

It made all the predictions NaN.
---
 wildwood/tree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wildwood/tree.py b/wildwood/tree.py
index 23355c9..dcf6978 100644
--- a/wildwood/tree.py
+++ b/wildwood/tree.py
@@ -335,6 +335,8 @@ class TreeClassifier(ClassifierMixin, TreeBase):
     def dirichlet(self, val):
         # We skip the checks and assume they are done by the forest
         if val != self.dirichlet:
+            if self.aggregation and val == 0.0:
+                raise ValueError("dirichlet must be > 0 when aggregation=True")
             if self._tree_classifier is not None and (
                 self._tree_classifier_context is None
             ):
-- 
2.43.0


From 1ca3679ff609c63cdb39700fd17e2d73a638299f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:31 +0000
Subject: [PATCH 15/30] fix: refitting a forest with multiclass="ovr" on
 another number of classes

fit overwrote the multiclass parameter with "multinomial" when there are two classes:
a fitted ovr forest could not be refitted on two classes (AttributeError) and one fitted
on two classes silently ignored "ovr" when refitted on more.
---
 wildwood/forest.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index c72f3af..1c0107f 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -250,7 +250,7 @@ class ForestBase(BaseEstimator):
             np.iinfo(np.uint32).max, size=n_estimators
         )
         if hasattr(self, "multiclass"):
-            if self.multiclass == "ovr":
+            if self.multiclass_ == "ovr":
                 # TODO: an option random_state_ovr
                 # In the "ovr" case, we want the random_state to be the same across the
                 # trees used in the one-versus all strategy
@@ -317,7 +317,7 @@ class ForestBase(BaseEstimator):
         if is_classifier:
             y = self._encode_y(y)
             class_weight = self.class_weight
-            multiclass = self.multiclass
+            multiclass = self.multiclass_
             n_classes = self._n_classes_
 
             if self.aggregation and self.dirichlet == 0.0:
@@ -436,7 +436,7 @@ class ForestBase(BaseEstimator):
             ]
 
         # Parallel loop: use threading since all the numba code releases the GIL
-        ovr = is_classifier and self.multiclass == "ovr"
+        ovr = is_classifier and self.multiclass_ == "ovr"
         if self.verbose:
             with parallel_config(prefer="threads"):
                 trees = Parallel(
@@ -1138,6 +1138,8 @@ class ForestClassifier(ForestBase, ClassifierMixin):
         self.n_trees_ = None
         self.n_classes_per_tree_ = None
         self._multiclass = None
+        # The multiclass strategy that is actually used, see _encode_y
+        self.multiclass_ = None
         self.dirichlet = dirichlet
         self.class_weight = class_weight
         self.multiclass = multiclass
@@ -1160,6 +1162,7 @@ class ForestClassifier(ForestBase, ClassifierMixin):
             Encoded array of labels
         """
         multiclass = self.multiclass
+        self.multiclass_ = multiclass
         check_classification_targets(y)
         # One-hot encode the labels for "ovr", otherwise just use ordinal encoding
         label_encoder = LabelBinarizer() if multiclass == "ovr" else LabelEncoder()
@@ -1175,7 +1178,7 @@ class ForestClassifier(ForestBase, ClassifierMixin):
                         'multiclass="multinomial" instead of "ovr"'
                     )
                 # We switch back to "multinomial" encoding
-                self.multiclass = "multinomial"
+                self.multiclass_ = "multinomial"
                 # And we need to flatten the array in this case (since LabelBinarizer
                 # returns a (n_samples, 2) array in this case)
                 encoded_y = pre_encoded_y.ravel().astype(np.float32)
@@ -1256,7 +1259,7 @@ class ForestClassifier(ForestBase, ClassifierMixin):
         all_proba = np.zeros((features_bitarray.n_samples, self.n_classes_))
         n_estimators = self.n_estimators
 
-        ovr = self.multiclass == "ovr"
+        ovr = self.multiclass_ == "ovr"
 
         with parallel_config(require="sharedmem"):
             Parallel(
@@ -1319,7 +1322,7 @@ class ForestClassifier(ForestBase, ClassifierMixin):
             (
                 n_estimators,
                 n_samples,
-                2 if n_classes > 2 and self.multiclass == "ovr" else n_classes,
+                2 if n_classes > 2 and self.multiclass_ == "ovr" else n_classes,
             )
         )
 
-- 
2.43.0


From ba8fda4a95510f4ca5b3c6227bafaf4e12afcd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:55 +0000
Subject: [PATCH 16/30] fix: missing values of an object array shared the bin
 of a known value

---
 wildwood/preprocessing/_checks.py | 4 ++--
 wildwood/preprocessing/encoder.py | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/wildwood/preprocessing/_checks.py b/wildwood/preprocessing/_checks.py
index 19a23e6..d899e47 100644
--- a/wildwood/preprocessing/_checks.py
+++ b/wildwood/preprocessing/_checks.py
@@ -224,8 +224,8 @@ def get_array_dtypes(X, is_categorical, cat_min_categories, verbose):
             # each column is categorical or not
             for col_idx in range(n_features):
                 col = X[:, col_idx]
-                col_unique = np.unique(col)
-                nunique = col_unique.size
+                # np.unique cannot sort mixed types, such as strings and missing values
+                nunique = pd.Series(col).nunique(dropna=False)
                 if nunique <= cat_min_categories:
                     # The column looks categorical
                     is_categorical_out[col_idx] = True
diff --git a/wildwood/preprocessing/encoder.py b/wildwood/preprocessing/encoder.py
index 536ba9f..d6ec2d8 100644
--- a/wildwood/preprocessing/encoder.py
+++ b/wildwood/preprocessing/encoder.py
@@ -377,13 +377,13 @@ class Encoder(TransformerMixin, BaseEstimator):
                 X_dict[col_idx] = col
         else:
             # First, we need to know if some columns from X have unknown categories,
-            # since this might increase by one the number of bins required. Note that
-            # if X has object dtype (or similar), this code assumes that it cannot
-            # contain missing values. We might obtain missing values if unknown
-            # categories occur.
+            # since this might increase by one the number of bins required.
             if X.dtype.kind in "uif":
                 # If X has a numerical dtype, we can look for missing values
                 has_missing_values = np.isnan(X).any(axis=0)
+            elif X.dtype.kind == "O":
+                # An object array can contain missing values (None, np.nan, etc.)
+                has_missing_values = pd.isna(X).any(axis=0)
             else:
                 # Otherwise, there is no missing value
                 has_missing_values = np.zeros(n_features, dtype=np.bool_)
-- 
2.43.0


From e26ad4d6823430b3e9622567662baf5830dd8eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:37 +0000
Subject: [PATCH 17/30] fix: an interrupted fetch left a truncated dataset in
 the cache for good

---
 wildwood/datasets/_adult.py      |  4 ++--
 wildwood/datasets/_amazon.py     |  4 ++--
 wildwood/datasets/_bank.py       |  5 ++---
 wildwood/datasets/_car.py        |  4 ++--
 wildwood/datasets/_default_cb.py |  4 ++--
 wildwood/datasets/_epsilon.py    | 10 ++++++----
 wildwood/datasets/_higgs.py      |  5 ++---
 wildwood/datasets/_internet.py   |  4 ++--
 wildwood/datasets/_kick.py       |  4 ++--
 wildwood/datasets/_utils.py      | 20 ++++++++++++++++++++
 10 files changed, 42 insertions(+), 22 deletions(-)

diff --git a/wildwood/datasets/_adult.py b/wildwood/datasets/_adult.py
index 316e59a..b04c665 100644
--- a/wildwood/datasets/_adult.py
+++ b/wildwood/datasets/_adult.py
@@ -8,7 +8,7 @@ import pandas as pd
 from sklearn.datasets._base import _fetch_remote
 
 from .dataset import Dataset, load_raw_dataset
-from ._utils import _mkdirp, RemoteFileMetadata, get_data_home
+from ._utils import _mkdirp, RemoteFileMetadata, get_data_home, _save_csv_atomic
 
 
 ARCHIVE_TRAIN = RemoteFileMetadata(
@@ -73,7 +73,7 @@ def _fetch_adult(download_if_missing=True):
         df_test = df_test.replace(" <=50K.", " <=50K")
 
         df = pd.concat([df_train, df_test], axis="index")
-        df.to_csv(data_path, compression="gzip", index=False)
+        _save_csv_atomic(df, data_path)
         # Remove temporary files
         os.remove(archive_path_train)
         os.remove(archive_path_test)
diff --git a/wildwood/datasets/_amazon.py b/wildwood/datasets/_amazon.py
index 758d880..f22159c 100644
--- a/wildwood/datasets/_amazon.py
+++ b/wildwood/datasets/_amazon.py
@@ -7,7 +7,7 @@ import pandas as pd
 from sklearn.datasets._base import _fetch_remote
 
 from .dataset import Dataset, load_raw_dataset
-from ._utils import _mkdirp, RemoteFileMetadata, get_data_home
+from ._utils import _mkdirp, RemoteFileMetadata, get_data_home, _save_csv_atomic
 
 
 ARCHIVE = RemoteFileMetadata(
@@ -33,7 +33,7 @@ def _fetch_amazon(download_if_missing=True):
 
         df = pd.read_csv(filepath)
 
-        df.to_csv(data_path, compression="gzip", index=False)
+        _save_csv_atomic(df, data_path)
         # Remove temporary files
         os.remove(filepath)
 
diff --git a/wildwood/datasets/_bank.py b/wildwood/datasets/_bank.py
index 2cf326e..3acf401 100644
--- a/wildwood/datasets/_bank.py
+++ b/wildwood/datasets/_bank.py
@@ -4,10 +4,9 @@ import logging
 
 import numpy as np
 import pandas as pd
-from sklearn.datasets._base import _fetch_remote
 
 from .dataset import Dataset, load_raw_dataset
-from ._utils import _mkdirp, RemoteFileMetadata, get_data_home
+from ._utils import _mkdirp, RemoteFileMetadata, get_data_home, _fetch_remote_atomic
 import zipfile
 
 ARCHIVE = RemoteFileMetadata(
@@ -29,7 +28,7 @@ def _fetch_bank(download_if_missing=True):
 
         _mkdirp(data_dir)
         logger.info("Downloading %s" % ARCHIVE.url)
-        _fetch_remote(ARCHIVE, dirname=data_dir)
+        _fetch_remote_atomic(ARCHIVE, dirname=data_dir)
 
 
 def load_bank(download_if_missing=True, raw=False, verbose=False):
diff --git a/wildwood/datasets/_car.py b/wildwood/datasets/_car.py
index e53e60d..7bfc513 100644
--- a/wildwood/datasets/_car.py
+++ b/wildwood/datasets/_car.py
@@ -7,7 +7,7 @@ import pandas as pd
 from sklearn.datasets._base import _fetch_remote
 
 from .dataset import Dataset, load_raw_dataset
-from ._utils import _mkdirp, RemoteFileMetadata, get_data_home
+from ._utils import _mkdirp, RemoteFileMetadata, get_data_home, _save_csv_atomic
 
 
 ARCHIVE = RemoteFileMetadata(
@@ -36,7 +36,7 @@ def _fetch_car(download_if_missing=True):
         df = pd.read_csv(filepath, header=None, sep=",")
         df.columns = columns
 
-        df.to_csv(data_path, compression="gzip", index=False)
+        _save_csv_atomic(df, data_path)
         # Remove temporary files
         os.remove(filepath)
 
diff --git a/wildwood/datasets/_default_cb.py b/wildwood/datasets/_default_cb.py
index dba7bfb..306ad99 100644
--- a/wildwood/datasets/_default_cb.py
+++ b/wildwood/datasets/_default_cb.py
@@ -7,7 +7,7 @@ import pandas as pd
 from sklearn.datasets._base import _fetch_remote
 
 from .dataset import Dataset, load_raw_dataset
-from ._utils import _mkdirp, RemoteFileMetadata, get_data_home
+from ._utils import _mkdirp, RemoteFileMetadata, get_data_home, _save_csv_atomic
 
 
 ARCHIVE = RemoteFileMetadata(
@@ -33,7 +33,7 @@ def _fetch_default_cb(download_if_missing=True):
 
         df = pd.read_excel(filepath, skiprows=[0])
 
-        df.to_csv(data_path, compression="gzip", index=False)
+        _save_csv_atomic(df, data_path)
         # Remove temporary files
         os.remove(filepath)
 
diff --git a/wildwood/datasets/_epsilon.py b/wildwood/datasets/_epsilon.py
index 981e614..5299fa6 100644
--- a/wildwood/datasets/_epsilon.py
+++ b/wildwood/datasets/_epsilon.py
@@ -4,10 +4,9 @@ import logging
 
 import numpy as np
 import pandas as pd
-from sklearn.datasets._base import _fetch_remote
 
 from .dataset import Dataset
-from ._utils import _mkdirp, RemoteFileMetadata, get_data_home
+from ._utils import _mkdirp, RemoteFileMetadata, get_data_home, _fetch_remote_atomic
 import zipfile
 
 ARCHIVE_TRAIN = RemoteFileMetadata(
@@ -36,9 +35,12 @@ def _fetch_epsilon(download_if_missing=True):
     if download_if_missing and not exists(data_path1):
         _mkdirp(data_dir)
         logger.info("Downloading %s" % ARCHIVE_TRAIN.url)
-        _fetch_remote(ARCHIVE_TRAIN, dirname=data_dir)
+        _fetch_remote_atomic(ARCHIVE_TRAIN, dirname=data_dir)
+
+    if download_if_missing and not exists(data_path2):
+        _mkdirp(data_dir)
         logger.info("Downloading %s" % ARCHIVE_TEST.url)
-        _fetch_remote(ARCHIVE_TEST, dirname=data_dir)
+        _fetch_remote_atomic(ARCHIVE_TEST, dirname=data_dir)
 
 
 def load_epsilon(download_if_missing=True, raw=False, verbose=False):
diff --git a/wildwood/datasets/_higgs.py b/wildwood/datasets/_higgs.py
index 6486f49..3657a30 100644
--- a/wildwood/datasets/_higgs.py
+++ b/wildwood/datasets/_higgs.py
@@ -8,7 +8,6 @@ import numpy as np
 import joblib
 
 from sklearn.datasets._base import (
-    _fetch_remote,
     _convert_data_dataframe,
     RemoteFileMetadata,
     _sha256,
@@ -16,7 +15,7 @@ from sklearn.datasets._base import (
 
 # from sklearn.datasets import get_data_home
 from .dataset import Dataset, load_raw_dataset
-from ._utils import _mkdirp, RemoteFileMetadata, get_data_home
+from ._utils import _mkdirp, RemoteFileMetadata, get_data_home, _fetch_remote_atomic
 
 
 from urllib.request import urlretrieve
@@ -47,7 +46,7 @@ def _fetch_higgs(download_if_missing=True):
     if download_if_missing and not exists(data_path):
         _mkdirp(data_dir)
         logger.info("Downloading %s" % ARCHIVE.url)
-        _fetch_remote(ARCHIVE, dirname=data_dir)
+        _fetch_remote_atomic(ARCHIVE, dirname=data_dir)
 
 
 def load_higgs(download_if_missing=True, raw=False, verbose=False):
diff --git a/wildwood/datasets/_internet.py b/wildwood/datasets/_internet.py
index 4b1aeff..b347b3f 100644
--- a/wildwood/datasets/_internet.py
+++ b/wildwood/datasets/_internet.py
@@ -7,7 +7,7 @@ import pandas as pd
 from sklearn.datasets._base import _fetch_remote
 
 from .dataset import Dataset, load_raw_dataset
-from ._utils import _mkdirp, RemoteFileMetadata, get_data_home
+from ._utils import _mkdirp, RemoteFileMetadata, get_data_home, _save_csv_atomic
 import zipfile
 
 ARCHIVE = RemoteFileMetadata(
@@ -36,7 +36,7 @@ def _fetch_internet(download_if_missing=True):
 
         df = pd.read_csv(file)
         df = df.fillna("?")
-        df.to_csv(data_path, compression="gzip", index=False)
+        _save_csv_atomic(df, data_path)
         # Remove temporary files
         os.remove(file)
 
diff --git a/wildwood/datasets/_kick.py b/wildwood/datasets/_kick.py
index 9375cc8..02ff257 100644
--- a/wildwood/datasets/_kick.py
+++ b/wildwood/datasets/_kick.py
@@ -7,7 +7,7 @@ import pandas as pd
 from sklearn.datasets._base import _fetch_remote
 
 from .dataset import Dataset, load_raw_dataset
-from ._utils import _mkdirp, RemoteFileMetadata, get_data_home
+from ._utils import _mkdirp, RemoteFileMetadata, get_data_home, _save_csv_atomic
 
 
 ARCHIVE = RemoteFileMetadata(
@@ -72,7 +72,7 @@ def _fetch_kick(download_if_missing=True):
         for nc in numerical_columns:
             df[nc] = df[nc].replace("?", np.nan)
 
-        df.to_csv(data_path, compression="gzip", index=False)
+        _save_csv_atomic(df, data_path)
         # Remove temporary files
         os.remove(filepath)
 
diff --git a/wildwood/datasets/_utils.py b/wildwood/datasets/_utils.py
index 9c0b732..e0fd149 100644
--- a/wildwood/datasets/_utils.py
+++ b/wildwood/datasets/_utils.py
@@ -5,6 +5,8 @@ import os
 from os.path import dirname, exists, join
 import errno
 
+from sklearn.datasets._base import _fetch_remote
+
 
 RemoteFileMetadata = namedtuple("RemoteFileMetadata", ["filename", "url", "checksum"])
 
@@ -47,3 +49,21 @@ def _mkdirp(d):
     except OSError as e:
         if e.errno != errno.EEXIST:
             raise
+
+
+def _fetch_remote_atomic(remote, dirname):
+    """Download a remote file. It only gets its name once it is complete and verified,
+    so that an interrupted download is never mistaken for the file itself.
+    """
+    part = remote._replace(filename=remote.filename + ".part")
+    _fetch_remote(part, dirname=dirname)
+    os.replace(join(dirname, part.filename), join(dirname, remote.filename))
+
+
+def _save_csv_atomic(df, path):
+    """Save a dataframe as a gzipped csv file. It only gets its name once it is
+    complete, so that an interrupted save is never mistaken for the file itself.
+    """
+    part = path + ".part"
+    df.to_csv(part, compression="gzip", index=False)
+    os.replace(part, path)
-- 
2.43.0


From e623426e5fc6b301539217f65857eed4b2c31a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:23 +0000
Subject: [PATCH 18/30] fix: reject a cat_min_categories that is neither an int
 nor a string

---
 wildwood/preprocessing/encoder.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/wildwood/preprocessing/encoder.py b/wildwood/preprocessing/encoder.py
index d6ec2d8..2df434e 100644
--- a/wildwood/preprocessing/encoder.py
+++ b/wildwood/preprocessing/encoder.py
@@ -755,3 +755,8 @@ class Encoder(TransformerMixin, BaseEstimator):
                 )
             else:
                 self._cat_min_categories = val
+        else:
+            raise ValueError(
+                f"cat_min_categories should be an int > 3 or either "
+                f"'log' or 'sqrt'; {val} was given"
+            )
-- 
2.43.0


From d19cbbc5eed3b8fda943ea123e99370a6b81c35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:23 +0000
Subject: [PATCH 19/30] fix: predicting with a forest that is not fitted must
 raise NotFittedError

---
 wildwood/forest.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index 1c0107f..9f88a4e 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -645,6 +645,9 @@ class ForestBase(BaseEstimator):
     #
     #     return X_binned
 
+    def __sklearn_is_fitted__(self):
+        return self._fitted
+
     def _predict_helper(self, X):
         """A method used in all predict functions to avoid code duplication"""
         # Is the forest fitted ?
-- 
2.43.0


From d97d7596b250e9482664186386374cc173820b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:23 +0000
Subject: [PATCH 20/30] fix: raise ValueError on an X that is not an array or a
 dataframe, or that is empty

---
 wildwood/forest.py                | 3 ++-
 wildwood/preprocessing/_checks.py | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index 9f88a4e..f489df1 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -26,7 +26,7 @@ from sklearn.utils.validation import check_is_fitted
 
 # from ._binning import Binner
 from ._utils import split_strategy_mapping, criteria_mapping
-from .preprocessing._checks import get_is_categorical
+from .preprocessing._checks import check_X, get_is_categorical
 from .preprocessing import Encoder
 
 
@@ -305,6 +305,7 @@ class ForestBase(BaseEstimator):
         if categorical_features is not None:
             self.categorical_features = categorical_features
 
+        check_X(X)
         check_consistent_length(X, y)
 
         # In all cases we have a sample_weight_ vector: it contains only ones if
diff --git a/wildwood/preprocessing/_checks.py b/wildwood/preprocessing/_checks.py
index d899e47..439f116 100644
--- a/wildwood/preprocessing/_checks.py
+++ b/wildwood/preprocessing/_checks.py
@@ -358,6 +358,9 @@ def check_X(X, is_categorical=None, n_features=None):
         )
         raise ValueError(msg)
 
+    if X.shape[0] == 0:
+        raise ValueError("X must contain at least one sample")
+
     if n_features is not None:
         if X.shape[1] != n_features:
             msg = (
-- 
2.43.0


From 77e405dd5520d76e3bc53e0b3ddc4c3374265a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:23 +0000
Subject: [PATCH 21/30] fix: ForestRegressor.fit must reject labels that are
 not finite or not one-dimensional

---
 wildwood/forest.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index f489df1..0991065 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -22,7 +22,7 @@ from sklearn.preprocessing import LabelEncoder, LabelBinarizer
 
 #from sklearn.utils.fixes import _joblib_parallel_args, delayed
 from sklearn.utils.multiclass import check_classification_targets
-from sklearn.utils.validation import check_is_fitted
+from sklearn.utils.validation import check_is_fitted, column_or_1d
 
 # from ._binning import Binner
 from ._utils import split_strategy_mapping, criteria_mapping
@@ -354,7 +354,8 @@ class ForestBase(BaseEstimator):
                 else:
                     sample_weight_ = [sample_weight_] * n_classes
         else:
-            y = np.ascontiguousarray(y, dtype=np.float32)
+            y = column_or_1d(check_array(y, ensure_2d=False, dtype=np.float32))
+            y = np.ascontiguousarray(y)
 
         n_samples, n_features = X.shape
         # Let's get actual parameters based on the parameters passed by the user and
-- 
2.43.0


From 573e70a1de60b66e03fc6db3d232ccfa106de479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:23 +0000
Subject: [PATCH 22/30] fix: reject nan and infinite values of step, dirichlet
 and max_features

---
 wildwood/forest.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index 0991065..f1fdf57 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -698,7 +698,7 @@ class ForestBase(BaseEstimator):
     def step(self, val):
         if not isinstance(val, float):
             raise ValueError("step must be a float")
-        elif val <= 0:
+        elif not 0 < val < np.inf:
             raise ValueError("step must be positive")
         else:
             self._step = val
@@ -804,7 +804,7 @@ class ForestBase(BaseEstimator):
             else:
                 self._max_features = val
         elif isinstance(val, float):
-            if val > 1.0 or val <= 0.0:
+            if not 0.0 < val <= 1.0:
                 raise ValueError("max_features must be <= 1.0 and > 0.0")
             else:
                 self._max_features = val
@@ -1383,7 +1383,7 @@ class ForestClassifier(ForestBase, ClassifierMixin):
         if not isinstance(val, float):
             raise ValueError("dirichlet must be a float")
         else:
-            if val < 0.0:
+            if not 0.0 <= val < np.inf:
                 raise ValueError("dirichlet must be positive")
             else:
                 recompute = hasattr(self, "_dirichlet") and self._dirichlet != val
-- 
2.43.0


From e422f8a7ce942578d01194111de6bace257cf2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:27 +0000
Subject: [PATCH 23/30] fix: Dataset.extract describes the columns that the
 transformer returns

columns_, categorical_columns_ and the mask were derived from the dtypes of
the dataframe, in its order, while the transformer uses the declared columns
in their declared order: for boston the names were shifted and the categorical
column was counted as continuous.
---
 wildwood/datasets/dataset.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/wildwood/datasets/dataset.py b/wildwood/datasets/dataset.py
index 2c54163..90eaa4b 100644
--- a/wildwood/datasets/dataset.py
+++ b/wildwood/datasets/dataset.py
@@ -301,18 +301,11 @@ class Dataset:
         # column label
         self.n_samples_in_, _ = df.shape
 
-        # A list containing the names of the categorical colunms
-        self.categorical_columns_ = [
-            col
-            for col, dtype in df.dtypes.items()
-            if col != self.label_column and dtype.name == "category"
-        ]
+        # A list containing the names of the categorical colunms (these are the ones
+        # used by the transformer, in the same order)
+        self.categorical_columns_ = list(self.categorical_columns or [])
         # A list containing the names of the continuous colunms
-        self.continuous_columns_ = [
-            col
-            for col, dtype in df.dtypes.items()
-            if col != self.label_column and dtype.name != "category"
-        ]
+        self.continuous_columns_ = list(self.continuous_columns or [])
 
         self.n_features_categorical_ = len(self.categorical_columns_)
         self.n_features_continuous_ = len(self.continuous_columns_)
-- 
2.43.0


From d0026f4e5c70b23c9d0b7a196c0ff9bed34c056f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:27 +0000
Subject: [PATCH 24/30] fix: Dataset.extract does not keep the categorical mask
 of an earlier extraction

---
 wildwood/datasets/dataset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wildwood/datasets/dataset.py b/wildwood/datasets/dataset.py
index 90eaa4b..77e03f5 100644
--- a/wildwood/datasets/dataset.py
+++ b/wildwood/datasets/dataset.py
@@ -311,6 +311,7 @@ class Dataset:
         self.n_features_continuous_ = len(self.continuous_columns_)
         self.n_features_in_ = self.n_features_categorical_ + self.n_features_continuous_
 
+        self.categorical_features_ = None
         if not self.one_hot_encode and self.n_features_categorical_ > 0:
             # If we do not use one-hot encoding, we compute a boolean mask indicating
             # which features are categorical. We use the fact that by construction of
-- 
2.43.0


From f841feb93a70bac36a352b1725d03743b2c030c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:27 +0000
Subject: [PATCH 25/30] fix: Dataset.columns_ does not list the modalities
 dropped by one-hot encoding

---
 wildwood/datasets/dataset.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/wildwood/datasets/dataset.py b/wildwood/datasets/dataset.py
index 77e03f5..f3414dc 100644
--- a/wildwood/datasets/dataset.py
+++ b/wildwood/datasets/dataset.py
@@ -343,13 +343,15 @@ class Dataset:
         if self.n_features_categorical_ > 0:
             if self.one_hot_encode:
                 # Get the list of modalities from the OneHotEncoder
-                all_modalities = (
-                    self.transformer.transformer_list[-1][1]
-                    .transformers_[0][1]
-                    .categories_
-                )
-                for categorical_column, modalities in zip(
-                    self.categorical_columns_, all_modalities
+                one_hot_encoder = self.transformer.transformer_list[-1][
+                    1
+                ].transformers_[0][1]
+                all_modalities = one_hot_encoder.categories_
+                all_dropped = one_hot_encoder.drop_idx_
+                if all_dropped is None:
+                    all_dropped = [None] * len(all_modalities)
+                for categorical_column, modalities, dropped in zip(
+                    self.categorical_columns_, all_modalities, all_dropped
                 ):
                     # Add the columns for this features
                     columns.extend(
@@ -359,6 +361,7 @@ class Dataset:
                             # + modality
                             + "#" + str(idx_modality)
                             for idx_modality, modality in enumerate(modalities)
+                            if idx_modality != dropped
                         ]
                     )
             else:
-- 
2.43.0


From 29dd7124187ca3252393ba25022db9b3c2f30fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:27 +0000
Subject: [PATCH 26/30] fix: Dataset.from_dtype does not use the label as a
 feature when dtype gives its type

---
 wildwood/datasets/dataset.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/wildwood/datasets/dataset.py b/wildwood/datasets/dataset.py
index f3414dc..b04db7d 100644
--- a/wildwood/datasets/dataset.py
+++ b/wildwood/datasets/dataset.py
@@ -173,10 +173,14 @@ class Dataset:
         name, task, label_column, dtype, drop_columns=None, one_hot_encode=True
     ):
         continuous_columns = [
-            col for col, col_type in dtype.items() if col_type != "category"
+            col
+            for col, col_type in dtype.items()
+            if col != label_column and col_type != "category"
         ]
         categorical_columns = [
-            col for col, col_type in dtype.items() if col_type == "category"
+            col
+            for col, col_type in dtype.items()
+            if col != label_column and col_type == "category"
         ]
         dataset = Dataset(
             name=name,
-- 
2.43.0


From 0513c6538df6ac7770e42c9bb63e764e48f0ce9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:36 +0000
Subject: [PATCH 27/30] fix: the randomized depths of fit are drawn from the
 seeds of the trees, not from the global random generator

---
 wildwood/forest.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index f1fdf57..6d142ad 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -398,7 +398,9 @@ class ForestBase(BaseEstimator):
                     step=self.step,
                     aggregation=self.aggregation,
                     dirichlet=self.dirichlet,
-                    max_depth=max_depth_ if not randomized_depth else np.random.randint(3, 51),
+                    max_depth=max_depth_
+                    if not randomized_depth
+                    else check_random_state(random_state).randint(3, 51),
                     min_samples_split=self.min_samples_split,
                     min_samples_leaf=self.min_samples_leaf,
                     categorical_features=self.categorical_features,
@@ -422,7 +424,9 @@ class ForestBase(BaseEstimator):
                     loss=self.loss,
                     step=self.step,
                     aggregation=self.aggregation,
-                    max_depth=max_depth_ if not randomized_depth else np.random.randint(3, 51),
+                    max_depth=max_depth_
+                    if not randomized_depth
+                    else check_random_state(random_state).randint(3, 51),
                     min_samples_split=self.min_samples_split,
                     min_samples_leaf=self.min_samples_leaf,
                     categorical_features=self.categorical_features,
-- 
2.43.0


From 52625d6268a96c099f423e990e8efc31848d251a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:25 +0000
Subject: [PATCH 28/30] fix: get_nodes reports is_left: add_node_tree never
 stored it, so it was False for every node

---
 wildwood/_tree.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wildwood/_tree.py b/wildwood/_tree.py
index 2066f37..be31f18 100644
--- a/wildwood/_tree.py
+++ b/wildwood/_tree.py
@@ -614,6 +614,7 @@ def add_node_tree(
     node["node_id"] = node_idx
     node["parent"] = parent
     node["depth"] = depth
+    node["is_left"] = is_left
     node["is_leaf"] = is_leaf
     node["impurity"] = impurity
     node["n_samples_train"] = n_samples_train
-- 
2.43.0


From a02f6cfdbf941140f8e8de4bec8c4c7195e9b7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:25 +0000
Subject: [PATCH 29/30] fix: get_depth and get_n_leaves of fitted trees return
 the depth and the number of leaves instead of raising NotFittedError

---
 wildwood/tree.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/wildwood/tree.py b/wildwood/tree.py
index dcf6978..855bc0f 100644
--- a/wildwood/tree.py
+++ b/wildwood/tree.py
@@ -99,6 +99,17 @@ class TreeBase(BaseEstimator, metaclass=ABCMeta):
         self.random_state = random_state
         self.verbose = verbose
 
+    def __sklearn_is_fitted__(self):
+        tree = self._tree_classifier if self.is_classifier else self._tree_regressor
+        return tree is not None
+
+    def _get_fitted_nodes(self):
+        """Return the array of the nodes of the grown tree (without the spare
+        capacity)."""
+        check_is_fitted(self)
+        tree = self._tree_classifier if self.is_classifier else self._tree_regressor
+        return tree.nodes[: tree.node_count]
+
     def get_depth(self):
         """Return the depth of the decision tree.
 
@@ -107,14 +118,10 @@ class TreeBase(BaseEstimator, metaclass=ABCMeta):
 
         Returns
         -------
-        self.tree_.max_depth : int
+        depth : int
             The maximum depth of the tree.
         """
-        check_is_fitted(self)
-        if self.is_classifier:
-            return self._tree_classifier.max_depth
-        else:
-            return self._tree_regressor.max_depth
+        return int(self._get_fitted_nodes()["depth"].max())
 
     def get_actual_depth(self):
         nd = self.get_nodes()
@@ -125,14 +132,10 @@ class TreeBase(BaseEstimator, metaclass=ABCMeta):
 
         Returns
         -------
-        self.tree_.n_leaves : int
+        n_leaves : int
             Number of leaves.
         """
-        check_is_fitted(self)
-        if self.is_classifier:
-            return self._tree_classifier.n_leaves
-        else:
-            return self._tree_regressor.n_leaves
+        return int(self._get_fitted_nodes()["is_leaf"].sum())
 
     def apply(self, X):
         if self.is_classifier:
-- 
2.43.0


From 970a6841bd490af8610f85f97acfc1e264418f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:24 +0000
Subject: [PATCH 30/30] fix: path_leaf of a forest used a method that does not
 exist (and had none for regressors); use the encoder

---
 wildwood/_tree.py  | 5 +----
 wildwood/forest.py | 4 ++--
 wildwood/tree.py   | 3 +++
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/wildwood/_tree.py b/wildwood/_tree.py
index be31f18..11d34ac 100644
--- a/wildwood/_tree.py
+++ b/wildwood/_tree.py
@@ -752,7 +752,7 @@ def sample_path_leaf(tree, xi):
     col_is_split_categorical = []
     col_decision = []
 
-    while True:
+    while not node["is_leaf"]:
         bin_partition_start = node["bin_partition_start"]
         bin_partition_end = node["bin_partition_end"]
         is_split_categorical = node["is_split_categorical"]
@@ -787,9 +787,6 @@ def sample_path_leaf(tree, xi):
         col_decision.append(decision)
         node = nodes[leaf_idx]
 
-        if node["is_leaf"]:
-            break
-
     df = pd.DataFrame(
         {
             "depth": col_depth,
diff --git a/wildwood/forest.py b/wildwood/forest.py
index 6d142ad..f417735 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -28,6 +28,7 @@ from sklearn.utils.validation import check_is_fitted, column_or_1d
 from ._utils import split_strategy_mapping, criteria_mapping
 from .preprocessing._checks import check_X, get_is_categorical
 from .preprocessing import Encoder
+from .preprocessing.features_bitarray import features_bitarray_to_array
 
 
 eps = np.finfo("float32").eps
@@ -674,8 +675,7 @@ class ForestBase(BaseEstimator):
 
     def path_leaf(self, X, tree_idx=0):
         check_is_fitted(self)
-        X = self._validate_X_predict(X, check_input=True)
-        X_binned = self._bin_data(X, is_training_data=False)
+        X_binned = features_bitarray_to_array(self._encoder.transform(X))
         return self.trees[tree_idx].path_leaf(X_binned)
 
     @property
diff --git a/wildwood/tree.py b/wildwood/tree.py
index 855bc0f..b1ae5ab 100644
--- a/wildwood/tree.py
+++ b/wildwood/tree.py
@@ -462,6 +462,9 @@ class TreeRegressor(TreeBase, RegressorMixin):
     def get_nodes(self):
         return get_nodes_regressor(self._tree_regressor)
 
+    def path_leaf(self, X):
+        return _path_leaf(self._tree_regressor, X)
+
 
 def serialize(obj):
     if isinstance(obj, _TreeClassifier):
-- 
2.43.0

