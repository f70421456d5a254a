From 065341a77cd10bddc68f2117bc685ea15dc8b249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:16 +0000
Subject: [PATCH 01/10] fix: sum partial dependence in tree order when parallel

rayon's sum() adds the per tree values in an order that depends on the
schedule, so repeated calls returned different bits.
---
 src/gradientbooster.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gradientbooster.rs b/src/gradientbooster.rs
index a61592e..8de2b67 100644
--- a/src/gradientbooster.rs
+++ b/src/gradientbooster.rs
@@ -957,9 +957,13 @@ impl GradientBooster {
     /// * `value` - The value for which to calculate the partial dependence.
     pub fn value_partial_dependence(&self, feature: usize, value: f64) -> f64 {
         let pd: f64 = if self.parallel {
+            // Sum in tree order, otherwise the result depends on how
+            // the work happened to be divided between the threads.
             self.get_prediction_trees()
                 .par_iter()
                 .map(|t| t.value_partial_dependence(feature, value, &self.missing))
+                .collect::<Vec<f64>>()
+                .iter()
                 .sum()
         } else {
             self.get_prediction_trees()
-- 
2.43.0


From 19be772c15d0c32bc96dd25e98127aa80ba0e04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:16 +0000
Subject: [PATCH 02/10] fix: reset the state left by a fit interrupted in its
 first iteration

evaluation_history and best_iteration are set before the first tree is
added, if the fit panics in between, the next fit kept them.
---
 src/gradientbooster.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gradientbooster.rs b/src/gradientbooster.rs
index 8de2b67..ef87eb0 100644
--- a/src/gradientbooster.rs
+++ b/src/gradientbooster.rs
@@ -536,7 +536,9 @@ impl GradientBooster {
     ) -> Result<(), ForustError> {
         // Is this a booster that has already been fit? If it is, reset the trees.
         // In the future we could continue training.
-        if !self.trees.is_empty() {
+        // A fit that was interrupted during the first iteration leaves an evaluation
+        // history, but no trees.
+        if !self.trees.is_empty() || self.evaluation_history.is_some() {
             self.reset()
         }
 
-- 
2.43.0


From b32f7540bc25382a944634e05b956054c5ce4ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:16 +0000
Subject: [PATCH 03/10] fix: respect max_leaves when create_missing_branch is
 used

new_leaves_added was an inherent method, so the trait's default of 1 was
used, and ternary splits could exceed max_leaves by one.
---
 src/splitter.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/splitter.rs b/src/splitter.rs
index c65f4c4..b54a76c 100644
--- a/src/splitter.rs
+++ b/src/splitter.rs
@@ -260,9 +260,6 @@ pub struct MissingBranchSplitter {
 }
 
 impl MissingBranchSplitter {
-    pub fn new_leaves_added(&self) -> usize {
-        2
-    }
     pub fn update_average_missing_nodes(tree: &mut Tree, node_idx: usize) -> f64 {
         let node = &tree.nodes[node_idx];
 
@@ -315,6 +312,10 @@ impl MissingBranchSplitter {
 }
 
 impl Splitter for MissingBranchSplitter {
+    fn new_leaves_added(&self) -> usize {
+        2
+    }
+
     fn clean_up_splits(&self, tree: &mut Tree) {
         if let MissingNodeTreatment::AverageLeafWeight = self.missing_node_treatment {
             MissingBranchSplitter::update_average_missing_nodes(tree, 0);
-- 
2.43.0


From a60138b6401dec87a7fd7bcac485386b8309abad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:07 +0000
Subject: [PATCH 04/10] fix: apply the monotone bounds of a node to all of the
 splits below it

The bounds were only applied if the feature of the split itself was
constrained, a split on an unconstrained feature below a constrained
split could leave the bounds again and break monotonicity, or trip the
assertion of force_children_to_bound_parent.
---
 src/splitter.rs | 10 +---------
 src/utils.rs    | 24 +++++++++---------------
 2 files changed, 10 insertions(+), 24 deletions(-)

diff --git a/src/splitter.rs b/src/splitter.rs
index b54a76c..00d58cd 100644
--- a/src/splitter.rs
+++ b/src/splitter.rs
@@ -356,7 +356,7 @@ impl Splitter for MissingBranchSplitter {
         lower_bound: f32,
         upper_bound: f32,
         parent_weight: f32,
-        constraint: Option<&Constraint>,
+        _constraint: Option<&Constraint>,
     ) -> Option<(NodeInfo, NodeInfo, MissingInfo)> {
         // If there is no info right, or there is no
         // info left, there is nothing to split on,
@@ -375,7 +375,6 @@ impl Splitter for MissingBranchSplitter {
             left_hessian,
             lower_bound,
             upper_bound,
-            constraint,
         );
         let mut right_weight = constrained_weight(
             &self.l1,
@@ -385,7 +384,6 @@ impl Splitter for MissingBranchSplitter {
             right_hessian,
             lower_bound,
             upper_bound,
-            constraint,
         );
 
         if self.force_children_to_bound_parent {
@@ -418,7 +416,6 @@ impl Splitter for MissingBranchSplitter {
                 missing_hessian + left_hessian + right_hessian,
                 lower_bound,
                 upper_bound,
-                constraint,
             ),
             // Calculate the local leaf average for now, after training the tree.
             // Recursively assign to the leaf weights underneath.
@@ -440,7 +437,6 @@ impl Splitter for MissingBranchSplitter {
                         missing_hessian,
                         lower_bound,
                         upper_bound,
-                        constraint,
                     )
                 }
             }
@@ -821,7 +817,6 @@ impl Splitter for MissingImputerSplitter {
             left_hessian,
             lower_bound,
             upper_bound,
-            constraint,
         );
         let mut right_weight = constrained_weight(
             &self.l1,
@@ -831,7 +826,6 @@ impl Splitter for MissingImputerSplitter {
             right_hessian,
             lower_bound,
             upper_bound,
-            constraint,
         );
 
         let mut left_gain = gain_given_weight(&self.l2, left_gradient, left_hessian, left_weight);
@@ -863,7 +857,6 @@ impl Splitter for MissingImputerSplitter {
                 left_hessian + missing_hessian,
                 lower_bound,
                 upper_bound,
-                constraint,
             );
             // The gain if missing went left
             let missing_left_gain = gain_given_weight(
@@ -889,7 +882,6 @@ impl Splitter for MissingImputerSplitter {
                 right_hessian + missing_hessian,
                 lower_bound,
                 upper_bound,
-                constraint,
             );
             // The gain is missing went right
             let missing_right_gain = gain_given_weight(
diff --git a/src/utils.rs b/src/utils.rs
index fe39c58..f264cbb 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -108,9 +108,9 @@ pub fn is_missing(value: &f64, missing: &f64) -> bool {
     }
 }
 
-/// Calculate the constraint weight given bounds
-/// and a constraint.
-#[allow(clippy::too_many_arguments)]
+/// Calculate the constraint weight given the bounds of the node.
+/// The bounds have to hold for every split below a constrained split,
+/// also if the feature of the split itself has no constraint.
 #[inline]
 pub fn constrained_weight(
     l1: &f32,
@@ -120,20 +120,14 @@ pub fn constrained_weight(
     hessian_sum: f32,
     lower_bound: f32,
     upper_bound: f32,
-    constraint: Option<&Constraint>,
 ) -> f32 {
     let weight = weight(l1, l2, max_delta_step, gradient_sum, hessian_sum);
-    match constraint {
-        None | Some(Constraint::Unconstrained) => weight,
-        _ => {
-            if weight > upper_bound {
-                upper_bound
-            } else if weight < lower_bound {
-                lower_bound
-            } else {
-                weight
-            }
-        }
+    if weight > upper_bound {
+        upper_bound
+    } else if weight < lower_bound {
+        lower_bound
+    } else {
+        weight
     }
 }
 
-- 
2.43.0


From 1b581502f0fd775bd5a4d1ad9c385aa0ce7c868e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:40 +0000
Subject: [PATCH 05/10] fix: models with NaN or infinite evaluation metrics can
 be loaded again

serde_json writes them as null, which evaluation_history did not accept
when reading, so the saved model could never be loaded.
---
 src/gradientbooster.rs | 58 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 57 insertions(+), 1 deletion(-)

diff --git a/src/gradientbooster.rs b/src/gradientbooster.rs
index ef87eb0..6c0f0d5 100644
--- a/src/gradientbooster.rs
+++ b/src/gradientbooster.rs
@@ -168,7 +168,10 @@ pub struct GradientBooster {
     #[serde(default = "default_terminate_missing_features")]
     pub terminate_missing_features: HashSet<usize>,
     /// A matrix of the evaluation history on the evaluation datasets.
-    #[serde(default = "default_evaluation_history")]
+    #[serde(
+        default = "default_evaluation_history",
+        with = "evaluation_history_serde"
+    )]
     pub evaluation_history: Option<RowMajorMatrix<f64>>,
     #[serde(default = "default_best_iteration")]
     pub best_iteration: Option<usize>,
@@ -254,6 +257,59 @@ where
     Deserialize::deserialize(d).map(|x: Option<_>| x.unwrap_or(f64::NAN))
 }
 
+/// Evaluation metrics can be NaN or infinite, these are not valid JSON numbers, and
+/// would be written as null, which can't be read back. Store them as strings.
+mod evaluation_history_serde {
+    use crate::data::RowMajorMatrix;
+    use serde::{de::Error, Deserialize, Deserializer, Serialize, Serializer};
+
+    #[derive(Serialize, Deserialize)]
+    #[serde(untagged)]
+    enum MetricValue {
+        Finite(f64),
+        NonFinite(String),
+        Null,
+    }
+
+    pub fn serialize<S: Serializer>(
+        history: &Option<RowMajorMatrix<f64>>,
+        s: S,
+    ) -> Result<S::Ok, S::Error> {
+        let values = history.as_ref().map(|h| {
+            let data = h
+                .data
+                .iter()
+                .map(|v| match v.is_finite() {
+                    true => MetricValue::Finite(*v),
+                    false => MetricValue::NonFinite(v.to_string()),
+                })
+                .collect();
+            RowMajorMatrix::new(data, h.rows, h.cols)
+        });
+        values.serialize(s)
+    }
+
+    pub fn deserialize<'de, D: Deserializer<'de>>(
+        d: D,
+    ) -> Result<Option<RowMajorMatrix<f64>>, D::Error> {
+        let values: Option<RowMajorMatrix<MetricValue>> = Deserialize::deserialize(d)?;
+        values
+            .map(|h| {
+                let data = h
+                    .data
+                    .into_iter()
+                    .map(|v| match v {
+                        MetricValue::Finite(v) => Ok(v),
+                        MetricValue::NonFinite(v) => v.parse().map_err(D::Error::custom),
+                        MetricValue::Null => Ok(f64::NAN),
+                    })
+                    .collect::<Result<Vec<f64>, D::Error>>()?;
+                Ok(RowMajorMatrix::new(data, h.rows, h.cols))
+            })
+            .transpose()
+    }
+}
+
 impl Default for GradientBooster {
     fn default() -> Self {
         Self::new(
-- 
2.43.0


From 509dbe63f0d754dad5b9ba1c4dd2a7e2946abe7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:12 +0000
Subject: [PATCH 06/10] fix: loaded boosters keep partial constraints and
 terminated features by name

load_booster only translated the monotone constraints back to feature names when
every feature had one, and never the terminated features, so a loaded booster
could not be refit on the DataFrame it was trained with.
---
 py-forust/forust/__init__.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/py-forust/forust/__init__.py b/py-forust/forust/__init__.py
index 5b7a258..c4ab9d8 100644
--- a/py-forust/forust/__init__.py
+++ b/py-forust/forust/__init__.py
@@ -969,14 +969,16 @@ class GradientBooster:
                 setattr(c, m, m_)
                 # If "feature_names_in_" is present, we know a
                 # pandas dataframe was used for fitting, in this case
-                # get back the original monotonicity map, with the
-                # feature names as keys.
+                # get back the original monotonicity map, and the set of
+                # features to terminate, with the feature names as keys.
                 if m == "feature_names_in_":
-                    if c.monotone_constraints is not None:
-                        c.monotone_constraints = {
-                            ft: c.monotone_constraints[i]
-                            for i, ft in enumerate(c.feature_names_in_)
-                        }
+                    c.monotone_constraints = {
+                        c.feature_names_in_[i]: v
+                        for i, v in c.monotone_constraints.items()
+                    }
+                    c.terminate_missing_features = {
+                        c.feature_names_in_[i] for i in c.terminate_missing_features
+                    }
             except KeyError:
                 pass
         return c
-- 
2.43.0


From 5dc22fc9314058e896e8ae48cac6c0d5fe3fae0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:17 +0000
Subject: [PATCH 07/10] fix: a fit that raises leaves the python booster as it
 was

The number of features, feature names, constraints and metadata were replaced
before the data was validated, so after a rejected fit the booster no longer
accepted the frames it had been trained on.
---
 py-forust/forust/__init__.py | 60 +++++++++++++++++++++++-------------
 1 file changed, 38 insertions(+), 22 deletions(-)

diff --git a/py-forust/forust/__init__.py b/py-forust/forust/__init__.py
index c4ab9d8..2317aa7 100644
--- a/py-forust/forust/__init__.py
+++ b/py-forust/forust/__init__.py
@@ -574,12 +574,9 @@ class GradientBooster:
                 in `early_stopping_rounds` training will be cut short.
         """
 
-        features_, flat_data, rows, cols = _convert_input_frame(X)
-        self.n_features_ = cols
-        self._set_metadata_attributes("n_features_", self.n_features_)
-        if len(features_) > 0:
-            self.feature_names_in_ = features_
-            self._set_metadata_attributes("feature_names_in_", self.feature_names_in_)
+        feature_names_, flat_data, rows, cols = _convert_input_frame(X)
+        # Raise now, if these can't be stored with the booster.
+        self.meta_data_attributes["feature_names_in_"].serialize(feature_names_)
 
         y_ = _convert_input_array(y)
 
@@ -590,10 +587,7 @@ class GradientBooster:
         # Convert the monotone constraints into the form needed
         # by the rust code.
         monotone_constraints_ = self._standardize_monotonicity_map(X)
-        self.booster.monotone_constraints = monotone_constraints_
-        self.booster.terminate_missing_features = (
-            self._standardize_terminate_missing_features(X)
-        )
+        terminate_missing_features_ = self._standardize_terminate_missing_features(X)
 
         # Create evaluation data
         if evaluation_data is not None:
@@ -609,7 +603,7 @@ class GradientBooster:
                 features_, eval_flat_data, eval_rows, eval_cols = _convert_input_frame(
                     eval_X
                 )
-                self._validate_features(features_)
+                self._validate_features(features_, feature_names_)
                 evaluation_data_.append(
                     (
                         eval_flat_data,
@@ -626,23 +620,45 @@ class GradientBooster:
         else:
             evaluation_data_ = None
 
-        self.booster.fit(
-            flat_data=flat_data,
-            rows=rows,
-            cols=cols,
-            y=y_,
-            sample_weight=sample_weight_,
-            evaluation_data=evaluation_data_,  # type: ignore
-        )
+        # If the data is rejected, the booster should stay as it is, so
+        # only record what was learned about the data once it has been fit.
+        prior_params = self.booster.get_params()
+        try:
+            self.booster.monotone_constraints = monotone_constraints_
+            self.booster.terminate_missing_features = terminate_missing_features_
+            self.booster.fit(
+                flat_data=flat_data,
+                rows=rows,
+                cols=cols,
+                y=y_,
+                sample_weight=sample_weight_,
+                evaluation_data=evaluation_data_,  # type: ignore
+            )
+        except Exception:
+            self.booster.monotone_constraints = prior_params["monotone_constraints"]
+            self.booster.terminate_missing_features = prior_params[
+                "terminate_missing_features"
+            ]
+            raise
+
+        self.n_features_ = cols
+        self._set_metadata_attributes("n_features_", self.n_features_)
+        if len(feature_names_) > 0:
+            self.feature_names_in_ = feature_names_
+            self._set_metadata_attributes("feature_names_in_", self.feature_names_in_)
 
         # Once it's been fit, reset the `base_score`
         # this will account for the fact that's it's adjusted after fit.
         self.base_score = self.booster.base_score
         return self
 
-    def _validate_features(self, features: list[str]):
-        if len(features) > 0 and hasattr(self, "feature_names_in_"):
-            if features != self.feature_names_in_:
+    def _validate_features(
+        self, features: list[str], expected: list[str] | None = None
+    ):
+        if expected is None:
+            expected = getattr(self, "feature_names_in_", [])
+        if len(features) > 0 and len(expected) > 0:
+            if features != expected:
                 raise ValueError(
                     "Columns mismatch between data passed, and data used at fit."
                 )
-- 
2.43.0


From 0cb72af1ca998f8f3cbcdd7e7fe0ae7286bb9cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:20 +0000
Subject: [PATCH 08/10] fix: refitting the python booster on an array drops the
 feature names of an earlier frame

The names stayed on the booster and in its metadata, so importances were
reported under the wrong names, and frames were checked against the old columns.
---
 py-forust/forust/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/py-forust/forust/__init__.py b/py-forust/forust/__init__.py
index 2317aa7..f71e9c5 100644
--- a/py-forust/forust/__init__.py
+++ b/py-forust/forust/__init__.py
@@ -646,6 +646,10 @@ class GradientBooster:
         if len(feature_names_) > 0:
             self.feature_names_in_ = feature_names_
             self._set_metadata_attributes("feature_names_in_", self.feature_names_in_)
+        elif hasattr(self, "feature_names_in_"):
+            # The names of an earlier fit don't describe this data.
+            del self.feature_names_in_
+            self._set_metadata_attributes("feature_names_in_", None)
 
         # Once it's been fit, reset the `base_score`
         # this will account for the fact that's it's adjusted after fit.
@@ -982,6 +986,8 @@ class GradientBooster:
         for m in c.meta_data_attributes:
             try:
                 m_ = c._get_metadata_attributes(m)
+                if m_ is None:
+                    continue
                 setattr(c, m, m_)
                 # If "feature_names_in_" is present, we know a
                 # pandas dataframe was used for fitting, in this case
-- 
2.43.0


From 5511b8fb6a7c8801259a4b61fb5ac45b47a33da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:12 +0000
Subject: [PATCH 09/10] fix: accept targets and weights that are not contiguous
 in memory

---
 py-forust/forust/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py-forust/forust/__init__.py b/py-forust/forust/__init__.py
index f71e9c5..28927d7 100644
--- a/py-forust/forust/__init__.py
+++ b/py-forust/forust/__init__.py
@@ -272,7 +272,8 @@ def _convert_input_array(x: ArrayLike) -> np.ndarray:
         x_ = x
     if not np.issubdtype(x_.dtype, "float64"):
         x_ = x_.astype(dtype="float64", copy=False)
-    return x_
+    # A column of a larger array, for example, is not contiguous.
+    return np.ascontiguousarray(x_)
 
 
 class GradientBooster:
-- 
2.43.0


From 9d78ec147f862eafc56841ccaa8543c468fab534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:16 +0000
Subject: [PATCH 10/10] fix: give a node without hessian and without l2 a
 weight of zero

With l2 = 0 the weight and gain of a node whose rows have no hessian (an
empty draw, an empty missing branch) were 0 / 0. Training panicked in the
splitter, or the NaN was stored and the saved model could not be read.
---
 src/utils.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/utils.rs b/src/utils.rs
index f264cbb..ca01121 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -188,6 +188,10 @@ pub fn odds(v: f64) -> f64 {
 /// Calculate the gain given the gradient and hessian of the node.
 #[inline]
 pub fn gain(l2: &f32, gradient_sum: f32, hessian_sum: f32) -> f32 {
+    // With no l2, a node can have nothing to divide by.
+    if hessian_sum + l2 == 0. {
+        return 0.;
+    }
     (gradient_sum * gradient_sum) / (hessian_sum + l2)
 }
 
@@ -250,6 +254,10 @@ pub fn weight(
     gradient_sum: f32,
     hessian_sum: f32,
 ) -> f32 {
+    // With no l2, a node can have nothing to divide by.
+    if hessian_sum + l2 == 0. {
+        return 0.;
+    }
     let w = -(l1_regularization(&gradient_sum, l1) / (hessian_sum + l2));
     if (max_delta_step != &0.) && (&w.abs() > max_delta_step) {
         return max_delta_step.copysign(w);
-- 
2.43.0

