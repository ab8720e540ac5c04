From 7d34709de380bb59fb66c7043497df6b496ed761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:15 +0000
Subject: [PATCH 01/66] fix: TSCDataFrame.insert_ts does not overwrite the
 index of the inserted frame

---
 datafold/pcfold/timeseries/collection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/datafold/pcfold/timeseries/collection.py b/datafold/pcfold/timeseries/collection.py
index a410e66..c798092 100644
--- a/datafold/pcfold/timeseries/collection.py
+++ b/datafold/pcfold/timeseries/collection.py
@@ -1465,13 +1465,15 @@ class TSCDataFrame(pd.DataFrame):
             )
 
         # Add the ID to the first level of the MultiIndex
+        # -- on a copy to not change the input
+        df = df.copy(deep=True)
         df.index = pd.MultiIndex.from_arrays(
             [np.ones(df.shape[0], dtype=int) * ts_id, _index],
             names=[self.tsc_id_idx_name, self.tsc_time_idx_name],
         )
 
         # 'self' has to appear first to keep TSCDataFrame type.
-        return pd.concat([self, df.copy(deep=True)], sort=False, axis=0)
+        return pd.concat([self, df], sort=False, axis=0)
 
     def time_interval(
         self, ts_id: Optional[int] = None
-- 
2.43.0


From a22a7d9b25c198c615c802bff800acdfe8de25fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:15 +0000
Subject: [PATCH 02/66] fix: TSCTakensEmbedding does not rename the columns of
 the caller's data

---
 datafold/dynfold/transform.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/datafold/dynfold/transform.py b/datafold/dynfold/transform.py
index de37184..781dc5c 100644
--- a/datafold/dynfold/transform.py
+++ b/datafold/dynfold/transform.py
@@ -620,6 +620,8 @@ class TSCTakensEmbedding(BaseEstimator, TSCTransformerMixin):
         # in case the column in not string it is important to transform it here to
         # string. Otherwise, There are mixed types (e.g. int and str), because the
         # delayed columns are all strings to indicate the delay number.
+        # The columns are set on a (shallow) copy to not change the object of the caller.
+        X = X.copy(deep=False)
         X.columns = X.columns.astype(np.str_)
         return X
 
-- 
2.43.0


From 1ae27068f393b3f2c46d7297516e8e20b320b5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:15 +0000
Subject: [PATCH 03/66] fix: kernels do not modify the distance options
 dictionary of the caller

---
 datafold/pcfold/kernels.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/datafold/pcfold/kernels.py b/datafold/pcfold/kernels.py
index 55aed25..92d33c9 100644
--- a/datafold/pcfold/kernels.py
+++ b/datafold/pcfold/kernels.py
@@ -702,6 +702,7 @@ class RadialBasisKernel(PCManifoldKernel, metaclass=abc.ABCMeta):
             if distance.metric != required_metric:
                 raise _metric_mismatch
         elif isinstance(distance, dict):
+            distance = dict(distance)  # do not change the dictionary of the caller
             _exist_metric = distance.pop("metric", None)
 
             if _exist_metric is None or _exist_metric == required_metric:
@@ -1105,7 +1106,7 @@ class ContinuousNNKernel(PCManifoldKernel):
             self.k_neighbor = int(k_neighbor)
 
         if distance is None or isinstance(distance, dict):
-            distance = distance or {}
+            distance = dict(distance or {})
             distance.setdefault("kmin", self.k_neighbor)
             distance.setdefault("metric", "euclidean")
             distance = init_distance_algorithm(backend="guess_optimal", **distance)
@@ -2059,7 +2060,7 @@ class ConeKernel(TSCManifoldKernel):
         self.epsilon = epsilon
         self.fd_accuracy = fd_accuracy
 
-        distance = distance or {}
+        distance = dict(distance or {})
 
         distance.setdefault("metric", "sqeuclidean")
 
-- 
2.43.0


From bb2c46093bacd3f02ccc56194d5f9436c634e9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:15 +0000
Subject: [PATCH 04/66] fix: DMDStandard.spectral_measure does not normalize
 the caller's observable in place

---
 datafold/dynfold/dmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/dynfold/dmd.py b/datafold/dynfold/dmd.py
index dcd9ce4..5eb34b0 100644
--- a/datafold/dynfold/dmd.py
+++ b/datafold/dynfold/dmd.py
@@ -1172,7 +1172,7 @@ class DMDStandard(DMDBase):
                 f"The shape of the projected observable {observable.shape} "
                 f"does not match the observables during fit {(self._G.shape[0], 1)}."
             )
-        observable /= np.linalg.norm(observable, 2)
+        observable = observable / np.linalg.norm(observable, 2)
 
         z = self._calc_z(kernel_order)
         d = self._calc_d(kernel_order, z)
-- 
2.43.0


From 7420245ad22c6f56b98be426ebe93c204f5a4196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:09 +0000
Subject: [PATCH 05/66] fix: TSCAccessor.assign_ids_const_delta does not rebind
 the accessor of the caller's data

---
 datafold/pcfold/timeseries/accessor.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/datafold/pcfold/timeseries/accessor.py b/datafold/pcfold/timeseries/accessor.py
index 62c3862..ac0cb8d 100644
--- a/datafold/pcfold/timeseries/accessor.py
+++ b/datafold/pcfold/timeseries/accessor.py
@@ -1111,10 +1111,11 @@ class TSCAccessor:
                     )
 
         if result_dfs:
-            self._tsc_df = pd.concat(result_dfs, axis=0)
-            self._tsc_df = self._tsc_df.tsc.assign_ids_sequential()
+            # do not set to self._tsc_df, because the accessor is cached in the original data
+            tsc_df = pd.concat(result_dfs, axis=0)
+            tsc_df = tsc_df.tsc.assign_ids_sequential()
 
-            if np.isnan(np.asarray(self._tsc_df.delta_time)).any():
+            if np.isnan(np.asarray(tsc_df.delta_time)).any():
                 warnings.warn(
                     "The function 'assign_ids_const_delta' was unsuccessful "
                     "to remove all irregular time series. Please "
@@ -1122,7 +1123,7 @@ class TSCAccessor:
                     stacklevel=2,
                 )
 
-            return self._tsc_df
+            return tsc_df
         else:
             return None
 
-- 
2.43.0


From 35e5ce5e5d31b6d0c065bd63c86a23a5f84acb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:09 +0000
Subject: [PATCH 06/66] fix: EDMD.reconstruct shifts the time values of a copy
 instead of the caller's data

---
 datafold/appfold/edmd.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/datafold/appfold/edmd.py b/datafold/appfold/edmd.py
index a9865b5..4ee9953 100644
--- a/datafold/appfold/edmd.py
+++ b/datafold/appfold/edmd.py
@@ -715,6 +715,9 @@ class EDMD(
         if self.dmd_model.is_time_invariant and not X.is_datetime_index():
             # TODO: support for datetime_index requires implementation.
             orig_index = X.index.copy(deep=True)
+            # The time values are shifted in place -- use a (shallow) copy to not change
+            # the input
+            X = X.copy(deep=False)
             X = X.tsc.shift_time_per_time_series(ensure_identical_values=True)
             normalized_time = True
         else:
-- 
2.43.0


From 569c2a52853a10885d5c15d4f47f6d741805ad79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:37 +0000
Subject: [PATCH 07/66] fix: ContinuousNNKernel.evaluate does not overwrite the
 given distance matrix

---
 datafold/pcfold/kernels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/pcfold/kernels.py b/datafold/pcfold/kernels.py
index 92d33c9..c890146 100644
--- a/datafold/pcfold/kernels.py
+++ b/datafold/pcfold/kernels.py
@@ -1229,7 +1229,7 @@ class ContinuousNNKernel(PCManifoldKernel):
         dist_knn = _kth_nearest_neighbor_dist(distance_matrix, self.k_neighbor)
 
         distance_factors = _symmetric_matrix_division(
-            distance_matrix,
+            distance_matrix.copy(),  # the division is performed in place
             vec=np.sqrt(dist_knn),
             is_symmetric=self.distance.is_symmetric,
             vec_right=np.sqrt(self.reference_dist_knn_) if not is_pdist else None,
-- 
2.43.0


From 0078c02222edf57db7e72e28dbeb51a26dffc786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:00 +0000
Subject: [PATCH 08/66] fix: PCManifold objects do not share the distance
 options dictionary

---
 datafold/pcfold/pointcloud.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datafold/pcfold/pointcloud.py b/datafold/pcfold/pointcloud.py
index 6fa1c2a..f44d1cc 100644
--- a/datafold/pcfold/pointcloud.py
+++ b/datafold/pcfold/pointcloud.py
@@ -108,7 +108,8 @@ class PCManifold(np.ndarray):
         # default parameters:
         self.kernel = getattr(obj, "kernel", GaussianKernel())
 
-        self.dist_kwargs = getattr(obj, "dist_kwargs", {})
+        # -- copy to not share (and modify) the options of another object
+        self.dist_kwargs = dict(getattr(obj, "dist_kwargs", {}))
         self.dist_kwargs.setdefault("cut_off", np.inf)
         self.dist_kwargs.setdefault("kmin", 0)
         self.dist_kwargs.setdefault("backend", "guess_optimal")
-- 
2.43.0


From 9efd4c14d31cd11714284e438f1a7430241586b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:20 +0000
Subject: [PATCH 09/66] fix: Roseland.fit does not overwrite the constructor
 option kernel

---
 datafold/dynfold/dmap.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/datafold/dynfold/dmap.py b/datafold/dynfold/dmap.py
index 38265ec..8fbff29 100644
--- a/datafold/dynfold/dmap.py
+++ b/datafold/dynfold/dmap.py
@@ -1144,12 +1144,9 @@ class Roseland(BaseEstimator, TSCTransformerMixin):
             ensure_min_samples=2,
         )
 
-        if self.kernel is None:
-            self.kernel = self._get_default_kernel()
+        kernel = self.kernel if self.kernel is not None else self._get_default_kernel()
 
-        self.rose_kernel_ = RoselandKernel(
-            internal_kernel=self.kernel, alpha=self.alpha
-        )
+        self.rose_kernel_ = RoselandKernel(internal_kernel=kernel, alpha=self.alpha)
 
         kernel_matrix = self.rose_kernel_(self.landmarks_, X)
 
-- 
2.43.0


From 149fb6d83f6b689f9f75cd3b1a48dd62fc2a6b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:20 +0000
Subject: [PATCH 10/66] fix: DMDStandard.fit does not overwrite the constructor
 option residual_filter

---
 datafold/dynfold/dmd.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/datafold/dynfold/dmd.py b/datafold/dynfold/dmd.py
index 5eb34b0..f657c7f 100644
--- a/datafold/dynfold/dmd.py
+++ b/datafold/dynfold/dmd.py
@@ -900,19 +900,21 @@ class DMDStandard(DMDBase):
         residuals = np.sqrt(res_squared, out=res_squared)
 
         if isinstance(self.residual_filter, (float, int)):
-            self.residual_filter = dict(threshold=self.residual_filter)
-        elif not isinstance(self.residual_filter, dict):
+            residual_filter = dict(threshold=self.residual_filter)
+        elif isinstance(self.residual_filter, dict):
+            residual_filter = self.residual_filter
+        else:
             raise TypeError("residual_filter must be a float, int or dict.")
 
         # TODO: there is currently no validation if the user sets a wrong value
-        if self.residual_filter.get("threshold", False):
-            mask_keep = residuals <= self.residual_filter["threshold"]
-        elif self.residual_filter.get("quantile", False):
+        if residual_filter.get("threshold", False):
+            mask_keep = residuals <= residual_filter["threshold"]
+        elif residual_filter.get("quantile", False):
             mask_keep = residuals <= np.quantile(
-                residuals, self.residual_filter["quantile"]
+                residuals, residual_filter["quantile"]
             )
-        elif self.residual_filter.get("keep_n", False):
-            value = self.residual_filter["keep_n"]
+        elif residual_filter.get("keep_n", False):
+            value = residual_filter["keep_n"]
             res_n = np.partition(residuals, value - 1)[value - 1]
             mask_keep = residuals <= res_n
         else:
@@ -921,7 +923,7 @@ class DMDStandard(DMDBase):
                 "'quantile' or 'keep_n' must be available"
             )
 
-        if self.residual_filter.get("store_residuals", False):
+        if residual_filter.get("store_residuals", False):
             self.residuals_ = residuals
             self.residuals_mask_keep_ = mask_keep
 
@@ -948,7 +950,7 @@ class DMDStandard(DMDBase):
         if eigenvectors_left is not None:
             eigenvectors_left = eigenvectors_left[mask_keep, :]
 
-        if self.residual_filter.get("sort", False):
+        if residual_filter.get("sort", False):
             sortidx = np.argsort(residuals[mask_keep])  # from low to high
             eigenvalues = eigenvalues[sortidx]
             eigenvectors_right = eigenvectors_right[:, sortidx]
-- 
2.43.0


From 308564b685c37ca386eda4144ebd096998c21103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:43 +0000
Subject: [PATCH 11/66] fix: refitting a transformer resets the feature
 attributes of the previous fit

---
 datafold/dynfold/base.py | 38 ++++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/datafold/dynfold/base.py b/datafold/dynfold/base.py
index bcc869e..9b6d3e9 100644
--- a/datafold/dynfold/base.py
+++ b/datafold/dynfold/base.py
@@ -253,30 +253,28 @@ class TSCTransformerMixin(TSCBase, TransformerMixin):
         X,
         n_features_out: Optional[int] = None,
     ) -> None:
-        if not hasattr(self, "n_features_in_"):
-            # sklearn function to set n_features_in_
-            self._check_n_features(X, reset=True)
-
-        if not hasattr(self, "feature_names_in_"):
-            if isinstance(X, TSCDataFrame) and not isinstance(X.columns[0], str):
-                # workaround for datafold to support non-str feature names
-                # sklearn does only support feature names of type str
-                # Note that there is a guarantee for TSCDataFrame that the feature names have
-                # same type
-                self.feature_names_in_ = X.columns.to_numpy()
-            else:
-                # sklearn function to set feature_names_in_
-                self._check_feature_names(X, reset=True)
+        # NOTE: all attributes are set independent of a previous fit
+        # sklearn function to set n_features_in_
+        self._check_n_features(X, reset=True)
+
+        if isinstance(X, TSCDataFrame) and not isinstance(X.columns[0], str):
+            # workaround for datafold to support non-str feature names
+            # sklearn does only support feature names of type str
+            # Note that there is a guarantee for TSCDataFrame that the feature names have
+            # same type
+            self.feature_names_in_ = X.columns.to_numpy()
+        else:
+            # sklearn function to set (or remove) feature_names_in_
+            self._check_feature_names(X, reset=True)
 
         # TODO: set features out implemented in alignment to SLEO013, but this proposal was
         #  rejected -- think of removing n_features_out (check how often and where it is used)
         # https://scikit-learn-enhancement-proposals.readthedocs.io/en/latest/slep013/proposal.html  # noqa
-        if not hasattr(self, "n_features_out_"):
-            if n_features_out is None:
-                feature_out = self.get_feature_names_out()
-                self.n_features_out_: int = len(feature_out)
-            else:
-                self.n_features_out_ = n_features_out
+        if n_features_out is None:
+            feature_out = self.get_feature_names_out()
+            self.n_features_out_: int = len(feature_out)
+        else:
+            self.n_features_out_ = n_features_out
 
     def _validate_feature_input(
         self: Union[BaseEstimator, "TSCTransformerMixin"], X: TransformType, direction
-- 
2.43.0


From 301ca332bc93b8ea6e8488d6473e35c13f6150a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:48 +0000
Subject: [PATCH 12/66] fix: inverse_transform does not use the inverse map of
 a previous fit or coordinate selection

---
 datafold/dynfold/dmap.py      | 4 +++-
 datafold/dynfold/transform.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/datafold/dynfold/dmap.py b/datafold/dynfold/dmap.py
index 8fbff29..0e1df91 100644
--- a/datafold/dynfold/dmap.py
+++ b/datafold/dynfold/dmap.py
@@ -451,6 +451,7 @@ class DiffusionMaps(BaseEstimator, TSCTransformerMixin):
             )
 
         self.target_coords_ = indices
+        self.inv_coeff_matrix_ = None  # depends on the selected coordinates
 
         self.n_features_out_ = len(self.target_coords_)
 
@@ -522,6 +523,7 @@ class DiffusionMaps(BaseEstimator, TSCTransformerMixin):
         )
 
         self.X_fit_ = X
+        self.inv_coeff_matrix_ = None  # computed in inverse_transform
         kernel_matrix_ = self._dmap_kernel(X=X, **kernel_kwargs)
 
         # choose object to copy time information from, if applicable
@@ -670,7 +672,7 @@ class DiffusionMaps(BaseEstimator, TSCTransformerMixin):
         X = self._validate_datafold_data(X)
         self._validate_feature_input(X, direction="inverse_transform")
 
-        if not hasattr(self, "inv_coeff_matrix_"):
+        if self.inv_coeff_matrix_ is None:
             if isinstance(self.X_fit_, pd.DataFrame):
                 # happens if samples were dropped during kernel fit
                 _X = self.X_fit_.loc[self.eigenvectors_.index, :]
diff --git a/datafold/dynfold/transform.py b/datafold/dynfold/transform.py
index 781dc5c..8d67580 100644
--- a/datafold/dynfold/transform.py
+++ b/datafold/dynfold/transform.py
@@ -1214,6 +1214,7 @@ class TSCRadialBasis(BaseEstimator, TSCTransformerMixin):
                 "center_type was not checked correctly. Please report bug."
             )
 
+        self.inv_coeff_matrix_ = None  # computed in inverse_transform
         self._setup_feature_attrs_fit(X)
 
         return self
@@ -1288,6 +1289,7 @@ class TSCRadialBasis(BaseEstimator, TSCTransformerMixin):
         TSCDataFrame, pandas.DataFrame, numpy.ndarray
             same type as `X` of shape `(n_samples, n_features)`
         """
+        check_is_fitted(self, attributes=["centers_"])
         self._validate_feature_input(X, direction="inverse_transform")
 
         if self._has_feature_names(X):
@@ -1295,7 +1297,7 @@ class TSCRadialBasis(BaseEstimator, TSCTransformerMixin):
         else:
             rbf_coeff = X
 
-        if not hasattr(self, "inv_coeff_matrix_"):
+        if self.inv_coeff_matrix_ is None:
             # save inv_coeff_matrix_
             center_kernel = self.kernel(self.centers_)
             self.inv_coeff_matrix_ = np.linalg.lstsq(
-- 
2.43.0


From ce680c8790c39de3108efcd2393d66bc638db002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:59 +0000
Subject: [PATCH 13/66] fix: a linear system in matrix mode can be set up again
 when the model is refitted

---
 datafold/dynfold/dynsystem.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/datafold/dynfold/dynsystem.py b/datafold/dynfold/dynsystem.py
index b0f6335..eb3f4ed 100644
--- a/datafold/dynfold/dynsystem.py
+++ b/datafold/dynfold/dynsystem.py
@@ -852,9 +852,6 @@ class LinearDynamicalSystem:
         LinearDynamicalSystem
             self
         """
-        if self.is_linear_system_setup():
-            raise RuntimeError("Linear system is already setup.")
-
         is_matrix(system_matrix, "system_matrix")
         self.sys_matrix_ = system_matrix
 
-- 
2.43.0


From dbed85db5e3cd7424f4f9616868b5cacb748258c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:59 +0000
Subject: [PATCH 14/66] fix: setup_spectral_system validates the given left
 eigenvectors

---
 datafold/dynfold/dynsystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/dynfold/dynsystem.py b/datafold/dynfold/dynsystem.py
index eb3f4ed..3a45dc0 100644
--- a/datafold/dynfold/dynsystem.py
+++ b/datafold/dynfold/dynsystem.py
@@ -818,7 +818,7 @@ class LinearDynamicalSystem:
         is_matrix(eigenvectors_right, name="eigenvectors_right")
 
         if eigenvectors_left is not None:
-            is_matrix(eigenvectors_right, name="eigenvectors_left")
+            is_matrix(eigenvectors_left, name="eigenvectors_left")
 
         is_vector(eigenvalues)
 
-- 
2.43.0


From 2e4b21f11497acc2795ad5d1f4b1972d58087fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:26 +0000
Subject: [PATCH 15/66] fix: creating a GuessOptimalDist object does not change
 the class for all other users

---
 datafold/pcfold/distance.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/datafold/pcfold/distance.py b/datafold/pcfold/distance.py
index 22ad4ba..3f7cb38 100644
--- a/datafold/pcfold/distance.py
+++ b/datafold/pcfold/distance.py
@@ -908,7 +908,6 @@ class GuessOptimalDist(DistanceAlgorithm):
 
     def __new__(cls, metric="euclidean", is_symmetric=True, cut_off=np.inf, kmin=None):
         cut_off = cut_off or np.inf
-        cls.is_symmetric = lambda: is_symmetric
 
         if np.isinf(cut_off):  # dense case
             backend_class = BruteForceDist(cut_off=cut_off, metric=metric)
@@ -926,6 +925,11 @@ class GuessOptimalDist(DistanceAlgorithm):
 
         return backend_class
 
+    @classmethod
+    def is_symmetric(cls):
+        # all backends selected in __new__ compute a symmetric matrix
+        return True
+
 
 def _all_available_distance_algorithm(require_symmetric: bool = False):
     """Searches for valid subclasses of :py:class:`DistanceAlgorithm`.
-- 
2.43.0


From 3e2cdb155b7cd2f555f3aa6af497eb8eb434410c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:44 +0000
Subject: [PATCH 16/66] fix: distance algorithms do not reuse the search tree
 of another dataset

---
 datafold/pcfold/distance.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/datafold/pcfold/distance.py b/datafold/pcfold/distance.py
index 3f7cb38..6cbde37 100644
--- a/datafold/pcfold/distance.py
+++ b/datafold/pcfold/distance.py
@@ -187,6 +187,17 @@ class DistanceAlgorithm(metaclass=abc.ABCMeta):
                 )
         return X, Y, is_pdist
 
+    def _is_new_reference(self, X):
+        # A search structure can only be reused for the dataset it was built with.
+        is_new = not hasattr(self, "X_reference_") or not np.array_equal(
+            self.X_reference_, X
+        )
+
+        if is_new:
+            self.X_reference_ = np.array(X)
+
+        return is_new
+
     def _validate_metric(self, valid, metric):
         if metric not in valid:
             raise ValueError(
@@ -624,7 +635,7 @@ class RDist(DistanceAlgorithm):
 
         radius = self._adapt_radius()
 
-        if is_pdist or not hasattr(self, "rdist_"):
+        if self._is_new_reference(X) or not hasattr(self, "rdist_"):
             self.rdist_ = rdist.Rdist(X, **self.backend_options)
 
         if is_pdist:
@@ -717,7 +728,7 @@ class ScipyKdTreeDist(DistanceAlgorithm):
         """
         X, Y, is_pdist = self._validate_X_Y(X, Y)
 
-        if is_pdist or not hasattr(self, "kdtree_x_"):
+        if self._is_new_reference(X) or not hasattr(self, "kdtree_x_"):
             self.kdtree_x_ = scipy.spatial.cKDTree(X, **self.backend_options)
 
         if is_pdist:
@@ -727,10 +738,6 @@ class ScipyKdTreeDist(DistanceAlgorithm):
                 output_type="coo_matrix",
             )
         else:
-            if not hasattr(self, "kdtree_x_"):
-                # else reuse from pdist call
-                self.kdtree_x_ = scipy.spatial.cKDTree(X, **self.backend_options)
-
             kdtree_y = scipy.spatial.cKDTree(Y, **self.backend_options)
 
             distance_matrix = kdtree_y.sparse_distance_matrix(
@@ -826,7 +833,7 @@ class SklearnBalltreeDist(DistanceAlgorithm):
         """
         X, Y, is_pdist = self._validate_X_Y(X, Y)
 
-        if is_pdist or not hasattr(self, "nn_"):
+        if self._is_new_reference(X) or not hasattr(self, "nn_"):
             self.nn_ = self._fit_nearest_neighbor(X)
 
         if is_pdist:
@@ -859,7 +866,7 @@ class SklearnKNN(DistanceAlgorithm):
     def __call__(self, X, Y=None):
         X, Y, is_pdist = self._validate_X_Y(X, Y=Y)
 
-        if is_pdist or not hasattr(self, "nn_"):
+        if self._is_new_reference(X) or not hasattr(self, "nn_"):
             self.nn_ = KNeighborsTransformer(
                 mode="distance",
                 n_neighbors=self.k,
-- 
2.43.0


From 6baee79e840413257bf28b80c58900115811aa60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:39 +0000
Subject: [PATCH 17/66] fix: iterative eigen solvers use a fixed start vector,
 results are reproducible

---
 datafold/dynfold/dmd.py         | 7 ++++++-
 datafold/dynfold/jsf.py         | 2 ++
 datafold/dynfold/outofsample.py | 4 +++-
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/datafold/dynfold/dmd.py b/datafold/dynfold/dmd.py
index f657c7f..80125f8 100644
--- a/datafold/dynfold/dmd.py
+++ b/datafold/dynfold/dmd.py
@@ -1099,7 +1099,12 @@ class DMDStandard(DMDBase):
                 # TODO: could improve by finding good starting vector from
                 # previous computations? // v0=eigvec if i > 1 else None)
                 eigval, eigvec = scipy.sparse.linalg.eigs(
-                    SQ @ num @ SQ, k=1, sigma=0, which="LM", return_eigenvectors=True
+                    SQ @ num @ SQ,
+                    k=1,
+                    sigma=0,
+                    which="LM",
+                    v0=np.ones(num.shape[0]),  # for reproducible results
+                    return_eigenvectors=True,
                 )
 
                 if return_eigfuncs:
diff --git a/datafold/dynfold/jsf.py b/datafold/dynfold/jsf.py
index e7e616e..812887f 100644
--- a/datafold/dynfold/jsf.py
+++ b/datafold/dynfold/jsf.py
@@ -505,6 +505,7 @@ class JointlySmoothFunctions(BaseEstimator, TSCTransformerMixin):
                 k=self.n_jointly_smooth_functions,
                 which="LM",
                 return_singular_vectors=False,
+                random_state=1,
             )
         else:
             gamma = scipy.sparse.linalg.svds(
@@ -512,6 +513,7 @@ class JointlySmoothFunctions(BaseEstimator, TSCTransformerMixin):
                 k=self.n_jointly_smooth_functions,
                 which="LM",
                 return_singular_vectors=False,
+                random_state=1,
             )
 
         gamma = np.sort(gamma)[::-1]
diff --git a/datafold/dynfold/outofsample.py b/datafold/dynfold/outofsample.py
index 3ef7a72..ff45fdb 100644
--- a/datafold/dynfold/outofsample.py
+++ b/datafold/dynfold/outofsample.py
@@ -435,7 +435,9 @@ class MultiScaleGeometricHarmonicsInterpolator(
 
             kernel_matrix = X.compute_kernel_matrix()
 
-            mu, phi = eigsh(kernel_matrix, k=300, which="LM")
+            # fixed start vector for reproducible results
+            v0 = np.ones(kernel_matrix.shape[0])
+            mu, phi = eigsh(kernel_matrix, k=300, which="LM", v0=v0)
             mu, phi = np.real(mu), np.real(phi)
             mu, phi = sort_eigenpairs(mu, phi)
 
-- 
2.43.0


From 288c2db29b235d88b690e8b1e3f0c8c497851bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:18 +0000
Subject: [PATCH 18/66] fix: score is available in all DMD variants

---
 datafold/dynfold/dmd.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/datafold/dynfold/dmd.py b/datafold/dynfold/dmd.py
index 80125f8..a22e25f 100644
--- a/datafold/dynfold/dmd.py
+++ b/datafold/dynfold/dmd.py
@@ -530,6 +530,7 @@ class PretrainedDMD(DMDBase):
         sys_type: Literal["flowmap", "differential"],
         sys_mode: Literal["spectral", "matrix"],
     ):
+        self._setup_default_tsc_metric_and_score()
         super().__init__(sys_type=sys_type, sys_mode=sys_mode)
 
     @classmethod
@@ -1614,6 +1615,7 @@ class DMDControl(DMDBase):
         **kwargs,
     ):
         self.rcond = rcond
+        self._setup_default_tsc_metric_and_score()
         super().__init__(
             sys_type="flowmap",
             sys_mode=sys_mode,
@@ -1792,6 +1794,7 @@ class gDMDAffine(DMDBase):
         self.diff_scheme = diff_scheme
         self.diff_accuracy = diff_accuracy
         self.rcond = rcond
+        self._setup_default_tsc_metric_and_score()
         super().__init__(
             sys_type="differential",
             sys_mode="matrix",
@@ -2101,6 +2104,7 @@ class StreamingDMD(DMDBase):
         self.max_rank = max_rank
         self.ngram = ngram
         self.incr_basis_tol = incr_basis_tol
+        self._setup_default_tsc_metric_and_score()
         super().__init__(sys_type="flowmap", sys_mode="spectral")
 
     def _gram_schmidt(self, xm, xp):
@@ -2440,6 +2444,7 @@ class OnlineDMD(DMDBase):
         self.weighting = weighting
         self.is_diagonalize = is_diagonalize
         self.with_warm_up = with_warm_up
+        self._setup_default_tsc_metric_and_score()
         super().__init__(sys_type="flowmap", sys_mode="spectral")
 
     def _validate_parameters(self):
-- 
2.43.0


From 28aa70ca095a9fd8bddbac324c9de1005daa0566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:28 +0000
Subject: [PATCH 19/66] fix: queries of models that are not fitted are refused
 with a not-fitted error

---
 datafold/appfold/edmd.py        | 6 ++++++
 datafold/dynfold/dmd.py         | 4 ++++
 datafold/dynfold/dynsystem.py   | 2 ++
 datafold/dynfold/jsf.py         | 3 +++
 datafold/dynfold/outofsample.py | 3 ++-
 datafold/dynfold/transform.py   | 6 ++++++
 6 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/datafold/appfold/edmd.py b/datafold/appfold/edmd.py
index 4ee9953..9a33281 100644
--- a/datafold/appfold/edmd.py
+++ b/datafold/appfold/edmd.py
@@ -1437,6 +1437,8 @@ class EDMD(
             The transformed time series. The number of samples of each time series are reduced
             if `n_samples_ic_ > 1`.
         """
+        check_is_fitted(self, attributes=["dict_preserves_id_state_"])
+
         if isinstance(X, np.ndarray):
             X = TSCDataFrame.from_array(
                 X,
@@ -1570,6 +1572,8 @@ class EDMD(
         TSCDataFrame
             full-state time series
         """
+        check_is_fitted(self, attributes=["_inverse_map"])
+
         if self._inverse_map is not None:
             # Note, here the samples are row-wise
             values = X.to_numpy() @ self._inverse_map
@@ -2624,6 +2628,8 @@ class HAVOK(BaseEstimator, TSCPredictMixin):  # pragma: no cover
         self.delays = delays
 
     def transform(self, X: TSCDataFrame):
+        check_is_fitted(self)
+
         X = self._delay_embedding.transform(X)
 
         X_svd = (
diff --git a/datafold/dynfold/dmd.py b/datafold/dynfold/dmd.py
index a22e25f..94749b6 100644
--- a/datafold/dynfold/dmd.py
+++ b/datafold/dynfold/dmd.py
@@ -1044,6 +1044,8 @@ class DMDStandard(DMDBase):
             Residual at the grid points and (if requested) the corresponding
             pseudo eigenfunctions
         """
+        check_is_fitted(self)
+
         if not self.compute_pseudospectrum:
             raise ValueError(
                 "Calculating the pseudospectrum requires fitting"
@@ -1168,6 +1170,8 @@ class DMDStandard(DMDBase):
         np.ndarray
             Discrete value of the spectral measure at the evaluation points
         """
+        check_is_fitted(self)
+
         if self.residual_filter is None:
             raise AttributeError(
                 "Calculating the spectral_measure requires fitting"
diff --git a/datafold/dynfold/dynsystem.py b/datafold/dynfold/dynsystem.py
index 3a45dc0..75dd15c 100644
--- a/datafold/dynfold/dynsystem.py
+++ b/datafold/dynfold/dynsystem.py
@@ -945,6 +945,8 @@ class LinearDynamicalSystem:
             Time series for each initial condition, each time series has \
             shape `(n_time_values, n_features)`
         """
+        self.is_linear_system_setup(raise_error_if_not_setup=True)
+
         (
             initial_conditions,
             sys_matrix,
diff --git a/datafold/dynfold/jsf.py b/datafold/dynfold/jsf.py
index 812887f..c8e82ce 100644
--- a/datafold/dynfold/jsf.py
+++ b/datafold/dynfold/jsf.py
@@ -455,6 +455,7 @@ class JointlySmoothFunctions(BaseEstimator, TSCTransformerMixin):
         float
             The sum of the truncated energies.
         """
+        check_is_fitted(self, ("kernel_eigenvectors_", "jointly_smooth_vectors_"))
         return self._compute_truncated_energies().sum()
 
     def _compute_truncated_energies(self) -> np.ndarray:
@@ -484,6 +485,8 @@ class JointlySmoothFunctions(BaseEstimator, TSCTransformerMixin):
         float
             The E0 threshold value from :cite:t:`dietrich-2022`.
         """
+        check_is_fitted(self, ("kernel_eigenvectors_",))
+
         kernel_evecs = list(self.kernel_eigenvectors_.values())
 
         noisy = kernel_evecs[-1].copy()
diff --git a/datafold/dynfold/outofsample.py b/datafold/dynfold/outofsample.py
index ff45fdb..4590131 100644
--- a/datafold/dynfold/outofsample.py
+++ b/datafold/dynfold/outofsample.py
@@ -272,8 +272,9 @@ class GeometricHarmonicsInterpolator(RegressorMixin, MultiOutputMixin, BaseEstim
 
         from sklearn.utils.validation import check_array
 
+        check_is_fitted(self)
         X = check_array(
-            X, self._validate_kwargs(X, ensure_min_samples=1, during_fit=False)
+            X, **self._validate_kwargs(X, ensure_min_samples=1, during_fit=False)
         )
 
         assert self.X_fit_ is not None and self.y_ is not None  # prevents mypy warnings
diff --git a/datafold/dynfold/transform.py b/datafold/dynfold/transform.py
index 8d67580..a6f09c8 100644
--- a/datafold/dynfold/transform.py
+++ b/datafold/dynfold/transform.py
@@ -172,6 +172,8 @@ class TSCFeaturePreprocess(BaseEstimator, TSCTransformerMixin):
         if not hasattr(self.sklearn_transformer, "inverse_transform"):
             raise AttributeError("sklearn object has no 'inverse_transform' attribute")
 
+        check_is_fitted(self, "sklearn_transformer_fit_")
+
         values = self.sklearn_transformer_fit_.inverse_transform(X)
         return self._same_type_X(
             X=X, values=values, feature_names=self.feature_names_in_
@@ -751,6 +753,8 @@ class TSCTakensEmbedding(BaseEstimator, TSCTransformerMixin):
             (2) all time series must have the minimum number of time samples to obtain
             one sample in the time delay embedding.
         """
+        check_is_fitted(self)
+
         X = self._validate_datafold_data(
             X,
             tsc_kwargs={
@@ -976,6 +980,8 @@ class FourierRBF(BaseEstimator, TSCTransformerMixin):  # pragma: no cover
             return self
 
     def transform(self, X):
+        check_is_fitted(self)
+
         mc_samples = np.dot(X.to_numpy(), self.fourier_components_)
         all_samples = np.zeros([X.shape[0], 2 * self.n_features])
         all_samples[:, : self.n_features] = np.sin(mc_samples)
-- 
2.43.0


From 233685d23fca98b51e913b15454318fae1da5547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:28 +0000
Subject: [PATCH 20/66] fix: JointlySmoothFunctions.score_ returns the sum of
 the truncated energies

---
 datafold/dynfold/jsf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/dynfold/jsf.py b/datafold/dynfold/jsf.py
index c8e82ce..b74ce2e 100644
--- a/datafold/dynfold/jsf.py
+++ b/datafold/dynfold/jsf.py
@@ -475,7 +475,7 @@ class JointlySmoothFunctions(BaseEstimator, TSCTransformerMixin):
             )
             truncated_energies[name] = truncated_energy**2
 
-        return np.array(truncated_energies.values())
+        return np.array(list(truncated_energies.values()))
 
     def compute_E0(self) -> float:
         """Compute a threshold for the eigenvalues of the jointly smooth functions.
-- 
2.43.0


From c2c7176412410dd0f412a9480f4ca75e63058d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:28 +0000
Subject: [PATCH 21/66] fix: feature selection, random Fourier features,
 streaming DMD and EDMD check their input before using it

---
 datafold/appfold/edmd.py         | 6 ++++++
 datafold/dynfold/dictlearning.py | 1 +
 datafold/dynfold/dmd.py          | 1 +
 datafold/dynfold/transform.py    | 9 ++++++---
 4 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/datafold/appfold/edmd.py b/datafold/appfold/edmd.py
index 9a33281..cadca65 100644
--- a/datafold/appfold/edmd.py
+++ b/datafold/appfold/edmd.py
@@ -1574,6 +1574,12 @@ class EDMD(
         """
         check_is_fitted(self, attributes=["_inverse_map"])
 
+        if list(X.columns) != list(self.feature_names_out_):
+            raise ValueError(
+                "The feature names do not match. Required: feature_names_out_="
+                f"{self.feature_names_out_}."
+            )
+
         if self._inverse_map is not None:
             # Note, here the samples are row-wise
             values = X.to_numpy() @ self._inverse_map
diff --git a/datafold/dynfold/dictlearning.py b/datafold/dynfold/dictlearning.py
index bd4585c..76daf5a 100644
--- a/datafold/dynfold/dictlearning.py
+++ b/datafold/dynfold/dictlearning.py
@@ -643,6 +643,7 @@ try:
             return self
 
         def transform(self, X: TSCDataFrame) -> TSCDataFrame:
+            X = self._validate_datafold_data(X)
             self._validate_feature_input(X=X, direction="transform")
 
             Xtorch = torch.from_numpy(X.to_numpy()).to(dtype=self.use_dtype)
diff --git a/datafold/dynfold/dmd.py b/datafold/dynfold/dmd.py
index 94749b6..32c835c 100644
--- a/datafold/dynfold/dmd.py
+++ b/datafold/dynfold/dmd.py
@@ -2362,6 +2362,7 @@ class StreamingDMD(DMDBase):
         X, _, time_values = self._validate_features_and_time_values(
             X, U=None, time_values=time_values
         )
+        self._validate_datafold_data(X)
 
         post_map, user_set_modes, feature_columns = self._read_predict_params(
             predict_params=predict_params
diff --git a/datafold/dynfold/transform.py b/datafold/dynfold/transform.py
index a6f09c8..955a2c8 100644
--- a/datafold/dynfold/transform.py
+++ b/datafold/dynfold/transform.py
@@ -218,7 +218,7 @@ class TSCFeatureSelect(BaseEstimator, TSCTransformerMixin):
         if not isinstance(self.features, np.ndarray) or self.features.ndim != 1:
             raise ValueError(f"{type(self.features)=} must be np.ndarray with one dim.")
 
-        # self._validate_datafold_data(X, ensure_tsc=True)
+        X = self._validate_datafold_data(X, ensure_tsc=True)
         self._setup_feature_attrs_fit(X, n_features_out=self.features.shape[0])
 
         try:
@@ -956,9 +956,10 @@ class FourierRBF(BaseEstimator, TSCTransformerMixin):  # pragma: no cover
         return pd.Index(sin + cos)
 
     def fit(self, X, y=None, **fit_params):
-        self._setup_feature_attrs_fit(X, n_features_out=2 * self.n_features)
+        X = self._validate_datafold_data(X)
+        self._read_fit_params(attrs=None, fit_params=fit_params)
 
-        self._read_fit_params(None, **fit_params)
+        self._setup_feature_attrs_fit(X, n_features_out=2 * self.n_features)
 
         # sample features components
         self.fourier_components_ = np.zeros([X.shape[1], self.n_features])
@@ -981,6 +982,8 @@ class FourierRBF(BaseEstimator, TSCTransformerMixin):  # pragma: no cover
 
     def transform(self, X):
         check_is_fitted(self)
+        X = self._validate_datafold_data(X)
+        self._validate_feature_input(X, direction="transform")
 
         mc_samples = np.dot(X.to_numpy(), self.fourier_components_)
         all_samples = np.zeros([X.shape[0], 2 * self.n_features])
-- 
2.43.0


From 0c790252fb6bc811515a3589cbfebb7859561ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:15 +0000
Subject: [PATCH 22/66] fix: StreamingDMD.predict validates initial conditions
 and supports the documented default time values and array input

---
 datafold/dynfold/dmd.py | 31 +------------------------------
 1 file changed, 1 insertion(+), 30 deletions(-)

diff --git a/datafold/dynfold/dmd.py b/datafold/dynfold/dmd.py
index 32c835c..fd322d8 100644
--- a/datafold/dynfold/dmd.py
+++ b/datafold/dynfold/dmd.py
@@ -2358,36 +2358,7 @@ class StreamingDMD(DMDBase):
             The computed time series predictions, where each time series has shape
             `(n_time_values, n_features)`.
         """
-        check_is_fitted(self)
-        X, _, time_values = self._validate_features_and_time_values(
-            X, U=None, time_values=time_values
-        )
-        self._validate_datafold_data(X)
-
-        post_map, user_set_modes, feature_columns = self._read_predict_params(
-            predict_params=predict_params
-        )
-
-        user_sys_matrix = self._read_user_sys_matrix(
-            post_map=post_map, user_set_modes=user_set_modes
-        )
-
-        if user_sys_matrix is None:
-            system_matrix = self.eigenvectors_right_
-            _feat_names = self.feature_names_in_
-        else:
-            system_matrix = user_sys_matrix
-            _feat_names = feature_columns
-
-        X_predict = self._evolve_dmd_system(
-            X_ic=X,
-            overwrite_sys_matrix=system_matrix,
-            control_input=None,
-            time_values=time_values,
-            feature_columns=_feat_names,
-        )
-
-        return X_predict
+        return super().predict(X, U=U, time_values=time_values, **predict_params)
 
 
 class OnlineDMD(DMDBase):
-- 
2.43.0


From 5a99084ae218cb21b79fac14bba0b0947ae69150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:45 +0000
Subject: [PATCH 23/66] fix: a missing or surplus control input is refused with
 a clear error

---
 datafold/dynfold/base.py      | 12 +++++++++---
 datafold/dynfold/dynsystem.py | 10 ++++++++++
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/datafold/dynfold/base.py b/datafold/dynfold/base.py
index 9b6d3e9..103c913 100644
--- a/datafold/dynfold/base.py
+++ b/datafold/dynfold/base.py
@@ -437,12 +437,12 @@ class TSCPredictMixin(TSCBase):
     ):
         if not isinstance(X, TSCDataFrame):
             raise TypeError(
-                f"Only TSCDataFrame can be used for system data (got {type(U)=})."
+                f"Only TSCDataFrame can be used for system data (got {type(X)=})."
             )
 
         is_controlled = U is not None
 
-        if is_controlled and not isinstance(X, TSCDataFrame):
+        if is_controlled and not isinstance(U, TSCDataFrame):
             raise TypeError(
                 f"Only TSCDataFrame can be used for control data (got {type(U)=})."
             )
@@ -479,7 +479,7 @@ class TSCPredictMixin(TSCBase):
             # Series if dt_ is not the same for all time series in the data.
             raise NotImplementedError(
                 "Currently, all algorithms assume a constant time "
-                f"delta. Got {X.time_delta=}."
+                f"delta. Got {X.delta_time=}."
             )
 
         # TODO: check this closer why are there 5 decimals required?
@@ -714,6 +714,12 @@ class TSCPredictMixin(TSCBase):
             )
 
         if U is not None:
+            if getattr(self, "control_names_in_", None) is None:
+                raise ValueError(
+                    "The model was fit without control input, but a control input 'U' was "
+                    "provided."
+                )
+
             try:
                 # alternative check in datafold to sklearn
                 # self._check_feature_names(reset=False)
diff --git a/datafold/dynfold/dynsystem.py b/datafold/dynfold/dynsystem.py
index 75dd15c..a805d68 100644
--- a/datafold/dynfold/dynsystem.py
+++ b/datafold/dynfold/dynsystem.py
@@ -615,7 +615,17 @@ class LinearDynamicalSystem:
         time_values = self._check_time_values(time_values)
 
         # CONTROL_INPUT
+        if not self.is_controlled and control_input is not None:
+            raise ValueError(
+                "The linear system is not controlled, but a control input was provided."
+            )
+
         if self.is_controlled:
+            if control_input is None:
+                raise ValueError(
+                    "The linear system is controlled, but no control input was provided."
+                )
+
             control_input = self._check_control_input(
                 control_input=control_input,
                 n_time_values=len(time_values),
-- 
2.43.0


From 04ac3bc5a6bc32156be5b361900280a26f9491ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:46 +0000
Subject: [PATCH 24/66] fix: a mismatching time delta in datetime data raises
 the documented TSCException

---
 datafold/pcfold/timeseries/accessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/pcfold/timeseries/accessor.py b/datafold/pcfold/timeseries/accessor.py
index ac0cb8d..75e4bc3 100644
--- a/datafold/pcfold/timeseries/accessor.py
+++ b/datafold/pcfold/timeseries/accessor.py
@@ -235,7 +235,7 @@ class TSCAccessor:
 
             if self._tsc_df.is_datetime_index():
                 if (delta_times != required_time_delta).any():
-                    raise AttributeError
+                    raise AssertionError
             else:
                 # this is a better variant than
                 # np.asarray(self._tsc_df.delta_time) == np.asarray(required_time_delta)
-- 
2.43.0


From c8c6ea45b5449f29dde229562a07a17eedd07967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:57 +0000
Subject: [PATCH 25/66] fix: online DMD refuses further data that are not
 sampled with the time delta of the fit

---
 datafold/dynfold/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datafold/dynfold/base.py b/datafold/dynfold/base.py
index 103c913..4f96301 100644
--- a/datafold/dynfold/base.py
+++ b/datafold/dynfold/base.py
@@ -682,7 +682,8 @@ class TSCPredictMixin(TSCBase):
                 "Currently, all methods require that dt_ is constant. "
             )
 
-        if np.abs(delta_time - self.dt_) > 1e-14:
+        # Note: delta_time is nan if the time sampling is not constant
+        if not np.abs(delta_time - self.dt_) <= 1e-14:
             raise TSCException(
                 f"delta_time during fit was {self.dt_=}, now it is {delta_time=} "
                 f"({np.abs(delta_time - self.dt_)=} with set tolerance 1e-14) "
-- 
2.43.0


From 6482b96c7fec9612fc651a984bcebcf414851afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:15 +0000
Subject: [PATCH 26/66] fix: Roseland accepts landmarks subsampled from a plain
 DataFrame

---
 datafold/dynfold/dmap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datafold/dynfold/dmap.py b/datafold/dynfold/dmap.py
index 0e1df91..56c7d0c 100644
--- a/datafold/dynfold/dmap.py
+++ b/datafold/dynfold/dmap.py
@@ -966,10 +966,10 @@ class Roseland(BaseEstimator, TSCTransformerMixin):
             )
 
         if n_landmarks == X.shape[0]:
-            landmarks = X.to_numpy() if isinstance(X, TSCDataFrame) else X
+            landmarks = X.to_numpy() if isinstance(X, pd.DataFrame) else X
         else:
             landmarks, _ = random_subsample(
-                X.to_numpy() if isinstance(X, TSCDataFrame) else X,
+                X.to_numpy() if isinstance(X, pd.DataFrame) else X,
                 n_landmarks,
                 random_state=self.random_state,
             )
-- 
2.43.0


From c45516d5d8bdb3390930332d43861d2561157e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:15 +0000
Subject: [PATCH 27/66] fix: raise the error for a DataFrame where an array is
 required

---
 datafold/dynfold/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/datafold/dynfold/base.py b/datafold/dynfold/base.py
index 4f96301..8578eb2 100644
--- a/datafold/dynfold/base.py
+++ b/datafold/dynfold/base.py
@@ -142,7 +142,9 @@ class TSCBase:
 
             if type(X) == pd.DataFrame:
                 if ensure_np:
-                    TypeError(f"Found type {type(X)=} but type np.ndarray is required.")
+                    raise TypeError(
+                        f"Found type {type(X)=} but type np.ndarray is required."
+                    )
 
                 # special handling of pandas.DataFrame (strictly, not including
                 # TSCDataFrame) --> keep the type (recover after validation).
-- 
2.43.0


From ebd99ef15c2812acf36041b269e0c1f12ec122f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:40 +0000
Subject: [PATCH 28/66] fix: the minimum number of features is checked for time
 series collections too

---
 datafold/dynfold/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/datafold/dynfold/base.py b/datafold/dynfold/base.py
index 8578eb2..94b50e0 100644
--- a/datafold/dynfold/base.py
+++ b/datafold/dynfold/base.py
@@ -185,6 +185,7 @@ class TSCBase:
             X = X.tsc.check_tsc(
                 ensure_all_finite=force_all_finite,
                 ensure_min_samples=ensure_min_samples,
+                ensure_min_features=ensure_min_features,
                 ensure_same_length=tsc_kwargs.pop("ensure_same_length", False),
                 ensure_const_delta_time=tsc_kwargs.pop(
                     "ensure_const_delta_time", False
-- 
2.43.0


From 5b2eff688f00aed34c50f0e1a72a3f59f672f4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:47 +0000
Subject: [PATCH 29/66] fix: the control input of continuous linear systems in
 matrix mode is not ignored

---
 datafold/dynfold/dynsystem.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/datafold/dynfold/dynsystem.py b/datafold/dynfold/dynsystem.py
index a805d68..d8059fe 100644
--- a/datafold/dynfold/dynsystem.py
+++ b/datafold/dynfold/dynsystem.py
@@ -56,24 +56,29 @@ class SystemSolveStrategy:
         r"""Solves system:
         \dot{x} = A x + B u.
         """
-        time_series_tensor[:, 0, :] = initial_conditions
+        time_series_tensor[:, 0, :] = initial_conditions.T
         time_diff = np.diff(time_values)
 
         n_states = sys_matrix.shape[0]
         n_inputs = control_matrix.shape[1]
 
         for idx, tdiff in enumerate(time_diff):
+            # the control input is constant within each time interval
             M = np.vstack(
-                [np.hstack([sys_matrix * tdiff]), control_matrix * tdiff],
-                np.zeros([n_inputs, n_states + n_inputs]),
+                [
+                    np.hstack([sys_matrix * tdiff, control_matrix * tdiff]),
+                    np.zeros([n_inputs, n_states + n_inputs]),
+                ]
             )
-            expM = np.linalg.expm(M)
+            expM = scipy.linalg.expm(M)
             Ad = expM[:n_states, :n_states]
-            Bd = expM[n_states:, :n_states]
+            Bd = expM[:n_states, n_states:]
 
-            time_series_tensor[:, idx + 1, :] = (
-                Ad @ time_series_tensor[:, idx, :] + Bd @ control_input[:, idx, :]
+            next_state = (
+                Ad @ time_series_tensor[:, idx, :].T
+                + Bd @ control_input[:, idx, :].T
             )
+            time_series_tensor[:, idx + 1, :] = np.real(next_state).T
 
         return time_series_tensor
 
@@ -350,9 +355,12 @@ class SystemSolveStrategy:
         ):
             return SystemSolveStrategy.differential_matrix
         elif (
-            system_type == "differential" and system_mode == "matrix" and is_controlled
+            system_type == "differential"
+            and system_mode == "matrix"
+            and is_controlled
+            and not is_control_affine
         ):
-            return SystemSolveStrategy.differential_matrix
+            return SystemSolveStrategy.differential_matrix_controlled
         elif (
             system_type == "flowmap" and system_mode == "spectral" and not is_controlled
         ):
-- 
2.43.0


From 6592254a0273e3cfcfce38d1936321ffd1629295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:41 +0000
Subject: [PATCH 30/66] fix: diagonalize works in online DMD, which lacked the
 left eigenvector computation

---
 datafold/dynfold/dmd.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/datafold/dynfold/dmd.py b/datafold/dynfold/dmd.py
index fd322d8..f248ef1 100644
--- a/datafold/dynfold/dmd.py
+++ b/datafold/dynfold/dmd.py
@@ -200,6 +200,22 @@ class DMDBase(
 
         return modes
 
+    def _compute_left_eigenvectors(
+        self, system_matrix, eigenvalues, eigenvectors_right
+    ):
+        """Compute left eigenvectors such that
+        system_matrix = eigenvectors_right_ @ diag(eigenvalues) @ eigenvectors_left_.
+
+        .. note::
+             The eigenvectors are
+
+             * not normed
+             * row-wise in returned matrix
+
+        """
+        lhs_matrix = mat_dot_diagmat(eigenvectors_right, eigenvalues)
+        return np.linalg.solve(lhs_matrix, system_matrix)
+
     def _evolve_dmd_system(
         self,
         X_ic: TSCDataFrame,
@@ -974,22 +990,6 @@ class DMDStandard(DMDBase):
         #     (None if eigenvectors_left is None else np.vstack(new_lvecs)),
         # )
 
-    def _compute_left_eigenvectors(
-        self, system_matrix, eigenvalues, eigenvectors_right
-    ):
-        """Compute left eigenvectors such that
-        system_matrix = eigenvectors_right_ @ diag(eigenvalues) @ eigenvectors_left_.
-
-        .. note::
-             The eigenvectors are
-
-             * not normed
-             * row-wise in returned matrix
-
-        """
-        lhs_matrix = mat_dot_diagmat(eigenvectors_right, eigenvalues)
-        return np.linalg.solve(lhs_matrix, system_matrix)
-
     def _compute_spectral_components(self, system_matrix, reconstruct):
         eigenvalues_, eigenvectors_right_ = sort_eigenpairs(
             *np.linalg.eig(system_matrix)
-- 
2.43.0


From 08de8575a24291a0bf6d9d29686b45f9af770076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:41 +0000
Subject: [PATCH 31/66] fix: DMDStandard.pseudospectrum raises the intended
 ValueError instead of AttributeError

---
 datafold/dynfold/dmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/dynfold/dmd.py b/datafold/dynfold/dmd.py
index f248ef1..98b408b 100644
--- a/datafold/dynfold/dmd.py
+++ b/datafold/dynfold/dmd.py
@@ -1049,7 +1049,7 @@ class DMDStandard(DMDBase):
         if not self.compute_pseudospectrum:
             raise ValueError(
                 "Calculating the pseudospectrum requires fitting"
-                f"self.compute_pesudospectrum=True (got {self.compute_pesudospectrum=}) and"
+                f"self.compute_pseudospectrum=True (got {self.compute_pseudospectrum=}) and"
                 f"res_threshold is not None (got {self.residual_filter=}."
             )
 
-- 
2.43.0


From d1c196bdf0d7a48ecbd2b6da46d876dff30fa078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:04 +0000
Subject: [PATCH 32/66] fix: ODE systems can be evaluated with the default time
 values

---
 datafold/utils/_systems.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/datafold/utils/_systems.py b/datafold/utils/_systems.py
index 111331b..0e7903e 100644
--- a/datafold/utils/_systems.py
+++ b/datafold/utils/_systems.py
@@ -40,16 +40,14 @@ class ODE(DynamicalSystem, metaclass=abc.ABCMeta):
     def _prepare_ic_and_time_values(self, X, time_values, feature_names_in):
         if isinstance(time_values, (float, int)):
             time_values = np.array([0, time_values])
-            dt = time_values[1]
-        if time_values is None:
+        elif time_values is None:
             time_values = np.array([0.0, self._default_step_size])
         else:
             time_values = np.asarray(time_values)
             if len(time_values) == 1:
-                dt = time_values[0]
                 time_values = np.append(0, time_values)
-            else:
-                dt = time_values[1] - time_values[0]
+
+        dt = time_values[1] - time_values[0]
 
         if isinstance(X, (np.ndarray, list)):
             X = InitialCondition.from_array(
-- 
2.43.0


From fa729ac00425f54b05688c7f99c7eaf766c27a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:10 +0000
Subject: [PATCH 33/66] fix: to_darts raises ImportError if the optional
 package is missing

---
 datafold/pcfold/timeseries/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/pcfold/timeseries/collection.py b/datafold/pcfold/timeseries/collection.py
index c798092..995e6ba 100644
--- a/datafold/pcfold/timeseries/collection.py
+++ b/datafold/pcfold/timeseries/collection.py
@@ -755,7 +755,7 @@ class TSCDataFrame(pd.DataFrame):
         try:
             from darts.timeseries import TimeSeries
         except ImportError as e:
-            raise e("could not find package darts")
+            raise ImportError("could not find package darts") from e
 
         if self.n_timeseries == 1:
             delta_time = self.delta_time
-- 
2.43.0


From 478bacf719435bd624967f12fe2086ea194c661e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:26 +0000
Subject: [PATCH 34/66] fix: TSCPolynomialFeatures feature name helper calls
 the existing method

---
 datafold/dynfold/transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datafold/dynfold/transform.py b/datafold/dynfold/transform.py
index 955a2c8..b269cf5 100644
--- a/datafold/dynfold/transform.py
+++ b/datafold/dynfold/transform.py
@@ -1361,13 +1361,13 @@ class TSCPolynomialFeatures(PolynomialFeatures, TSCTransformerMixin):
         return dict(tsc_contains_orig_states=self.include_first_order)
 
     def _get_poly_feature_names(self, X, input_features=None):
-        # Note: get_feature_names function is already provided by super class
+        # Note: get_feature_names_out function is already provided by super class
         if self._has_feature_names(X):
             feature_names = self.get_feature_names_out(
                 input_features=X.columns.astype(np.str_)
             )
         else:
-            feature_names = self.get_feature_names()
+            feature_names = self.get_feature_names_out()
         return feature_names
 
     def _non_id_state_mask(self):
-- 
2.43.0


From 26c606f9a1f9ecbdc14011144b9c5d4799dd219b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:26 +0000
Subject: [PATCH 35/66] fix: to_darts raises an error for time values that are
 not supported

---
 datafold/pcfold/timeseries/collection.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/datafold/pcfold/timeseries/collection.py b/datafold/pcfold/timeseries/collection.py
index 995e6ba..fa2aa69 100644
--- a/datafold/pcfold/timeseries/collection.py
+++ b/datafold/pcfold/timeseries/collection.py
@@ -765,6 +765,11 @@ class TSCDataFrame(pd.DataFrame):
                 times = pd.RangeIndex(start, end + delta_time, delta_time)
             elif self.is_datetime_index():
                 times = self.index
+            else:
+                raise NotImplementedError(
+                    "Only integer or datetime time values can be converted. "
+                    f"Got {delta_time=}."
+                )
 
             return TimeSeries.from_times_and_values(
                 times=times,
-- 
2.43.0


From 6f68c3859bd41ec2b35e81de5fe4f500518e95fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:04 +0000
Subject: [PATCH 36/66] fix: reconstruct works for systems without control
 input

---
 datafold/dynfold/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/datafold/dynfold/base.py b/datafold/dynfold/base.py
index 94b50e0..cede982 100644
--- a/datafold/dynfold/base.py
+++ b/datafold/dynfold/base.py
@@ -816,11 +816,11 @@ class TSCPredictMixin(TSCBase):
         for X_ic, time_values in InitialCondition.iter_reconstruct_ic(
             X, n_samples_ic=1
         ):
-            X_ts = self.predict(
-                X=X_ic,
-                U=U.loc[pd.IndexSlice[X_ic.ids, :], :] if U is not None else None,
-                time_values=time_values,
+            # systems without control do not necessarily have a parameter "U"
+            control_input = (
+                {"U": U.loc[pd.IndexSlice[X_ic.ids, :], :]} if U is not None else {}
             )
+            X_ts = self.predict(X=X_ic, time_values=time_values, **control_input)
             X_reconstruct_ts.append(X_ts)
 
         return pd.concat(X_reconstruct_ts, axis=0)
-- 
2.43.0


From 7232421250cd94b42bb24b7ae395d35ea741981f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:21 +0000
Subject: [PATCH 37/66] fix: learning rate schedulers work without a validation
 set

---
 datafold/dynfold/dictlearning.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/datafold/dynfold/dictlearning.py b/datafold/dynfold/dictlearning.py
index 76daf5a..0611250 100644
--- a/datafold/dynfold/dictlearning.py
+++ b/datafold/dynfold/dictlearning.py
@@ -552,9 +552,11 @@ try:
             else:
                 early_stopping = None
 
-            require_val_loss = (lr_scheduler is not None) or (
-                early_stopping is not None
+            # schedulers (e.g. StepLR) do not necessarily depend on a validation loss
+            require_val_loss = is_validation_available and (
+                lr_scheduler is not None or early_stopping is not None
             )
+            current_val_loss = None
 
             if not require_val_loss and is_validation_available:
                 warnings.warn(
-- 
2.43.0


From 541927e3b5057c3e607ac4efc41c08c71536787b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:41 +0000
Subject: [PATCH 38/66] fix: TSCFiniteDifference accepts a number for spacing

---
 datafold/dynfold/transform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datafold/dynfold/transform.py b/datafold/dynfold/transform.py
index b269cf5..862cbfd 100644
--- a/datafold/dynfold/transform.py
+++ b/datafold/dynfold/transform.py
@@ -1657,9 +1657,10 @@ class TSCFiniteDifference(BaseEstimator, TSCTransformerMixin):
         else:
             check_scalar(
                 x=self.spacing,
+                name="spacing",
                 target_type=(float, int),
                 min_val=0,
-                include_boundaries="right",
+                include_boundaries="neither",
             )
             self.spacing_ = self.spacing
 
-- 
2.43.0


From 969d3a962a0590b2dd92e032e32e6f107ddef89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:15 +0000
Subject: [PATCH 39/66] fix: annotation of center_type lists the accepted
 choice initial_condition

---
 datafold/dynfold/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/dynfold/transform.py b/datafold/dynfold/transform.py
index 862cbfd..978f6c8 100644
--- a/datafold/dynfold/transform.py
+++ b/datafold/dynfold/transform.py
@@ -1129,7 +1129,7 @@ class TSCRadialBasis(BaseEstimator, TSCTransformerMixin):
         kernel,
         *,  # keyword-only
         center_type: Literal[
-            "all_data", "random", "fit_params", "inital_condition"
+            "all_data", "random", "fit_params", "initial_condition"
         ] = "all_data",
         n_samples: int = 100,
         exact_distance=True,
-- 
2.43.0


From 7c5608cf1fdf6dcc22daf11f5e0d5663e781814a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:12 +0000
Subject: [PATCH 40/66] fix: LaplacianPyramidsInterpolator refuses mu=1, for
 which the fit does not terminate

---
 datafold/dynfold/outofsample.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/datafold/dynfold/outofsample.py b/datafold/dynfold/outofsample.py
index 4590131..718f1a9 100644
--- a/datafold/dynfold/outofsample.py
+++ b/datafold/dynfold/outofsample.py
@@ -590,6 +590,7 @@ class LaplacianPyramidsInterpolator(RegressorMixin, MultiOutputMixin, BaseEstima
             "mu",
             target_type=(int, np.integer, float, np.floating),
             min_val=1,
+            include_boundaries="neither",
         )
 
         if isinstance(X, np.memmap):
-- 
2.43.0


From d7a10f7acb8c0fccb1e0bf17a796a33ec6b534e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:14 +0000
Subject: [PATCH 41/66] fix: EDMDWindowPrediction validates window_size and
 offset

---
 datafold/appfold/edmd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/datafold/appfold/edmd.py b/datafold/appfold/edmd.py
index cadca65..f4bffcd 100644
--- a/datafold/appfold/edmd.py
+++ b/datafold/appfold/edmd.py
@@ -2368,6 +2368,8 @@ class EDMDWindowPrediction:
             The adapted model.
 
         """
+        self._validate()
+
         # TODO: this is bad style, there is no reason to attach the attribute to the estimator
         #  instead it can be used like offset below...
         estimator.window_size = self.window_size
-- 
2.43.0


From 063c313a7ffec6a8de7809f94f109937f2c35ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:04 +0000
Subject: [PATCH 42/66] fix: DMDStandard.pseudospectrum and spectral_measure
 failed with AttributeError if the required matrices were not stored during
 fit

---
 datafold/dynfold/dmd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/datafold/dynfold/dmd.py b/datafold/dynfold/dmd.py
index 98b408b..e61bde1 100644
--- a/datafold/dynfold/dmd.py
+++ b/datafold/dynfold/dmd.py
@@ -1046,7 +1046,7 @@ class DMDStandard(DMDBase):
         """
         check_is_fitted(self)
 
-        if not self.compute_pseudospectrum:
+        if not self.compute_pseudospectrum or self.residual_filter is None:
             raise ValueError(
                 "Calculating the pseudospectrum requires fitting"
                 f"self.compute_pseudospectrum=True (got {self.compute_pseudospectrum=}) and"
@@ -1172,10 +1172,10 @@ class DMDStandard(DMDBase):
         """
         check_is_fitted(self)
 
-        if self.residual_filter is None:
+        if not self.compute_pseudospectrum or self.residual_filter is None:
             raise AttributeError(
                 "Calculating the spectral_measure requires fitting"
-                " the data with res_threshold != None"
+                " the data with compute_pseudospectrum=True and res_threshold != None"
             )
 
         observable = if1dim_colvec(observable)
-- 
2.43.0


From 0e2d1f8f6f2da0a094355d9752e552d1bf7c1690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:04 +0000
Subject: [PATCH 43/66] fix: EDMD fitted with partial_fit failed with
 AttributeError in stepwise predictions

---
 datafold/appfold/edmd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/datafold/appfold/edmd.py b/datafold/appfold/edmd.py
index f4bffcd..60ba9c6 100644
--- a/datafold/appfold/edmd.py
+++ b/datafold/appfold/edmd.py
@@ -1353,6 +1353,7 @@ class EDMD(
             )
 
         self.is_controlled_ = False
+        self.is_state_transition_map_ = False  # y is not supported
 
         try:
             check_is_fitted(self)
-- 
2.43.0


From aa246affe97949b87aa3db5aba9ce3e05ffbbfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:01 +0000
Subject: [PATCH 44/66] fix: an empty selection of a time series collection
 failed with IndexError

---
 datafold/pcfold/timeseries/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/pcfold/timeseries/collection.py b/datafold/pcfold/timeseries/collection.py
index fa2aa69..3b255de 100644
--- a/datafold/pcfold/timeseries/collection.py
+++ b/datafold/pcfold/timeseries/collection.py
@@ -905,7 +905,7 @@ class TSCDataFrame(pd.DataFrame):
             )
 
         # bool index to the start of new IDs
-        bool_new_id = np.append(1, np.diff(index.codes[0])).astype(bool)
+        bool_new_id = np.append(1, np.diff(index.codes[0])).astype(bool)[: len(index)]
         _ids = ids_index[bool_new_id]
 
         if len(np.unique(_ids)) != len(_ids):
-- 
2.43.0


From 0cbfa77253884c5b79df01b0bc644694283957a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:56 +0000
Subject: [PATCH 45/66] fix: DiffusionMaps.inverse_transform failed for a model
 fitted with a plain DataFrame

---
 datafold/dynfold/dmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/dynfold/dmap.py b/datafold/dynfold/dmap.py
index 56c7d0c..61122be 100644
--- a/datafold/dynfold/dmap.py
+++ b/datafold/dynfold/dmap.py
@@ -673,7 +673,7 @@ class DiffusionMaps(BaseEstimator, TSCTransformerMixin):
         self._validate_feature_input(X, direction="inverse_transform")
 
         if self.inv_coeff_matrix_ is None:
-            if isinstance(self.X_fit_, pd.DataFrame):
+            if isinstance(self.eigenvectors_, pd.DataFrame):
                 # happens if samples were dropped during kernel fit
                 _X = self.X_fit_.loc[self.eigenvectors_.index, :]
             else:
-- 
2.43.0


From 566f6fd692966a0cc472eb4942657dce85e22797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:56 +0000
Subject: [PATCH 46/66] fix: DiffusionMaps uses the eigenvalues of the selected
 coordinates for time_exponent, also in inverse_transform

---
 datafold/dynfold/dmap.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/datafold/dynfold/dmap.py b/datafold/dynfold/dmap.py
index 61122be..6e52236 100644
--- a/datafold/dynfold/dmap.py
+++ b/datafold/dynfold/dmap.py
@@ -392,7 +392,8 @@ class DiffusionMaps(BaseEstimator, TSCTransformerMixin):
         if self.time_exponent == 0:
             dmap_embedding = eigenvectors
         else:
-            eigvals_time = np.power(self.eigenvalues_, self.time_exponent)
+            _, eigvals = self._select_eigenpairs_target_coords()
+            eigvals_time = np.power(eigvals, self.time_exponent)
             dmap_embedding = mat_dot_diagmat(np.asarray(eigenvectors), eigvals_time)
 
         if isinstance(eigenvectors, pd.DataFrame):
@@ -681,8 +682,11 @@ class DiffusionMaps(BaseEstimator, TSCTransformerMixin):
 
             eigvec, _ = self._select_eigenpairs_target_coords()
 
+            # map from the same (time scaled) embedding that transform returns
+            embedding = self._perform_dmap_embedding(eigvec)
+
             self.inv_coeff_matrix_ = scipy.linalg.lstsq(
-                np.asarray(eigvec), _X, cond=None
+                np.asarray(embedding), _X, cond=None
             )[0]
 
         X_orig_space = np.asarray(X) @ self.inv_coeff_matrix_
-- 
2.43.0


From ad384c35bcde482738ce207fe53f46f2da8ddb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:56 +0000
Subject: [PATCH 47/66] fix: Roseland.fit_transform applies time_exponent as
 transform does

---
 datafold/dynfold/dmap.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/datafold/dynfold/dmap.py b/datafold/dynfold/dmap.py
index 6e52236..3887716 100644
--- a/datafold/dynfold/dmap.py
+++ b/datafold/dynfold/dmap.py
@@ -1248,14 +1248,18 @@ class Roseland(BaseEstimator, TSCTransformerMixin):
         self.fit(X=X, **fit_params)
         svdvec_left, svdvals, _ = self._select_svdpairs_target_coords()
 
+        roseland_embedding = self._perform_roseland_embedding(
+            np.asarray(svdvec_left), svdvals
+        )
+
         if isinstance(X, TSCDataFrame):
-            svdvec_left = TSCDataFrame.from_same_indices_as(
+            roseland_embedding = TSCDataFrame.from_same_indices_as(
                 indices_from=X,
-                values=svdvec_left,
+                values=roseland_embedding,
                 except_columns=self.get_feature_names_out(),
             )
 
-        return svdvec_left
+        return roseland_embedding
 
 
 class LocalRegressionSelection(BaseEstimator, TSCTransformerMixin):
-- 
2.43.0


From 8a2b0ab43eff62153a9a709b725633f2956714a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:56 +0000
Subject: [PATCH 48/66] fix: GeometricHarmonicsInterpolator.score uses
 sample_weight

---
 datafold/dynfold/outofsample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/dynfold/outofsample.py b/datafold/dynfold/outofsample.py
index 718f1a9..53932ff 100644
--- a/datafold/dynfold/outofsample.py
+++ b/datafold/dynfold/outofsample.py
@@ -368,7 +368,7 @@ class GeometricHarmonicsInterpolator(RegressorMixin, MultiOutputMixin, BaseEstim
         y_pred = self.predict(X)
 
         score = mean_squared_error(
-            y, y_pred, sample_weight=None, multioutput=multioutput
+            y, y_pred, sample_weight=sample_weight, multioutput=multioutput
         )
 
         if multioutput == "raw_values" and len(score) == 1:
-- 
2.43.0


From 42c2158b896188e884027e989b036dfcb423e6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:11 +0000
Subject: [PATCH 49/66] fix: TSCIdentity.inverse_transform restores renamed
 feature names

---
 datafold/dynfold/transform.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/datafold/dynfold/transform.py b/datafold/dynfold/transform.py
index 978f6c8..ed35989 100644
--- a/datafold/dynfold/transform.py
+++ b/datafold/dynfold/transform.py
@@ -372,6 +372,11 @@ class TSCIdentity(BaseEstimator, TSCTransformerMixin):
             else:
                 X = X[:, :-1]
 
+        if self.rename_features and self._has_feature_names(X):
+            X = self._same_type_X(
+                X, values=np.asarray(X), feature_names=self.feature_names_in_
+            )
+
         return X
 
 
-- 
2.43.0


From 6b990f86f3d95ee3f929c1aeac9b22cc659213fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:43 +0000
Subject: [PATCH 50/66] fix: reconstruct of DMD models and prediction models
 returns the requested quantities of interest

---
 datafold/dynfold/base.py |  6 +++++-
 datafold/dynfold/dmd.py  | 11 ++++++-----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/datafold/dynfold/base.py b/datafold/dynfold/base.py
index cede982..7e02d8f 100644
--- a/datafold/dynfold/base.py
+++ b/datafold/dynfold/base.py
@@ -823,4 +823,8 @@ class TSCPredictMixin(TSCBase):
             X_ts = self.predict(X=X_ic, time_values=time_values, **control_input)
             X_reconstruct_ts.append(X_ts)
 
-        return pd.concat(X_reconstruct_ts, axis=0)
+        X_reconstruct = pd.concat(X_reconstruct_ts, axis=0)
+        qois = self._validate_qois(
+            qois=qois, valid_feature_names=X_reconstruct.columns
+        )
+        return X_reconstruct if qois is None else X_reconstruct.loc[:, qois]
diff --git a/datafold/dynfold/dmd.py b/datafold/dynfold/dmd.py
index e61bde1..9f788f4 100644
--- a/datafold/dynfold/dmd.py
+++ b/datafold/dynfold/dmd.py
@@ -445,7 +445,7 @@ class DMDBase(
 
         qois
             A list of feature names of interest to be include in the returned
-            predictions. Passed to :py:meth:`.predict`.
+            predictions.
 
         Returns
         -------
@@ -460,9 +460,9 @@ class DMDBase(
         )
         self._validate_feature_names(X)
 
-        # TODO: qois flag is currently not supported in DMD, bc. predict does not
-        #  support it gitlab issue #125
-        # self._validate_qois(qois=qois, valid_feature_names=self.feature_names_in_)
+        qois = self._validate_qois(
+            qois=qois, valid_feature_names=self.feature_names_in_
+        )
 
         X_reconstruct_ts = []
 
@@ -480,7 +480,8 @@ class DMDBase(
             )
             X_reconstruct_ts.append(X_ts)
 
-        return pd.concat(X_reconstruct_ts, axis=0)
+        X_reconstruct = pd.concat(X_reconstruct_ts, axis=0)
+        return X_reconstruct if qois is None else X_reconstruct.loc[:, qois]
 
     def fit_predict(
         self, X: TSCDataFrame, *, U: Optional[TSCDataFrame] = None, y=None, **fit_params
-- 
2.43.0


From e16e58a25dcac20bbb1d03610af315f17e9f158f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:47 +0000
Subject: [PATCH 51/66] fix: DMDStandard uses the option rcond

---
 datafold/dynfold/dmd.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/datafold/dynfold/dmd.py b/datafold/dynfold/dmd.py
index 9f788f4..1fdcacc 100644
--- a/datafold/dynfold/dmd.py
+++ b/datafold/dynfold/dmd.py
@@ -844,12 +844,17 @@ class DMDStandard(DMDBase):
         else:  # alpha > 0 and l1_ratio > 0:
             linregress_model = ElasticNet(alpha=alpha, l1_ratio=l1_ratio)
 
-        linregress_model = linregress_model.fit(G, G_dash)
-        koopman_matrix = linregress_model.coef_
+        if self.rcond is None:
+            linregress_model = linregress_model.fit(G, G_dash)
+            koopman_matrix = linregress_model.coef_
+            matrix_rank = linregress_model.rank_
+        else:
+            solution, _, matrix_rank, _ = np.linalg.lstsq(G, G_dash, rcond=self.rcond)
+            koopman_matrix = solution.T
 
-        if linregress_model.rank_ != G.shape[1]:
+        if matrix_rank != G.shape[1]:
             warnings.warn(
-                f"Shift matrix ({G.shape=}) has not full rank ({linregress_model.rank_=}), "
+                f"Shift matrix ({G.shape=}) has not full rank ({matrix_rank=}), "
                 f"falling back to least squares solution.",
                 stacklevel=2,
             )
-- 
2.43.0


From f7fbd7e283d3141a5da347790a7e26ef33ef6f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:25 +0000
Subject: [PATCH 52/66] fix: EDMD.partial_fit applies the options
 include_id_state and dict_preserves_id_state

---
 datafold/appfold/edmd.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/datafold/appfold/edmd.py b/datafold/appfold/edmd.py
index 60ba9c6..5cbfedc 100644
--- a/datafold/appfold/edmd.py
+++ b/datafold/appfold/edmd.py
@@ -1380,14 +1380,15 @@ class EDMD(
         X_dict = self._partial_fit(X, y, **fit_params)
 
         if initial_fit:
-            self.dict_preserves_id_state_ = self._validate_dictionary()
+            self._validate_dictionary()
+            self.dict_preserves_id_state_ = self._set_dict_preserves_id_state(X_dict)
 
         if initial_fit:
             self.n_samples_ic_ = self._compute_n_samples_ic(X, X_dict)
 
         if self.include_id_state and not self.dict_preserves_id_state_:
             X_dict = self._attach_id_state(X=X, X_dict=X_dict)
-        elif not self.include_id_state and not not self.dict_preserves_id_state_:
+        elif not self.include_id_state and not self.dict_preserves_id_state_:
             raise NotImplementedError(
                 "Currently, there is no implementation to partial_fit non-trivial update of "
                 "the modes. Either the dictionary must preserve the id states or "
-- 
2.43.0


From c4c03df603d6bfffe45b3025d87e56ad2673f20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:50 +0000
Subject: [PATCH 53/66] fix: DMDControl does not ignore unknown options

---
 datafold/dynfold/dmd.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/datafold/dynfold/dmd.py b/datafold/dynfold/dmd.py
index 1fdcacc..2238ff7 100644
--- a/datafold/dynfold/dmd.py
+++ b/datafold/dynfold/dmd.py
@@ -1622,7 +1622,6 @@ class DMDControl(DMDBase):
         *,  # keyword-only
         sys_mode: Literal["matrix", "spectral"] = "matrix",
         rcond: Optional[float] = None,
-        **kwargs,
     ):
         self.rcond = rcond
         self._setup_default_tsc_metric_and_score()
-- 
2.43.0


From d6caeb591c53a32a368939c68f7c1ddb6a8c797a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:50 +0000
Subject: [PATCH 54/66] fix: TSCFeaturePreprocess.fit_transform passes the fit
 parameters on

---
 datafold/dynfold/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/dynfold/transform.py b/datafold/dynfold/transform.py
index ed35989..98b5e8e 100644
--- a/datafold/dynfold/transform.py
+++ b/datafold/dynfold/transform.py
@@ -146,7 +146,7 @@ class TSCFeaturePreprocess(BaseEstimator, TSCTransformerMixin):
         X = self._validate_datafold_data(X)
 
         self.sklearn_transformer_fit_ = clone(self.sklearn_transformer)
-        values = self.sklearn_transformer_fit_.fit_transform(X)
+        values = self.sklearn_transformer_fit_.fit_transform(X, **fit_params)
 
         self._setup_feature_attrs_fit(X)
 
-- 
2.43.0


From 7e2a0f7de5cc4b19d0fae76574c0832a8912ccfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:30 +0000
Subject: [PATCH 55/66] fix: DiffusionMaps.fit_transform returns a copy, not
 the fitted eigenvectors

---
 datafold/dynfold/dmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/dynfold/dmap.py b/datafold/dynfold/dmap.py
index 3887716..ff8aac0 100644
--- a/datafold/dynfold/dmap.py
+++ b/datafold/dynfold/dmap.py
@@ -390,7 +390,7 @@ class DiffusionMaps(BaseEstimator, TSCTransformerMixin):
         )
 
         if self.time_exponent == 0:
-            dmap_embedding = eigenvectors
+            dmap_embedding = eigenvectors.copy()
         else:
             _, eigvals = self._select_eigenpairs_target_coords()
             eigvals_time = np.power(eigvals, self.time_exponent)
-- 
2.43.0


From 72ce8cc79b89a20ac8b62a32840494b432c4f5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:30 +0000
Subject: [PATCH 56/66] fix: JointlySmoothFunctions.fit_transform returns a
 copy, not the fitted vectors

---
 datafold/dynfold/jsf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/dynfold/jsf.py b/datafold/dynfold/jsf.py
index b74ce2e..daedacf 100644
--- a/datafold/dynfold/jsf.py
+++ b/datafold/dynfold/jsf.py
@@ -445,7 +445,7 @@ class JointlySmoothFunctions(BaseEstimator, TSCTransformerMixin):
         )
         self.fit(X=X, y=y, **fit_params)
 
-        return self.jointly_smooth_vectors_
+        return self.jointly_smooth_vectors_.copy()
 
     def score_(self, X, y):
         """Compute a score for hyperparameter optimization.
-- 
2.43.0


From dbe61ee79b87a6af098dc6ba3ed9f01c0458f66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:30 +0000
Subject: [PATCH 57/66] fix: Roseland.fit_transform returns a copy, not the
 fitted singular vectors

---
 datafold/dynfold/dmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/dynfold/dmap.py b/datafold/dynfold/dmap.py
index ff8aac0..58c79ba 100644
--- a/datafold/dynfold/dmap.py
+++ b/datafold/dynfold/dmap.py
@@ -1249,7 +1249,7 @@ class Roseland(BaseEstimator, TSCTransformerMixin):
         svdvec_left, svdvals, _ = self._select_svdpairs_target_coords()
 
         roseland_embedding = self._perform_roseland_embedding(
-            np.asarray(svdvec_left), svdvals
+            np.array(svdvec_left), svdvals
         )
 
         if isinstance(X, TSCDataFrame):
-- 
2.43.0


From 21adbd824feec85cf233569692afbfb822da480f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:30 +0000
Subject: [PATCH 58/66] fix: remove a debug print of GaussianKernel

---
 datafold/pcfold/kernels.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/datafold/pcfold/kernels.py b/datafold/pcfold/kernels.py
index c890146..482eeec 100644
--- a/datafold/pcfold/kernels.py
+++ b/datafold/pcfold/kernels.py
@@ -808,7 +808,6 @@ class GaussianKernel(RadialBasisKernel):
                 self.epsilon = self.epsilon(distance_matrix.data)
             elif isinstance(distance_matrix, np.ndarray):
                 self.epsilon = self.epsilon(distance_matrix)
-                print(self.epsilon)
             else:
                 raise TypeError(
                     f"Invalid type: type(distance_matrix)={type(distance_matrix)}."
-- 
2.43.0


From 7ffc1e7362e02e1cc5c88223cf21085600981243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:30 +0000
Subject: [PATCH 59/66] fix: KMPC.control_system_reference warns instead of
 printing

---
 datafold/appfold/mpc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/appfold/mpc.py b/datafold/appfold/mpc.py
index 27547b6..7b641d1 100644
--- a/datafold/appfold/mpc.py
+++ b/datafold/appfold/mpc.py
@@ -549,7 +549,7 @@ class KMPC:
                     time_values=time_values,
                 )
             except RuntimeError:
-                print("Simulation has terminated")
+                warnings.warn("Simulation has terminated", stacklevel=2)
                 # TODO: maybe own error to indicate termination?
                 break
 
-- 
2.43.0


From 294a56b2e46eaf75ccc13ef7d3a8ee985f62b531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:56 +0000
Subject: [PATCH 60/66] fix: select the solver of a linear system when evolving
 (set_params)

---
 datafold/dynfold/dynsystem.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/datafold/dynfold/dynsystem.py b/datafold/dynfold/dynsystem.py
index d8059fe..4d66e93 100644
--- a/datafold/dynfold/dynsystem.py
+++ b/datafold/dynfold/dynsystem.py
@@ -454,7 +454,11 @@ class LinearDynamicalSystem:
         self._check_system_type()
         self._check_system_mode()
 
-        self._evolve_system_states = SystemSolveStrategy.select_strategy(
+        self._select_strategy()  # raises an error if there is no suitable strategy
+
+    def _select_strategy(self):
+        # not stored because the parameters may change with `set_params`
+        return SystemSolveStrategy.select_strategy(
             system_type=self.sys_type,
             system_mode=self.sys_mode,
             is_controlled=self.is_controlled,
@@ -992,7 +996,7 @@ class LinearDynamicalSystem:
         )
 
         # write the predicted states in time_series_tensor
-        time_series_tensor = self._evolve_system_states(
+        time_series_tensor = self._select_strategy()(
             time_series_tensor=time_series_tensor,
             initial_conditions=initial_conditions,
             sys_matrix=sys_matrix,
-- 
2.43.0


From f7cb29c2133098a274e7584e2e0ef06bae57ca25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:56 +0000
Subject: [PATCH 61/66] fix: DMDStandard.fit derives the system type from the
 current parameters

---
 datafold/dynfold/dmd.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/datafold/dynfold/dmd.py b/datafold/dynfold/dmd.py
index 2238ff7..688268c 100644
--- a/datafold/dynfold/dmd.py
+++ b/datafold/dynfold/dmd.py
@@ -1254,6 +1254,9 @@ class DMDStandard(DMDBase):
         self._validate_and_setup_fit_attrs(X=X)
         self._validate_parameters()
 
+        # may have changed with `set_params`
+        self.sys_type = "differential" if self.approx_generator else "flowmap"
+
         store_system_matrix, sample_weights = self._read_fit_params(
             attrs=[
                 ("store_system_matrix", False),
-- 
2.43.0


From fb654a2497a329b9cb26a3f2800f374840e19144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:56 +0000
Subject: [PATCH 62/66] fix: DmapKernelFixed derives its symmetry from the
 current parameters

---
 datafold/pcfold/kernels.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/datafold/pcfold/kernels.py b/datafold/pcfold/kernels.py
index 482eeec..da48028 100644
--- a/datafold/pcfold/kernels.py
+++ b/datafold/pcfold/kernels.py
@@ -1527,6 +1527,15 @@ class DmapKernelFixed(BaseManifoldKernel):
         # do not use distance here (but forward the distance from the internal kernel
         return None
 
+    @property  # type: ignore
+    def _is_symmetric_kernel(self):
+        return self.symmetrize_kernel or not self.is_stochastic
+
+    @_is_symmetric_kernel.setter
+    def _is_symmetric_kernel(self, is_symmetric):
+        # do not store the value because the parameters may change with `set_params`
+        return None
+
     @property
     def is_conjugate(self) -> bool:
         """Indicates whether a symmetric matrix is computed that is conjugate to a
-- 
2.43.0


From 1ee2dd11179f5b561de7758e102105183f5f97e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:16 +0000
Subject: [PATCH 63/66] fix: inverse_transform and polynomial transform of
 models fitted with arrays

feature_names_in_ exists only if the model was fitted with a pandas object, but the array
branch of these transformers read it unconditionally and raised an AttributeError. In
TSCIdentity the copy(deep=True) of pandas was also called on arrays (drop returns a copy
already, so it is not needed for pandas objects either).
---
 datafold/dynfold/transform.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/datafold/dynfold/transform.py b/datafold/dynfold/transform.py
index 98b5e8e..1678ada 100644
--- a/datafold/dynfold/transform.py
+++ b/datafold/dynfold/transform.py
@@ -176,7 +176,9 @@ class TSCFeaturePreprocess(BaseEstimator, TSCTransformerMixin):
 
         values = self.sklearn_transformer_fit_.inverse_transform(X)
         return self._same_type_X(
-            X=X, values=values, feature_names=self.feature_names_in_
+            X=X,
+            values=values,
+            feature_names=getattr(self, "feature_names_in_", None),
         )
 
 
@@ -366,7 +368,6 @@ class TSCIdentity(BaseEstimator, TSCTransformerMixin):
         self._validate_feature_input(X, direction="inverse_transform")
 
         if self.include_const:
-            X = X.copy(deep=True)
             if self._has_feature_names(X):
                 X = X.drop("const", axis=1)
             else:
@@ -518,7 +519,9 @@ class TSCPrincipalComponent(PCA, TSCTransformerMixin):
         data_orig_space = super().inverse_transform(X)
 
         return self._same_type_X(
-            X, values=data_orig_space, feature_names=self.feature_names_in_
+            X,
+            values=data_orig_space,
+            feature_names=getattr(self, "feature_names_in_", None),
         )
 
 
@@ -1320,7 +1323,9 @@ class TSCRadialBasis(BaseEstimator, TSCTransformerMixin):
 
         X_inverse = rbf_coeff @ self.inv_coeff_matrix_
         return self._same_type_X(
-            X, values=X_inverse, feature_names=self.feature_names_in_
+            X,
+            values=X_inverse,
+            feature_names=getattr(self, "feature_names_in_", None),
         )
 
 
@@ -1440,7 +1445,7 @@ class TSCPolynomialFeatures(PolynomialFeatures, TSCTransformerMixin):
             X,
             values=poly_data,
             feature_names=self.get_feature_names_out(
-                input_features=self.feature_names_in_
+                input_features=getattr(self, "feature_names_in_", None)
             ),
         )
 
-- 
2.43.0


From ae4e3e84c8f8d47494c16b0927eb66f662cd54bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:59 +0000
Subject: [PATCH 64/66] fix: example systems do not modify the objects of the
 caller

Hopf.predict overwrote the values and columns of the initial conditions given in polar
coordinates, DCMotor inserted a default into the dictionary passed as ivp_kwargs.
---
 datafold/utils/_systems.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datafold/utils/_systems.py b/datafold/utils/_systems.py
index 0e7903e..b3cdba0 100644
--- a/datafold/utils/_systems.py
+++ b/datafold/utils/_systems.py
@@ -444,6 +444,7 @@ class Hopf(ODE):
             adapt_ic[:, 0] = rt_ic[:, 0] * np.cos(rt_ic[:, 1])
             adapt_ic[:, 1] = rt_ic[:, 0] * np.sin(rt_ic[:, 1])
             if isinstance(X, pd.DataFrame):
+                X = X.copy()
                 X[:] = adapt_ic
                 X.columns = pd.Index(["x1", "x2"])
             else:
@@ -1107,8 +1108,7 @@ class DCMotor(ControllableODE):
     """
 
     def __init__(self, ivp_kwargs=None):
-        ivp_kwargs = ivp_kwargs or {}
-        ivp_kwargs.setdefault("method", "RK23")
+        ivp_kwargs = {"method": "RK23", **(ivp_kwargs or {})}
         super().__init__(
             feature_names_in=["x1", "x2"], control_names_in=["u"], **ivp_kwargs
         )
-- 
2.43.0


From 2a62753c65ea57f2fe6d3a6c6452c1e3b6f4804f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:59 +0000
Subject: [PATCH 65/66] fix: the result of LimitCycle is not the stored
 observation

Writing into the returned frame changed the attribute obs of the system.
---
 datafold/utils/_systems.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datafold/utils/_systems.py b/datafold/utils/_systems.py
index b3cdba0..eedbad4 100644
--- a/datafold/utils/_systems.py
+++ b/datafold/utils/_systems.py
@@ -348,7 +348,7 @@ class LimitCycle(DynamicalSystem):
         self.obs = pd.DataFrame(
             np.vstack([a_vals, r_vals]).T, index=t, columns=["alpha", "radius"]
         )
-        return self.obs
+        return self.obs.copy()
 
     def eval_analytical(self, x1, x2, dt, nr_steps):
         # TODO: make private function!
@@ -367,7 +367,7 @@ class LimitCycle(DynamicalSystem):
         self.obs = pd.DataFrame(
             np.vstack([a_vals, r_vals]).T, index=t, columns=["alpha", "radius"]
         )
-        return self.obs
+        return self.obs.copy()
 
 
 class ThreeStablePoints(ODE):
-- 
2.43.0


From fb5def378aeac8b0a3873ce2e3ab419ed7f63340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:06 +0000
Subject: [PATCH 66/66] fix: transform results of DiffusionMaps, Roseland,
 LocalRegressionSelection, JointlySmoothFunctions keep frames;
 TSCSampledNetwork.inverse_transform argument order

---
 datafold/dynfold/dmap.py      | 44 ++++++++++++++++++++++++-----------
 datafold/dynfold/jsf.py       | 12 +++++++---
 datafold/dynfold/transform.py |  2 +-
 3 files changed, 41 insertions(+), 17 deletions(-)

diff --git a/datafold/dynfold/dmap.py b/datafold/dynfold/dmap.py
index 58c79ba..6f459fd 100644
--- a/datafold/dynfold/dmap.py
+++ b/datafold/dynfold/dmap.py
@@ -624,7 +624,18 @@ class DiffusionMaps(BaseEstimator, TSCTransformerMixin):
             index_from=index_from,
         )
 
-        return self._perform_dmap_embedding(eigvec_nystroem)
+        dmap_embedding = self._perform_dmap_embedding(eigvec_nystroem)
+
+        if (
+            isinstance(X, pd.DataFrame)
+            and isinstance(dmap_embedding, np.ndarray)
+            and dmap_embedding.shape[0] == X.shape[0]
+        ):
+            dmap_embedding = self._same_type_X(
+                X, dmap_embedding, self.get_feature_names_out()
+            )
+
+        return dmap_embedding
 
     def fit_transform(self, X: TransformType, y=None, **fit_params) -> TransformType:
         """Fit model with data and apply embedding on same data.
@@ -649,7 +660,18 @@ class DiffusionMaps(BaseEstimator, TSCTransformerMixin):
         self.fit(X=X, y=y, **fit_params)
 
         eigvec, _ = self._select_eigenpairs_target_coords()
-        return self._perform_dmap_embedding(eigvec)
+        dmap_embedding = self._perform_dmap_embedding(eigvec)
+
+        if (
+            isinstance(X, pd.DataFrame)
+            and isinstance(dmap_embedding, np.ndarray)
+            and dmap_embedding.shape[0] == X.shape[0]
+        ):
+            dmap_embedding = self._same_type_X(
+                X, dmap_embedding, self.get_feature_names_out()
+            )
+
+        return dmap_embedding
 
     def inverse_transform(self, X: TransformType) -> TransformType:
         """Perform pre-image by mapping data from embedding space back to ambient space.
@@ -1217,11 +1239,9 @@ class Roseland(BaseEstimator, TSCTransformerMixin):
             svdvec_left_interp, svdvals
         )
 
-        if isinstance(X, TSCDataFrame) and kernel_matrix_cdist.shape[0] == X.shape[0]:
-            roseland_embedding = TSCDataFrame.from_same_indices_as(
-                indices_from=X,
-                values=roseland_embedding,
-                except_columns=self.get_feature_names_out(),
+        if isinstance(X, pd.DataFrame) and kernel_matrix_cdist.shape[0] == X.shape[0]:
+            roseland_embedding = self._same_type_X(
+                X, roseland_embedding, self.get_feature_names_out()
             )
 
         return roseland_embedding
@@ -1252,11 +1272,9 @@ class Roseland(BaseEstimator, TSCTransformerMixin):
             np.array(svdvec_left), svdvals
         )
 
-        if isinstance(X, TSCDataFrame):
-            roseland_embedding = TSCDataFrame.from_same_indices_as(
-                indices_from=X,
-                values=roseland_embedding,
-                except_columns=self.get_feature_names_out(),
+        if isinstance(X, pd.DataFrame):
+            roseland_embedding = self._same_type_X(
+                X, roseland_embedding, self.get_feature_names_out()
             )
 
         return roseland_embedding
@@ -1575,7 +1593,7 @@ class LocalRegressionSelection(BaseEstimator, TSCTransformerMixin):
         self._read_fit_params(attrs=None, fit_params=fit_params)
 
         if not np.isinf(self.n_subsample):
-            X_numpy = X.to_numpy() if isinstance(X, TSCDataFrame) else X
+            X_numpy = X.to_numpy() if isinstance(X, pd.DataFrame) else X
             eigvec = resample(
                 X_numpy,
                 replace=False,
diff --git a/datafold/dynfold/jsf.py b/datafold/dynfold/jsf.py
index daedacf..024d3c7 100644
--- a/datafold/dynfold/jsf.py
+++ b/datafold/dynfold/jsf.py
@@ -165,7 +165,7 @@ class JointlySmoothFunctions(BaseEstimator, TSCTransformerMixin):
                 n_eigenpairs=self.n_kernel_eigenvectors,
             )
 
-            if isinstance(X, pd.DataFrame) and kernel_matrix.shape[0] == X.shape[0]:
+            if isinstance(X, TSCDataFrame) and kernel_matrix.shape[0] == X.shape[0]:
                 kernel_eigenvectors = TSCDataFrame.from_same_indices_as(
                     indices_from=X,
                     values=kernel_eigenvectors,
@@ -419,7 +419,9 @@ class JointlySmoothFunctions(BaseEstimator, TSCTransformerMixin):
 
         f_m_star = self._nystrom(X)
 
-        return f_m_star
+        return self._same_type_X(
+            X, values=f_m_star, feature_names=self.get_feature_names_out()
+        )
 
     def fit_transform(self, X: TransformType, y=None, **fit_params) -> TransformType:
         """Compute and return jointly smooth functions evaluated at training data `X`.
@@ -445,7 +447,11 @@ class JointlySmoothFunctions(BaseEstimator, TSCTransformerMixin):
         )
         self.fit(X=X, y=y, **fit_params)
 
-        return self.jointly_smooth_vectors_.copy()
+        return self._same_type_X(
+            X,
+            values=np.array(self.jointly_smooth_vectors_),
+            feature_names=self.get_feature_names_out(),
+        )
 
     def score_(self, X, y):
         """Compute a score for hyperparameter optimization.
diff --git a/datafold/dynfold/transform.py b/datafold/dynfold/transform.py
index 1678ada..372e712 100644
--- a/datafold/dynfold/transform.py
+++ b/datafold/dynfold/transform.py
@@ -948,7 +948,7 @@ class TSCSampledNetwork(BaseEstimator, TSCTransformerMixin):  # pragma: no cover
         self._validate_feature_input(X, direction="inverse_transform")
         X_transform = self.inverse_nn(X.to_numpy())
         X_transform = TSCDataFrame.from_same_indices_as(
-            X_transform, X, except_columns=self.feature_names_in_
+            X, X_transform, except_columns=self.feature_names_in_
         )
         return X_transform
 
-- 
2.43.0

