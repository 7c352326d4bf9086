From 8d9bfd21d367098bb5d16a91243d262d016f6219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:38 +0000
Subject: [PATCH 01/36] fix: cdist_frechet ignored a named global constraint

The constraint name was handed to the kernel instead of its code, so
global_constraint="itakura" / "sakoe_chiba" had no effect and the entries
of the matrix differed from frechet() with the same parameters.
---
 tslearn/metrics/_frechet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/metrics/_frechet.py b/tslearn/metrics/_frechet.py
index 5ccc2bf..53f8d41 100644
--- a/tslearn/metrics/_frechet.py
+++ b/tslearn/metrics/_frechet.py
@@ -798,7 +798,7 @@ def _cdist_frechet(
         verbose=verbose,
         be=be,
         compute_diagonal=False,
-        global_constraint=global_constraint,
+        global_constraint=GLOBAL_CONSTRAINT_CODE[global_constraint],
         sakoe_chiba_radius=sakoe_chiba_radius,
         itakura_max_slope=itakura_max_slope,
     )
-- 
2.43.0


From f785af1dfe6ee8239bd79b5232fe2a57efd6262b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:48 +0000
Subject: [PATCH 02/36] fix: cdist_soft_dtw_normalized with n_jobs failed on
 datasets of different lengths

The parallel branch stacked both datasets, which numpy and torch reject when
their maximal lengths differ; the serial branch accepts them.
---
 tslearn/metrics/_soft_dtw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/metrics/_soft_dtw.py b/tslearn/metrics/_soft_dtw.py
index 7e42cb2..8aa90ba 100644
--- a/tslearn/metrics/_soft_dtw.py
+++ b/tslearn/metrics/_soft_dtw.py
@@ -1183,7 +1183,7 @@ def _cdist_soft_dtw_normalized(
 
             self_dists = Parallel(n_jobs=n_jobs, prefer="threads", verbose=verbose)(
                 delayed(soft_dtw_variable_lenght)(ts)
-                for ts in be.vstack((dataset1, dataset2))
+                for dataset in (dataset1, dataset2) for ts in dataset
             )
             self_dists_dataset1 = be.array(self_dists[:len(dataset1)]).reshape(-1, 1)
             self_dists_dataset2 = be.array(self_dists[len(dataset1):]).reshape(-1, 1)
-- 
2.43.0


From 231c5e42d060b1095460a0b311a96cf1494a2f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:18 +0000
Subject: [PATCH 03/36] fix: softdtw_barycenter summed worker results in
 completion order

Floating-point sums in completion order made the objective, the gradient and
hence the barycenter depend on thread scheduling when n_jobs is set.
---
 tslearn/barycenters/softdtw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/barycenters/softdtw.py b/tslearn/barycenters/softdtw.py
index bc4c522..8231e00 100644
--- a/tslearn/barycenters/softdtw.py
+++ b/tslearn/barycenters/softdtw.py
@@ -39,7 +39,7 @@ def _acc_softdtw_func(
     use_parallel = n_jobs not in [None, 1]
 
     if use_parallel:
-        for obj_tmp, G_tmp in Parallel(n_jobs=n_jobs, prefer="threads", return_as="generator_unordered")(
+        for obj_tmp, G_tmp in Parallel(n_jobs=n_jobs, prefer="threads", return_as="generator")(
             delayed(_softdtw_func)(
                 Z,
                 X[i],
-- 
2.43.0


From 70e5c4d86cd25d65f6bdc598020f7bd4528094ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:11 +0000
Subject: [PATCH 04/36] fix: nearest-neighbour queries changed the model they
 query

Queries swapped the metric hyper-parameter for "precomputed" while they ran: a
query that failed left the model unusable, concurrent queries disturbed each
other, and a refit with another metric used leftovers of the earlier one
(_ts_metric, _ts_fit, the SAX representation). SAX was also refitted on every
query, so answers depended on the other queried series.
---
 tslearn/neighbors/neighbors.py | 142 +++++++++++++++++----------------
 1 file changed, 73 insertions(+), 69 deletions(-)

diff --git a/tslearn/neighbors/neighbors.py b/tslearn/neighbors/neighbors.py
index 7f50628..2cffca0 100644
--- a/tslearn/neighbors/neighbors.py
+++ b/tslearn/neighbors/neighbors.py
@@ -1,3 +1,5 @@
+import copy
+
 import numpy
 
 from scipy.spatial.distance import cdist as scipy_cdist
@@ -30,17 +32,25 @@ class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
 
     def _sax_preprocess(self, X, n_segments=10, alphabet_size_avg=4,
                         scale=False):
-        # Now SAX-transform the time series
-        if not hasattr(self, '_sax') or self._sax is None:
-            self._sax = SymbolicAggregateApproximation(
-                n_segments=n_segments,
-                alphabet_size_avg=alphabet_size_avg,
-                scale=scale
-            )
+        # Fit SAX on the training time series and transform them
+        self._sax = SymbolicAggregateApproximation(
+            n_segments=n_segments,
+            alphabet_size_avg=alphabet_size_avg,
+            scale=scale
+        )
         X_sax = self._sax.fit_transform(X)
 
         return X_sax
 
+    def _as_precomputed(self):
+        """Shallow copy of the model working on precomputed distances.
+
+        Queries use it instead of changing the metric of the model itself.
+        """
+        model = copy.copy(self)
+        model.metric = "precomputed"
+        return model
+
     def _get_metric_params(self):
         if self.metric_params is None:
             metric_params = {}
@@ -59,33 +69,30 @@ class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
         if other_X is None:
             other_X = self._ts_fit
 
-        self._ts_metric = self.metric
-        self.metric = "precomputed"
-
         metric_params = self._get_metric_params()
 
         X = check_array(X, allow_nd=True, force_all_finite=False)
         X = to_time_series_dataset(X)
 
-        if self._ts_metric == "dtw":
+        if self.metric == "dtw":
             X_ = _cdist_dtw(
                 X,
                 other_X,
                 n_jobs=self.n_jobs,
                 **metric_params)
-        elif self._ts_metric == "ctw":
+        elif self.metric == "ctw":
             X_ = _cdist_ctw(X, other_X, **metric_params)
-        elif self._ts_metric == "softdtw":
+        elif self.metric == "softdtw":
             X_ = _cdist_soft_dtw(X, other_X, **metric_params)
-        elif self._ts_metric == "sax":
-            X = self._sax_preprocess(X, **metric_params)
+        elif self.metric == "sax":
+            X = self._sax.transform(X)
             X_ = _cdist_sax(
                 X,
                 self._sax.breakpoints_avg_,
                 self._sax._X_fit_dims_[1],
                 other_X,
                 n_jobs=self.n_jobs)
-        elif self._ts_metric == "frechet":
+        elif self.metric == "frechet":
             X_ = _cdist_frechet(
                 X,
                 other_X,
@@ -94,7 +101,7 @@ class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
             )
         else:
             raise ValueError("Invalid metric recorded: %s" %
-                             self._ts_metric)
+                             self.metric)
 
         return X_
 
@@ -178,9 +185,6 @@ class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
             sample_range, numpy.argsort(full_dist_matrix[sample_range, ind])]
         dist = full_dist_matrix[sample_range, ind]
 
-        if hasattr(self, '_ts_metric'):
-            self.metric = self._ts_metric
-
         if return_distance:
             return dist, ind
         else:
@@ -206,8 +210,12 @@ def _predict_generic(caller, X, predict_func):
 
     Parameters
     ----------
+    caller : estimator
+        Model to be queried, left unmodified.
     X : array-like, shape (n_ts, sz, d)
         Test samples.
+    predict_func : function
+        Prediction method of the base class, as a function of a model and data.
 
     Returns
     -------
@@ -221,16 +229,14 @@ def _predict_generic(caller, X, predict_func):
         X = check_dims(X, X_fit_dims=caller._ts_fit.shape, extend=True,
                         check_n_features_only=True)
         X_ = caller._precompute_cross_dist(X)
-        pred = predict_func(X_)
-        caller.metric = caller._ts_metric
-        return pred
+        return predict_func(caller._as_precomputed(), X_)
     else:
         check_is_fitted(caller, '_X_fit')
         X = check_array(X, allow_nd=True)
         X = to_time_series_dataset(X)
         X_ = to_sklearn_dataset(X)
         X_ = check_dims(X_, X_fit_dims=caller._X_fit.shape, extend=False)
-        return predict_func(X_)
+        return predict_func(caller, X_)
 
 
 class KNeighborsTimeSeries(KNeighborsTimeSeriesMixin,
@@ -327,25 +333,27 @@ class KNeighborsTimeSeries(KNeighborsTimeSeriesMixin,
         X : array-like, shape (n_ts, sz, d)
             Training data.
         """
-        if self.metric in TSLEARN_VALID_METRICS:
-            self._ts_metric = self.metric
-            self.metric = "precomputed"
+        is_ts_metric = self.metric in TSLEARN_VALID_METRICS
 
         X = check_array(X,
                         allow_nd=True,
-                        force_all_finite=(self.metric != "precomputed"))
+                        force_all_finite=(
+                            not is_ts_metric
+                            and self.metric != "precomputed"))
         X = to_time_series_dataset(X)
         X = check_dims(X)
-        if self.metric == "precomputed" and hasattr(self, '_ts_metric'):
+        if is_ts_metric:
             self._ts_fit = X
             self._d = X.shape[2]
             self._X_fit = numpy.zeros((self._ts_fit.shape[0],
                                        self._ts_fit.shape[0]))
         else:
+            if hasattr(self, '_ts_fit'):  # left by a fit with another metric
+                del self._ts_fit
             self._X_fit, self._d = to_sklearn_dataset(X, return_dim=True)
-        super().fit(self._X_fit, y)
-        if hasattr(self, '_ts_metric'):
-            self.metric = self._ts_metric
+        with self._patch_attribute(
+                "metric", "precomputed" if is_ts_metric else self.metric):
+            super().fit(self._X_fit, y)
         return self
 
     def kneighbors(self, X=None, n_neighbors=None, return_distance=True):
@@ -374,15 +382,12 @@ class KNeighborsTimeSeries(KNeighborsTimeSeriesMixin,
             Indices of the nearest points in the population matrix.
         """
         if self.metric in TSLEARN_VALID_METRICS:
-            self._ts_metric = self.metric
-            self.metric = "precomputed"
-
             metric_params = self._get_metric_params()
             check_is_fitted(self, '_ts_fit')
             X = check_array(X, allow_nd=True, force_all_finite=False)
             X = check_dims(X, X_fit_dims=self._ts_fit.shape, extend=True,
                            check_n_features_only=True)
-            if self._ts_metric == "dtw":
+            if self.metric == "dtw":
                 X_ = _cdist_dtw(
                     X,
                     self._ts_fit,
@@ -390,11 +395,11 @@ class KNeighborsTimeSeries(KNeighborsTimeSeriesMixin,
                     verbose=self.verbose,
                     **metric_params
                 )
-            elif self._ts_metric == "ctw":
+            elif self.metric == "ctw":
                 X_ = _cdist_ctw(X, self._ts_fit, **metric_params)
-            elif self._ts_metric == "softdtw":
+            elif self.metric == "softdtw":
                 X_ = _cdist_soft_dtw(X, self._ts_fit, **metric_params)
-            elif self._ts_metric == "frechet":
+            elif self.metric == "frechet":
                 X_ = _cdist_frechet(
                     X,
                     self._ts_fit,
@@ -404,14 +409,12 @@ class KNeighborsTimeSeries(KNeighborsTimeSeriesMixin,
                 )
             else:
                 raise ValueError("Invalid metric recorded: %s" %
-                                 self._ts_metric)
-            pred = KNeighborsTimeSeriesMixin.kneighbors(
-                self,
+                                 self.metric)
+            return KNeighborsTimeSeriesMixin.kneighbors(
+                self._as_precomputed(),
                 X=X_,
                 n_neighbors=n_neighbors,
                 return_distance=return_distance)
-            self.metric = self._ts_metric
-            return pred
         else:
             check_is_fitted(self, '_X_fit')
             if X is None:
@@ -551,33 +554,32 @@ class KNeighborsTimeSeriesClassifier(KNeighborsTimeSeriesMixin,
         KNeighborsTimeSeriesClassifier
             The fitted estimator
         """
-        if self.metric in TSLEARN_VALID_METRICS:
-            self._ts_metric = self.metric
-            self.metric = "precomputed"
+        is_ts_metric = self.metric in TSLEARN_VALID_METRICS
 
         X = check_array(X,
                         allow_nd=True,
-                        force_all_finite=(self.metric != "precomputed"))
+                        force_all_finite=(
+                            not is_ts_metric
+                            and self.metric != "precomputed"))
         X = to_time_series_dataset(X)
         X = check_dims(X)
-        if self.metric == "precomputed" and hasattr(self, '_ts_metric'):
+        if is_ts_metric:
             self._ts_fit = X
-            if self._ts_metric == 'sax':
-                if self.metric_params is not None:
-                    self._ts_fit = self._sax_preprocess(X,
-                                                        **self.metric_params)
-                else:
-                    self._ts_fit = self._sax_preprocess(X)
+            if self.metric == 'sax':
+                self._ts_fit = self._sax_preprocess(
+                    X, **self._get_metric_params())
 
             self._d = X.shape[2]
             self._X_fit = numpy.zeros((self._ts_fit.shape[0],
                                        self._ts_fit.shape[0]))
         else:
+            if hasattr(self, '_ts_fit'):  # left by a fit with another metric
+                del self._ts_fit
             self._X_fit, self._d = to_sklearn_dataset(X, return_dim=True)
-        super().fit(self._X_fit, y)
+        with self._patch_attribute(
+                "metric", "precomputed" if is_ts_metric else self.metric):
+            super().fit(self._X_fit, y)
         self.n_features_in_ = self._d
-        if hasattr(self, '_ts_metric'):
-            self.metric = self._ts_metric
         return self
 
     def predict(self, X):
@@ -593,7 +595,7 @@ class KNeighborsTimeSeriesClassifier(KNeighborsTimeSeriesMixin,
         array, shape = (n_ts, )
             Array of predicted class labels
         """
-        return _predict_generic(self, X, super().predict)
+        return _predict_generic(self, X, KNeighborsClassifier.predict)
 
     def predict_proba(self, X):
         """Predict the class probabilities for the provided data
@@ -608,7 +610,7 @@ class KNeighborsTimeSeriesClassifier(KNeighborsTimeSeriesMixin,
         array, shape = (n_ts, n_classes)
             Array of predicted class probabilities
         """
-        return _predict_generic(self, X, super().predict_proba)
+        return _predict_generic(self, X, KNeighborsClassifier.predict_proba)
 
 
 class KNeighborsTimeSeriesRegressor(KNeighborsTimeSeriesMixin,
@@ -712,26 +714,28 @@ class KNeighborsTimeSeriesRegressor(KNeighborsTimeSeriesMixin,
         KNeighborsTimeSeriesRegressor
             The fitted estimator
         """
-        if self.metric in TSLEARN_VALID_METRICS:
-            self._ts_metric = self.metric
-            self.metric = "precomputed"
+        is_ts_metric = self.metric in TSLEARN_VALID_METRICS
 
         X = check_array(X,
                         allow_nd=True,
-                        force_all_finite=(self.metric != "precomputed"))
+                        force_all_finite=(
+                            not is_ts_metric
+                            and self.metric != "precomputed"))
         X = to_time_series_dataset(X)
         X = check_dims(X)
-        if self.metric == "precomputed" and hasattr(self, '_ts_metric'):
+        if is_ts_metric:
             self._ts_fit = X
             self._d = X.shape[2]
             self._X_fit = numpy.zeros((self._ts_fit.shape[0],
                                        self._ts_fit.shape[0]))
         else:
+            if hasattr(self, '_ts_fit'):  # left by a fit with another metric
+                del self._ts_fit
             self._X_fit, self._d = to_sklearn_dataset(X, return_dim=True)
-        super().fit(self._X_fit, y)
+        with self._patch_attribute(
+                "metric", "precomputed" if is_ts_metric else self.metric):
+            super().fit(self._X_fit, y)
         self.n_features_in_ = self._d
-        if hasattr(self, '_ts_metric'):
-            self.metric = self._ts_metric
         return self
 
     def predict(self, X):
@@ -747,4 +751,4 @@ class KNeighborsTimeSeriesRegressor(KNeighborsTimeSeriesMixin,
         array, shape = (n_ts, ) or (n_ts, dim_y)
             Array of predicted targets
         """
-        return _predict_generic(self, X, super().predict)
+        return _predict_generic(self, X, KNeighborsRegressor.predict)
-- 
2.43.0


From 5d5025adc6eb3b6bb99a69e7c50493e6305a10f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:11 +0000
Subject: [PATCH 05/36] fix: 1d-SAX inverse transform returned uninitialised
 memory

When the series length is not a multiple of the number of segments, the last
timestamps were never written. They are 0 now, as for PAA and SAX.
---
 tslearn/metrics/cysax.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/metrics/cysax.py b/tslearn/metrics/cysax.py
index 1f703a6..d610781 100644
--- a/tslearn/metrics/cysax.py
+++ b/tslearn/metrics/cysax.py
@@ -209,7 +209,7 @@ def inv_transform_1d_sax(
     n_ts, sz, d_1d_sax = dataset_sax.shape
     d = d_1d_sax // 2
     seg_sz = original_size // sz
-    dataset_out = np.empty((n_ts, original_size, d))
+    dataset_out = np.zeros((n_ts, original_size, d))
 
     for i in prange(n_ts):
         for t in range(sz):
-- 
2.43.0


From 932dfd47cfeaafc4bf7920ed59ba63aa76dfa608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:34 +0000
Subject: [PATCH 06/36] fix: VARIMA.predict residuals of a series depended on
 the other series

The residuals were computed on series already aligned on their last timestamp,
so that a series shorter than the longest one of the query (or than its own
length in fit) got other residuals, hence another forecast, when q > p.
---
 tslearn/forecasting/_arima.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tslearn/forecasting/_arima.py b/tslearn/forecasting/_arima.py
index 8299f11..ee50554 100644
--- a/tslearn/forecasting/_arima.py
+++ b/tslearn/forecasting/_arima.py
@@ -385,10 +385,11 @@ class VARIMA(TimeSeriesMixin, BaseEstimator, BaseModelPackage):
             check_dims(X_, (0, 0, self.n_features_in_), check_n_features_only=True)
 
             # Retrieve last residuals and last timestamps needed to compute estimate
-            last_timestamps = self._get_last_timestamps(X_, ts_sizes)
             seasonal_differrenced_X = self._seasonal_differencing(X_)
             differenced_X = np.diff(seasonal_differrenced_X, n=self.d, axis=1)
             last_residuals = self._loss(differenced_X)[1]
+            # Aligns the time series on their last timestamps, in place
+            last_timestamps = self._get_last_timestamps(X_, ts_sizes)
 
         # Seasonal differencing
         sd_timestamps = self._seasonal_differencing(last_timestamps)
-- 
2.43.0


From 7099db4b4bfbba4eaa0457fcabb5c16bba7e2729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:28 +0000
Subject: [PATCH 07/36] fix: KShape.predict failed on more series than it was
 fitted on

predict reused the norms of the training series for the query series.
---
 tslearn/clustering/kshape.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tslearn/clustering/kshape.py b/tslearn/clustering/kshape.py
index 1f457a5..f1232ca 100644
--- a/tslearn/clustering/kshape.py
+++ b/tslearn/clustering/kshape.py
@@ -150,9 +150,11 @@ class KShape(TimeSeriesCentroidBasedClusteringMixin,
         self.norms_centroids_ = numpy.linalg.norm(self.cluster_centers_,
                                                   axis=(1, 2))
 
-    def _cross_dists(self, X):
+    def _cross_dists(self, X, norms=None):
+        if norms is None:
+            norms = self.norms_
         return 1. - cdist_normalized_cc(X, self.cluster_centers_,
-                                        norms1=self.norms_,
+                                        norms1=norms,
                                         norms2=self.norms_centroids_,
                                         self_similarity=False)
 
@@ -296,5 +298,6 @@ class KShape(TimeSeriesCentroidBasedClusteringMixin,
 
         X_ = check_dims(X, X_fit_dims=self.cluster_centers_.shape)
         X_ = TimeSeriesScalerMeanVariance(mu=0., std=1.).fit_transform(X_)
-        dists = self._cross_dists(X_)
+        dists = self._cross_dists(X_,
+                                  norms=numpy.linalg.norm(X_, axis=(1, 2)))
         return dists.argmin(axis=1)
-- 
2.43.0


From ab4ecb6603f344e1b621613afc18881314ad3aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:28 +0000
Subject: [PATCH 08/36] fix: 1d-SAX transform failed on series of different
 lengths

Slope segments were cut from the padded length of the dataset, while the
means use the length of each series.
---
 tslearn/piecewise/piecewise.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/tslearn/piecewise/piecewise.py b/tslearn/piecewise/piecewise.py
index 32faea6..a603b16 100644
--- a/tslearn/piecewise/piecewise.py
+++ b/tslearn/piecewise/piecewise.py
@@ -679,11 +679,15 @@ class OneD_SymbolicAggregateApproximation(SymbolicAggregateApproximation):
     def _get_slopes(self, X):
         n_ts, sz, d = X.shape
         X_slopes = numpy.empty((n_ts, self.n_segments, d))
-        sz_segment = sz // self.n_segments
-        for i_seg in range(self.n_segments):
-            start = i_seg * sz_segment
-            end = start + sz_segment
-            X_slopes[:, i_seg, :] = cyslopes(X[:, start:end, :], start)
+        sizes = numpy.array([_ts_size(ts) for ts in X])
+        for size in numpy.unique(sizes):
+            idx, = numpy.where(sizes == size)
+            sz_segment = size // self.n_segments
+            for i_seg in range(self.n_segments):
+                start = i_seg * sz_segment
+                end = start + sz_segment
+                X_slopes[idx, i_seg, :] = cyslopes(X[idx, start:end, :],
+                                                   start)
         return X_slopes
 
     def _transform(self, X, y=None):
-- 
2.43.0


From 9c9be8fe473cf2824060bd1459d75576d1467097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:48 +0000
Subject: [PATCH 09/36] fix: MatrixProfile lost the shorter series of a dataset

The NaN padding of series shorter than the longest one spoiled the scaling
and the distances: all their values came out as NaN.
---
 tslearn/matrix_profile/matrix_profile.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/tslearn/matrix_profile/matrix_profile.py b/tslearn/matrix_profile/matrix_profile.py
index b2ce67a..1f93bad 100644
--- a/tslearn/matrix_profile/matrix_profile.py
+++ b/tslearn/matrix_profile/matrix_profile.py
@@ -7,6 +7,7 @@ from sklearn.utils.validation import check_is_fitted
 from tslearn.bases import BaseModelPackage, TimeSeriesMixin
 from tslearn.preprocessing import TimeSeriesScalerMeanVariance
 from tslearn.utils import check_array, check_dims
+from tslearn.utils.utils import _ts_size
 
 stumpy_msg = ('stumpy is not installed, stumpy features will not be'
               'supported.\n Install stumpy to use stumpy features:'
@@ -161,7 +162,9 @@ class MatrixProfile(TimeSeriesMixin,
                                       "from the stumpy library.")
 
         output_size = sz - self.subsequence_length + 1
-        X_transformed = np.empty((n_ts, output_size, 1))
+        X_transformed = np.full((n_ts, output_size, 1), np.nan)
+        # Series shorter than the longest one are padded with NaNs
+        lengths = [_ts_size(ts) for ts in X]
 
         if self.implementation == "stump":
             if not STUMPY_INSTALLED:
@@ -169,9 +172,11 @@ class MatrixProfile(TimeSeriesMixin,
 
             for i_ts in range(n_ts):
                 result = stumpy.stump(
-                    T_A=X[i_ts, :, 0].ravel(),
+                    T_A=X[i_ts, :lengths[i_ts], 0].ravel(),
                     m=self.subsequence_length)
-                X_transformed[i_ts, :, 0] = result[:, 0].astype(float)
+                n_segments = result.shape[0]
+                X_transformed[i_ts, :n_segments, 0] = \
+                    result[:, 0].astype(float)
 
         elif self.implementation == "gpu_stump":
             if not STUMPY_INSTALLED:
@@ -179,15 +184,18 @@ class MatrixProfile(TimeSeriesMixin,
 
             for i_ts in range(n_ts):
                 result = stumpy.gpu_stump(
-                    T_A=X[i_ts, :, 0].ravel(),
+                    T_A=X[i_ts, :lengths[i_ts], 0].ravel(),
                     m=self.subsequence_length)
-                X_transformed[i_ts, :, 0] = result[:, 0].astype(float)
+                n_segments = result.shape[0]
+                X_transformed[i_ts, :n_segments, 0] = \
+                    result[:, 0].astype(float)
 
         elif self.implementation == "numpy":
             scaler = TimeSeriesScalerMeanVariance()
             band_width = int(np.ceil(self.subsequence_length / 4))
             for i_ts in range(n_ts):
-                segments = _series_to_segments(X[i_ts], self.subsequence_length)
+                segments = _series_to_segments(X[i_ts, :lengths[i_ts]],
+                                               self.subsequence_length)
                 if self.scale:
                     segments = scaler.fit_transform(segments)
                 n_segments = segments.shape[0]
@@ -198,7 +206,8 @@ class MatrixProfile(TimeSeriesMixin,
                         ~np.tri(n_segments, n_segments,
                                 -(band_width + 1), dtype=bool))
                 dists[band] = np.inf
-                X_transformed[i_ts] = dists.min(axis=1, keepdims=True)
+                X_transformed[i_ts, :n_segments] = \
+                    dists.min(axis=1, keepdims=True)
 
         else:
             available_implementations = ["numpy", "stump", "gpu_stump"]
-- 
2.43.0


From e823786b37665a0988fae0b57eaa6361426a8257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:04 +0000
Subject: [PATCH 10/36] fix: MLP queries changed n_features_in_ of the model
 they query

Two threads querying one model failed, and could leave it with the wrong
number of features.
---
 tslearn/neural_network/neural_network.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/tslearn/neural_network/neural_network.py b/tslearn/neural_network/neural_network.py
index f57849c..2f0cc28 100644
--- a/tslearn/neural_network/neural_network.py
+++ b/tslearn/neural_network/neural_network.py
@@ -1,3 +1,5 @@
+import copy
+
 from sklearn.neural_network import MLPClassifier, MLPRegressor
 from sklearn.utils.validation import check_is_fitted
 
@@ -8,6 +10,16 @@ from tslearn.utils import check_array, check_dims, to_time_series_dataset
 __author__ = 'Romain Tavenard romain.tavenard[at]univ-rennes2.fr'
 
 
+def _flat_view(model, X):
+    """Shallow copy of a model that accepts the flattened time series X.
+
+    Queries use it instead of changing the model itself.
+    """
+    model = copy.copy(model)
+    model.n_features_in_ = X.shape[1]
+    return model
+
+
 class TimeSeriesMLPClassifier(TimeSeriesMixin, MLPClassifier):
     """A Multi-Layer Perceptron classifier for time series.
 
@@ -106,8 +118,7 @@ class TimeSeriesMLPClassifier(TimeSeriesMixin, MLPClassifier):
         X_ = check_array(X, force_all_finite=True, allow_nd=True)
         X_ = check_dims(X_, self._X_fit_dims, extend=True)
         X_ = X_.reshape((X_.shape[0], -1))
-        with self._patch_attribute("n_features_in_", X_.shape[1]):
-            return super().predict(X_)
+        return MLPClassifier.predict(_flat_view(self, X_), X_)
 
     def predict_proba(self, X):
         """Predict the class probabilities for the provided data
@@ -126,8 +137,7 @@ class TimeSeriesMLPClassifier(TimeSeriesMixin, MLPClassifier):
         X_ = check_array(X, force_all_finite=True, allow_nd=True)
         X_ = check_dims(X_, self._X_fit_dims, extend=True)
         X_ = X_.reshape((X_.shape[0], -1))
-        with self._patch_attribute("n_features_in_", X_.shape[1]):
-            return super().predict_proba(X_)
+        return MLPClassifier.predict_proba(_flat_view(self, X_), X_)
 
 
 class TimeSeriesMLPRegressor(TimeSeriesMixin, MLPRegressor):
@@ -226,5 +236,4 @@ class TimeSeriesMLPRegressor(TimeSeriesMixin, MLPRegressor):
         X_ = check_array(X, force_all_finite=True, allow_nd=True)
         X_ = check_dims(X_, self._X_fit_dims, extend=True)
         X_ = X_.reshape((X_.shape[0], -1))
-        with self._patch_attribute("n_features_in_", X_.shape[1]):
-            return super().predict(X_)
+        return MLPRegressor.predict(_flat_view(self, X_), X_)
-- 
2.43.0


From 12a194868bf70cd8afa9910c0e131e7e502f568b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:33 +0000
Subject: [PATCH 11/36] fix: lcss_path and lcss_path_from_metric could loop
 forever under a constraint

The backtracking stayed for ever in a cell out of the constraint, or went
through it and returned matches that are not part of the solution.
---
 tslearn/metrics/dtw_variants.py | 80 ++++++++++++++++-----------------
 1 file changed, 40 insertions(+), 40 deletions(-)

diff --git a/tslearn/metrics/dtw_variants.py b/tslearn/metrics/dtw_variants.py
index b2e363c..20588ef 100644
--- a/tslearn/metrics/dtw_variants.py
+++ b/tslearn/metrics/dtw_variants.py
@@ -1244,15 +1244,15 @@ def _njit_return_lcss_path(s1, s2, eps, mask, acc_cost_mat, sz1, sz2):
     i, j = (sz1, sz2)
     path = []
 
-    while i > 0 and j > 0:
-        if numpy.isfinite(mask[i - 1, j - 1]):
-            if numpy.sqrt(_njit_local_squared_dist(s1[i - 1], s2[j - 1])) <= eps:
-                path.append((i - 1, j - 1))
-                i, j = (i - 1, j - 1)
-            elif acc_cost_mat[i - 1][j] > acc_cost_mat[i][j - 1]:
-                i = i - 1
-            else:
-                j = j - 1
+    # Cells out of the mask have a zero accumulated value
+    while i > 0 and j > 0 and acc_cost_mat[i][j] > 0:
+        if numpy.sqrt(_njit_local_squared_dist(s1[i - 1], s2[j - 1])) <= eps:
+            path.append((i - 1, j - 1))
+            i, j = (i - 1, j - 1)
+        elif acc_cost_mat[i - 1][j] > acc_cost_mat[i][j - 1]:
+            i = i - 1
+        else:
+            j = j - 1
     return path[::-1]
 
 
@@ -1296,19 +1296,19 @@ def _return_lcss_path(s1, s2, eps, mask, acc_cost_mat, sz1, sz2, be=None):
     i, j = (sz1, sz2)
     path = []
 
-    while i > 0 and j > 0:
-        if mask[i - 1, j - 1]:
-            if be.is_numpy:
-                squared_dist = _njit_local_squared_dist(s1[i - 1], s2[j - 1])
-            else:
-                squared_dist = _local_squared_dist(s1[i - 1], s2[j - 1])
-            if be.sqrt(squared_dist) <= eps:
-                path.append((i - 1, j - 1))
-                i, j = (i - 1, j - 1)
-            elif acc_cost_mat[i - 1][j] > acc_cost_mat[i][j - 1]:
-                i = i - 1
-            else:
-                j = j - 1
+    # Cells out of the mask have a zero accumulated value
+    while i > 0 and j > 0 and acc_cost_mat[i][j] > 0:
+        if be.is_numpy:
+            squared_dist = _njit_local_squared_dist(s1[i - 1], s2[j - 1])
+        else:
+            squared_dist = _local_squared_dist(s1[i - 1], s2[j - 1])
+        if be.sqrt(squared_dist) <= eps:
+            path.append((i - 1, j - 1))
+            i, j = (i - 1, j - 1)
+        elif acc_cost_mat[i - 1][j] > acc_cost_mat[i][j - 1]:
+            i = i - 1
+        else:
+            j = j - 1
     return path[::-1]
 
 
@@ -1344,15 +1344,15 @@ def _njit_return_lcss_path_from_dist_matrix(
     i, j = (sz1, sz2)
     path = []
 
-    while i > 0 and j > 0:
-        if numpy.isfinite(mask[i - 1, j - 1]):
-            if dist_matrix[i - 1, j - 1] <= eps:
-                path.append((i - 1, j - 1))
-                i, j = (i - 1, j - 1)
-            elif acc_cost_mat[i - 1][j] > acc_cost_mat[i][j - 1]:
-                i = i - 1
-            else:
-                j = j - 1
+    # Cells out of the mask have a zero accumulated value
+    while i > 0 and j > 0 and acc_cost_mat[i][j] > 0:
+        if dist_matrix[i - 1, j - 1] <= eps:
+            path.append((i - 1, j - 1))
+            i, j = (i - 1, j - 1)
+        elif acc_cost_mat[i - 1][j] > acc_cost_mat[i][j - 1]:
+            i = i - 1
+        else:
+            j = j - 1
     return path[::-1]
 
 
@@ -1397,15 +1397,15 @@ def _return_lcss_path_from_dist_matrix(
     i, j = (sz1, sz2)
     path = []
 
-    while i > 0 and j > 0:
-        if mask[i - 1, j - 1]:
-            if dist_matrix[i - 1, j - 1] <= eps:
-                path.append((i - 1, j - 1))
-                i, j = (i - 1, j - 1)
-            elif acc_cost_mat[i - 1][j] > acc_cost_mat[i][j - 1]:
-                i = i - 1
-            else:
-                j = j - 1
+    # Cells out of the mask have a zero accumulated value
+    while i > 0 and j > 0 and acc_cost_mat[i][j] > 0:
+        if dist_matrix[i - 1, j - 1] <= eps:
+            path.append((i - 1, j - 1))
+            i, j = (i - 1, j - 1)
+        elif acc_cost_mat[i - 1][j] > acc_cost_mat[i][j - 1]:
+            i = i - 1
+        else:
+            j = j - 1
     return path[::-1]
 
 
-- 
2.43.0


From de7244b9037c5af100a4821b40fc66c9e8ade147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:26 +0000
Subject: [PATCH 12/36] fix: KernelKMeans changed kernel_params and reused the
 sigma of earlier fits

---
 tslearn/clustering/kmeans.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/tslearn/clustering/kmeans.py b/tslearn/clustering/kmeans.py
index e9097e4..f09c18b 100644
--- a/tslearn/clustering/kmeans.py
+++ b/tslearn/clustering/kmeans.py
@@ -258,7 +258,7 @@ class KernelKMeans(TimeSeriesMixin, ClusterMixin, BaseEstimator, BaseModelPackag
         if self.kernel_params is None:
             kernel_params = {}
         else:
-            kernel_params = self.kernel_params
+            kernel_params = self.kernel_params.copy()
         if self.kernel == "gak":
             if hasattr(self, "sigma_gak_"):
                 kernel_params["sigma"] = self.sigma_gak_
@@ -275,7 +275,7 @@ class KernelKMeans(TimeSeriesMixin, ClusterMixin, BaseEstimator, BaseModelPackag
                 raise RuntimeError(
                     "The{} `sigma` parameter is close to 0 and "
                     "cannot be used with gak kernel."
-                    .format(" auto computed" if self.kernel_params.get("sigma") == "auto" else ""))
+                    .format(" auto computed" if (self.kernel_params or {}).get("sigma") == "auto" else ""))
 
         else:
             X_sklearn = to_sklearn_dataset(X)
@@ -341,9 +341,8 @@ class KernelKMeans(TimeSeriesMixin, ClusterMixin, BaseEstimator, BaseModelPackag
         rs = check_random_state(self.random_state)
 
         max_attempts = max(self.n_init, 10)
-        kernel_params = self._get_kernel_params()
         if self.kernel == "gak":
-            self.sigma_gak_ = kernel_params.get("sigma", 1.0)
+            self.sigma_gak_ = (self.kernel_params or {}).get("sigma", 1.0)
             if self.sigma_gak_ == "auto":
                 self.sigma_gak_ = sigma_gak(X, random_state=rs)
         else:
-- 
2.43.0


From 32a30620b2999c2769057316b8ba73464f183959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:01 +0000
Subject: [PATCH 13/36] fix: LearningShapelets could not be fitted again on
 longer series

fit padded and checked the series with the length seen by the earlier fit.
---
 tslearn/shapelets/shapelets.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/tslearn/shapelets/shapelets.py b/tslearn/shapelets/shapelets.py
index acbdc25..9f2dc06 100644
--- a/tslearn/shapelets/shapelets.py
+++ b/tslearn/shapelets/shapelets.py
@@ -496,9 +496,9 @@ class LearningShapelets(TimeSeriesMixin, ClassifierMixin, TransformerMixin, Base
                           FutureWarning)
 
         X, y = check_X_y(X, y, allow_nd=True, force_all_finite=False)
-        X = self._preprocess_series(X)
+        X = self._preprocess_series(X, fitting=True)
         X = check_dims(X)
-        self._check_series_length(X)
+        self._check_series_length(X, fitting=True)
 
         y_ = self._preprocess_labels(y)
         n_labels = len(self.classes_)
@@ -667,7 +667,15 @@ class LearningShapelets(TimeSeriesMixin, ClassifierMixin, TransformerMixin, Base
         )
         return locations.astype(int)
 
-    def _check_series_length(self, X):
+    def _get_max_size(self, X, fitting=False):
+        """Length series are padded to."""
+        if self.max_size is not None:
+            return self.max_size
+        if fitting or not hasattr(self, '_X_fit_dims'):
+            return X.shape[1]
+        return self._X_fit_dims[1]
+
+    def _check_series_length(self, X, fitting=False):
         """Ensures that time series in X matches the following requirements:
 
         - their length is greater than the size of the longest shapelet
@@ -686,9 +694,7 @@ class LearningShapelets(TimeSeriesMixin, ClassifierMixin, TransformerMixin, Base
                                  "length {} and longest shapelet is of length "
                                  "{}".format(self._min_sz_fit, max_sz_shp))
 
-        max_size = self.max_size
-        if max_size is None:
-            max_size = self._X_fit_dims[1] if hasattr(self, '_X_fit_dims') else X.shape[1]
+        max_size = self._get_max_size(X, fitting)
 
         if X.shape[1] > max_size:
             raise ValueError("Sizes in X do not match maximum allowed "
@@ -698,16 +704,14 @@ class LearningShapelets(TimeSeriesMixin, ClassifierMixin, TransformerMixin, Base
                              "length {} and maximum allowed size is "
                              "{}".format(X.shape[1], max_size))
 
-    def _preprocess_series(self, X):
+    def _preprocess_series(self, X, fitting=False):
         """Scale if needed, pad with nans if needed."""
         if self.scale:
             X = TimeSeriesScalerMinMax().fit_transform(X)
         else:
             X = to_time_series_dataset(X)
 
-        max_size = self.max_size
-        if max_size is None:
-            max_size = self._X_fit_dims[1] if hasattr(self, '_X_fit_dims') else X.shape[1]
+        max_size = self._get_max_size(X, fitting)
 
         if max_size > X.shape[1]:
             X_ = numpy.zeros((X.shape[0], max_size, X.shape[2]))
-- 
2.43.0


From e12a9d2e29a9ef9e349875ec259ef9003744327d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:30 +0000
Subject: [PATCH 14/36] fix: TimeSeriesSVR.fit used the global random generator
 despite random_state

---
 tslearn/svm/svm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tslearn/svm/svm.py b/tslearn/svm/svm.py
index 5d669da..0b97c42 100644
--- a/tslearn/svm/svm.py
+++ b/tslearn/svm/svm.py
@@ -588,6 +588,8 @@ class TimeSeriesSVR(TimeSeriesSVMMixin, RegressorMixin, BaseEstimator):
             tol=self.tol, cache_size=self.cache_size,
             verbose=self.verbose, max_iter=self.max_iter
         )
+        # SVR takes no random_state argument but draws a seed when fitted
+        self.svm_estimator_.random_state = self.random_state
         self.svm_estimator_.fit(sklearn_X, y, sample_weight=sample_weight)
         self.n_features_in_ = nb_features
         return self
-- 
2.43.0


From 4764ae0c8743bfc0c8897ea28d974f8dd2cff9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:24 +0000
Subject: [PATCH 15/36] fix: AutoVARIMA tried candidate models in object-hash
 order

---
 tslearn/forecasting/_arima.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/tslearn/forecasting/_arima.py b/tslearn/forecasting/_arima.py
index ee50554..b08384d 100644
--- a/tslearn/forecasting/_arima.py
+++ b/tslearn/forecasting/_arima.py
@@ -649,7 +649,7 @@ class AutoVARIMA(TimeSeriesMixin, BaseEstimator, BaseModelPackage):
         return d
 
     def _init_models(self, d):
-        models = {
+        models = [
             VARIMA(
                 0,
                 d,
@@ -659,9 +659,9 @@ class AutoVARIMA(TimeSeriesMixin, BaseEstimator, BaseModelPackage):
                 max_iter=self.max_iter,
                 verbose=self.verbose > 1,
             )
-        }
+        ]
         if self.max_p > 0:
-            models.add(
+            models.append(
                 VARIMA(
                     1,
                     d,
@@ -673,7 +673,7 @@ class AutoVARIMA(TimeSeriesMixin, BaseEstimator, BaseModelPackage):
                 )
             )
         if self.max_q > 0:
-            models.add(
+            models.append(
                 VARIMA(
                     0,
                     d,
@@ -685,7 +685,7 @@ class AutoVARIMA(TimeSeriesMixin, BaseEstimator, BaseModelPackage):
                 )
             )
         if self.max_p > 1 and self.max_q > 1:
-            models.add(
+            models.append(
                 VARIMA(
                     2,
                     d,
@@ -697,7 +697,7 @@ class AutoVARIMA(TimeSeriesMixin, BaseEstimator, BaseModelPackage):
                 ),
             )
         if d <= 1:
-            models.add(
+            models.append(
                 VARIMA(
                     0,
                     d,
@@ -738,7 +738,7 @@ class AutoVARIMA(TimeSeriesMixin, BaseEstimator, BaseModelPackage):
 
         eligible_variations = eligible_variations - computed_adjustable_hyperparams
 
-        return {
+        return [
             VARIMA(
                 p,
                 current_best_model.d,
@@ -749,7 +749,7 @@ class AutoVARIMA(TimeSeriesMixin, BaseEstimator, BaseModelPackage):
                 verbose=self.verbose > 1,
             )
             for p, q, with_constant in eligible_variations
-        }
+        ]
 
     def _get_best_model_for_given_d(self, d, X):
         adjustable_hyperparams = ["p", "q", "with_constant"]
-- 
2.43.0


From a12328a0cde555f447476a496662f13af9dfa040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:34 +0000
Subject: [PATCH 16/36] fix: None and strings nested in model parameters did
 not survive HDF5

---
 tslearn/bases/bases.py | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/tslearn/bases/bases.py b/tslearn/bases/bases.py
index 760dedc..5a8bccd 100644
--- a/tslearn/bases/bases.py
+++ b/tslearn/bases/bases.py
@@ -130,8 +130,7 @@ class BaseModelPackage(object):
             d['hyper_params'] = BaseModelPackage._listify(d['hyper_params'])
 
         elif output == 'hdf5':
-            d['hyper_params'] = \
-                BaseModelPackage._none_to_str(d['hyper_params'])
+            d = BaseModelPackage._none_to_str(d)
 
         if hyper_parameters_only:
             del d["model_params"]
@@ -141,9 +140,23 @@ class BaseModelPackage(object):
     @staticmethod
     def _none_to_str(mp):
         """Use str to store Nones. Used for HDF5"""
+        mp = dict(mp)
         for k in mp.keys():
             if mp[k] is None:
                 mp[k] = 'None'
+            elif isinstance(mp[k], dict):
+                mp[k] = BaseModelPackage._none_to_str(mp[k])
+
+        return mp
+
+    @staticmethod
+    def _str_to_none(mp):
+        """Restore the Nones stored by `_none_to_str`."""
+        for k in mp.keys():
+            if isinstance(mp[k], str) and mp[k] == 'None':
+                mp[k] = None
+            elif isinstance(mp[k], dict):
+                BaseModelPackage._str_to_none(mp[k])
 
         return mp
 
@@ -201,10 +214,11 @@ class BaseModelPackage(object):
 
     @classmethod
     def _byte2string(cls, model):
-        for param_set in ['hyper_params', 'model_params']:
-            for k in model[param_set].keys():
-                if type(model[param_set][k]) == type(b''):
-                    model[param_set][k] = model[param_set][k].decode('utf-8')
+        for k in model.keys():
+            if type(model[k]) == type(b''):
+                model[k] = model[k].decode('utf-8')
+            elif isinstance(model[k], dict):
+                cls._byte2string(model[k])
         return model
 
     def to_hdf5(self, path):
@@ -249,10 +263,7 @@ class BaseModelPackage(object):
         model = hdftools.load_dict(path, 'data')
         model = cls._byte2string(model)
 
-        for k in model['hyper_params'].keys():
-            if isinstance(model['hyper_params'][k], str):
-                if model['hyper_params'][k] == 'None':
-                    model['hyper_params'][k] = None
+        model = cls._str_to_none(model)
 
         return cls._organize_model(cls, model)
 
-- 
2.43.0


From 8319a2ec5e93500bbed8674c207a9856be9e68ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:44 +0000
Subject: [PATCH 17/36] fix: empty dictionaries and NumPy scalars did not
 survive HDF5

---
 tslearn/hdftools/hdftools.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tslearn/hdftools/hdftools.py b/tslearn/hdftools/hdftools.py
index 16239fe..498d3c7 100644
--- a/tslearn/hdftools/hdftools.py
+++ b/tslearn/hdftools/hdftools.py
@@ -82,12 +82,11 @@ def _dicts_to_group(h5file, path, d, raise_meta_fail):
                 # h5file[path + key].attrs['dtype'] = item.dtype.str
 
         # single pieces of data
-        elif isinstance(item, (str, int, np.int8,
-                               np.int16, np.int32, np.int64, float,
-                               np.float16, np.float32, np.float64)):
+        elif isinstance(item, (str, int, float, np.number, np.bool_)):
             h5file[path + key] = item
 
         elif isinstance(item, dict):
+            h5file.require_group(path + key)  # also when the dict is empty
             _dicts_to_group(
                 h5file, "{}{}/".format(path, key), item, raise_meta_fail
             )
@@ -144,7 +143,11 @@ def _dicts_from_group(h5file, path):
             if item.attrs.__contains__('dtype'):
                 ans[key] = item[()].astype(item.attrs['dtype'])
             else:
-                ans[key] = item[()]
+                value = item[()]
+                # scalars are given back as Python objects
+                if isinstance(value, np.generic):
+                    value = value.item()
+                ans[key] = value
         elif isinstance(item, h5py._hl.group.Group):
             ans[key] = _dicts_from_group(h5file, path + key + '/')
     return ans
-- 
2.43.0


From caede3583cd749610ac3dbbcf461b4f3e7bc0e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:28 +0000
Subject: [PATCH 18/36] fix: a saved MatrixProfile could not be used after
 loading

---
 tslearn/matrix_profile/matrix_profile.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tslearn/matrix_profile/matrix_profile.py b/tslearn/matrix_profile/matrix_profile.py
index 1f93bad..9e33a86 100644
--- a/tslearn/matrix_profile/matrix_profile.py
+++ b/tslearn/matrix_profile/matrix_profile.py
@@ -131,6 +131,11 @@ class MatrixProfile(TimeSeriesMixin,
         check_is_fitted(self, '_X_fit_dims')
         return True
 
+    def _get_model_params(self):
+        params = super()._get_model_params()
+        params.update({"_X_fit_dims": np.array(self._X_fit_dims)})
+        return params
+
     def _fit(self, X, y=None):
         self._X_fit_dims = X.shape
         self.n_features_in_ = X.shape[-1]
@@ -237,7 +242,7 @@ class MatrixProfile(TimeSeriesMixin,
         """
         self._is_fitted()
         X = check_array(X, allow_nd=True, force_all_finite=False)
-        X = check_dims(X, X_fit_dims=self._X_fit_dims,
+        X = check_dims(X, X_fit_dims=tuple(self._X_fit_dims),
                        check_n_features_only=True)
         return self._transform(X, y)
 
-- 
2.43.0


From 173d258384b25b68a779b417a6fb84d7896c1fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:00 +0000
Subject: [PATCH 19/36] fix: JSON models lost empty arrays and could not hold
 NumPy scalars

---
 tslearn/bases/bases.py | 52 ++++++++++++++++++++++++++++++------------
 1 file changed, 37 insertions(+), 15 deletions(-)

diff --git a/tslearn/bases/bases.py b/tslearn/bases/bases.py
index 5a8bccd..41461c5 100644
--- a/tslearn/bases/bases.py
+++ b/tslearn/bases/bases.py
@@ -166,17 +166,51 @@ class BaseModelPackage(object):
         Convert all numpy arrays in model-parameters to lists.
         Used for json support
         """
+        model_params = dict(model_params)
         for k in model_params.keys():
             param = model_params[k]
 
-            if isinstance(param, np.ndarray):
+            if isinstance(param, np.ndarray) and param.size == 0:
+                # An empty list would lose the shape
+                model_params[k] = {'empty_array_of_shape': param.shape}
+            elif isinstance(param, (np.ndarray, np.number, np.bool_)):
                 model_params[k] = param.tolist()  # for json support
-            elif isinstance(param, list) and isinstance(param[0], np.ndarray):
+            elif isinstance(param, list) and len(param) > 0 \
+                    and isinstance(param[0], np.ndarray):
                 model_params[k] = [p.tolist() for p in param]  # json support
+            elif isinstance(param, dict):
+                model_params[k] = BaseModelPackage._listify(param)
             else:
                 model_params[k] = param
         return model_params
 
+    @staticmethod
+    def _unlistify(model_params):
+        """
+        Convert the lists back to arrays.
+        Used for json support
+        """
+        for k in model_params.keys():
+            param = model_params[k]
+
+            if type(param) is list:
+                try:
+                    arr = np.array(param)
+                    if arr.dtype == object:
+                        # Then maybe it was rather a list of arrays
+                        # This is very hacky...
+                        arr = [np.array(p) for p in param]
+                except ValueError:
+                    arr = [np.array(p) for p in param]
+                model_params[k] = arr
+            elif type(param) is dict:
+                if list(param) == ['empty_array_of_shape']:
+                    model_params[k] = np.empty(param['empty_array_of_shape'])
+                elif 'model_params' in param:  # nested model
+                    for param_type in ['model_params', 'hyper_params']:
+                        BaseModelPackage._unlistify(param[param_type])
+        return model_params
+
     @staticmethod
     def _organize_model(cls, model):
         """
@@ -298,20 +332,8 @@ class BaseModelPackage(object):
         model = json.load(open(path, 'r'))
         model = cls._byte2string(model)
 
-        # Convert the lists back to arrays
         for param_type in ['model_params', 'hyper_params']:
-            for k in model[param_type].keys():
-                param = model[param_type][k]
-                if type(param) is list:
-                    try:
-                        arr = np.array(param)
-                        if arr.dtype == object:
-                            # Then maybe it was rather a list of arrays
-                            # This is very hacky...
-                            arr = [np.array(p) for p in param]
-                    except ValueError:
-                        arr = [np.array(p) for p in param]
-                    model[param_type][k] = arr
+            cls._unlistify(model[param_type])
 
         return cls._organize_model(cls, model)
 
-- 
2.43.0


From 344a2f4a54eafceaab9869f3f1df305076ed6198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:00 +0000
Subject: [PATCH 20/36] fix: fitted VARIMA and AutoVARIMA models could not be
 saved

---
 tslearn/forecasting/_arima.py | 36 +++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/tslearn/forecasting/_arima.py b/tslearn/forecasting/_arima.py
index b08384d..aff506c 100644
--- a/tslearn/forecasting/_arima.py
+++ b/tslearn/forecasting/_arima.py
@@ -179,6 +179,20 @@ class VARIMA(TimeSeriesMixin, BaseEstimator, BaseModelPackage):
     def _seasonal_period(self):
         return self.seasonal_period or 0
 
+    def _is_fitted(self):
+        check_is_fitted(self)
+        return True
+
+    def _get_model_params(self):
+        params = super()._get_model_params()
+        params.update({
+            "_min_samples": self._min_samples,
+            "_ts_sizes": np.array(self._ts_sizes),
+            "_last_residuals": self._last_residuals,
+            "_last_timestamps": self._last_timestamps,
+        })
+        return params
+
     def fit(self, X, y=None):
         """Fits a VARIMA model.
 
@@ -533,6 +547,28 @@ class AutoVARIMA(TimeSeriesMixin, BaseEstimator, BaseModelPackage):
     def _seasonal_period(self):
         return self.seasonal_period or 0
 
+    def _is_fitted(self):
+        check_is_fitted(self)
+        return True
+
+    def _get_model_params(self):
+        params = super()._get_model_params()
+        best_estimator = params.pop("best_estimator_")
+        params["_best_estimator"] = {
+            "hyper_params": best_estimator.get_params(),
+            "model_params": best_estimator._get_model_params(),
+        }
+        return params
+
+    @staticmethod
+    def _organize_model(cls, model):
+        best_estimator = model["model_params"].pop("_best_estimator")
+        inst = BaseModelPackage._organize_model(cls, model)
+        inst.best_estimator_ = BaseModelPackage._organize_model(
+            VARIMA, best_estimator
+        )
+        return inst
+
     def fit(self, X, y=None):
         """Selects the best Vector Autoregressive Moving Average (VARIMA) model
         through Hyndman-Khandakar algorithm for the given data.
-- 
2.43.0


From 16222b4d537b51ec89cb8aa388a800691598538d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:00 +0000
Subject: [PATCH 21/36] fix: nearest-neighbour models could not be saved or
 lost parameters

---
 tslearn/neighbors/neighbors.py | 60 +++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 30 deletions(-)

diff --git a/tslearn/neighbors/neighbors.py b/tslearn/neighbors/neighbors.py
index 2cffca0..b0d0d59 100644
--- a/tslearn/neighbors/neighbors.py
+++ b/tslearn/neighbors/neighbors.py
@@ -42,6 +42,36 @@ class KNeighborsTimeSeriesMixin(TimeSeriesMixin):
 
         return X_sax
 
+    def _is_fitted(self):
+        if self.metric in TSLEARN_VALID_METRICS:
+            check_is_fitted(self, '_ts_fit')
+        else:
+            check_is_fitted(self, '_X_fit')
+
+        return True
+
+    def _get_model_params(self):
+        params = super()._get_model_params()
+        for attr in ('_ts_fit', '_X_fit', '_d', '_y', '_fit_X',
+                     '_fit_method'):
+            if hasattr(self, attr):
+                params[attr] = getattr(self, attr)
+        if self.metric == "sax" and hasattr(self, '_sax'):
+            params['_sax'] = {
+                'hyper_params': self._sax.get_params(),
+                'model_params': self._sax._get_model_params()
+            }
+        return params
+
+    @staticmethod
+    def _organize_model(cls, model):
+        sax = model['model_params'].pop('_sax', None)
+        inst = BaseModelPackage._organize_model(cls, model)
+        if sax is not None:
+            inst._sax = BaseModelPackage._organize_model(
+                SymbolicAggregateApproximation, sax)
+        return inst
+
     def _as_precomputed(self):
         """Shallow copy of the model working on precomputed distances.
 
@@ -311,20 +341,6 @@ class KNeighborsTimeSeries(KNeighborsTimeSeriesMixin,
         self.n_jobs = n_jobs
         self.verbose = verbose
 
-    def _is_fitted(self):
-        if self.metric in TSLEARN_VALID_METRICS:
-            check_is_fitted(self, '_ts_fit')
-        else:
-            check_is_fitted(self, '_X_fit')
-
-        return True
-
-    def _get_model_params(self):
-        if self.metric in TSLEARN_VALID_METRICS:
-            return {'_ts_fit': self._ts_fit}
-        else:
-            return {'_X_fit': self._X_fit}
-
     def fit(self, X, y=None):
         """Fit the model using X as training data
 
@@ -523,22 +539,6 @@ class KNeighborsTimeSeriesClassifier(KNeighborsTimeSeriesMixin,
         self.n_jobs = n_jobs
         self.verbose = verbose
 
-    def _is_fitted(self):
-        check_is_fitted(self, '_ts_fit')
-        return True
-
-    def _get_model_params(self):
-        return {
-            '_X_fit': self._X_fit,
-            '_ts_fit': self._ts_fit,
-            '_d': self._d,
-            'classes_': self.classes_,
-            '_y': self._y,
-            'outputs_2d_': self.outputs_2d_,
-            '_fit_X': self._fit_X,
-            '_fit_method': self._fit_method
-        }
-
     def fit(self, X, y):
         """Fit the model using X as training data and y as target values
 
-- 
2.43.0


From 053f8a56e8032464f9a11b88d986744e5c1e70c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:26 +0000
Subject: [PATCH 22/36] fix: to_json and to_pickle ignored errors writing the
 end of the file

---
 tslearn/bases/bases.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tslearn/bases/bases.py b/tslearn/bases/bases.py
index 41461c5..b4ac63f 100644
--- a/tslearn/bases/bases.py
+++ b/tslearn/bases/bases.py
@@ -312,7 +312,8 @@ class BaseModelPackage(object):
         """
 
         d = self._to_dict(output='json')
-        json.dump(d, open(path, 'w'))
+        with open(path, 'w') as f:
+            json.dump(d, f)
 
     @classmethod
     def from_json(cls, path):
@@ -329,7 +330,8 @@ class BaseModelPackage(object):
         Model instance
         """
 
-        model = json.load(open(path, 'r'))
+        with open(path, 'r') as f:
+            model = json.load(f)
         model = cls._byte2string(model)
 
         for param_type in ['model_params', 'hyper_params']:
@@ -348,7 +350,8 @@ class BaseModelPackage(object):
         """
 
         d = self._to_dict()
-        pickle.dump(d, open(path, 'wb'), protocol=2)
+        with open(path, 'wb') as f:
+            pickle.dump(d, f, protocol=2)
 
     @classmethod
     def from_pickle(cls, path):
@@ -364,6 +367,7 @@ class BaseModelPackage(object):
         -------
         Model instance
         """
-        model = pickle.load(open(path, 'rb'))
+        with open(path, 'rb') as f:
+            model = pickle.load(f)
         model = cls._byte2string(model)
         return cls._organize_model(cls, model)
-- 
2.43.0


From 999af341911133d6882d7faa470940d006704bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:22 +0000
Subject: [PATCH 23/36] fix: HDF5 saves could report success for a broken file
 and could not be retried

---
 tslearn/hdftools/hdftools.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/tslearn/hdftools/hdftools.py b/tslearn/hdftools/hdftools.py
index 498d3c7..7b38305 100644
--- a/tslearn/hdftools/hdftools.py
+++ b/tslearn/hdftools/hdftools.py
@@ -41,9 +41,24 @@ def save_dict(d, filename, group, raise_type_fail=True):
     if os.path.isfile(filename):
         raise FileExistsError
 
-    with h5py.File(filename, 'w') as h5file:
+    # The file is built in memory: HDF5 does not report all of the I/O errors,
+    # and leaves an unusable file behind when it does.
+    with h5py.File(filename, 'w', driver='core',
+                   backing_store=False) as h5file:
         _dicts_to_group(h5file, "{}/".format(group), d,
                         raise_meta_fail=raise_type_fail)
+        h5file.flush()
+        image = h5file.id.get_file_image()
+
+    tmp_filename = "{}.tmp".format(os.fspath(filename))
+    try:
+        with open(tmp_filename, 'wb') as f:
+            f.write(image)
+        os.rename(tmp_filename, filename)
+    except BaseException:
+        if os.path.isfile(tmp_filename):
+            os.remove(tmp_filename)
+        raise
 
 
 def _dicts_to_group(h5file, path, d, raise_meta_fail):
-- 
2.43.0


From aef24062ac578fd581093c4ef22f4ae0b7f91617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:18 +0000
Subject: [PATCH 24/36] fix: extract_from_zip_url raised on download errors and
 left its temporary files

---
 tslearn/datasets/datasets.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tslearn/datasets/datasets.py b/tslearn/datasets/datasets.py
index 2576b6c..4d696e6 100644
--- a/tslearn/datasets/datasets.py
+++ b/tslearn/datasets/datasets.py
@@ -36,10 +36,10 @@ def extract_from_zip_url(url, target_dir=None, verbose=False):
     fname = Path(url).name
     tmpdir = tempfile.mkdtemp()
     local_zip_fname = Path(tmpdir) / fname
-    urlretrieve(url, local_zip_fname)
-    target_dir = Path(target_dir)
-    target_dir.mkdir(parents=True, exist_ok=True)
     try:
+        urlretrieve(url, local_zip_fname)
+        target_dir = Path(target_dir)
+        target_dir.mkdir(parents=True, exist_ok=True)
         with zipfile.ZipFile(local_zip_fname, "r") as f:
             f.extractall(path=target_dir)
         if verbose:
@@ -50,6 +50,10 @@ def extract_from_zip_url(url, target_dir=None, verbose=False):
         warnings.warn("Corrupted or missing zip file encountered, aborting",
                       category=RuntimeWarning)
         return None
+    except Exception as exception:
+        warnings.warn("Could not download or extract %s: %s" % (url, exception),
+                      category=RuntimeWarning)
+        return None
     finally:
         shutil.rmtree(tmpdir, ignore_errors=True)
 
-- 
2.43.0


From 1b30daf96620321fde9fba8448abc6a5633335b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:46 +0000
Subject: [PATCH 25/36] fix: interrupted or failed downloads left partial
 datasets in the cache or destroyed cached ones

---
 tslearn/datasets/ucr_uea.py | 52 +++++++++++++++++++++++++++----------
 1 file changed, 39 insertions(+), 13 deletions(-)

diff --git a/tslearn/datasets/ucr_uea.py b/tslearn/datasets/ucr_uea.py
index 8baa6d6..8e92a4e 100644
--- a/tslearn/datasets/ucr_uea.py
+++ b/tslearn/datasets/ucr_uea.py
@@ -2,6 +2,7 @@ import os
 import warnings
 import csv
 import shutil
+import tempfile
 from pathlib import Path
 from urllib.request import urlretrieve
 
@@ -294,20 +295,8 @@ class UCR_UEA_datasets:
         full_path = self._data_dir / dataset_name
 
         if not self._has_files(dataset_name) or not self.use_cache:
-            # completely clear the target directory first, it will be created
-            # by extract_from_zip_url if it does not exist
-            try:
-                # maybe it is a normal file (not a directory) for some obscure reason
-                full_path.unlink()
-            except FileNotFoundError:
-                pass  # nothing to do here, already deleted
-            except IsADirectoryError:
-                # we then need this function to recursively remove the directory:
-                shutil.rmtree(full_path, ignore_errors=True)
-            # else, actually raise the error!
-
             url = BASE_URL + Path(dataset_name).with_suffix(".zip").name
-            success = extract_from_zip_url(url, target_dir=full_path)
+            success = self._download(url, dataset_name)
             if not success:
                 warnings.warn("dataset \"%s\" could not be downloaded or "
                               "extracted" % dataset_name,
@@ -343,6 +332,43 @@ class UCR_UEA_datasets:
                           category=RuntimeWarning, stacklevel=2)
             return None, None, None, None
 
+    def _download(self, url, dataset_name):
+        """Download and unzip a dataset next to its final location, and move
+        it there once it is complete: an interrupted or failed download never
+        replaces nor looks like a cached dataset.
+
+        Returns
+        -------
+        bool
+            whether the dataset is now available
+        """
+        full_path = self._data_dir / dataset_name
+        staging_dir = None
+        try:
+            staging_dir = Path(tempfile.mkdtemp(prefix=".", dir=self._data_dir))
+            new_path = staging_dir / dataset_name
+            if not extract_from_zip_url(url, target_dir=new_path):
+                return False
+            for attempt in range(10):
+                try:
+                    new_path.rename(full_path)
+                    return True
+                except OSError:
+                    # another loader may have cached this dataset meanwhile
+                    if self.use_cache and self._has_files(dataset_name):
+                        return True
+                try:
+                    # put aside whatever is at that place (directory or file)
+                    full_path.rename(staging_dir / f"old{attempt}")
+                except FileNotFoundError:
+                    pass
+            return False
+        except OSError:
+            return False
+        finally:
+            if staging_dir is not None:
+                shutil.rmtree(staging_dir, ignore_errors=True)
+
     def _has_files(self, dataset_name, ext=None):
         """Determines whether some downloaded and unzipped dataset provides
         both training and test data in the given format.
-- 
2.43.0


From 604002897d3b6bcc5d4ff3124d657efe3ff24d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:06 +0000
Subject: [PATCH 26/36] fix: UCR_UEA_datasets lost its dataset lists and
 baseline scores when the network failed

---
 tslearn/datasets/ucr_uea.py | 60 ++++++++++++++++++++++---------------
 1 file changed, 36 insertions(+), 24 deletions(-)

diff --git a/tslearn/datasets/ucr_uea.py b/tslearn/datasets/ucr_uea.py
index 8e92a4e..dc2314c 100644
--- a/tslearn/datasets/ucr_uea.py
+++ b/tslearn/datasets/ucr_uea.py
@@ -81,32 +81,26 @@ class UCR_UEA_datasets:
         self._data_dir = _check_root_dir(root_dir) / "UCR_UEA"
         self._data_dir.mkdir(parents=True, exist_ok=True)
 
-        try:
-            url_multivariate = BASE_URL + "Archives/summaryMultivariate.csv"
-            self._list_multivariate_filename = (
-                self._data_dir / Path(url_multivariate).name
-            )
-            urlretrieve(url_multivariate, self._list_multivariate_filename)
-
-            url_univariate = BASE_URL + "Archives/summaryUnivariate.csv"
-            self._list_univariate_filename = (
-                self._data_dir / Path(url_univariate).name
-            )
-            urlretrieve(url_univariate, self._list_univariate_filename)
-
-            # fix typos in that CSV to match with the name in the download link
-            in_file_string_replace(self._list_univariate_filename,
-                                   "CinCECGtorso", "CinCECGTorso")
-            in_file_string_replace(self._list_univariate_filename,
-                                   "StarlightCurves", "StarLightCurves")
-
-            self._baseline_scores_filename = (
-                Path(__file__).parents[1] / ".cached_datasets" /
-                "singleTrainTest.csv"
-            )
+        url_multivariate = BASE_URL + "Archives/summaryMultivariate.csv"
+        self._list_multivariate_filename = (
+            self._data_dir / Path(url_multivariate).name
+        )
+        url_univariate = BASE_URL + "Archives/summaryUnivariate.csv"
+        self._list_univariate_filename = (
+            self._data_dir / Path(url_univariate).name
+        )
+        self._baseline_scores_filename = (
+            Path(__file__).parents[1] / ".cached_datasets" /
+            "singleTrainTest.csv"
+        )
 
+        try:
+            self._download_list(url_multivariate,
+                                self._list_multivariate_filename)
+            self._download_list(url_univariate,
+                                self._list_univariate_filename)
         except Exception:
-            self._baseline_scores_filename = None
+            pass  # keep the lists downloaded earlier, if any
 
         self._ignore_list = ["Data Descriptions"]
         # File names for datasets for which it is not obvious
@@ -120,6 +114,24 @@ class UCR_UEA_datasets:
             "StarlightCurves": "StarLightCurves"
         }
 
+    def _download_list(self, url, filename):
+        """Download a list of datasets, replacing the one downloaded earlier
+        only once the new one is complete."""
+        tmp_dir = Path(tempfile.mkdtemp(prefix=".", dir=self._data_dir))
+        try:
+            tmp_filename = tmp_dir / filename.name
+            urlretrieve(url, tmp_filename)
+
+            # fix typos in the univariate CSV to match with the name in the
+            # download link
+            in_file_string_replace(tmp_filename,
+                                   "CinCECGtorso", "CinCECGTorso")
+            in_file_string_replace(tmp_filename,
+                                   "StarlightCurves", "StarLightCurves")
+            os.replace(tmp_filename, filename)
+        finally:
+            shutil.rmtree(tmp_dir, ignore_errors=True)
+
     def baseline_accuracy(self, list_datasets=None, list_methods=None):
         """Report baseline performances as provided by UEA/UCR website (for
         univariate datasets only).
-- 
2.43.0


From 802602754a05ee63a2955526ab4fb35d26b32127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:06 +0000
Subject: [PATCH 27/36] fix: datasets in unsupported formats were not reported
 with a RuntimeWarning

---
 tslearn/datasets/ucr_uea.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tslearn/datasets/ucr_uea.py b/tslearn/datasets/ucr_uea.py
index dc2314c..18084bf 100644
--- a/tslearn/datasets/ucr_uea.py
+++ b/tslearn/datasets/ucr_uea.py
@@ -332,7 +332,8 @@ class UCR_UEA_datasets:
             else:
                 warnings.warn(
                     f'dataset "{dataset_name}" is not provided in supported '
-                    f'formats {SUPPORTED_EXT} and thus could not be loaded'
+                    f'formats {SUPPORTED_EXT} and thus could not be loaded',
+                    category=RuntimeWarning, stacklevel=2
                 )
                 return None, None, None, None
 
-- 
2.43.0


From 3a17cd86f400be5b54dccbac3b278c78bdb7171e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:06 +0000
Subject: [PATCH 28/36] fix: list_cached_datasets listed datasets that are not
 in the cache

---
 tslearn/datasets/ucr_uea.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tslearn/datasets/ucr_uea.py b/tslearn/datasets/ucr_uea.py
index 18084bf..0f7dc0e 100644
--- a/tslearn/datasets/ucr_uea.py
+++ b/tslearn/datasets/ucr_uea.py
@@ -258,7 +258,8 @@ class UCR_UEA_datasets:
         True
         """
         return [path.name for path in self._data_dir.iterdir()
-                if path.is_dir() and path.name not in self._ignore_list]
+                if path.is_dir() and path.name not in self._ignore_list
+                and self._has_files(path.name)]
 
     def load_dataset(self, dataset_name):
         """Load a dataset from the UCR/UEA archive from its name.
-- 
2.43.0


From a67988adb5930a175edc569c6e45434aee94e97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:37 +0000
Subject: [PATCH 29/36] fix: a dataset replaced by another loader meanwhile
 could be read in another format

---
 tslearn/datasets/ucr_uea.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tslearn/datasets/ucr_uea.py b/tslearn/datasets/ucr_uea.py
index 0f7dc0e..a129596 100644
--- a/tslearn/datasets/ucr_uea.py
+++ b/tslearn/datasets/ucr_uea.py
@@ -320,8 +320,11 @@ class UCR_UEA_datasets:
             # if both TXT and ARFF files are provided, the TXT versions are
             # used
             # both training and test data must be available in the same format
+            # (looked up at once: another loader may be replacing them)
+            files = {path.name for path in full_path.iterdir()}
             for ext in SUPPORTED_EXT:
-                if self._has_files(dataset_name, ext=ext):
+                if (dataset_name + f"_TRAIN.{ext}" in files and
+                        dataset_name + f"_TEST.{ext}" in files):
                     load_fn = getattr(utils, f"_load_{ext}_uea")
                     X_train, y_train = load_fn(
                         full_path / (dataset_name + f"_TRAIN.{ext}")
-- 
2.43.0


From 5ef35edc114400554b86ea47aae3c7d393af96df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:19 +0000
Subject: [PATCH 30/36] fix: k-means inertia and restarts refer to the returned
 centroids

---
 tslearn/clustering/kmeans.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tslearn/clustering/kmeans.py b/tslearn/clustering/kmeans.py
index f09c18b..a10f66e 100644
--- a/tslearn/clustering/kmeans.py
+++ b/tslearn/clustering/kmeans.py
@@ -704,6 +704,9 @@ class TimeSeriesKMeans(
         if self.verbose:
             print("")
 
+        # Labels and inertia with respect to the final centroids
+        self._assign(X)
+
         self._iter = it + 1
 
         return self
-- 
2.43.0


From 1bab36099d4b3eb4b155d3615342f26defcecdba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:19 +0000
Subject: [PATCH 31/36] fix: KernelKMeans.predict raises NotFittedError after a
 fit without clustering

---
 tslearn/clustering/kmeans.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tslearn/clustering/kmeans.py b/tslearn/clustering/kmeans.py
index a10f66e..45bc8bc 100644
--- a/tslearn/clustering/kmeans.py
+++ b/tslearn/clustering/kmeans.py
@@ -5,6 +5,7 @@ from scipy.spatial.distance import cdist
 
 from sklearn.base import ClusterMixin, TransformerMixin, BaseEstimator
 from sklearn.cluster._kmeans import _kmeans_plusplus
+from sklearn.exceptions import NotFittedError
 from sklearn.metrics.pairwise import pairwise_kernels
 from sklearn.utils import check_random_state
 from sklearn.utils.validation import _check_sample_weight
@@ -446,6 +447,10 @@ class KernelKMeans(TimeSeriesMixin, ClusterMixin, BaseEstimator, BaseModelPackag
         """
         X = check_array(X, allow_nd=True, force_all_finite=False)
         check_is_fitted(self, "_X_fit")
+        if self._X_fit is None:
+            raise NotFittedError(
+                "No clustering without empty clusters was found during fit."
+            )
         X = check_dims(X, X_fit_dims=self._X_fit.shape, check_n_features_only=True)
         K = self._get_kernel(X, self._X_fit)
         n_samples = X.shape[0]
-- 
2.43.0


From b83eb5de5157dd6b44f81797237a3304282b61d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:27 +0000
Subject: [PATCH 32/36] fix: a LearningShapelets model loaded from JSON could
 not be saved as JSON again

---
 tslearn/shapelets/shapelets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/shapelets/shapelets.py b/tslearn/shapelets/shapelets.py
index 9f2dc06..3076b2f 100644
--- a/tslearn/shapelets/shapelets.py
+++ b/tslearn/shapelets/shapelets.py
@@ -982,7 +982,7 @@ class LearningShapelets(TimeSeriesMixin, ClassifierMixin, TransformerMixin, Base
                     int(sz): nb for sz, nb in model_params[p].items()
                 }
             setattr(inst, p, model_params[p])
-        inst._X_fit_dims = tuple(inst._X_fit_dims)
+        inst._X_fit_dims = tuple(int(n) for n in inst._X_fit_dims)
         inst._build_auxiliary_models()
 
         return inst
-- 
2.43.0


From d974372505477c2a5a8c51a1bdc466683cd05e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:51 +0000
Subject: [PATCH 33/36] fix: HDF5 models with non-ASCII strings could not be
 loaded

---
 tslearn/hdftools/hdftools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tslearn/hdftools/hdftools.py b/tslearn/hdftools/hdftools.py
index 7b38305..b99a680 100644
--- a/tslearn/hdftools/hdftools.py
+++ b/tslearn/hdftools/hdftools.py
@@ -156,7 +156,7 @@ def _dicts_from_group(h5file, path):
     for key, item in h5file[path].items():
         if isinstance(item, h5py._hl.dataset.Dataset):
             if item.attrs.__contains__('dtype'):
-                ans[key] = item[()].astype(item.attrs['dtype'])
+                ans[key] = item.asstr()[()].astype(item.attrs['dtype'])
             else:
                 value = item[()]
                 # scalars are given back as Python objects
-- 
2.43.0


From c7051a5faeb4fbb411fd2de8bcf8df99a4e46ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:51 +0000
Subject: [PATCH 34/36] fix: KShape.fit failed or kept wrong centroid norms
 when its last start failed

---
 tslearn/clustering/kshape.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tslearn/clustering/kshape.py b/tslearn/clustering/kshape.py
index f1232ca..ef103c7 100644
--- a/tslearn/clustering/kshape.py
+++ b/tslearn/clustering/kshape.py
@@ -188,6 +188,8 @@ class KShape(TimeSeriesCentroidBasedClusteringMixin,
             if numpy.abs(old_inertia - self.inertia_) < self.tol or \
                     (old_inertia - self.inertia_ < 0):
                 self.cluster_centers_ = old_cluster_centers
+                self.norms_centroids_ = numpy.linalg.norm(self.cluster_centers_,
+                                                          axis=(1, 2))
                 self._assign(X)
                 break
 
@@ -252,8 +254,9 @@ class KShape(TimeSeriesCentroidBasedClusteringMixin,
             except EmptyClusterError:
                 if self.verbose:
                     print("Resumed because of empty cluster")
-        self.norms_centroids_ = numpy.linalg.norm(self.cluster_centers_,
-                                                  axis=(1, 2))
+        if best_correct_centroids is not None:
+            self.norms_centroids_ = numpy.linalg.norm(best_correct_centroids,
+                                                      axis=(1, 2))
         self._post_fit(X_, best_correct_centroids, min_inertia)
         return self
 
-- 
2.43.0


From 9fe3df84b7c6cf9026fa98da5477d236c9c9c3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:31 +0000
Subject: [PATCH 35/36] fix: a rejected first partial_fit bound an MLP to the
 shape of its series

The shape was recorded before training: after a refused call (classes missing
on the first call, wrong labels) no series of another shape was accepted, and
queries raised AttributeError instead of NotFittedError.
---
 tslearn/neural_network/neural_network.py | 30 ++++++++++++++----------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/tslearn/neural_network/neural_network.py b/tslearn/neural_network/neural_network.py
index 2f0cc28..8ca2701 100644
--- a/tslearn/neural_network/neural_network.py
+++ b/tslearn/neural_network/neural_network.py
@@ -93,13 +93,16 @@ class TimeSeriesMLPClassifier(TimeSeriesMixin, MLPClassifier):
         X_ = check_array(X, force_all_finite=True, allow_nd=True)
         if hasattr(self, "_X_fit_dims"):
             X_ = check_dims(X_, self._X_fit_dims, extend=True)
-        else:
-            X_ = to_time_series_dataset(X_)
-            self._X_fit_dims = X_.shape
-            self.n_features_in_ = self._X_fit_dims[-1]
+            X_ = X_.reshape((X_.shape[0], -1))
+            with self._patch_attribute("n_features_in_", X_.shape[1]):
+                return super().partial_fit(X_, y, *args, **kwargs)
+        X_ = to_time_series_dataset(X_)
+        fit_dims = X_.shape
         X_ = X_.reshape((X_.shape[0], -1))
-        with self._patch_attribute("n_features_in_", X_.shape[1]):
-            return super().partial_fit(X_, y, *args, **kwargs)
+        super().partial_fit(X_, y, *args, **kwargs)
+        self._X_fit_dims = fit_dims
+        self.n_features_in_ = fit_dims[-1]
+        return self
 
     def predict(self, X):
         """Predict the class labels for the provided data
@@ -211,13 +214,16 @@ class TimeSeriesMLPRegressor(TimeSeriesMixin, MLPRegressor):
         X_ = check_array(X, force_all_finite=True, allow_nd=True)
         if hasattr(self, "_X_fit_dims"):
             X_ = check_dims(X_, self._X_fit_dims, extend=True)
-        else:
-            X_ = to_time_series_dataset(X_)
-            self._X_fit_dims = X_.shape
-            self.n_features_in_ = self._X_fit_dims[-1]
+            X_ = X_.reshape((X_.shape[0], -1))
+            with self._patch_attribute("n_features_in_", X_.shape[1]):
+                return super().partial_fit(X_, y, *args, **kwargs)
+        X_ = to_time_series_dataset(X_)
+        fit_dims = X_.shape
         X_ = X_.reshape((X_.shape[0], -1))
-        with self._patch_attribute("n_features_in_", X_.shape[1]):
-            return super().partial_fit(X_, y, *args, **kwargs)
+        super().partial_fit(X_, y, *args, **kwargs)
+        self._X_fit_dims = fit_dims
+        self.n_features_in_ = fit_dims[-1]
+        return self
 
     def predict(self, X):
         """Predict the target for the provided data
-- 
2.43.0


From 7a1634a1f93259fd0bf0a732312c905949cc860e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:31 +0000
Subject: [PATCH 36/36] fix: MLPs with warm_start=True could not be fitted a
 second time

fit resets n_features_in_ to the number of features of the series, which
scikit-learn compares with the flattened series of a warm-started fit.
---
 tslearn/neural_network/neural_network.py | 26 ++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/tslearn/neural_network/neural_network.py b/tslearn/neural_network/neural_network.py
index 8ca2701..e337341 100644
--- a/tslearn/neural_network/neural_network.py
+++ b/tslearn/neural_network/neural_network.py
@@ -65,11 +65,16 @@ class TimeSeriesMLPClassifier(TimeSeriesMixin, MLPClassifier):
         """
         X_ = check_array(X, force_all_finite=True, allow_nd=True)
         X_ = to_time_series_dataset(X_)
-        self._X_fit_dims = X_.shape
+        fit_dims = X_.shape
         X_ = X_.reshape((X_.shape[0], -1))
-        estimator = super().fit(X_, y)
-        self.n_features_in_ = self._X_fit_dims[-1]
-        return estimator
+        if self.warm_start and hasattr(self, "_X_fit_dims"):
+            check_dims(X_.reshape(fit_dims), self._X_fit_dims)
+            with self._patch_attribute("n_features_in_", X_.shape[1]):
+                return super().fit(X_, y)
+        super().fit(X_, y)
+        self._X_fit_dims = fit_dims
+        self.n_features_in_ = fit_dims[-1]
+        return self
 
     def partial_fit(self, X, y, *args, **kwargs):
         """Update the model with a single iteration over the given data.
@@ -186,11 +191,16 @@ class TimeSeriesMLPRegressor(TimeSeriesMixin, MLPRegressor):
         """
         X_ = check_array(X, force_all_finite=True, allow_nd=True)
         X_ = to_time_series_dataset(X_)
-        self._X_fit_dims = X_.shape
+        fit_dims = X_.shape
         X_ = X_.reshape((X_.shape[0], -1))
-        estimator = super(TimeSeriesMLPRegressor, self).fit(X_, y)
-        self.n_features_in_ = self._X_fit_dims[-1]
-        return estimator
+        if self.warm_start and hasattr(self, "_X_fit_dims"):
+            check_dims(X_.reshape(fit_dims), self._X_fit_dims)
+            with self._patch_attribute("n_features_in_", X_.shape[1]):
+                return super().fit(X_, y)
+        super().fit(X_, y)
+        self._X_fit_dims = fit_dims
+        self.n_features_in_ = fit_dims[-1]
+        return self
 
     def partial_fit(self, X, y, *args, **kwargs):
         """Update the model with a single iteration over the given data.
-- 
2.43.0

