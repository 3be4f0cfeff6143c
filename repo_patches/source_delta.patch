From ccbd228b843df2ada209c74e60207d8a74fd6ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:28 +0000
Subject: [PATCH 01/37] fix: baseline_constant keeps NaNs in wet as NaN
 baseline instead of treating them as wet

---
 pycomlink/processing/baseline.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pycomlink/processing/baseline.py b/pycomlink/processing/baseline.py
index ee8d071..bf7aae1 100644
--- a/pycomlink/processing/baseline.py
+++ b/pycomlink/processing/baseline.py
@@ -43,7 +43,7 @@ def baseline_constant(trsl, wet, n_average_last_dry=1):
 
     return _numba_baseline_constant(
         trsl=np.asarray(trsl, dtype=np.float64),
-        wet=np.asarray(wet, dtype=bool),
+        wet=np.asarray(wet, dtype=np.float64),
         n_average_last_dry=n_average_last_dry,
     )
 
@@ -52,12 +52,15 @@ def baseline_constant(trsl, wet, n_average_last_dry=1):
 def _numba_baseline_constant(trsl, wet, n_average_last_dry):
     baseline = np.zeros_like(trsl, dtype=np.float64)
     baseline[0:n_average_last_dry] = trsl[0:n_average_last_dry]
-    for i in range(n_average_last_dry, len(trsl)):
+    for i in range(len(trsl)):
         if np.isnan(wet[i]):
             baseline[i] = np.nan
-        elif wet[i] & ~wet[i - 1]:
+        elif i < n_average_last_dry:
+            continue
+        elif wet[i] != 0 and wet[i - 1] == 0:
             baseline[i] = np.mean(baseline[(i - n_average_last_dry) : i])
-        elif wet[i] & wet[i - 1]:
+        elif wet[i] != 0:
+            # also after a NaN in `wet`, in which case the NaN is carried on
             baseline[i] = baseline[i - 1]
         else:
             baseline[i] = trsl[i]
-- 
2.43.0


From 4f42075f0d32b626eb8eb67f8651a6cc24ad818c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:45 +0000
Subject: [PATCH 02/37] fix: baseline_linear returns NaN instead of 0 for a wet
 period that has not ended

---
 pycomlink/processing/baseline.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pycomlink/processing/baseline.py b/pycomlink/processing/baseline.py
index bf7aae1..1e745be 100644
--- a/pycomlink/processing/baseline.py
+++ b/pycomlink/processing/baseline.py
@@ -161,4 +161,7 @@ def _numba_baseline_linear(rsl, wet, ignore_nan=False):
         else:
             # print('This should be impossible')
             raise
+    # a wet period which has not ended has no known baseline level at its end
+    if last_i_is_wet:
+        baseline[last_dry_i + 1 :] = np.nan
     return baseline
-- 
2.43.0


From caf96f512a894928ef6f78b3fae1b1b1aaf964eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:50 +0000
Subject: [PATCH 03/37] fix: do not wrap around the ends of the time series
 when marking blackout gaps

---
 pycomlink/processing/blackout_gap_detection.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pycomlink/processing/blackout_gap_detection.py b/pycomlink/processing/blackout_gap_detection.py
index cc410c7..f07f550 100644
--- a/pycomlink/processing/blackout_gap_detection.py
+++ b/pycomlink/processing/blackout_gap_detection.py
@@ -27,8 +27,9 @@ def get_blackout_start_and_end(rsl, rsl_threshold):
     with np.errstate(invalid="ignore"):
         rsl_below_threshold = rsl < rsl_threshold
     rsl_nan = np.isnan(rsl)
-    gap_start = np.roll(rsl_nan, -1) & rsl_below_threshold
-    gap_end = np.roll(rsl_nan, 1) & rsl_below_threshold
+    # do not wrap around, there is no neighbor beyond the ends of the time series
+    gap_start = np.append(rsl_nan[1:], False) & rsl_below_threshold
+    gap_end = np.insert(rsl_nan[:-1], 0, False) & rsl_below_threshold
 
     return gap_start, gap_end
 
-- 
2.43.0


From 6cd6b6369cbb66374930109e6257d583529c671f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:36 +0000
Subject: [PATCH 04/37] fix: reject unknown, missing and surplus arguments when
 applying functions to DataArrays

---
 pycomlink/processing/xarray_wrapper.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/pycomlink/processing/xarray_wrapper.py b/pycomlink/processing/xarray_wrapper.py
index 77b9da7..7371356 100644
--- a/pycomlink/processing/xarray_wrapper.py
+++ b/pycomlink/processing/xarray_wrapper.py
@@ -64,13 +64,7 @@ def _get_new_args_dict(func, args, kwargs):
     xarray.apply_ufunc in the xarray wrapper.
 
     """
-    new_args_dict = OrderedDict()
-    for i, (arg, parameter) in enumerate(inspect.signature(func).parameters.items()):
-        if i < len(args):
-            new_args_dict[arg] = args[i]
-        elif arg in kwargs.keys():
-            new_args_dict[arg] = kwargs[arg]
-        else:
-            new_args_dict[arg] = parameter.default
+    bound_args = inspect.signature(func).bind(*args, **kwargs)
+    bound_args.apply_defaults()
 
-    return new_args_dict
+    return OrderedDict(bound_args.arguments)
-- 
2.43.0


From 222d10b7bc37e92478864647cdcd25a11df964d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:42 +0000
Subject: [PATCH 05/37] fix: get_blackout_start_and_end works with DataArrays
 with a time dimension

---
 pycomlink/processing/blackout_gap_detection.py | 2 +-
 pycomlink/processing/xarray_wrapper.py         | 9 +++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/pycomlink/processing/blackout_gap_detection.py b/pycomlink/processing/blackout_gap_detection.py
index f07f550..4c89843 100644
--- a/pycomlink/processing/blackout_gap_detection.py
+++ b/pycomlink/processing/blackout_gap_detection.py
@@ -3,7 +3,7 @@ import numba
 from .xarray_wrapper import xarray_apply_along_time_dim
 
 
-@xarray_apply_along_time_dim()
+@xarray_apply_along_time_dim(n_outputs=2)
 def get_blackout_start_and_end(rsl, rsl_threshold):
     """
     Identify nan gaps as blackout gaps caused by heavy attenuation based on
diff --git a/pycomlink/processing/xarray_wrapper.py b/pycomlink/processing/xarray_wrapper.py
index 7371356..5107bad 100644
--- a/pycomlink/processing/xarray_wrapper.py
+++ b/pycomlink/processing/xarray_wrapper.py
@@ -4,13 +4,18 @@ import inspect
 import xarray as xr
 
 
-def xarray_apply_along_time_dim():
+def xarray_apply_along_time_dim(n_outputs=1):
     """
     A decorator to apply CML processing function along the time dimension of DataArrays
 
     This will work if the decorated function takes 1D numpy arrays, which hold the
     CML time series data, as arguments. Additional argument are also handled.
 
+    Parameters
+    ----------
+    n_outputs : int
+        Number of 1D arrays that the decorated function returns
+
     """
 
     def decorator(func):
@@ -44,7 +49,7 @@ def xarray_apply_along_time_dim():
                     func,
                     *list(new_args_dict.values()),
                     input_core_dims=input_core_dims,
-                    output_core_dims=[["time"]],
+                    output_core_dims=[["time"]] * n_outputs,
                     vectorize=True,
                 )
 
-- 
2.43.0


From 8a80dbe748a29997d60f3e4ba847f24c72eb7988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:22 +0000
Subject: [PATCH 06/37] fix: calc_R_from_A accepts a str pol and NaN or
 negative A together with an array of frequencies

---
 pycomlink/processing/k_R_relation.py         | 8 ++++++--
 pycomlink/processing/nearby_rain_retrival.py | 3 ++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/pycomlink/processing/k_R_relation.py b/pycomlink/processing/k_R_relation.py
index 60c8c9a..6358cb9 100644
--- a/pycomlink/processing/k_R_relation.py
+++ b/pycomlink/processing/k_R_relation.py
@@ -79,7 +79,8 @@ def calc_R_from_A(
         # dimensions in certain cases. That interferes with our xarray-wrapper
         # decorator.
         f_GHz = np.atleast_1d(f_GHz).astype(float)
-        pol = np.atleast_1d(pol)
+        if not isinstance(pol, str):
+            pol = np.atleast_1d(pol)
         a, b = a_b(f_GHz, pol=pol, approx_type=a_b_approximation)
     elif (a is not None) and (b is not None) and (f_GHz is None) and (pol is None):
         # in this case we use `a` and `b` from args
@@ -91,6 +92,8 @@ def calc_R_from_A(
         )
 
     A = np.atleast_1d(A).astype(float)
+    # make sure that the masks derived from A can be applied to all arrays
+    A, a, b, L_km = np.broadcast_arrays(A, a, b, L_km)
     R = np.zeros_like(A)
 
     nan_index = np.isnan(A)
@@ -98,7 +101,8 @@ def calc_R_from_A(
 
     # This ignores the numpy warning stemming from A >=0 where A contains NaNs
     with np.errstate(invalid="ignore"):
-        R[~nan_index & (A >= 0)] = (A[~nan_index & (A >= 0)] / (a * L_km)) ** (1 / b)
+        pos_index = ~nan_index & (A >= 0)
+        R[pos_index] = (A[pos_index] / (a * L_km)[pos_index]) ** (1 / b[pos_index])
         R[~nan_index & (R < R_min)] = 0
     return R
 
diff --git a/pycomlink/processing/nearby_rain_retrival.py b/pycomlink/processing/nearby_rain_retrival.py
index 5955ac7..5bc0af3 100644
--- a/pycomlink/processing/nearby_rain_retrival.py
+++ b/pycomlink/processing/nearby_rain_retrival.py
@@ -195,7 +195,8 @@ def nearby_rainfall_retrival(
         # dimensions in certain cases. That interferes with our xarray-wrapper
         # decorator.
         f_GHz = np.atleast_1d(f_GHz).astype(float)
-        pol = np.atleast_1d(pol)
+        if not isinstance(pol, str):
+            pol = np.atleast_1d(pol)
         a, b = a_b(f_GHz, pol=pol, approx_type=a_b_approximation)
     elif (a is not None) and (b is not None) and (f_GHz is None) and (pol is None):
         # in this case we use `a` and `b` from args
-- 
2.43.0


From de0ee5858ddafaaeb627fa92085ddf19be672871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:26 +0000
Subject: [PATCH 07/37] fix: WAA functions accept scalar rain rates

---
 pycomlink/processing/wet_antenna.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomlink/processing/wet_antenna.py b/pycomlink/processing/wet_antenna.py
index 770d465..c1ed838 100644
--- a/pycomlink/processing/wet_antenna.py
+++ b/pycomlink/processing/wet_antenna.py
@@ -293,7 +293,7 @@ def waa_leijnse_2008(
     waa = 10 * np.log10(np.abs((x1 + x2 + x3 + x4) / (2 * n_water * (y1 + y2))) ** 2)
 
     # Assure that numeric inaccuracy does not lead to waa > 0 for R == 0
-    waa[R == 0] = 0
+    waa = waa * (R != 0)
 
     return waa
 
@@ -416,7 +416,7 @@ def waa_pastorek_2021(
     waa = A_max * (1 - np.exp(-d * (R**zeta)))
 
     # Assure that numeric inaccuracy does not lead to waa > 0 for R == 0
-    waa[R == 0] = 0
+    waa = waa * (R != 0)
 
     return waa  # @xarray_apply_along_time_dim()
 
-- 
2.43.0


From d839d966cb64f68463f64eaae951b3473f828412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:30 +0000
Subject: [PATCH 08/37] fix: find_lowest_std_dev_period does not use the
 removed mlab.find and returns the found window

---
 pycomlink/processing/wet_dry/stft.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pycomlink/processing/wet_dry/stft.py b/pycomlink/processing/wet_dry/stft.py
index b2e0fbb..76cfd4b 100644
--- a/pycomlink/processing/wet_dry/stft.py
+++ b/pycomlink/processing/wet_dry/stft.py
@@ -15,7 +15,6 @@ from __future__ import division
 
 from builtins import range
 import numpy as np
-from matplotlib import mlab
 from matplotlib.mlab import specgram as specg
 import pandas as pd
 
@@ -212,13 +211,13 @@ def find_lowest_std_dev_period(rsl, window_length=600):
     int
         Index of beginning of dry period
     int
-        Index of end of dry period
+        Index of end of dry period (exclusive)
 
     """
 
-    roll_std_dev = pd.DataFrame(rsl).rolling(window_length).std()
-    dry_stop = mlab.find(roll_std_dev == np.nanmin(roll_std_dev))
-    dry_stop = dry_stop[0]
+    roll_std_dev = pd.Series(rsl).rolling(window_length).std().values
+    # the rolling window ends with (and includes) the value at its index
+    dry_stop = np.nanargmin(roll_std_dev) + 1
     dry_start = dry_stop - window_length
     return dry_start, dry_stop
 
-- 
2.43.0


From 181d5e061df2d26d4171cf02e7f10472e4a2a71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:35 +0000
Subject: [PATCH 09/37] fix: stft_classification works with mirror=True

---
 pycomlink/processing/wet_dry/stft.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pycomlink/processing/wet_dry/stft.py b/pycomlink/processing/wet_dry/stft.py
index 76cfd4b..7b7a675 100644
--- a/pycomlink/processing/wet_dry/stft.py
+++ b/pycomlink/processing/wet_dry/stft.py
@@ -104,7 +104,7 @@ def stft_classification(
             NFFT = window_length
 
         if window is None:
-            window = np.hamming(window_length)
+            window = np.hamming(NFFT)
 
         # Calculate spectrogram using STFT
         Pxx, f, t = specg(
@@ -128,15 +128,15 @@ def stft_classification(
     N_missing_start = np.floor(N_diff / 2)
 
     if mirror:
-        for i in range((len(rsl) - 1) - (NFFT / 2 - 1), len(rsl)):
+        for i in range((len(rsl) - 1) - (NFFT // 2 - 1), len(rsl)):
             rsl_mirr = np.concatenate(
-                (rsl[i - (NFFT / 2 - 1) : i], rsl[i - (NFFT / 2 - 1) : i][::-1])
+                (rsl[i - (NFFT // 2 - 1) : i], rsl[i - (NFFT // 2 - 1) : i][::-1])
             )
             Pxx_mirr, f, t = specg(
                 rsl_mirr, NFFT=NFFT, Fs=f_sampling, noverlap=NFFT - 1, window=window
             )
 
-            if i == (len(rsl) - 1) - (NFFT / 2 - 1):
+            if i == (len(rsl) - 1) - (NFFT // 2 - 1):
                 Pxx_end = Pxx_mirr
             else:
                 Pxx_end = np.append(Pxx_end, Pxx_mirr, 1)
-- 
2.43.0


From 7c39b45883739a2e645c3ba06051093ec14de3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:39 +0000
Subject: [PATCH 10/37] fix: calc_coverage_mask does not use the removed
 cascaded_union

---
 pycomlink/spatial/coverage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomlink/spatial/coverage.py b/pycomlink/spatial/coverage.py
index e218513..7b6c146 100644
--- a/pycomlink/spatial/coverage.py
+++ b/pycomlink/spatial/coverage.py
@@ -49,7 +49,7 @@ def calc_coverage_mask(cml_list, xgrid, ygrid, max_dist_from_cml):
             ).buffer(max_dist_from_cml, cap_style=1)
         )
 
-    cml_multi_line = ops.cascaded_union(cml_lines)
+    cml_multi_line = ops.unary_union(cml_lines)
 
     # Generate list of grid points
     grid_points = []
-- 
2.43.0


From 4f19fa884607e6c460ac9f640195f9a60b69094d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:28 +0000
Subject: [PATCH 11/37] fix: mirrored window of stft_classification has the
 length of the window

---
 pycomlink/processing/wet_dry/stft.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pycomlink/processing/wet_dry/stft.py b/pycomlink/processing/wet_dry/stft.py
index 7b7a675..b2c1998 100644
--- a/pycomlink/processing/wet_dry/stft.py
+++ b/pycomlink/processing/wet_dry/stft.py
@@ -130,7 +130,10 @@ def stft_classification(
     if mirror:
         for i in range((len(rsl) - 1) - (NFFT // 2 - 1), len(rsl)):
             rsl_mirr = np.concatenate(
-                (rsl[i - (NFFT // 2 - 1) : i], rsl[i - (NFFT // 2 - 1) : i][::-1])
+                (
+                    rsl[i - (NFFT // 2 - 1) : i + 1],
+                    rsl[i - (NFFT // 2 - 1) : i + 1][::-1],
+                )
             )
             Pxx_mirr, f, t = specg(
                 rsl_mirr, NFFT=NFFT, Fs=f_sampling, noverlap=NFFT - 1, window=window
-- 
2.43.0


From 2a3b1d8940fc4c19e7187c20cd1b519eef3b9020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:33 +0000
Subject: [PATCH 12/37] fix: interpolating only NaNs onto a grid with integer
 coordinates returns NaNs

---
 pycomlink/spatial/interpolator.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pycomlink/spatial/interpolator.py b/pycomlink/spatial/interpolator.py
index 973c22a..09e277a 100644
--- a/pycomlink/spatial/interpolator.py
+++ b/pycomlink/spatial/interpolator.py
@@ -54,9 +54,7 @@ class PointsToGridInterpolator(with_metaclass(abc.ABCMeta, object)):
             x_list=x, y_list=y, xgrid=xgrid, ygrid=ygrid, resolution=resolution
         )
         if (~pd.isnull(z)).sum() == 0:
-            zgrid = np.zeros_like(self.xgrid)
-            zgrid[:] = np.nan
-            self.zgrid = zgrid
+            self.zgrid = np.full(np.shape(self.xgrid), np.nan)
 
         else:
             zi = self._interpol_func(
-- 
2.43.0


From 656cdc0ce235160d95d8723c693f8c372b92f6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:38 +0000
Subject: [PATCH 13/37] fix: IDW does not reuse neighbours found with a
 different max_distance

---
 pycomlink/spatial/idw.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pycomlink/spatial/idw.py b/pycomlink/spatial/idw.py
index 8eaf584..da0065d 100644
--- a/pycomlink/spatial/idw.py
+++ b/pycomlink/spatial/idw.py
@@ -99,6 +99,8 @@ class Invdisttree(object):
             and np.array_equal(nnear, self.nnear)
             and hasattr(self, "eps")
             and np.array_equal(eps, self.eps)
+            and hasattr(self, "max_distance")
+            and max_distance == self.max_distance
         ):
             # Do nothing here
             # print 'reuse `distances`'
@@ -110,6 +112,7 @@ class Invdisttree(object):
             self.q = q
             self.nnear = nnear
             self.eps = eps
+            self.max_distance = max_distance
 
         self.z = z
 
-- 
2.43.0


From af5c32927e4011bf04265e0d15ee6e1eda76c628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:43 +0000
Subject: [PATCH 14/37] fix: IDW does not reuse old results if coordinate
 arrays are modified in place

---
 pycomlink/spatial/idw.py          | 2 +-
 pycomlink/spatial/interpolator.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycomlink/spatial/idw.py b/pycomlink/spatial/idw.py
index da0065d..d1a1094 100644
--- a/pycomlink/spatial/idw.py
+++ b/pycomlink/spatial/idw.py
@@ -109,7 +109,7 @@ class Invdisttree(object):
             self.distances, self.ix = self.tree.query(
                 q, k=nnear, eps=eps, distance_upper_bound=max_distance
             )
-            self.q = q
+            self.q = q.copy()
             self.nnear = nnear
             self.eps = eps
             self.max_distance = max_distance
diff --git a/pycomlink/spatial/interpolator.py b/pycomlink/spatial/interpolator.py
index 09e277a..fd254d7 100644
--- a/pycomlink/spatial/interpolator.py
+++ b/pycomlink/spatial/interpolator.py
@@ -101,8 +101,8 @@ class IdwKdtreeInterpolator(PointsToGridInterpolator):
             # print('Building new `Invdistree`')
             idw = Invdisttree(X=list(zip(x, y)))
             self.idw = idw
-            self.x = x
-            self.y = y
+            self.x = x.copy()
+            self.y = y.copy()
 
         zi = idw(
             q=list(zip(xi, yi)),
-- 
2.43.0


From 810095b70eb9d160b4f2f203fa7170476bc23c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:25 +0000
Subject: [PATCH 15/37] fix: labels of temporal aggregation respect
 new_index_tz

---
 pycomlink/util/temporal.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pycomlink/util/temporal.py b/pycomlink/util/temporal.py
index 6f2f319..d451c4d 100644
--- a/pycomlink/util/temporal.py
+++ b/pycomlink/util/temporal.py
@@ -47,6 +47,7 @@ def aggregate_df_onto_DatetimeIndex(
     # Update time zone info if there is none
     if not df_new_t.index.tzinfo:
         df_new_t.index = df_new_t.index.tz_localize(new_index_tz)
+        df_new_t["time"] = df_new_t.index.tz_convert(df_temp.index.tzinfo)
 
     # Crop both time series to make them cover the same period.
     # This is to avoid the ffill or bfill to run outside of the
@@ -64,11 +65,7 @@ def aggregate_df_onto_DatetimeIndex(
     # Aggregate data onto new DatetimeIndex
     df_temp["new_time_ix"] = df_new_t.time
     df_reindexed = df_temp.groupby("new_time_ix").agg(method)
-    # Update name and timezone of new index
+    # Update name of new index
     df_reindexed.index.name = df_temp.index.name
-    if not df_reindexed.index.tzinfo:
-        df_reindexed.index = df_reindexed.index.tz_localize("UTC").tz_convert(
-            df_temp.index.tzinfo
-        )
 
     return df_reindexed
-- 
2.43.0


From ed2aba95d1ceec560760ce3849ae9134ff1fd82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:30 +0000
Subject: [PATCH 16/37] fix: temporal aggregation works with an index in a
 different time zone

---
 pycomlink/util/temporal.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pycomlink/util/temporal.py b/pycomlink/util/temporal.py
index d451c4d..4d1df11 100644
--- a/pycomlink/util/temporal.py
+++ b/pycomlink/util/temporal.py
@@ -49,6 +49,9 @@ def aggregate_df_onto_DatetimeIndex(
         df_new_t.index = df_new_t.index.tz_localize(new_index_tz)
         df_new_t["time"] = df_new_t.index.tz_convert(df_temp.index.tzinfo)
 
+    # Use the same time zone for both indices, which is required for slicing below
+    df_new_t.index = df_new_t.index.tz_convert(df_temp.index.tzinfo)
+
     # Crop both time series to make them cover the same period.
     # This is to avoid the ffill or bfill to run outside of the
     # range of the new index, which produces wrong result for the
-- 
2.43.0


From 773ce4a3f333c21d58bc1271255f343708851f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:03 +0000
Subject: [PATCH 17/37] fix: F of nearby_wetdry is summed over timeperiod hours
 for all intervals

---
 pycomlink/processing/wet_dry/nearby_wetdry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomlink/processing/wet_dry/nearby_wetdry.py b/pycomlink/processing/wet_dry/nearby_wetdry.py
index bb26fa5..4eeb434 100644
--- a/pycomlink/processing/wet_dry/nearby_wetdry.py
+++ b/pycomlink/processing/wet_dry/nearby_wetdry.py
@@ -206,7 +206,7 @@ def nearby_wetdry(
 
             # calculate the F values which can be used as outlier filter
             F_val = ds_nearby_cmls.deltaPL.sel(cml_id=cmlid) - medianPL
-            F.loc[dict(cml_id=cmlid)] = F_val.rolling(time=timeperiod * 4).sum(
+            F.loc[dict(cml_id=cmlid)] = F_val.rolling(time=period).sum(
                 skipna=True
             ) * (interval / 60)
 
-- 
2.43.0


From 27608bf2afcd636fcacbf7d665294ded698aca72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:07 +0000
Subject: [PATCH 18/37] fix: nearby_wetdry does not modify the distances passed
 by the caller

---
 pycomlink/processing/wet_dry/nearby_wetdry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycomlink/processing/wet_dry/nearby_wetdry.py b/pycomlink/processing/wet_dry/nearby_wetdry.py
index 4eeb434..a8b20cb 100644
--- a/pycomlink/processing/wet_dry/nearby_wetdry.py
+++ b/pycomlink/processing/wet_dry/nearby_wetdry.py
@@ -155,7 +155,7 @@ def nearby_wetdry(
     deltaPL = deltaP / pmin.length
 
     # get number of CMLs within radius for each CML
-    ds_dist["within_r"] = (
+    within_r = (
         (ds_dist.a_to_all_a < radius)
         & (ds_dist.a_to_all_b < radius)
         & (ds_dist.b_to_all_a < radius)
@@ -174,10 +174,10 @@ def nearby_wetdry(
 
     for cmlid in tqdm(ds_cml.cml_id):
         # only make wet dry detection if min_links is reached within radius
-        if sum(ds_dist.within_r.sel(cml_id1=cmlid).values) > min_links:
+        if sum(within_r.sel(cml_id1=cmlid).values) > min_links:
             # select all CMLs within r
             ds_nearby_cmls = ds_cml.isel(
-                cml_id=ds_dist.within_r.sel(cml_id1=cmlid).values
+                cml_id=within_r.sel(cml_id1=cmlid).values
             )
 
             # calculate median delta P and delta PL for each timestep
-- 
2.43.0


From 2c9bacbf9f6be9ad34ea94c1f1f9a180be628864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:35 +0000
Subject: [PATCH 19/37] fix: rain error metrics count values equal to the
 threshold as wet, as documented

---
 pycomlink/validation/stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomlink/validation/stats.py b/pycomlink/validation/stats.py
index 01db22a..1cb74c1 100644
--- a/pycomlink/validation/stats.py
+++ b/pycomlink/validation/stats.py
@@ -291,9 +291,9 @@ def calc_rain_error_performance_metrics(reference, predicted, rainfall_threshold
     R_mean_predicted = predicted.mean()
 
     # calculate false and missed wet rates and the precipitation at these times
-    reference_wet = reference > rainfall_threshold_wet
+    reference_wet = reference >= rainfall_threshold_wet
     reference_dry = ~reference_wet
-    predicted_wet = predicted > rainfall_threshold_wet
+    predicted_wet = predicted >= rainfall_threshold_wet
     predicted_dry = ~predicted_wet
 
     N_false_wet = (reference_dry & predicted_wet).sum()
-- 
2.43.0


From 11db1fdff2317360a96993d6decb32786a43f362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:41 +0000
Subject: [PATCH 20/37] fix: list_cached_models lists the cached models

---
 pycomlink/processing/pytorch_utils/inference_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomlink/processing/pytorch_utils/inference_utils.py b/pycomlink/processing/pytorch_utils/inference_utils.py
index d71fac1..e1b2361 100644
--- a/pycomlink/processing/pytorch_utils/inference_utils.py
+++ b/pycomlink/processing/pytorch_utils/inference_utils.py
@@ -102,7 +102,7 @@ def list_cached_models(cache_dir="~/.cml_wd_pytorch/models", suffix=".pt"):
     """
     cache_dir = Path(cache_dir).expanduser()
     if cache_dir.exists():
-        return list(cache_dir.glob(suffix))
+        return list(cache_dir.glob(f"*{suffix}"))
     return []
 
 
-- 
2.43.0


From 97392b7b2e11a2a0834b21bbe09de3cc21bb7541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:46 +0000
Subject: [PATCH 21/37] fix: redistribute_results does not drop predictions
 with an extra dimension

---
 pycomlink/processing/pytorch_utils/run_inference.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycomlink/processing/pytorch_utils/run_inference.py b/pycomlink/processing/pytorch_utils/run_inference.py
index 062c2c9..3d38cd8 100644
--- a/pycomlink/processing/pytorch_utils/run_inference.py
+++ b/pycomlink/processing/pytorch_utils/run_inference.py
@@ -151,7 +151,8 @@ def redistribute_results(results, data):
     Returns:
         xarray.Dataset: Dataset with predictions added as a new variable
     """
-    predictions = results["predictions"]  # Remove any extra dimensions
+    # Remove any extra dimensions
+    predictions = np.reshape(results["predictions"], len(results["cml_ids"]))
     cml_ids = results["cml_ids"]  # Already numpy array
     times = results["times"]  # Already numpy array
 
-- 
2.43.0


From 20f936f567b21c8b400cd56f61c2d1417416c0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:11 +0000
Subject: [PATCH 22/37] fix: interrupted downloads do not end up as cached
 models

---
 pycomlink/processing/pytorch_utils/inference_utils.py    | 5 ++++-
 pycomlink/processing/tensorflow_utils/inference_utils.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/pycomlink/processing/pytorch_utils/inference_utils.py b/pycomlink/processing/pytorch_utils/inference_utils.py
index e1b2361..a199237 100644
--- a/pycomlink/processing/pytorch_utils/inference_utils.py
+++ b/pycomlink/processing/pytorch_utils/inference_utils.py
@@ -66,7 +66,10 @@ def download_and_cache_model(
 
     if not cached_path.exists() or force_download:
         print(f"Downloading model from {model_url}...")
-        urllib.request.urlretrieve(model_url, cached_path)
+        # an interrupted download must not be mistaken for a cached model
+        partial_path = cached_path.with_name(cached_path.name + ".part")
+        urllib.request.urlretrieve(model_url, partial_path)
+        partial_path.replace(cached_path)
         print(f"Model cached at {cached_path}")
     else:
         print(f"Using cached model at {cached_path}")
diff --git a/pycomlink/processing/tensorflow_utils/inference_utils.py b/pycomlink/processing/tensorflow_utils/inference_utils.py
index c58418c..aa526c0 100644
--- a/pycomlink/processing/tensorflow_utils/inference_utils.py
+++ b/pycomlink/processing/tensorflow_utils/inference_utils.py
@@ -123,7 +123,10 @@ def download_and_cache(url, cache_dir, force_download=False):
 
     if not cached_path.exists() or force_download:
         print(f"[↓] Downloading {filename} from {url}")
-        urllib.request.urlretrieve(url, cached_path)
+        # an interrupted download must not be mistaken for a cached file
+        partial_path = cached_path.with_name(cached_path.name + ".part")
+        urllib.request.urlretrieve(url, partial_path)
+        partial_path.replace(cached_path)
     else:
         print(f"[→] Using cached file: {cached_path}")
 
-- 
2.43.0


From 0c15ba5a8116ba731ace8d5c7ebe2536bedf8426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:16 +0000
Subject: [PATCH 23/37] fix: cached files from different URLs do not replace
 each other

---
 pycomlink/processing/tensorflow_utils/inference_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pycomlink/processing/tensorflow_utils/inference_utils.py b/pycomlink/processing/tensorflow_utils/inference_utils.py
index aa526c0..6afc110 100644
--- a/pycomlink/processing/tensorflow_utils/inference_utils.py
+++ b/pycomlink/processing/tensorflow_utils/inference_utils.py
@@ -1,6 +1,7 @@
 # pycomlink/processing/inference_utils.py
 
 # Standard library imports
+import hashlib
 import urllib.request
 from pathlib import Path
 
@@ -119,7 +120,9 @@ def download_and_cache(url, cache_dir, force_download=False):
     cache_dir = Path(cache_dir)
     cache_dir.mkdir(parents=True, exist_ok=True)
     filename = url.split("/")[-1]
-    cached_path = cache_dir / filename
+    # Use the URL hash to avoid conflicts of files with the same name
+    url_hash = hashlib.md5(url.encode()).hexdigest()
+    cached_path = cache_dir / f"{url_hash}_{filename}"
 
     if not cached_path.exists() or force_download:
         print(f"[↓] Downloading {filename} from {url}")
-- 
2.43.0


From fb003dbd95acb0655c919b8e9bb312000ceb43c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:47 +0000
Subject: [PATCH 24/37] fix: wet_dry_1d_cnn uses the ID coordinate given by
 id_coord

---
 pycomlink/processing/tensorflow_utils/inference_utils.py | 7 +++++--
 pycomlink/processing/tensorflow_utils/run_inference.py   | 5 +++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/pycomlink/processing/tensorflow_utils/inference_utils.py b/pycomlink/processing/tensorflow_utils/inference_utils.py
index 6afc110..8f2f8b8 100644
--- a/pycomlink/processing/tensorflow_utils/inference_utils.py
+++ b/pycomlink/processing/tensorflow_utils/inference_utils.py
@@ -30,7 +30,9 @@ def get_optimizer_class():
 # -----------------------
 # Core Functions
 # -----------------------
-def create_samples(ds, cml_ids, input_vars, seq_len=180, time_dim="time"):
+def create_samples(
+    ds, cml_ids, input_vars, seq_len=180, time_dim="time", cml_dim="cml_id"
+):
     """
     Create time series samples from CML dataset for model inference.
 
@@ -40,6 +42,7 @@ def create_samples(ds, cml_ids, input_vars, seq_len=180, time_dim="time"):
         input_vars: List of variable names to use as features
         seq_len: Length of time sequences (default: 180)
         time_dim: Name of the time dimension (default: "time")
+        cml_dim: Name of the CML dimension (default: "cml_id")
 
     Returns:
         tuple: (X, ids, time_idx) where X is the feature array,
@@ -49,7 +52,7 @@ def create_samples(ds, cml_ids, input_vars, seq_len=180, time_dim="time"):
 
     for cml in cml_ids:
         try:
-            ds_cml = ds.sel(cml_id=cml)
+            ds_cml = ds.sel({cml_dim: cml})
             inputs = np.stack(
                 [ds_cml[var].values.astype(np.float32) for var in input_vars], axis=-1
             )
diff --git a/pycomlink/processing/tensorflow_utils/run_inference.py b/pycomlink/processing/tensorflow_utils/run_inference.py
index 8960863..012aa47 100644
--- a/pycomlink/processing/tensorflow_utils/run_inference.py
+++ b/pycomlink/processing/tensorflow_utils/run_inference.py
@@ -81,7 +81,7 @@ def wet_dry_1d_cnn(
     model = inference_utils.load_model_from_local(json_path, weights_path, lr=lr)
 
     # Prepare samples and scale
-    X, ids, t_idx = inference_utils.create_samples(ds=ds, cml_ids=cml_ids, input_vars=input_vars, seq_len=seq_len)
+    X, ids, t_idx = inference_utils.create_samples(ds=ds, cml_ids=cml_ids, input_vars=input_vars, seq_len=seq_len, cml_dim=id_coord)
     X_scaled = inference_utils.scale_features(input_seq=X, input_vars=input_vars)
 
     # Predict
@@ -98,7 +98,8 @@ def wet_dry_1d_cnn(
         model_prob=y_prob,
         time_indices = t_idx,
         cml_ids=ids,
-        var_name=prob_name)    
+        var_name=prob_name,
+        cml_dim=id_coord)    
 
     if return_ds:
         return xr.merge([ds, pred_array.to_dataset()])
-- 
2.43.0


From eeeab4536d0dc1070ad89d3e19c2b3dac6eb2b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:30 +0000
Subject: [PATCH 25/37] fix: a_b accepts a DataArray with a single frequency
 and no dimension

---
 pycomlink/processing/k_R_relation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pycomlink/processing/k_R_relation.py b/pycomlink/processing/k_R_relation.py
index 6358cb9..d148805 100644
--- a/pycomlink/processing/k_R_relation.py
+++ b/pycomlink/processing/k_R_relation.py
@@ -207,6 +207,7 @@ def a_b(f_GHz, pol, approx_type="ITU_2005"):
     if isinstance(f_GHz, xr.DataArray):
         return_xarray = True
         f_GHz_coords = f_GHz.coords
+        f_GHz_shape = f_GHz.shape
     else:
         return_xarray = False
 
@@ -262,8 +263,8 @@ def a_b(f_GHz, pol, approx_type="ITU_2005"):
     # If f_GHz is a xr.DataArray a and b should be also returned as xr.DataArray
     # with identical coordinates
     if return_xarray:
-        a = xr.DataArray(a, coords=f_GHz_coords)
-        b = xr.DataArray(b, coords=f_GHz_coords)
+        a = xr.DataArray(a.reshape(f_GHz_shape), coords=f_GHz_coords)
+        b = xr.DataArray(b.reshape(f_GHz_shape), coords=f_GHz_coords)
 
     return a, b
 
-- 
2.43.0


From 098ffa96e108b7e93d0e0348005202c3089d31e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:14 +0000
Subject: [PATCH 26/37] fix: nearby_wetdry selects nearby CMLs by ID and not by
 position

---
 pycomlink/processing/wet_dry/nearby_wetdry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pycomlink/processing/wet_dry/nearby_wetdry.py b/pycomlink/processing/wet_dry/nearby_wetdry.py
index a8b20cb..add6037 100644
--- a/pycomlink/processing/wet_dry/nearby_wetdry.py
+++ b/pycomlink/processing/wet_dry/nearby_wetdry.py
@@ -161,6 +161,8 @@ def nearby_wetdry(
         & (ds_dist.b_to_all_a < radius)
         & (ds_dist.b_to_all_b < radius)
     )
+    # the CMLs in `ds_dist` might have a different order than those in `pmin`
+    within_r = within_r.sel(cml_id2=pmin.cml_id.values)
 
     ds_cml = pmin.to_dataset(name="pmin")
     ds_cml["max_pmin"] = max_pmin
-- 
2.43.0


From 16cdec40d678044306d68bb17f2a9e6ba8215d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:32 +0000
Subject: [PATCH 27/37] fix: nearby_wetdry works with integer signal levels

---
 pycomlink/processing/wet_dry/nearby_wetdry.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pycomlink/processing/wet_dry/nearby_wetdry.py b/pycomlink/processing/wet_dry/nearby_wetdry.py
index add6037..90b5c20 100644
--- a/pycomlink/processing/wet_dry/nearby_wetdry.py
+++ b/pycomlink/processing/wet_dry/nearby_wetdry.py
@@ -169,10 +169,10 @@ def nearby_wetdry(
     ds_cml["deltaP"] = deltaP
     ds_cml["deltaPL"] = deltaPL
 
-    wet = xr.full_like(ds_cml.pmin, np.nan)
-    F = xr.full_like(ds_cml.pmin, np.nan)
-    medianP_out = xr.full_like(ds_cml.pmin, np.nan)
-    medianPL_out = xr.full_like(ds_cml.pmin, np.nan)
+    wet = xr.full_like(ds_cml.pmin, np.nan, dtype=float)
+    F = xr.full_like(ds_cml.pmin, np.nan, dtype=float)
+    medianP_out = xr.full_like(ds_cml.pmin, np.nan, dtype=float)
+    medianPL_out = xr.full_like(ds_cml.pmin, np.nan, dtype=float)
 
     for cmlid in tqdm(ds_cml.cml_id):
         # only make wet dry detection if min_links is reached within radius
-- 
2.43.0


From 0e4c890ca7e9e955dbf1cff1e1294078ec937afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:10 +0000
Subject: [PATCH 28/37] fix: N_all_pairs counts all pairs of 2D arrays

---
 pycomlink/validation/stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomlink/validation/stats.py b/pycomlink/validation/stats.py
index 1cb74c1..2b22c82 100644
--- a/pycomlink/validation/stats.py
+++ b/pycomlink/validation/stats.py
@@ -158,7 +158,7 @@ def calc_wet_dry_performance_metrics(reference, predicted):
     # Remove values pairs if either one or both are NaN and calculate nan metrics
     nan_index = np.isnan(reference) | np.isnan(predicted)
     N_nan_pairs = nan_index.sum()
-    N_all_pairs = len(reference)
+    N_all_pairs = reference.size
     N_nan_reference_only = np.isnan(reference).sum()
     N_nan_predicted_only = np.isnan(predicted).sum()
 
@@ -268,7 +268,7 @@ def calc_rain_error_performance_metrics(reference, predicted, rainfall_threshold
     # Remove values pairs if one or both are NaN and calculate nan metrics
     nan_index = np.isnan(reference) | np.isnan(predicted)
     N_nan_pairs = nan_index.sum()
-    N_all_pairs = len(reference)
+    N_all_pairs = reference.size
     N_nan_reference_only = np.isnan(reference).sum()
     N_nan_predicted_only = np.isnan(predicted).sum()
 
-- 
2.43.0


From a35fc5c9a5ac13ea10f87ce8071b4077c643e9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:10 +0000
Subject: [PATCH 29/37] fix: calc_stats matches the time stamps and does not
 modify the CML

---
 pycomlink/validation/validator.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pycomlink/validation/validator.py b/pycomlink/validation/validator.py
index 32dd376..5cbbd16 100644
--- a/pycomlink/validation/validator.py
+++ b/pycomlink/validation/validator.py
@@ -16,13 +16,15 @@ class Validator(object):
         pass
 
     def calc_stats(self, cml, time_series):
-        cml_copy = cml
+        time_format = "%Y-%m-%d %H:%M:%S"
         time_series_df = pd.DataFrame(
-            data={"xr_ds": time_series}, index=time_series.time
+            data={"xr_ds": np.asarray(time_series)},
+            index=pd.DatetimeIndex(time_series.time).strftime(time_format),
         )
-        cml_copy.data.index = cml_copy.data.index.strftime("%Y-%m-%d %H:%M:%S")
-        # pd.DatetimeIndex(cml.data.index)
-        joined_df = time_series_df.join(cml_copy.data.txrx_nf)
+        # work with a copy so that the data of `cml` is not modified
+        txrx_nf = cml.data.txrx_nf.copy()
+        txrx_nf.index = txrx_nf.index.strftime(time_format)
+        joined_df = time_series_df.join(txrx_nf)
         pearson_r = joined_df.xr_ds.corr(joined_df.txrx_nf, method="pearson")
         return pearson_r
 
-- 
2.43.0


From b16b7c0273f59f888cd22709c5025f3d5114e9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:28 +0000
Subject: [PATCH 30/37] fix: aggregate_df_onto_DatetimeIndex loses values if a
 time index is not sorted

---
 pycomlink/util/temporal.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pycomlink/util/temporal.py b/pycomlink/util/temporal.py
index 4d1df11..8c52e31 100644
--- a/pycomlink/util/temporal.py
+++ b/pycomlink/util/temporal.py
@@ -58,6 +58,9 @@ def aggregate_df_onto_DatetimeIndex(
     # end point of the time series in the aggregated result
     t_start = max(df_temp.index.min(), df_new_t.index.min())
     t_stop = min(df_temp.index.max(), df_new_t.index.max())
+    # Slices of an unsorted index do not select by value
+    df_new_t = df_new_t.sort_index(kind="stable")
+    df_temp = df_temp.sort_index(kind="stable")
     df_new_t = df_new_t.loc[t_start:t_stop]
     df_temp = df_temp.loc[t_start:t_stop]
 
-- 
2.43.0


From af7fad4b2d5e0e509c712a97605f9c6c9766ce17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:10 +0000
Subject: [PATCH 31/37] fix: interpolators accept lists of values, as
 documented

---
 pycomlink/spatial/interpolator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomlink/spatial/interpolator.py b/pycomlink/spatial/interpolator.py
index fd254d7..7a05589 100644
--- a/pycomlink/spatial/interpolator.py
+++ b/pycomlink/spatial/interpolator.py
@@ -48,7 +48,7 @@ class PointsToGridInterpolator(with_metaclass(abc.ABCMeta, object)):
 
         assert len(x) == len(y) == len(z)
 
-        z = z.astype("float")
+        z = np.array(z, dtype="float")
 
         self.xgrid, self.ygrid = _parse_grid_kwargs(
             x_list=x, y_list=y, xgrid=xgrid, ygrid=ygrid, resolution=resolution
-- 
2.43.0


From d4bacb41052409ff9cb9504c16e025809d9f1a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:16 +0000
Subject: [PATCH 32/37] fix: kriging works with integer grid coordinates

---
 pycomlink/spatial/interpolator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomlink/spatial/interpolator.py b/pycomlink/spatial/interpolator.py
index 7a05589..e850e72 100644
--- a/pycomlink/spatial/interpolator.py
+++ b/pycomlink/spatial/interpolator.py
@@ -162,8 +162,8 @@ class OrdinaryKrigingInterpolator(PointsToGridInterpolator):
 
         zi, sigma = ok.execute(
             style="points",
-            xpoints=xi,
-            ypoints=yi,
+            xpoints=np.asarray(xi, dtype=float),
+            ypoints=np.asarray(yi, dtype=float),
             n_closest_points=self.n_closest_points,
             backend=self.backend,
         )
-- 
2.43.0


From 47e8532d8be8033d8a6e37bed1866384def8424d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:50 +0000
Subject: [PATCH 33/37] fix: concurrent downloads of a model do not disturb
 each other

---
 .../processing/pytorch_utils/inference_utils.py      | 12 ++++++++----
 .../processing/tensorflow_utils/inference_utils.py   | 12 ++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/pycomlink/processing/pytorch_utils/inference_utils.py b/pycomlink/processing/pytorch_utils/inference_utils.py
index a199237..5689349 100644
--- a/pycomlink/processing/pytorch_utils/inference_utils.py
+++ b/pycomlink/processing/pytorch_utils/inference_utils.py
@@ -34,6 +34,7 @@ Example Usage:
 
 import hashlib
 import urllib.request
+import uuid
 from pathlib import Path
 
 from pycomlink.processing.pytorch_utils.pytorch_utils import (
@@ -66,10 +67,13 @@ def download_and_cache_model(
 
     if not cached_path.exists() or force_download:
         print(f"Downloading model from {model_url}...")
-        # an interrupted download must not be mistaken for a cached model
-        partial_path = cached_path.with_name(cached_path.name + ".part")
-        urllib.request.urlretrieve(model_url, partial_path)
-        partial_path.replace(cached_path)
+        # an interrupted or concurrent download must not be mistaken for a cached model
+        partial_path = cached_path.with_name(f"{cached_path.name}.{uuid.uuid4().hex}.part")
+        try:
+            urllib.request.urlretrieve(model_url, partial_path)
+            partial_path.replace(cached_path)
+        finally:
+            partial_path.unlink(missing_ok=True)
         print(f"Model cached at {cached_path}")
     else:
         print(f"Using cached model at {cached_path}")
diff --git a/pycomlink/processing/tensorflow_utils/inference_utils.py b/pycomlink/processing/tensorflow_utils/inference_utils.py
index 8f2f8b8..2d0c8ac 100644
--- a/pycomlink/processing/tensorflow_utils/inference_utils.py
+++ b/pycomlink/processing/tensorflow_utils/inference_utils.py
@@ -3,6 +3,7 @@
 # Standard library imports
 import hashlib
 import urllib.request
+import uuid
 from pathlib import Path
 
 # Third-party imports
@@ -129,10 +130,13 @@ def download_and_cache(url, cache_dir, force_download=False):
 
     if not cached_path.exists() or force_download:
         print(f"[↓] Downloading {filename} from {url}")
-        # an interrupted download must not be mistaken for a cached file
-        partial_path = cached_path.with_name(cached_path.name + ".part")
-        urllib.request.urlretrieve(url, partial_path)
-        partial_path.replace(cached_path)
+        # an interrupted or concurrent download must not be mistaken for a cached file
+        partial_path = cached_path.with_name(f"{cached_path.name}.{uuid.uuid4().hex}.part")
+        try:
+            urllib.request.urlretrieve(url, partial_path)
+            partial_path.replace(cached_path)
+        finally:
+            partial_path.unlink(missing_ok=True)
     else:
         print(f"[→] Using cached file: {cached_path}")
 
-- 
2.43.0


From 86849756352175e3ca41bdbb74ec7c3d46c9f11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:19 +0000
Subject: [PATCH 34/37] fix: TensorFlow CNN gives NaN if there is no complete
 window

---
 .../tensorflow_utils/run_inference.py         | 22 +++++++++++--------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/pycomlink/processing/tensorflow_utils/run_inference.py b/pycomlink/processing/tensorflow_utils/run_inference.py
index 012aa47..b2b787b 100644
--- a/pycomlink/processing/tensorflow_utils/run_inference.py
+++ b/pycomlink/processing/tensorflow_utils/run_inference.py
@@ -82,16 +82,20 @@ def wet_dry_1d_cnn(
 
     # Prepare samples and scale
     X, ids, t_idx = inference_utils.create_samples(ds=ds, cml_ids=cml_ids, input_vars=input_vars, seq_len=seq_len, cml_dim=id_coord)
-    X_scaled = inference_utils.scale_features(input_seq=X, input_vars=input_vars)
+    if len(X) > 0:
+        X_scaled = inference_utils.scale_features(input_seq=X, input_vars=input_vars)
+
+        # Predict
+        y_prob = inference_utils.run_inference(
+            model=model,
+            model_input=X_scaled,
+            batch_size=batch_size
+        )
+        del X_scaled
+    else:
+        # no complete window, predictions are kept as nan
+        y_prob = []
 
-    # Predict
-    y_prob = inference_utils.run_inference(
-        model=model,
-        model_input=X_scaled,
-        batch_size=batch_size
-    )
-    del X_scaled
-    
     # Store predictions as DataArray
     pred_array = inference_utils.store_predictions(
         ds = ds,
-- 
2.43.0


From 5409510b234b979717f22032ea4952df9e3355d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:57 +0000
Subject: [PATCH 35/37] fix: PyTorch CNN gives NaN if there is no complete
 window

---
 pycomlink/processing/pytorch_utils/run_inference.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pycomlink/processing/pytorch_utils/run_inference.py b/pycomlink/processing/pytorch_utils/run_inference.py
index 3d38cd8..7785bce 100644
--- a/pycomlink/processing/pytorch_utils/run_inference.py
+++ b/pycomlink/processing/pytorch_utils/run_inference.py
@@ -124,6 +124,13 @@ def run_inference(model, data, batch_size=32, reflength=60):
     device = set_device()
     window_size = model.window_size if hasattr(model, "window_size") else 180
     combined_samples = batchify_windows(data, window_size, reflength)
+    if len(combined_samples["cml_id"]) == 0:
+        # no complete window, predictions are kept as nan
+        return {
+            "predictions": np.array([]),
+            "cml_ids": combined_samples["cml_id"],
+            "times": combined_samples["time"],
+        }
     dataloader, cml_ids, times = build_dataloader(
         combined_samples,
         batch_size,
-- 
2.43.0


From 31cf2b237b8a27df1390d19d6640133b559b2783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:03 +0000
Subject: [PATCH 36/37] fix: stft_classification works with mirror and a given
 spectrogram

---
 pycomlink/processing/wet_dry/stft.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pycomlink/processing/wet_dry/stft.py b/pycomlink/processing/wet_dry/stft.py
index b2c1998..bf2117d 100644
--- a/pycomlink/processing/wet_dry/stft.py
+++ b/pycomlink/processing/wet_dry/stft.py
@@ -91,21 +91,21 @@ def stft_classification(
 
     """
 
-    # Calculate spectrogram Pxx if it is not supplied as function argument
-    if Pxx is None:
-        # Set up sliding window for STFT
-        if mirror:
-            # Window length has to be even
-            if window_length % 2 == 0:
-                NFFT = window_length
-            else:
-                NFFT = window_length + 1
-        else:
+    # Set up sliding window for STFT
+    if mirror:
+        # Window length has to be even
+        if window_length % 2 == 0:
             NFFT = window_length
+        else:
+            NFFT = window_length + 1
+    else:
+        NFFT = window_length
 
-        if window is None:
-            window = np.hamming(NFFT)
+    if window is None:
+        window = np.hamming(NFFT)
 
+    # Calculate spectrogram Pxx if it is not supplied as function argument
+    if Pxx is None:
         # Calculate spectrogram using STFT
         Pxx, f, t = specg(
             rsl, NFFT=NFFT, Fs=f_sampling, noverlap=NFFT - 1, window=window
-- 
2.43.0


From feb4d84b79aeea74c0823097fb62061048e36329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:25 +0000
Subject: [PATCH 37/37] fix: MLP classification gives NaN for series without a
 complete window

---
 pycomlink/processing/wet_dry/mlp.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pycomlink/processing/wet_dry/mlp.py b/pycomlink/processing/wet_dry/mlp.py
index e7b5031..4ff8f06 100644
--- a/pycomlink/processing/wet_dry/mlp.py
+++ b/pycomlink/processing/wet_dry/mlp.py
@@ -92,6 +92,11 @@ def mlp_wet_dry(
     else:
         raise ValueError('Did not recognize model')
         
+    # no complete window, predictions are kept as nan
+    n_time = len(trsl_channel_1)
+    if n_time < 40 or (n_time == 40 and model_sel in ('rg_online', 'rad_online')):
+        return np.full([n_time, 2], np.nan)
+
     # Detrending of CML time series
     if (model_sel == 'rad') | (model_sel == 'rg'):
         # Detrending channel 1 using rolling median        
-- 
2.43.0

