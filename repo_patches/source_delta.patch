From b805403ab0c14f875f78bbea103921533306d7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:22 +0000
Subject: [PATCH 01/27] fix: gamma fitting no longer overwrites zeros with NaN
 in the caller's array

---
 src/climate_indices/compute.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/climate_indices/compute.py b/src/climate_indices/compute.py
index df766f9..5fafd39 100644
--- a/src/climate_indices/compute.py
+++ b/src/climate_indices/compute.py
@@ -681,7 +681,8 @@ def gamma_parameters(
     # validate (and possibly reshape) the input array
     values = _validate_array(values, periodicity)
 
-    # replace zeros with NaNs
+    # replace zeros with NaNs (within a copy, so the caller's array isn't modified)
+    values = values.astype(float)
     values[values == 0] = np.nan
 
     # determine the end year of the values array
@@ -804,7 +805,8 @@ def transform_fitted_gamma(
     zeros = (values == 0).sum(axis=0)
     probabilities_of_zero = zeros / values.shape[0]
 
-    # replace zeros with NaNs
+    # replace zeros with NaNs (within a copy, so the caller's array isn't modified)
+    values = values.astype(float)
     values[values == 0] = np.nan
 
     # compute fitting parameters if none were provided
-- 
2.43.0


From f4ccd6946cc6b242c85c05a7dbfa171da7efd934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:22 +0000
Subject: [PATCH 02/27] fix: clip negative precipitation to zero also when
 values are missing

---
 src/climate_indices/compute.py | 2 +-
 src/climate_indices/indices.py | 4 ++--
 src/climate_indices/palmer.py  | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/climate_indices/compute.py b/src/climate_indices/compute.py
index 5fafd39..a4ef611 100644
--- a/src/climate_indices/compute.py
+++ b/src/climate_indices/compute.py
@@ -736,7 +736,7 @@ def scale_values(
         return values
 
     # clip any negative values to zero
-    if np.amin(values) < 0.0:
+    if np.any(values < 0.0):
         _logger.warn("Input contains negative values -- all negatives clipped to zero")
         values = np.clip(values, a_min=0.0, a_max=None)
 
diff --git a/src/climate_indices/indices.py b/src/climate_indices/indices.py
index fc7118a..59dbe15 100644
--- a/src/climate_indices/indices.py
+++ b/src/climate_indices/indices.py
@@ -125,7 +125,7 @@ def spi(
         return values
 
     # clip any negative values to zero
-    if np.amin(values) < 0.0:
+    if np.any(values < 0.0):
         _logger.warning("Input contains negative values -- all negatives clipped to zero")
         values = np.clip(values, a_min=0.0, a_max=None)
 
@@ -270,7 +270,7 @@ def spei(
         raise ValueError(message)
 
     # clip any negative values to zero
-    if np.amin(precips_mm) < 0.0:
+    if np.any(precips_mm < 0.0):
         _logger.warning("Input contains negative values -- all negatives clipped to zero")
         precips_mm = np.clip(precips_mm, a_min=0.0, a_max=None)
 
diff --git a/src/climate_indices/palmer.py b/src/climate_indices/palmer.py
index 39d8a26..28b052b 100644
--- a/src/climate_indices/palmer.py
+++ b/src/climate_indices/palmer.py
@@ -867,7 +867,7 @@ def pdsi(
         raise ValueError(message)
 
     # clip any negative values to zero
-    if np.amin(precips) < 0.0:
+    if np.any(precips < 0.0):
         _logger.warning(
             "Input contains negative values -- all negatives clipped to zero"
         )
-- 
2.43.0


From ba4af1cf8940763557a1c7171825347a03444f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:22 +0000
Subject: [PATCH 03/27] fix: Thornthwaite PET no longer zeroes negative
 temperatures in the caller's array

---
 src/climate_indices/eto.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/climate_indices/eto.py b/src/climate_indices/eto.py
index d723780..d9d90b1 100644
--- a/src/climate_indices/eto.py
+++ b/src/climate_indices/eto.py
@@ -246,10 +246,8 @@ def eto_thornthwaite(
 
     # adjust negative temperature values to zero, since negative
     # values aren't allowed (no evaporation below freezing)
-    # TODO this sometimes throws a RuntimeWarning for invalid value,
-    #  perhaps as a result of a NaN, somehow use masking and/or NaN
-    #  pre-check to eliminate the cause of this warning
-    monthly_temps_celsius[monthly_temps_celsius < 0] = 0.0
+    # (np.clip() makes a copy, so the caller's array isn't modified)
+    monthly_temps_celsius = np.clip(monthly_temps_celsius, 0.0, None)
 
     # mean the monthly temperature values over the month axis,
     # giving us 12 monthly means for the period of record
-- 
2.43.0


From c6d80c195831255ff1b638df25ec99af316aa654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:22 +0000
Subject: [PATCH 04/27] fix: Thornthwaite PET is zero, not missing, when no
 month is above freezing

---
 src/climate_indices/eto.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/climate_indices/eto.py b/src/climate_indices/eto.py
index d9d90b1..0a0e380 100644
--- a/src/climate_indices/eto.py
+++ b/src/climate_indices/eto.py
@@ -256,6 +256,11 @@ def eto_thornthwaite(
     # calculate the heat index (I)
     heat_index = np.sum(np.power(mean_monthly_temps / 5.0, 1.514))
 
+    # a heat index of zero means that no month is above freezing, in which case
+    # all temperatures (and hence PET) are zero, so avoid the zero divisor
+    if heat_index == 0.0:
+        heat_index = 1.0
+
     # calculate the coefficient
     a = (6.75e-07 * heat_index**3) - (7.71e-05 * heat_index**2) + (1.792e-02 * heat_index) + 0.49239
 
-- 
2.43.0


From ce778b07fe7b3097135c493358a9759eeff91a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:22 +0000
Subject: [PATCH 05/27] fix: Hargreaves PET compares the input sizes and
 accepts 1-D inputs as documented

---
 src/climate_indices/eto.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/climate_indices/eto.py b/src/climate_indices/eto.py
index 0a0e380..65710e9 100644
--- a/src/climate_indices/eto.py
+++ b/src/climate_indices/eto.py
@@ -316,7 +316,7 @@ def eto_hargreaves(
     """
 
     # validate the input data arrays
-    if daily_tmin_celsius.size != daily_tmax_celsius != daily_tmean_celsius:
+    if not (daily_tmin_celsius.size == daily_tmax_celsius.size == daily_tmean_celsius.size):
         message = "Incompatible array sizes"
         _logger.error(message)
         raise ValueError(message)
@@ -325,6 +325,8 @@ def eto_hargreaves(
     original_length = daily_tmean_celsius.size
 
     # reshape to 2-D with 366 days per year, if not already in this shape
+    daily_tmin_celsius = utils.reshape_to_2d(daily_tmin_celsius, 366)
+    daily_tmax_celsius = utils.reshape_to_2d(daily_tmax_celsius, 366)
     daily_tmean_celsius = utils.reshape_to_2d(daily_tmean_celsius, 366)
 
     # at this point we assume that our dataset array has shape (years, 366)
-- 
2.43.0


From d76ec8c2a0dc39ad17e5bbaec27d4fa1119143db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:22 +0000
Subject: [PATCH 06/27] fix: PET accepts the poles, latitude range is inclusive
 as documented

---
 src/climate_indices/indices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/climate_indices/indices.py b/src/climate_indices/indices.py
index 59dbe15..9b5f04e 100644
--- a/src/climate_indices/indices.py
+++ b/src/climate_indices/indices.py
@@ -494,7 +494,7 @@ def pet(
         latitude_degrees = latitude_degrees.flat[0]
 
     # make sure we're not dealing with a NaN or out-of-range latitude value
-    if (latitude_degrees is not None) and not np.isnan(latitude_degrees) and (-90.0 < latitude_degrees < 90.0):
+    if (latitude_degrees is not None) and not np.isnan(latitude_degrees) and (-90.0 <= latitude_degrees <= 90.0):
         # compute and return the PET values using Thornthwaite's equation
         return eto.eto_thornthwaite(
             temperature_celsius,
-- 
2.43.0


From 85c15048368562df5bb00041a9aaff37c5d60ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:22 +0000
Subject: [PATCH 07/27] fix: a calibration period ending one year past the
 record falls back to the full record

---
 src/climate_indices/compute.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/climate_indices/compute.py b/src/climate_indices/compute.py
index a4ef611..41c0ef7 100644
--- a/src/climate_indices/compute.py
+++ b/src/climate_indices/compute.py
@@ -290,7 +290,7 @@ def pearson_parameters(
     """
     values = reshape_values(values, periodicity)
     time_steps_per_year = validate_values_shape(values)
-    data_end_year = data_start_year + values.shape[0]
+    data_end_year = data_start_year + values.shape[0] - 1
     calibration_start_year, calibration_end_year = adjust_calibration_years(
         data_start_year, data_end_year, calibration_start_year, calibration_end_year
     )
@@ -612,7 +612,7 @@ def transform_fitted_pearson(
     # compute the Pearson Type III fitting values if none were provided
     if any(param_arg is None for param_arg in pearson_param_args):
         # determine the end year of the values array
-        data_end_year = data_start_year + values.shape[0]
+        data_end_year = data_start_year + values.shape[0] - 1
 
         # make sure that we have data within the full calibration period,
         # otherwise use the full period of record
@@ -686,7 +686,7 @@ def gamma_parameters(
     values[values == 0] = np.nan
 
     # determine the end year of the values array
-    data_end_year = data_start_year + values.shape[0]
+    data_end_year = data_start_year + values.shape[0] - 1
 
     # make sure that we have data within the full calibration period,
     # otherwise use the full period of record
-- 
2.43.0


From 6359f35e3da43952e1785e1f2329c8e923e6e86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:22 +0000
Subject: [PATCH 08/27] fix: percent of normal validates the daily calibration
 length in days

---
 src/climate_indices/indices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/climate_indices/indices.py b/src/climate_indices/indices.py
index 9b5f04e..b64226c 100644
--- a/src/climate_indices/indices.py
+++ b/src/climate_indices/indices.py
@@ -416,7 +416,7 @@ def percentage_of_normal(
             "Invalid start year arguments (data and/or calibration): "
             "calibration start year is before the data start year",
         )
-    if ((calibration_end_year - calibration_start_year + 1) * 12) > values.size:
+    if ((calibration_end_year - calibration_start_year + 1) * periodicity) > values.size:
         raise ValueError(
             "Invalid calibration period specified: total calibration years "
             "exceeds the actual number of years of data",
-- 
2.43.0


From 32261aa68b04252e5b719946b41ca23488595fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:22 +0000
Subject: [PATCH 09/27] fix: sliding sums keep the input length when the scale
 exceeds it

---
 src/climate_indices/compute.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/climate_indices/compute.py b/src/climate_indices/compute.py
index 41c0ef7..7b0ee69 100644
--- a/src/climate_indices/compute.py
+++ b/src/climate_indices/compute.py
@@ -150,6 +150,10 @@ def sum_to_scale(
     if scale == 1:
         return values
 
+    # no window is complete if it would be longer than the array itself
+    if scale > len(values):
+        return np.full(len(values), np.nan)
+
     # get the valid sliding summations with 1D convolution
     sliding_sums = np.convolve(values, np.ones(scale), mode="valid")
 
-- 
2.43.0


From f4f2fe04f567e0fdaec38a641c6b825c1e971efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:22 +0000
Subject: [PATCH 10/27] fix: PCI uses the actual end of February as a month
 boundary

---
 src/climate_indices/indices.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/climate_indices/indices.py b/src/climate_indices/indices.py
index b64226c..38aae17 100644
--- a/src/climate_indices/indices.py
+++ b/src/climate_indices/indices.py
@@ -535,7 +535,7 @@ def pci(
 
     # make sure we're not dealing with a NaN or out-of-range or less than the expected rainfall value
     if len(rainfall_mm) == 366 and not sum(np.isnan(rainfall_mm)):
-        m = [31, 29, 91, 121, 152, 182, 213, 244, 274, 305, 335, 366]
+        m = [31, 60, 91, 121, 152, 182, 213, 244, 274, 305, 335, 366]
         start = 0
         numerator = 0
         denominator = 0
@@ -549,7 +549,7 @@ def pci(
         return np.array([(numerator / (denominator**2)) * 100])
 
     if len(rainfall_mm) == 365 and not sum(np.isnan(rainfall_mm)):
-        m = [31, 28, 90, 120, 151, 181, 212, 243, 273, 304, 334, 365]
+        m = [31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334, 365]
         start = 0
         numerator = 0
         denominator = 0
-- 
2.43.0


From 71c9fd5dc5c4a70fb77b1b31b008545579d71843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:01 +0000
Subject: [PATCH 11/27] fix: Palmer indices no longer fail after 40 months
 without a determined spell

---
 src/climate_indices/palmer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/climate_indices/palmer.py b/src/climate_indices/palmer.py
index 28b052b..0b869ac 100644
--- a/src/climate_indices/palmer.py
+++ b/src/climate_indices/palmer.py
@@ -535,8 +535,9 @@ def _statement_200(data: dict) -> None:
     # At that time, the assign method backtracs through choosing
     # the appropriate x1 or x2 to be that month's x.
     #_logger.debug(f"no value assigned; will backtrack later k8:{data['k8']},y:{year},m:{month}")
-    if data["k8"] >= data["sx"].shape[0]+1:
-        vals = [0] * (data["k8"] - data["sx"].shape[0] + 2)
+    # (the arrays need room for the following month's entry as well)
+    if data["k8"] + 1 >= data["sx"].shape[0]:
+        vals = [0] * K8_SIZE
         data["sx"] = np.append(data["sx"], vals)
         data["sx1"] = np.append(data["sx1"], vals)
         data["sx2"] = np.append(data["sx2"], vals)
-- 
2.43.0


From dd0988dafe5b007dbc24e45cc44007a653c9d92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:40 +0000
Subject: [PATCH 12/27] fix: Palmer indices of a partial final year use the
 last actual month

---
 src/climate_indices/palmer.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/climate_indices/palmer.py b/src/climate_indices/palmer.py
index 0b869ac..59c12cb 100644
--- a/src/climate_indices/palmer.py
+++ b/src/climate_indices/palmer.py
@@ -636,6 +636,10 @@ def _calc_zindex(data: dict) -> None:
     """
     for year in range(data["n_years"]):
         for month in range(12):
+            # stop at the end of the record, the final months
+            # of the final year may be missing (or padding)
+            if year * 12 + month >= data["n_months"]:
+                return
             data["year"] = year
             data["month"] = month
             k8 = int(data["k8"])
@@ -706,7 +710,7 @@ def _finish_up(data: dict) -> None:
     for k8 in range(data["k8max"]):
         i = int(data["indexj"][k8])
         j = int(data["indexm"][k8])
-        i_end = data["precips"].shape[0] - 1
+        i_end, j_end = divmod(data["n_months"] - 1, 12)
         data["pdsi"][i, j] = data["x"][i, j]
         data["phdi"][i, j] = data["px3"][i, j]
 
@@ -714,10 +718,10 @@ def _finish_up(data: dict) -> None:
             data["phdi"][i, j] = data["x"][i, j]
 
         data["wplm"][i, j] = _case(
-            data["ppr"][i_end, 11],
-            data["px1"][i_end, 11],
-            data["px2"][i_end, 11],
-            data["px3"][i_end, 11],
+            data["ppr"][i_end, j_end],
+            data["px1"][i_end, j_end],
+            data["px2"][i_end, j_end],
+            data["px3"][i_end, j_end],
         )
 
 
@@ -775,6 +779,9 @@ def _initialize_data(
     data["awc"] = awc
     data["awc_bot"] = _get_awc_bot(awc)
     data["n_years"] = n_years
+    # number of months up to and including the last one with data
+    valid = np.flatnonzero(~np.isnan(data["precips"] + data["pet"]))
+    data["n_months"] = int(valid[-1]) + 1 if valid.size > 0 else 0
     data["n_calb_years"] = calibration_year_final - calibration_year_initial + 1
     data["calibration_year_initial_idx"] = calibration_year_initial - data_start_year
     data["calibration_year_final_idx"] = calibration_year_final - data_start_year
-- 
2.43.0


From 47af5e0419bf565b55af1c48663d69da8ec8f633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:40 +0000
Subject: [PATCH 13/27] fix: the commands use at least one worker process on a
 single-processor machine

---
 src/climate_indices/__main__.py | 4 ++--
 src/climate_indices/__spi__.py  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/climate_indices/__main__.py b/src/climate_indices/__main__.py
index 4e0eceb..220ef3a 100644
--- a/src/climate_indices/__main__.py
+++ b/src/climate_indices/__main__.py
@@ -16,7 +16,7 @@ import xarray as xr
 from climate_indices import compute, indices, utils
 
 # the number of worker processes we'll use for process pools
-_NUMBER_OF_WORKER_PROCESSES = multiprocessing.cpu_count() - 1
+_NUMBER_OF_WORKER_PROCESSES = max(1, multiprocessing.cpu_count() - 1)
 # shared memory array dictionary keys
 _KEY_ARRAY = "array"
 _KEY_SHAPE = "shape"
@@ -1631,7 +1631,7 @@ def process_climate_indices(
         elif arguments.multiprocessing == "all":
             _NUMBER_OF_WORKER_PROCESSES = multiprocessing.cpu_count()
         else:  # default ("all_but_one")
-            _NUMBER_OF_WORKER_PROCESSES = multiprocessing.cpu_count() - 1
+            _NUMBER_OF_WORKER_PROCESSES = max(1, multiprocessing.cpu_count() - 1)
 
         # compute SPI if specified
         if arguments.index in ["spi", "scaled", "all"]:
diff --git a/src/climate_indices/__spi__.py b/src/climate_indices/__spi__.py
index 0f4bfc9..f90b98e 100644
--- a/src/climate_indices/__spi__.py
+++ b/src/climate_indices/__spi__.py
@@ -1408,7 +1408,7 @@ def main():  # type: () -> None
         elif arguments.multiprocessing == "all":
             number_of_workers = multiprocessing.cpu_count()
         else:  # default ("all_but_one")
-            number_of_workers = multiprocessing.cpu_count() - 1
+            number_of_workers = max(1, multiprocessing.cpu_count() - 1)
 
         # prepare precipitation NetCDF in case dimensions not (lat, lon, time) or if any coordinates are descending
         netcdf_precip = _prepare_file(arguments.netcdf_precip, arguments.var_name_precip)
-- 
2.43.0


From 17ec5d6bf2931b23992f844f912b73219df8c7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:40 +0000
Subject: [PATCH 14/27] fix: a run after one on another grid shape no longer
 reuses the earlier results array

---
 src/climate_indices/__main__.py | 5 ++++-
 src/climate_indices/__spi__.py  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/climate_indices/__main__.py b/src/climate_indices/__main__.py
index 220ef3a..ead2587 100644
--- a/src/climate_indices/__main__.py
+++ b/src/climate_indices/__main__.py
@@ -993,7 +993,10 @@ def _compute_write_index(keyword_arguments):
 
     else:
         # add an array to hold results to the dictionary of arrays
-        if _KEY_RESULT not in _global_shared_arrays:
+        # (unless there's already one of the required shape from a previous computation)
+        if (_KEY_RESULT not in _global_shared_arrays) or (
+            _global_shared_arrays[_KEY_RESULT][_KEY_SHAPE] != output_shape
+        ):
             _global_shared_arrays[_KEY_RESULT] = {
                 _KEY_ARRAY: multiprocessing.Array("d", int(np.prod(output_shape))),
                 _KEY_SHAPE: output_shape,
diff --git a/src/climate_indices/__spi__.py b/src/climate_indices/__spi__.py
index f90b98e..e2e0b44 100644
--- a/src/climate_indices/__spi__.py
+++ b/src/climate_indices/__spi__.py
@@ -633,7 +633,10 @@ def _compute_write_index(keyword_arguments):
 
     # add an array to hold index computation results
     # to our dictionary of shared memory arrays
-    if _KEY_RESULT not in _global_shared_arrays:
+    # (unless there's already one of the required shape from a previous computation)
+    if (_KEY_RESULT not in _global_shared_arrays) or (
+        _global_shared_arrays[_KEY_RESULT][_KEY_SHAPE] != output_shape
+    ):
         _global_shared_arrays[_KEY_RESULT] = {
             _KEY_ARRAY: multiprocessing.Array("d", int(np.prod(output_shape))),
             _KEY_SHAPE: output_shape,
-- 
2.43.0


From 5378af9fdfb75d40a4a4d3cb3b93f0bf93c9f9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:40 +0000
Subject: [PATCH 15/27] fix: timeseries input is not split along the time axis
 among worker processes

---
 src/climate_indices/__main__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/climate_indices/__main__.py b/src/climate_indices/__main__.py
index ead2587..ba137d7 100644
--- a/src/climate_indices/__main__.py
+++ b/src/climate_indices/__main__.py
@@ -1174,7 +1174,11 @@ def _parallel_process(
     shape = arrays_dict[output_var_name][_KEY_SHAPE]
     # if there are fewer chunks than the available number of processes
     # then only create the necessary number of tasks
-    required_processes = min(shape[0], _NUMBER_OF_WORKER_PROCESSES)
+    # (a timeseries can't be split since its only axis is the time axis)
+    if input_type == InputType.timeseries:
+        required_processes = 1
+    else:
+        required_processes = min(shape[0], _NUMBER_OF_WORKER_PROCESSES)
     d, m = divmod(shape[0], required_processes)
     split_indices = list(range(0, ((d + 1) * (m + 1)), (d + 1)))
     if d != 0:
-- 
2.43.0


From c965b3fe361af41a728be46a668f1d41c4902cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:57 +0000
Subject: [PATCH 16/27] fix: coordinate tolerance is defined for a dimension
 with a single value

---
 src/climate_indices/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/climate_indices/utils.py b/src/climate_indices/utils.py
index 74dac1a..55ed64e 100644
--- a/src/climate_indices/utils.py
+++ b/src/climate_indices/utils.py
@@ -115,7 +115,11 @@ def get_tolerance(dim: np.ndarray) -> float:
     derived from (smallest) absolute grid size along dimension dim.
     Always greater than zero.
     """
-    tol = np.abs(np.diff(dim)).min() / 10
+    deltas = np.abs(np.diff(dim))
+    if deltas.size == 0:
+        # there is no grid size if there's only a single coordinate value
+        return np.finfo(float).resolution
+    tol = deltas.min() / 10
     return max(tol, np.finfo(tol.dtype).resolution)
 
 
-- 
2.43.0


From cd11fd037bab663c7195c14ce05daefca1841137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:19 +0000
Subject: [PATCH 17/27] fix: inputs with the time dimension first are reordered
 instead of mixing up the axes

---
 src/climate_indices/__main__.py | 7 +++++++
 src/climate_indices/__spi__.py  | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/climate_indices/__main__.py b/src/climate_indices/__main__.py
index ba137d7..dc5d356 100644
--- a/src/climate_indices/__main__.py
+++ b/src/climate_indices/__main__.py
@@ -7,6 +7,7 @@ from enum import Enum
 import logging
 import multiprocessing
 import os
+import tempfile
 from typing import Any, Dict, List, Tuple
 
 import numpy as np
@@ -1477,6 +1478,12 @@ def _prepare_file(
         _logger.error(message)
         raise ValueError(message)
 
+    # write the dataset with reordered dimensions into a temporary file, if necessary
+    if dimensions != expected_dims:
+        file_descriptor, netcdf_file = tempfile.mkstemp(suffix=".nc")
+        os.close(file_descriptor)
+        ds.transpose(*expected_dims, ...).to_netcdf(netcdf_file)
+
     return netcdf_file
 
 
diff --git a/src/climate_indices/__spi__.py b/src/climate_indices/__spi__.py
index e2e0b44..cc002ac 100644
--- a/src/climate_indices/__spi__.py
+++ b/src/climate_indices/__spi__.py
@@ -8,6 +8,7 @@ from enum import Enum
 import logging
 import multiprocessing
 import os
+import tempfile
 from typing import Dict, List
 
 import numpy as np
@@ -1299,6 +1300,12 @@ def _prepare_file(netcdf_file, var_name):
         _logger.error(message)
         raise ValueError(message)
 
+    # write the dataset with reordered dimensions into a temporary file, if necessary
+    if dimensions != expected_dims:
+        file_descriptor, netcdf_file = tempfile.mkstemp(suffix=".nc")
+        os.close(file_descriptor)
+        ds.transpose(*expected_dims, ...).to_netcdf(netcdf_file)
+
     return netcdf_file
 
 
-- 
2.43.0


From 3856481ab3703e783115a530f8342fba5e467593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:53 +0000
Subject: [PATCH 18/27] fix: Pearson values are missing, not extremely dry, for
 zeros in steps without a fit

---
 src/climate_indices/compute.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/climate_indices/compute.py b/src/climate_indices/compute.py
index 7b0ee69..39d0d7e 100644
--- a/src/climate_indices/compute.py
+++ b/src/climate_indices/compute.py
@@ -497,6 +497,9 @@ def _pearson_fit(
         zero_mask = np.logical_and((values < 0.0005), (probabilities_of_zero > 0.0))
         trace_mask = np.logical_and((values < 0.0005), (probabilities_of_zero <= 0.0))
 
+        # time steps without a usable fit (no scale) have no trace value either
+        trace_mask = np.logical_and(trace_mask, (scale > 0.0))
+
         # get the Pearson Type III cumulative density function value
         values = scipy.stats.pearson3.cdf(values, skew, loc, scale)
 
-- 
2.43.0


From caef9f3ab44560c75d07a5476acfec548a4d75b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:53 +0000
Subject: [PATCH 19/27] fix: integer values are padded with missing values for
 a partial final year

---
 src/climate_indices/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/climate_indices/utils.py b/src/climate_indices/utils.py
index 55ed64e..5b700b5 100644
--- a/src/climate_indices/utils.py
+++ b/src/climate_indices/utils.py
@@ -229,6 +229,10 @@ def reshape_to_2d(
     # to have an ordinal increment, if necessary
     final_year_values = shape[0] % second_axis_length
     if final_year_values > 0:
+        # integers can't represent the missing values used for padding
+        if not np.issubdtype(values.dtype, np.inexact):
+            values = values.astype(float)
+
         pads = second_axis_length - final_year_values
         values = np.pad(values, pad_width=(0, pads), mode="constant", constant_values=np.nan)
 
-- 
2.43.0


From 770709bf74c6a77555be7e1abc5c4af33ca75884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:36 +0000
Subject: [PATCH 20/27] fix: masked entries of masked arrays are treated as
 missing instead of as data

---
 src/climate_indices/compute.py | 11 ++++++++++-
 src/climate_indices/eto.py     |  8 ++++----
 src/climate_indices/indices.py | 16 ++++++++++++++++
 src/climate_indices/utils.py   | 17 +++++++++++++++++
 4 files changed, 47 insertions(+), 5 deletions(-)

diff --git a/src/climate_indices/compute.py b/src/climate_indices/compute.py
index 39d0d7e..178052f 100644
--- a/src/climate_indices/compute.py
+++ b/src/climate_indices/compute.py
@@ -79,6 +79,9 @@ def _validate_array(
         the correct shape for the specified periodicity
     """
 
+    # masked entries are missing values
+    values = utils.fill_masked(values)
+
     # validate (and possibly reshape) the input array
     if len(values.shape) == 1:
         if periodicity is None:
@@ -146,6 +149,9 @@ def sum_to_scale(
         array, left padded with NaN values
     """
 
+    # masked entries are missing values
+    values = utils.fill_masked(values)
+
     # don't bother if the number of values to sum is 1
     if scale == 1:
         return values
@@ -292,7 +298,7 @@ def pearson_parameters(
         returned array 3 :second Pearson Type III distribution parameter (scale)
         returned array 4: third Pearson Type III distribution parameter (skew)
     """
-    values = reshape_values(values, periodicity)
+    values = reshape_values(utils.fill_masked(values), periodicity)
     time_steps_per_year = validate_values_shape(values)
     data_end_year = data_start_year + values.shape[0] - 1
     calibration_start_year, calibration_end_year = adjust_calibration_years(
@@ -742,6 +748,9 @@ def scale_values(
     if (np.ma.is_masked(values) and values.mask.all()) or np.all(np.isnan(values)):
         return values
 
+    # masked entries are missing values
+    values = utils.fill_masked(values)
+
     # clip any negative values to zero
     if np.any(values < 0.0):
         _logger.warn("Input contains negative values -- all negatives clipped to zero")
diff --git a/src/climate_indices/eto.py b/src/climate_indices/eto.py
index 65710e9..aab90cf 100644
--- a/src/climate_indices/eto.py
+++ b/src/climate_indices/eto.py
@@ -236,7 +236,7 @@ def eto_thornthwaite(
     original_length = monthly_temps_celsius.size
 
     # validate the input data array
-    monthly_temps_celsius = utils.reshape_to_2d(monthly_temps_celsius, 12)
+    monthly_temps_celsius = utils.reshape_to_2d(utils.fill_masked(monthly_temps_celsius), 12)
 
     # at this point we assume that our dataset array has shape (years, 12) where
     # each row is a year with 12 columns of monthly values (Jan, Feb, ..., Dec)
@@ -325,9 +325,9 @@ def eto_hargreaves(
     original_length = daily_tmean_celsius.size
 
     # reshape to 2-D with 366 days per year, if not already in this shape
-    daily_tmin_celsius = utils.reshape_to_2d(daily_tmin_celsius, 366)
-    daily_tmax_celsius = utils.reshape_to_2d(daily_tmax_celsius, 366)
-    daily_tmean_celsius = utils.reshape_to_2d(daily_tmean_celsius, 366)
+    daily_tmin_celsius = utils.reshape_to_2d(utils.fill_masked(daily_tmin_celsius), 366)
+    daily_tmax_celsius = utils.reshape_to_2d(utils.fill_masked(daily_tmax_celsius), 366)
+    daily_tmean_celsius = utils.reshape_to_2d(utils.fill_masked(daily_tmean_celsius), 366)
 
     # at this point we assume that our dataset array has shape (years, 366)
     # where each row is a year with 366 columns of daily values
diff --git a/src/climate_indices/indices.py b/src/climate_indices/indices.py
index 38aae17..25e45e9 100644
--- a/src/climate_indices/indices.py
+++ b/src/climate_indices/indices.py
@@ -124,6 +124,9 @@ def spi(
     if (np.ma.is_masked(values) and values.mask.all()) or np.all(np.isnan(values)):
         return values
 
+    # masked entries are missing values
+    values = utils.fill_masked(values)
+
     # clip any negative values to zero
     if np.any(values < 0.0):
         _logger.warning("Input contains negative values -- all negatives clipped to zero")
@@ -269,6 +272,10 @@ def spei(
         _logger.error(message)
         raise ValueError(message)
 
+    # masked entries are missing values
+    precips_mm = utils.fill_masked(precips_mm)
+    pet_mm = utils.fill_masked(pet_mm)
+
     # clip any negative values to zero
     if np.any(precips_mm < 0.0):
         _logger.warning("Input contains negative values -- all negatives clipped to zero")
@@ -410,6 +417,9 @@ def percentage_of_normal(
     if np.ma.is_masked(values) and values.mask.all():
         return values
 
+    # masked entries are missing values
+    values = utils.fill_masked(values)
+
     # make sure we've been provided with sane calibration limits
     if data_start_year > calibration_start_year:
         raise ValueError(
@@ -481,6 +491,9 @@ def pet(
         # we started with all NaNs for the temperature, so just return the same as PET
         return temperature_celsius
 
+    # masked entries are missing values
+    temperature_celsius = utils.fill_masked(temperature_celsius)
+
     # we were passed a vanilla Numpy array, look for indices where the value == NaN
     if np.all(np.isnan(temperature_celsius)):
         # we started with all NaNs for the temperature, so just return the same
@@ -528,6 +541,9 @@ def pci(
         # we started with all NaNs for the rainfall, so just return the same
         return rainfall_mm
 
+    # masked entries are missing values
+    rainfall_mm = utils.fill_masked(rainfall_mm)
+
     # we were passed a vanilla Numpy array, look for indices where the value == NaN
     if np.all(np.isnan(rainfall_mm)):
         # we started with all NaNs for the rainfall, so just return the same
diff --git a/src/climate_indices/utils.py b/src/climate_indices/utils.py
index 5b700b5..a0cedc5 100644
--- a/src/climate_indices/utils.py
+++ b/src/climate_indices/utils.py
@@ -10,6 +10,7 @@ import numpy as np
 __all__ = [
     "compute_days",
     "count_zeros_and_non_missings",
+    "fill_masked",
     "get_logger",
     "get_tolerance",
     "gregorian_length_as_366day",
@@ -92,6 +93,22 @@ def count_zeros_and_non_missings(
     return zeros, non_missings
 
 
+def fill_masked(
+    values: np.ndarray,
+) -> np.ndarray:
+    """
+    Turn the masked entries (if any) of an array into missing values (NaNs).
+
+    :param values: numpy.ndarray or numpy.ma.MaskedArray
+    :return: if the input is a masked array then a plain array of floats having
+        NaNs for the masked entries, otherwise the input array itself
+    """
+    if np.ma.isMaskedArray(values):
+        return np.ma.filled(values.astype(float), np.nan)
+
+    return values
+
+
 def get_logger(name, level):
     """
     Sets up a basic, global _logger
-- 
2.43.0


From ad944f3dffc5f9306cec14c275000da467768b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:55 +0000
Subject: [PATCH 21/27] fix: a single day of a leap year is refused instead of
 filling the whole year

---
 src/climate_indices/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/climate_indices/utils.py b/src/climate_indices/utils.py
index a0cedc5..b1c4b6c 100644
--- a/src/climate_indices/utils.py
+++ b/src/climate_indices/utils.py
@@ -378,6 +378,10 @@ def transform_to_366day(
     # loop over each year
     for year in range(year_start, year_start + total_years):
         if calendar.isleap(year):
+            # a single remaining day would otherwise be repeated over the whole year
+            if len(original) < (original_index + 366):
+                raise ValueError("Incompatible shapes")
+
             # write the next 366 days from the original time
             # series into the all_leap array
             all_leap[all_leap_index: (all_leap_index + 366)] = original[original_index: (original_index + 366)]
-- 
2.43.0


From ce588561fc5f14ef0d2215abdc7bdfaab1229751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:46 +0000
Subject: [PATCH 22/27] fix: values without spread never get Pearson Type III
 parameters, whatever the rounding

---
 src/climate_indices/lmoments.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/climate_indices/lmoments.py b/src/climate_indices/lmoments.py
index 39cb028..f046976 100644
--- a/src/climate_indices/lmoments.py
+++ b/src/climate_indices/lmoments.py
@@ -26,6 +26,11 @@ def fit(timeseries: np.ndarray) -> dict:
     # estimate the L-moments of the values array
     lmoments = _estimate_lmoments(timeseries)
 
+    # values without any spread have an L-scale of zero,
+    # whereas the estimate may be off from that by rounding
+    if np.nanmin(timeseries) == np.nanmax(timeseries):
+        lmoments[1] = 0.0
+
     # validate the L-Moments
     if (lmoments[1] <= 0.0) or (abs(lmoments[2]) >= 1.0):
         message = "Unable to calculate Pearson Type III parameters " + "due to invalid L-moments"
-- 
2.43.0


From 641ad37e999321e713b047c77a86d4105c597354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:22 +0000
Subject: [PATCH 23/27] fix: masked entries are missing values also for Palmer,
 L-moments, padding and calendar conversion

---
 src/climate_indices/lmoments.py | 3 +++
 src/climate_indices/palmer.py   | 4 ++++
 src/climate_indices/utils.py    | 9 +++++++++
 3 files changed, 16 insertions(+)

diff --git a/src/climate_indices/lmoments.py b/src/climate_indices/lmoments.py
index f046976..2c41683 100644
--- a/src/climate_indices/lmoments.py
+++ b/src/climate_indices/lmoments.py
@@ -23,6 +23,9 @@ def fit(timeseries: np.ndarray) -> dict:
     :return:
     """
 
+    # masked entries are missing values
+    timeseries = utils.fill_masked(timeseries)
+
     # estimate the L-moments of the values array
     lmoments = _estimate_lmoments(timeseries)
 
diff --git a/src/climate_indices/palmer.py b/src/climate_indices/palmer.py
index 59c12cb..2a647ad 100644
--- a/src/climate_indices/palmer.py
+++ b/src/climate_indices/palmer.py
@@ -874,6 +874,10 @@ def pdsi(
         _logger.error(message)
         raise ValueError(message)
 
+    # masked entries are missing values
+    precips = utils.fill_masked(precips)
+    pet = utils.fill_masked(pet)
+
     # clip any negative values to zero
     if np.any(precips < 0.0):
         _logger.warning(
diff --git a/src/climate_indices/utils.py b/src/climate_indices/utils.py
index b1c4b6c..71a32bb 100644
--- a/src/climate_indices/utils.py
+++ b/src/climate_indices/utils.py
@@ -250,6 +250,9 @@ def reshape_to_2d(
         if not np.issubdtype(values.dtype, np.inexact):
             values = values.astype(float)
 
+        # masked entries are missing values (padding drops the mask)
+        values = fill_masked(values)
+
         pads = second_axis_length - final_year_values
         values = np.pad(values, pad_width=(0, pads), mode="constant", constant_values=np.nan)
 
@@ -367,6 +370,9 @@ def transform_to_366day(
         _logger.error(message)
         raise ValueError(message)
 
+    # masked entries are missing values
+    original = fill_masked(original)
+
     # allocate the new array for 366 daily values per year,
     # including a faux Feb 29 for non-leap years
     all_leap = np.full((total_years * 366,), np.nan)
@@ -484,6 +490,9 @@ def transform_to_gregorian(
     year_end = year_start + total_years - 1
     days_actual = (datetime(year_end, 12, 31) - datetime(year_start, 1, 1)).days + 1
 
+    # masked entries are missing values
+    original = fill_masked(original)
+
     # allocate the new array we'll write daily values into,
     # including a faux Feb 29 for non-leap years
     gregorian = np.full((days_actual,), np.nan)
-- 
2.43.0


From ae0b6c7c7f2f7ddd644b6664056d2adcac7952e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:08 +0000
Subject: [PATCH 24/27] fix: inputs reordered from one file with several
 variables can be combined

---
 src/climate_indices/__main__.py | 2 ++
 src/climate_indices/__spi__.py  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/climate_indices/__main__.py b/src/climate_indices/__main__.py
index dc5d356..de646f4 100644
--- a/src/climate_indices/__main__.py
+++ b/src/climate_indices/__main__.py
@@ -1482,6 +1482,8 @@ def _prepare_file(
     if dimensions != expected_dims:
         file_descriptor, netcdf_file = tempfile.mkstemp(suffix=".nc")
         os.close(file_descriptor)
+        # (without the other data variables, so files prepared from the same input can be combined)
+        ds = ds.drop_vars([name for name in ds.data_vars if name not in (var_name, "lat")])
         ds.transpose(*expected_dims, ...).to_netcdf(netcdf_file)
 
     return netcdf_file
diff --git a/src/climate_indices/__spi__.py b/src/climate_indices/__spi__.py
index cc002ac..858f94f 100644
--- a/src/climate_indices/__spi__.py
+++ b/src/climate_indices/__spi__.py
@@ -1304,6 +1304,8 @@ def _prepare_file(netcdf_file, var_name):
     if dimensions != expected_dims:
         file_descriptor, netcdf_file = tempfile.mkstemp(suffix=".nc")
         os.close(file_descriptor)
+        # (without the other data variables, so files prepared from the same input can be combined)
+        ds = ds.drop_vars([name for name in ds.data_vars if name not in (var_name, "lat")])
         ds.transpose(*expected_dims, ...).to_netcdf(netcdf_file)
 
     return netcdf_file
-- 
2.43.0


From 80d54f1c7b2eb9645de7ff378114dbca9c198c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:22 +0000
Subject: [PATCH 25/27] fix: process_climate_indices no longer alters the
 caller's arguments

---
 src/climate_indices/__main__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/climate_indices/__main__.py b/src/climate_indices/__main__.py
index de646f4..2ef1960 100644
--- a/src/climate_indices/__main__.py
+++ b/src/climate_indices/__main__.py
@@ -1638,6 +1638,9 @@ def process_climate_indices(
     # ...
 
     try:
+        # work on a copy, since a computed PET file gets noted in the arguments
+        arguments = argparse.Namespace(**vars(arguments))
+
         # validate the arguments and determine the input type
         input_type = _validate_args(arguments)
 
-- 
2.43.0


From 39b884b6a56ad147df9cf1b7a5a4bf87c9933234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:04 +0000
Subject: [PATCH 26/27] fix: inputs whose coordinates differ within the
 tolerance are combined cell by cell

---
 src/climate_indices/__main__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/climate_indices/__main__.py b/src/climate_indices/__main__.py
index 2ef1960..1805fd2 100644
--- a/src/climate_indices/__main__.py
+++ b/src/climate_indices/__main__.py
@@ -711,7 +711,8 @@ def _compute_write_index(keyword_arguments):
         else:
             raise ValueError(f"Invalid 'input_type' keyword argument: {input_type}")
     # Since multiple variables can be in the same file, de-duplicate the filelist.
-    dataset = xr.open_mfdataset(list(set(files)), chunks=chunks)
+    # The coordinates can differ within the tolerance used for validation, so don't align by their exact values.
+    dataset = xr.open_mfdataset(list(set(files)), chunks=chunks, join="override")
     output_chunksizes = {}
     if keyword_arguments["chunksizes"] == "input":
         # Find the first variable with chunksizes set and use that
-- 
2.43.0


From b0aa30d54394d0fd6dfd1c4b391298cfdfed6e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:49 +0000
Subject: [PATCH 27/27] fix: full soil layers are exactly full, so beta keeps
 its default for months without potential recharge

---
 src/climate_indices/palmer.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/climate_indices/palmer.py b/src/climate_indices/palmer.py
index 2a647ad..d14203a 100644
--- a/src/climate_indices/palmer.py
+++ b/src/climate_indices/palmer.py
@@ -92,19 +92,23 @@ def _calc_recharge(
             if (p - pet - rs) < (awc_bot - su):
                 ru = p - pet - rs
                 ro = 0.0
+                ssu = su + ru
 
             # some runoff occurs
             else:
                 ru = awc_bot - su
                 ro = p - pet - rs - ru
 
-            ssu = su + ru
+                # the under layer is full (exactly, i.e. su + ru
+                # may be off from that by rounding)
+                ssu = awc_bot
+
             r = rs + ru
 
         # only top layer recharged
         else:
             r = p - pet
-            sss = ss + p - pet
+            sss = ss + r
             ssu = su
             ro = 0.0
     # evaporation exceeds precipitation
-- 
2.43.0

