From 10f4c0236918760c062af115e7cd09674af2b25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:44 +0000
Subject: [PATCH 01/25] fix: find_besthist selects max_casts casts for a limit
 of 1, 2 or 4 instead of crashing or over-selecting

---
 pyowc/core/finders.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyowc/core/finders.py b/pyowc/core/finders.py
index 1e67149..8114412 100644
--- a/pyowc/core/finders.py
+++ b/pyowc/core/finders.py
@@ -207,6 +207,8 @@ def find_besthist(grid_lat, grid_long, grid_dates, grid_z_value, lat, long, date
 
         # work out how many large spatial data points needed
         lsegment2 = math.ceil(max_casts / 3) + math.ceil(max_casts / 3) - index_rand.__len__()
+        # never take more than we have room for (max_casts of 1)
+        lsegment2 = min(lsegment2, max_casts - index_rand.__len__())
 
         index_z = np.arange(lsegment2, int(len(z_remain_long)))
 
@@ -260,7 +262,7 @@ def find_besthist(grid_lat, grid_long, grid_dates, grid_z_value, lat, long, date
         i2_ellipse = []
         for i in i2_remain:
             i2_ellipse.append(index_ellipse[int(i)])
-        index_large_spatial = np.concatenate(np.array(i2_ellipse))
+        index_large_spatial = np.array(i2_ellipse, dtype=int).flatten()
 
         # index3_small_spatial
         i3_small = correlation_small_sorted[:leftover]
@@ -280,7 +282,7 @@ def find_besthist(grid_lat, grid_long, grid_dates, grid_z_value, lat, long, date
         i3_ellipse = []
         for i in i3_remain:
             i3_ellipse.append(index_ellipse[int(i)])
-        index_small_spatial = np.concatenate(np.array(i3_ellipse))
+        index_small_spatial = np.array(i3_ellipse, dtype=int).flatten()
 
         index = np.concatenate((index_rand_ellipse, index_large_spatial, index_small_spatial))
 
-- 
2.43.0


From 242739c5b2a68c918fa32458c032e7bc356c25d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:04 +0000
Subject: [PATCH 02/25] fix: change_dates decimalises dates held as floats
 without their decimal part

---
 pyowc/utilities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyowc/utilities.py b/pyowc/utilities.py
index cf10c7b..52ac389 100644
--- a/pyowc/utilities.py
+++ b/pyowc/utilities.py
@@ -187,7 +187,8 @@ def change_dates(cal_dates):
     dec_dates = np.full(cal_dates.__len__(), 0, dtype=float)
 
     # cannot iterate through integers, so convert calendar dates into array of strings
-    cal_dates_string = list(map(str, cal_dates))
+    # (dropping the decimal part that dates held as floats are printed with)
+    cal_dates_string = [str(cal_date).split('.', maxsplit=1)[0] for cal_date in cal_dates]
 
     # go through and decimalise dates
     for i in range(0, cal_dates_string.__len__()):
-- 
2.43.0


From 2330726309ccb79eb6fc9920b363a405681a244c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:04 +0000
Subject: [PATCH 03/25] fix: fit_cond keeps observations, errors and
 covariances paired when profiles are not in order

---
 pyowc/core/stats.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyowc/core/stats.py b/pyowc/core/stats.py
index ac39a12..4197675 100644
--- a/pyowc/core/stats.py
+++ b/pyowc/core/stats.py
@@ -178,10 +178,11 @@ def fit_cond(x, y, n_err, lvcov, *args):
     # condition the series so that the fit is well behaved
     # sort by the independent variable
 
-    x = np.sort(x)
     sorted_index = np.argsort(x, kind='stable')
+    x = x[sorted_index]
     y = y[sorted_index]
     n_err = n_err[sorted_index]
+    lvcov = lvcov[np.ix_(sorted_index, sorted_index)]
 
     # scale x from -1 to 1
 
-- 
2.43.0


From b149fbbb7914334df66ec49c335df949c6c3d842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:43 +0000
Subject: [PATCH 04/25] fix: set_calseries can add new profiles to, and default
 the percentage of, an existing calseries file

---
 pyowc/configuration.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyowc/configuration.py b/pyowc/configuration.py
index 474fc36..bfd22ff 100644
--- a/pyowc/configuration.py
+++ b/pyowc/configuration.py
@@ -176,7 +176,7 @@ def set_calseries(float_dir, float_name, system_config):
         try:
             use_percent_gt = calseries_data['use_percent_gt']
 
-        except NameError:
+        except KeyError:
             use_percent_gt = 0.5
 
         print("Using parameters found in ", calseries_filename,
@@ -230,9 +230,11 @@ def set_calseries(float_dir, float_name, system_config):
     # Add the missing profiles to the data set
     for i in range(missing_profiles_index.__len__()):
         missing = missing_profiles_index[i]
-        calib_profile_no.append(profile_no[missing])
         # set flag as the same as previous entry
-        calseries = np.append(calseries, calseries(max(missing - 1, 1)))
+        previous = np.argwhere(calib_profile_no == profile_no[max(missing - 1, 0)]).flatten()
+        previous = previous[0] if previous.__len__() > 0 else 0
+        calib_profile_no = np.append(calib_profile_no, profile_no[missing])
+        calseries = np.append(calseries, calseries[previous])
 
     # sort the calseries file by profile number
 
-- 
2.43.0


From 8dd7182fc41f66fff50bb2db2c010e1f20a63d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:43 +0000
Subject: [PATCH 05/25] fix: mapped files written before the SAF option load
 again

---
 pyowc/helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyowc/helper.py b/pyowc/helper.py
index 9672e85..a73b6cc 100644
--- a/pyowc/helper.py
+++ b/pyowc/helper.py
@@ -45,13 +45,13 @@ def load_varibales_from_file(mapped_data_path, float_level_count) -> dict:
         float_mapped_data["scale_age_large"] = float_mapped_data['scale_age_large'].flatten()
         float_mapped_data["scale_age_small"] = float_mapped_data['scale_age_small'].flatten()
         float_mapped_data["use_pv"] = float_mapped_data['use_pv'].flatten()
-        float_mapped_data["use_saf"] = float_mapped_data['use_saf'].flatten()
         float_mapped_data["p_delta"] = float_mapped_data['p_delta'].flatten()
         float_mapped_data["p_exclude"] = float_mapped_data['p_exclude'].flatten()
 
         # Check to see if this is an older version run without the saf constraint
         if not "use_saf" in float_mapped_data:
             float_mapped_data["use_saf"] = np.zeros(float_mapped_data['use_pv'].shape)
+        float_mapped_data["use_saf"] = float_mapped_data['use_saf'].flatten()
 
         # Get mapped data shape
         float_mapped_data["profile_index"] = float_mapped_data["la_mapped_sal"].shape[1]
-- 
2.43.0


From 449cc1e56cbd8d3a4d362a43d51b211f7cf62724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:59 +0000
Subject: [PATCH 06/25] fix: update_salinity_mapping sorts the mapped columns
 by profile number once, not twice

---
 pyowc/calibration.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 9aabe35..402f871 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -344,9 +344,6 @@ def update_salinity_mapping(float_dir, config, float_name):
     sorted_profile_index = data['la_profile_no'].argsort()
 
     # finalise the data sorted by profile number, make data type numpy arrays
-    data = sort_numpy_array(data, sorted_profile_index, ['la_ptmp', 'la_mapped_sal',
-                                                         'la_map_sal_errors', 'la_noise_sal',
-                                                         'la_signal_sal'])
     # check is numpy array
     data = check_and_make_numpy_arry(data)
 
-- 
2.43.0


From bd75f16ad512f6f97f7694049d4f1ebcae28dc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:59 +0000
Subject: [PATCH 07/25] fix: new profiles can be added to mapped data loaded
 from file

---
 pyowc/helper.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyowc/helper.py b/pyowc/helper.py
index a73b6cc..0a7e699 100644
--- a/pyowc/helper.py
+++ b/pyowc/helper.py
@@ -53,6 +53,12 @@ def load_varibales_from_file(mapped_data_path, float_level_count) -> dict:
             float_mapped_data["use_saf"] = np.zeros(float_mapped_data['use_pv'].shape)
         float_mapped_data["use_saf"] = float_mapped_data['use_saf'].flatten()
 
+        # the settings of new profiles will be appended
+        for key in ("scale_long_large", "scale_lat_large", "scale_long_small", "scale_lat_small",
+                    "scale_phi_large", "scale_phi_small", "scale_age_large", "scale_age_small",
+                    "use_pv", "use_saf", "p_delta", "p_exclude"):
+            float_mapped_data[key] = list(float_mapped_data[key])
+
         # Get mapped data shape
         float_mapped_data["profile_index"] = float_mapped_data["la_mapped_sal"].shape[1]
         max_depth = float_mapped_data["la_mapped_sal"].shape[0]
-- 
2.43.0


From 2bd747179177f0ec43d96bf0643d0a70f4248255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:59 +0000
Subject: [PATCH 08/25] fix: update_salinity_mapping saves a float for which no
 historical point was selected

---
 pyowc/calibration.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 402f871..bd8b3b5 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -350,6 +350,7 @@ def update_salinity_mapping(float_dir, config, float_name):
     # remove problem element from dic before genral sort
     selected_hist = data.pop('selected_hist')
 
+    selected_hist_1 = []
     if len(selected_hist) > 0:
         selected_hist_1 = np.array(sorted(selected_hist, key=lambda x: x[2]))
 
-- 
2.43.0


From ec1a6791135e36e886864ed41d8bac1c8112c621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:12 +0000
Subject: [PATCH 09/25] fix: mapped data of a float in a sub-directory is saved
 and plotted where it is loaded from

---
 pyowc/calibration.py    | 6 +-----
 pyowc/plot/dashboard.py | 2 +-
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index bd8b3b5..7cc2697 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -359,13 +359,9 @@ def update_salinity_mapping(float_dir, config, float_name):
 
     data['selected_hist'] = selected_hist_1
 
-    # define the saving location
-    save_location = os.path.sep.join([config['FLOAT_MAPPED_DIRECTORY'],
-                                      config['FLOAT_MAPPED_PREFIX'] + float_name + config['FLOAT_MAPPED_POSTFIX']])
-
     # save the data
     data['la_mapsalerrors'] = data.pop('la_map_sal_errors')
-    savemat(save_location, data)
+    savemat(mapped_data_path, data)
 
 
 # pylint: disable=invalid-name
diff --git a/pyowc/plot/dashboard.py b/pyowc/plot/dashboard.py
index 3dadf17..f0d2143 100644
--- a/pyowc/plot/dashboard.py
+++ b/pyowc/plot/dashboard.py
@@ -27,7 +27,7 @@ def plot_diagnostics(float_dir, float_name, config, levels=2):
         Nothing, but will save the plots as PDFs
     """
 
-    grid_data_loc = os.path.sep.join([config['FLOAT_MAPPED_DIRECTORY'],
+    grid_data_loc = os.path.sep.join([config['FLOAT_MAPPED_DIRECTORY'], float_dir,
                                       config['FLOAT_MAPPED_PREFIX'] + float_name + config['FLOAT_MAPPED_POSTFIX']])
     float_data_loc = os.path.sep.join([config['FLOAT_SOURCE_DIRECTORY'], float_dir,
                                        float_name + config['FLOAT_SOURCE_POSTFIX']])
-- 
2.43.0


From d53f4016e83e32f9093491b267d307e53edb12f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:56 +0000
Subject: [PATCH 10/25] fix: historical casts are mapped with the ocean depth
 of their own position

---
 pyowc/calibration.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 7cc2697..fdcc01c 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -213,7 +213,9 @@ def update_salinity_mapping(float_dir, config, float_name):
                 # we can get the rest of the data from these casts
                 best_hist_data = get_region_data(wmo_numbers, float_name, config, index, float_data['float_pres'])
 
-                best_hist_data['grid_z'] = grid_data['grid_z'][index]
+                # the casts are not returned in the order of the indices, and those without
+                # data are left out, so find the depth at the casts we have
+                best_hist_data = process_profiles_grid_variables(best_hist_data, config)
 
                 # If we are near the Subantarctic Front we need to figure out if
                 # the profile is north or south of it. Then we should remove data not on
-- 
2.43.0


From 8651e6c4c58de7621d0360dead6eb4c72e7f0a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:56 +0000
Subject: [PATCH 11/25] fix: frontal_constraint_saf copes with profiles that
 repeat a pressure

---
 pyowc/data/fetchers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyowc/data/fetchers.py b/pyowc/data/fetchers.py
index dc8e8a8..44a405c 100644
--- a/pyowc/data/fetchers.py
+++ b/pyowc/data/fetchers.py
@@ -547,7 +547,7 @@ def frontal_constraint_saf(config, grid_data, float_data):
         # Calculations for Argo float
         isok = np.argwhere((~np.isnan(float_pres)) & (~np.isnan(float_tmp)))
 
-        if not np.argwhere(np.diff(float_pres[isok].T) == 0) and (isok.__len__() > 2) and (
+        if np.argwhere(np.diff(float_pres[isok].T) == 0).size == 0 and (isok.__len__() > 2) and (
                 np.min(float_pres[isok].T) < 300 < np.max(float_pres[isok].T)):
 
             # SAF:
@@ -629,7 +629,7 @@ def frontal_constraint_saf(config, grid_data, float_data):
                     np.argwhere(~np.isnan(grid_pres[:, i]) & ~np.isnan(grid_sal[:, i]) & ~np.isnan(grid_ptmp[:, i])),
                     np.argwhere((np.diff(grid_pres[:, i])) != 0))
 
-                if not np.argwhere(np.diff(grid_pres[isok, i]) == 0) and (isok.__len__() > 2) and (
+                if np.argwhere(np.diff(grid_pres[isok, i]) == 0).size == 0 and (isok.__len__() > 2) and (
                         np.min(grid_pres[isok, i]) < 300 < np.max(grid_pres[isok, i])):
                     t300 = np.interp(300, grid_pres[isok, i], grid_tmp[isok, i], left=np.nan, right=np.nan)
 
-- 
2.43.0


From 85e90f6e961c4b320409ada2e6a64633067fb7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:56 +0000
Subject: [PATCH 12/25] fix: find_10thetas takes one neighbouring level to
 interpolate with

---
 pyowc/core/finders.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyowc/core/finders.py b/pyowc/core/finders.py
index 8114412..2633e07 100644
--- a/pyowc/core/finders.py
+++ b/pyowc/core/finders.py
@@ -641,7 +641,7 @@ def find_10thetas(sal, ptmp, pres, la_ptmp,
 
                     if pos_diff.__len__() > 0:
                         min_diff = np.argwhere(ptmp_diff == np.nanmin(ptmp_diff[pos_diff]))
-                        k_index = interval[min_diff]
+                        k_index = interval[min_diff][0, 0]
 
                     else:
                         k_index = theta_index
@@ -651,7 +651,7 @@ def find_10thetas(sal, ptmp, pres, la_ptmp,
 
                     if neg_diff.__len__() > 0:
                         min_diff = np.argwhere(-ptmp_diff == np.nanmin(-ptmp_diff[neg_diff]))
-                        k_index = interval[min_diff]
+                        k_index = interval[min_diff][0, 0]
 
                     else:
                         k_index = theta_index
-- 
2.43.0


From d8639c201f0880e35f165f681c39c09de38824d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:30 +0000
Subject: [PATCH 13/25] fix: interp_climatology copes with repeated
 temperatures and with a single level

---
 pyowc/data/wrangling.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyowc/data/wrangling.py b/pyowc/data/wrangling.py
index f8daee4..aefb77d 100644
--- a/pyowc/data/wrangling.py
+++ b/pyowc/data/wrangling.py
@@ -143,6 +143,9 @@ def interp_climatology(grid_sal, grid_theta, grid_pres, float_sal, float_theta,
         # no sign changes between consecutive values for a station means there are no values to interpolate
         stations_with_possible_interp = np.unique(sign_changes[1])
 
+        if stations_with_possible_interp.size == 0:
+            continue
+
         # find the interpolated pres value which is closest to the float pres for each station
         min_pres = np.nanargmin(np.abs(output_placeholder[:, stations_with_possible_interp] - float_pres[index]), axis=0)
 
@@ -177,8 +180,10 @@ def calculate_interpolation_weights(value, reference_values, reference_values_di
     # find the bracketing values
     value_before = reference_values[:-1][sign_changes]
 
-    # calculate the interpolation weights
-    interpolation_factors = (value - value_before) / reference_values_diff[sign_changes]
+    # calculate the interpolation weights (no weight is needed between values which are the same)
+    value_diff = reference_values_diff[sign_changes]
+    interpolation_factors = np.divide(value - value_before, value_diff,
+                                      out=np.zeros(value_diff.shape), where=value_diff != 0)
 
     return interpolation_factors, sign_changes
 
-- 
2.43.0


From 9410656c990d5af92adfe8628ffcce8525b95224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:30 +0000
Subject: [PATCH 14/25] fix: fit_cond can estimate the errors of a fit with
 break points

---
 pyowc/core/stats.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyowc/core/stats.py b/pyowc/core/stats.py
index 4197675..fdd0415 100644
--- a/pyowc/core/stats.py
+++ b/pyowc/core/stats.py
@@ -546,6 +546,7 @@ def fit_cond(x, y, n_err, lvcov, *args):
                 # give an initial guess as the fitted break points to speed up calculation
                 nbr = real_breaks.__len__()
                 b_g = np.concatenate(([-1], real_breaks))
+                ubrk_g = []
 
                 for n in range(nbr):
                     ubrk_g.append(np.log((b_g[n + 1] - b_g[n]) / (1 - b_g[nbr])))
@@ -556,7 +557,7 @@ def fit_cond(x, y, n_err, lvcov, *args):
                 ubrk = optim['x'][0]
                 residual = optim['fun']
 
-                btem = np.concatenate([xfit[0]], breaks)
+                btem = np.concatenate(([xfit[0]], breaks))
                 E = np.zeros((xfit.__len__(), best))
                 E[:, 0] = np.ones((xfit.__len__(), 1)).T
                 ixb = sorter(btem, xfit)
-- 
2.43.0


From 0820bd65c7331d625176ad79f35f0b3eadb86fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:25 +0000
Subject: [PATCH 15/25] fix: fit_cond copes with series of too few profiles for
 the breaks it tries

---
 pyowc/core/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyowc/core/stats.py b/pyowc/core/stats.py
index fdd0415..3a5c54d 100644
--- a/pyowc/core/stats.py
+++ b/pyowc/core/stats.py
@@ -1034,7 +1034,7 @@ def brk_pt_fit(x_obvs, y_obvs, w_i, breaks=None):
         ls_est = np.dot(trends.T, trends)
 
     if np.linalg.det(ls_est) == 0:
-        fit_param = np.zeros((b_length + 2, 1))
+        fit_param = np.zeros(b_length + 2)
         residual = y_obvs
         print("ERROR in brk_pt_fit: DET(A) == 0")
         return fit_param, residual
-- 
2.43.0


From 6f05679eef485a257e6e26dd3610624f27ef8e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:45 +0000
Subject: [PATCH 16/25] fix: fit_cond evaluates the fitted curve at its own
 abscissae when the first profiles have no valid observation

---
 pyowc/core/stats.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pyowc/core/stats.py b/pyowc/core/stats.py
index 3a5c54d..087b6fd 100644
--- a/pyowc/core/stats.py
+++ b/pyowc/core/stats.py
@@ -510,13 +510,17 @@ def fit_cond(x, y, n_err, lvcov, *args):
             if ii.__len__() > 0:
                 E[ii, j + 1] = btem[j + 1] - btem[j]
 
-    # fit the values
-    yfit = np.dot(E, A)
-
     # factor to increase monte carlo error estimate, taking into account
     # that we have correlated noise
     P_3 = np.dot(E, P_2) / np.dot(E, P_1)
 
+    # the first slope starts at the first observation, which may be later than the first profile
+    if best >= 2:
+        E[:, 1] = E[:, 1] - (xf[0] - xfit[0])
+
+    # fit the values
+    yfit = np.dot(E, A)
+
     real_A = copy.deepcopy(A)
     real_E = copy.deepcopy(E)
     real_breaks = copy.deepcopy(breaks)
@@ -572,6 +576,8 @@ def fit_cond(x, y, n_err, lvcov, *args):
                     if ii.__len__() > 0:
                         E[ii, j + 1] = btem[j + 1] - btem[j]
 
+                E[:, 1] = E[:, 1] - (xf[0] - xfit[0])
+
             err = err + (yfit - np.dot(E, A)) ** 2
 
         err = err / nloops
-- 
2.43.0


From 8948d74c13b86c347677e060864ed5358fcaba24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:10 +0000
Subject: [PATCH 17/25] fix: find_besthist ranks casts by their potential
 vorticity with the arguments in the right order

---
 pyowc/core/finders.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyowc/core/finders.py b/pyowc/core/finders.py
index 2633e07..b5f931b 100644
--- a/pyowc/core/finders.py
+++ b/pyowc/core/finders.py
@@ -190,7 +190,7 @@ def find_besthist(grid_lat, grid_long, grid_dates, grid_z_value, lat, long, date
         correlation_large = spatial_correlation_vec(remain_hist_long, long, longitude_large,
                                                     remain_hist_lat, lat, latitude_large,
                                                     remain_hist_dates, date, age_large,
-                                                    pv_hist, pv_float, phi_large)
+                                                    phi_large, pv_hist, pv_float)
 
         correlation_large_sorted = correlation_large.argsort()
 
@@ -237,7 +237,7 @@ def find_besthist(grid_lat, grid_long, grid_dates, grid_z_value, lat, long, date
                                                     lat, latitude_small,
                                                     s_remain_hist_dates,
                                                     date, age_small,
-                                                    pv_hist, pv_float, phi_small)
+                                                    phi_small, pv_hist, pv_float)
 
         correlation_small_sorted = correlation_small.argsort()
 
-- 
2.43.0


From 1044c3ff9aefc5fd67e744a0bf637eff48f1c740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:19 +0000
Subject: [PATCH 18/25] fix: brk_pt_fit gives zero coefficients for every
 singular system instead of raising

---
 pyowc/core/stats.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pyowc/core/stats.py b/pyowc/core/stats.py
index 087b6fd..9a839b9 100644
--- a/pyowc/core/stats.py
+++ b/pyowc/core/stats.py
@@ -1046,12 +1046,18 @@ def brk_pt_fit(x_obvs, y_obvs, w_i, breaks=None):
         return fit_param, residual
 
     # calculate fit parameters
-    if w_i.__len__() > 0:
-        fit_param = np.dot(np.dot(linalg.solve(ls_est, trends.T), w_i), y_obvs)
+    try:
+        if w_i.__len__() > 0:
+            fit_param = np.dot(np.dot(linalg.solve(ls_est, trends.T), w_i), y_obvs)
 
-    else:
-        fit_param = linalg.solve(ls_est, np.dot(trends.T, y_obvs))
+        else:
+            fit_param = linalg.solve(ls_est, np.dot(trends.T, y_obvs))
 
+    except linalg.LinAlgError:
+        fit_param = np.zeros(b_length + 2)
+        residual = y_obvs
+        print("ERROR in brk_pt_fit: A is singular")
+        return fit_param, residual
 
     # calculate fit estimate
     residual = y_obvs - np.dot(trends, fit_param)
-- 
2.43.0


From 12adda2bb1092cd63c9da330644988b4e717e4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:49 +0000
Subject: [PATCH 19/25] fix: get_region_data keeps the casts that follow a
 first cast without usable levels

---
 pyowc/data/fetchers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyowc/data/fetchers.py b/pyowc/data/fetchers.py
index 44a405c..7c7007f 100644
--- a/pyowc/data/fetchers.py
+++ b/pyowc/data/fetchers.py
@@ -372,7 +372,7 @@ def get_region_data(pa_wmo_numbers, pa_float_name, config, index, pa_float_pres)
 
                             # if the new data we are adding is longer than our columns, we need to
                             # fill in NaNs in the other columns
-                            if new_depth > max_depth != 0:
+                            if new_depth > max_depth and how_many_cols != 0:
                                 grid_pres = np.append(grid_pres, np.ones(
                                     (how_many_cols, new_depth - max_depth)) * np.nan, axis=1
                                                       ).reshape((how_many_cols, how_many_rows))
-- 
2.43.0


From cb4e6c8a3de8e2acc0778e5e1403e3446ad0ef15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:13 +0000
Subject: [PATCH 20/25] fix: float and historical longitudes are compared on
 the same turn on both sides of the 0-360 mark

A float at 0-20E whose casts all lie west of the meridian, or a float west of
it whose casts all lie east, was compared with them the long way round, so
no cast was within the mapping ellipse.
---
 pyowc/calibration.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index fdcc01c..cd32196 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -197,10 +197,8 @@ def update_salinity_mapping(float_dir, config, float_name):
                 grid_data = process_profiles_grid_variables(grid_data, config)
 
                 # make sure that the grid and float longitudes match at the 0-360 mark
-                float_long_0 = float_data['float_long']
-                if np.argwhere(grid_long > 360).__len__() > 0:
-                    if 0 <= float_data['float_long'] <= 20:
-                        float_long_0 += 360
+                float_long_0 = float_data['float_long'] + 360 * np.round(
+                    (np.nanmean(grid_long) - float_data['float_long']) / 360)
 
                 index = find_besthist(grid_data['grid_lat'], grid_data['grid_long'], grid_data['grid_dates'],
                                       grid_data['grid_z'], float_data['float_lat'], float_long_0,
@@ -228,9 +226,8 @@ def update_salinity_mapping(float_dir, config, float_name):
                         best_hist_data.update(best_hist_data_2)
 
                 # make the float longitude wrap around the 0-360 mark if the historical data has
-                if np.argwhere(best_hist_data['grid_long'] > 360).__len__() > 0:
-                    if 0 <= float_data['float_long'] <= 20:
-                        float_data['float_long'] += 360
+                float_data['float_long'] = float_data['float_long'] + 360 * np.round(
+                    (np.nanmean(best_hist_data['grid_long']) - float_data['float_long']) / 360)
 
                 # interpolate historical data onto float theta levels
                 hist_interp_sal, hist_interp_pres = interp_climatology(best_hist_data['grid_sal'],
-- 
2.43.0


From 3e5d429541677b4ca78bc41e882875ada432f018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:55 +0000
Subject: [PATCH 21/25] fix: a calibration series without valid data no longer
 stops the fit of the others

fit_cond returned bare NaNs for a series without valid data, which
calc_piecewisefit cannot store; return missing values of the usual shapes.
---
 pyowc/core/stats.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyowc/core/stats.py b/pyowc/core/stats.py
index 9a839b9..fff1dcb 100644
--- a/pyowc/core/stats.py
+++ b/pyowc/core/stats.py
@@ -162,12 +162,12 @@ def fit_cond(x, y, n_err, lvcov, *args):
     if npts == 0:
         print("Failed to find any good data")
 
-        condslope = np.nan
-        condslope_err = np.nan
-        time_deriv = np.nan
-        time_deriv_err = np.nan
-        sta_mean = np.nan
-        sta_rms = np.nan
+        condslope = np.ones(nfit) * np.nan
+        condslope_err = np.ones(nfit) * np.nan
+        time_deriv = np.ones((nfit, 1)) * np.nan
+        time_deriv_err = np.ones((nfit, 1)) * np.nan
+        sta_mean = np.ones((1, nfit)) * np.nan
+        sta_rms = np.ones((1, nfit)) * np.nan
         NDF = []
         fit_coef = []
         fit_breaks = []
-- 
2.43.0


From a8d7477ce8abbcf9a9fae815630459301ddb016c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:25 +0000
Subject: [PATCH 22/25] fix: find_10thetas finds no levels, instead of
 crashing, without a valid theta range

---
 pyowc/core/finders.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyowc/core/finders.py b/pyowc/core/finders.py
index b5f931b..55a9f47 100644
--- a/pyowc/core/finders.py
+++ b/pyowc/core/finders.py
@@ -557,6 +557,7 @@ def find_10thetas(sal, ptmp, pres, la_ptmp,
     max_theta = np.floor(np.nanmax(ptmp) * 10) / 10
 
     # only find levels if we have a valid theta range
+    pres_levels = np.array([])
     if min_theta < max_theta:
 
         # get pressure levels
-- 
2.43.0


From 47d18d2220e442d4ea5dfe8ff75ce737e8d80098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:21 +0000
Subject: [PATCH 23/25] fix: a break limit for each calibration series may be
 given as a row

A list of limits is saved as a row, of which only the first limit was used,
for every series.
---
 pyowc/calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index cd32196..992eabf 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -447,7 +447,7 @@ def calc_piecewisefit(float_dir, float_name, system_config):
     float_calseries = loadmat(float_calseries_path)
 
     calseries = float_calseries['calseries']
-    max_breaks = float_calseries['max_breaks']
+    max_breaks = float_calseries['max_breaks'].reshape((-1, 1))
     breaks = float_calseries['breaks']
     use_theta_gt = float_calseries['use_theta_gt']
     use_theta_lt = float_calseries['use_theta_lt']
-- 
2.43.0


From 604854ab1d99e76735127ec69907fbd1e3521f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:24 +0000
Subject: [PATCH 24/25] fix: map profiles whose only pressure is that of their
 first level

---
 pyowc/calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 992eabf..d14259e 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -159,7 +159,7 @@ def update_salinity_mapping(float_dir, config, float_name):
 
         # if we have any good location data and pressure data from the float
         if not np.isnan(float_data['float_long']) and not np.isnan(float_data['float_lat']) \
-                and np.argwhere(np.isnan(float_data['float_pres']) == 0).any():
+                and not np.isnan(float_data['float_pres']).all():
 
             # tbase.int file requires longitudes from 0 to +/-180
             float_long_tbase = copy.deepcopy(float_data['float_long'])
-- 
2.43.0


From 360e500f230c02d3d1f354a58603806756e34b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:41 +0000
Subject: [PATCH 25/25] fix: read the depth of every column of grids that go
 all the way round

---
 pyowc/data/fetchers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyowc/data/fetchers.py b/pyowc/data/fetchers.py
index 7c7007f..bb877c8 100644
--- a/pyowc/data/fetchers.py
+++ b/pyowc/data/fetchers.py
@@ -100,7 +100,7 @@ def get_topo_grid(min_long, max_long, min_lat, max_lat, config):
     lgs = np.arange(llong, rlong + 1, 1) / 12
     lts = np.flip(np.arange(blat, tlat + 1, 1) / 12, axis=0)
 
-    if rlong > 360 * 12 - 1:
+    if llong > 360 * 12 - 1:
         rlong = rlong - 360 * 12
         llong = llong - 360 * 12
 
@@ -126,6 +126,9 @@ def get_topo_grid(min_long, max_long, min_lat, max_lat, config):
         for i in range(nlat):
             elev_file.seek((i + decoder[3]) * 360 * 12 * 2)
             for j in range(nlgr):
+                if j == 360 * 12:
+                    # the grid ends on the column on which the row begins
+                    elev_file.seek((i + decoder[3]) * 360 * 12 * 2)
                 topo_end[i, j] = struct.unpack('h', elev_file.read(2))[0]
 
         topo_beg = np.zeros((nlat, nlgl))
-- 
2.43.0

