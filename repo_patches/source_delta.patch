From 6d0943c5d23c6731522d0a472f5b302ac993d587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:25 +0000
Subject: [PATCH 01/45] fix: change_dates accepts float dates with 8 or 10
 digits

---
 pyowc/utilities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyowc/utilities.py b/pyowc/utilities.py
index cf10c7b..2dccf86 100644
--- a/pyowc/utilities.py
+++ b/pyowc/utilities.py
@@ -187,7 +187,8 @@ def change_dates(cal_dates):
     dec_dates = np.full(cal_dates.__len__(), 0, dtype=float)
 
     # cannot iterate through integers, so convert calendar dates into array of strings
-    cal_dates_string = list(map(str, cal_dates))
+    # (dates held as floats print with a decimal part, which is not part of the date)
+    cal_dates_string = [str(date).split('.', maxsplit=1)[0] for date in cal_dates]
 
     # go through and decimalise dates
     for i in range(0, cal_dates_string.__len__()):
-- 
2.43.0


From ac4cbb8967492ef5f20182acd8377492e0b444dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:45 +0000
Subject: [PATCH 02/45] fix: find_besthist passes the cross-isobath scale and
 vorticities to spatial_correlation in its argument order

---
 pyowc/core/finders.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyowc/core/finders.py b/pyowc/core/finders.py
index 1e67149..7ff67ed 100644
--- a/pyowc/core/finders.py
+++ b/pyowc/core/finders.py
@@ -190,7 +190,7 @@ def find_besthist(grid_lat, grid_long, grid_dates, grid_z_value, lat, long, date
         correlation_large = spatial_correlation_vec(remain_hist_long, long, longitude_large,
                                                     remain_hist_lat, lat, latitude_large,
                                                     remain_hist_dates, date, age_large,
-                                                    pv_hist, pv_float, phi_large)
+                                                    phi_large, pv_hist, pv_float)
 
         correlation_large_sorted = correlation_large.argsort()
 
@@ -235,7 +235,7 @@ def find_besthist(grid_lat, grid_long, grid_dates, grid_z_value, lat, long, date
                                                     lat, latitude_small,
                                                     s_remain_hist_dates,
                                                     date, age_small,
-                                                    pv_hist, pv_float, phi_small)
+                                                    phi_small, pv_hist, pv_float)
 
         correlation_small_sorted = correlation_small.argsort()
 
-- 
2.43.0


From 6cdddcfd1fdb69f06c2357306cdc02df710ec1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:19 +0000
Subject: [PATCH 03/45] fix: find_besthist honours a maximum of one, two or
 four casts

---
 pyowc/core/finders.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyowc/core/finders.py b/pyowc/core/finders.py
index 7ff67ed..d3b00da 100644
--- a/pyowc/core/finders.py
+++ b/pyowc/core/finders.py
@@ -207,6 +207,8 @@ def find_besthist(grid_lat, grid_long, grid_dates, grid_z_value, lat, long, date
 
         # work out how many large spatial data points needed
         lsegment2 = math.ceil(max_casts / 3) + math.ceil(max_casts / 3) - index_rand.__len__()
+        # never more than what is left to select
+        lsegment2 = min(lsegment2, max_casts - index_rand.__len__())
 
         index_z = np.arange(lsegment2, int(len(z_remain_long)))
 
@@ -247,7 +249,7 @@ def find_besthist(grid_lat, grid_long, grid_dates, grid_z_value, lat, long, date
         i1_ellipse = []
         for i in index_rand.flatten():
             i1_ellipse.append(index_ellipse[int(i)])
-        index_rand_ellipse = np.concatenate(np.array(i1_ellipse))
+        index_rand_ellipse = np.array(i1_ellipse, dtype=int).flatten()
 
         # index for hist_lat(index_random)
         # index2_large_spatial
@@ -260,7 +262,7 @@ def find_besthist(grid_lat, grid_long, grid_dates, grid_z_value, lat, long, date
         i2_ellipse = []
         for i in i2_remain:
             i2_ellipse.append(index_ellipse[int(i)])
-        index_large_spatial = np.concatenate(np.array(i2_ellipse))
+        index_large_spatial = np.array(i2_ellipse, dtype=int).flatten()
 
         # index3_small_spatial
         i3_small = correlation_small_sorted[:leftover]
@@ -280,7 +282,7 @@ def find_besthist(grid_lat, grid_long, grid_dates, grid_z_value, lat, long, date
         i3_ellipse = []
         for i in i3_remain:
             i3_ellipse.append(index_ellipse[int(i)])
-        index_small_spatial = np.concatenate(np.array(i3_ellipse))
+        index_small_spatial = np.array(i3_ellipse, dtype=int).flatten()
 
         index = np.concatenate((index_rand_ellipse, index_large_spatial, index_small_spatial))
 
-- 
2.43.0


From f71b2de572c3bcfc462c859723ce1602fc2e15ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:48 +0000
Subject: [PATCH 04/45] fix: historical files holding a single cast are read
 instead of being dropped

---
 pyowc/data/fetchers.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/pyowc/data/fetchers.py b/pyowc/data/fetchers.py
index dc8e8a8..75e4dc2 100644
--- a/pyowc/data/fetchers.py
+++ b/pyowc/data/fetchers.py
@@ -19,16 +19,32 @@ from ..utilities import wrap_longitude, change_dates
 from ..configuration import print_cfg
 
 
+def _read_casts(filepath):
+    """Read a .mat file of casts; one holding a single cast is squeezed by read_mat, so restore its column."""
+    data = read_mat(filepath)
+
+    if np.ndim(data['lat']) == 0:
+        for name in ('lat', 'long', 'dates'):
+            data[name] = np.array([data[name]])
+        for name in ('sal', 'ptmp', 'temp', 'pres'):
+            if name in data:
+                data[name] = np.array(data[name]).reshape((-1, 1))
+        if 'source' in data:
+            data['source'] = [data['source']]
+
+    return data
+
+
 @lru_cache()
 def read_mat_ctd(filepath):
     """Cache the result of reading a ctd .mat file from disk."""
-    return read_mat(filepath)
+    return _read_casts(filepath)
 
 
 @lru_cache()
 def read_mat_bottle(filepath):
     """Load and transform a bottle .mat file."""
-    data = read_mat(filepath)
+    data = _read_casts(filepath)
 
     # if data dimensions don't match, transpose to avoid indexing issues
     if (data['lat'].size == data['pres'].size and data['lat'].shape[1] == data['pres'].shape[1]):
@@ -43,7 +59,7 @@ def read_mat_bottle(filepath):
 @lru_cache()
 def read_mat_argo(filepath, pa_float_name):
     """Load and transform an Argo .mat file."""
-    data = read_mat(filepath)
+    data = _read_casts(filepath)
     # remove the argo float being analysed from the data
     not_use = []
     for i in range(0, data['lat'].__len__()):
-- 
2.43.0


From b83e40b2f68eb97afd4c852d46e66b5333d05a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:26 +0000
Subject: [PATCH 05/45] fix: get_region_data normalises longitudes as
 get_region_hist_locations does

---
 pyowc/data/fetchers.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pyowc/data/fetchers.py b/pyowc/data/fetchers.py
index 75e4dc2..8a141f9 100644
--- a/pyowc/data/fetchers.py
+++ b/pyowc/data/fetchers.py
@@ -325,10 +325,13 @@ def get_region_data(pa_wmo_numbers, pa_float_name, config, index, pa_float_pres)
     grid_ptmp = []
     grid_pres = []
     grid_lat = []
-    grid_long = []
     grid_dates = []
     data = []
 
+    # longitudes of all the casts in the region, and the positions of the selected casts among them
+    region_long = []
+    selected = []
+
     # set up current maximum depth and number of columns
     max_depth = 0
     how_many_cols = 0
@@ -362,6 +365,7 @@ def get_region_data(pa_wmo_numbers, pa_float_name, config, index, pa_float_pres)
 
                     # remember location of last entry
                     starting_index = starting_index + data_length
+                    region_long = np.append(region_long, data['long'])
 
                     # load each station
                     for i in range(0, data_length):
@@ -426,7 +430,7 @@ def get_region_data(pa_wmo_numbers, pa_float_name, config, index, pa_float_pres)
 
                             # save the latitude, longitude, and date of the new data
                             grid_lat = np.append(grid_lat, data['lat'][i])
-                            grid_long = np.append(grid_long, data['long'][i])
+                            selected.append(data_indices[i])
                             grid_dates = np.append(grid_dates, data['dates'][i])
 
                             # readjust our values so we know what column to add the new data to,
@@ -437,9 +441,9 @@ def get_region_data(pa_wmo_numbers, pa_float_name, config, index, pa_float_pres)
             except:
                 pass
 
-    # convert longitude to 0 to 360 degrees
+    # convert longitude to 0 to 360 degrees, as in get_region_hist_locations (with all the casts of the region)
     try:
-        grid_long = wrap_longitude(grid_long)
+        grid_long = wrap_longitude(region_long)[selected]
 
         _sync_nans(grid_sal, grid_pres, grid_ptmp)
         grid_dates = change_dates(grid_dates)
-- 
2.43.0


From 82c5b031170282a998c26024dfde0eccadad1dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:24 +0000
Subject: [PATCH 06/45] fix: get_region_data copes with a first cast without
 any level in range

---
 pyowc/data/fetchers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyowc/data/fetchers.py b/pyowc/data/fetchers.py
index 8a141f9..a1d4473 100644
--- a/pyowc/data/fetchers.py
+++ b/pyowc/data/fetchers.py
@@ -392,7 +392,7 @@ def get_region_data(pa_wmo_numbers, pa_float_name, config, index, pa_float_pres)
 
                             # if the new data we are adding is longer than our columns, we need to
                             # fill in NaNs in the other columns
-                            if new_depth > max_depth != 0:
+                            if new_depth > max_depth and how_many_cols != 0:
                                 grid_pres = np.append(grid_pres, np.ones(
                                     (how_many_cols, new_depth - max_depth)) * np.nan, axis=1
                                                       ).reshape((how_many_cols, how_many_rows))
-- 
2.43.0


From cc26fd3a5d94de6a19c5bf39ef7c254dda662369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:43 +0000
Subject: [PATCH 07/45] fix: the frontal filter uses the deepest level of every
 historical cast

---
 pyowc/data/fetchers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyowc/data/fetchers.py b/pyowc/data/fetchers.py
index a1d4473..318c001 100644
--- a/pyowc/data/fetchers.py
+++ b/pyowc/data/fetchers.py
@@ -647,7 +647,7 @@ def frontal_constraint_saf(config, grid_data, float_data):
             for i in range(grid_long.__len__()):
                 isok = np.intersect1d(
                     np.argwhere(~np.isnan(grid_pres[:, i]) & ~np.isnan(grid_sal[:, i]) & ~np.isnan(grid_ptmp[:, i])),
-                    np.argwhere((np.diff(grid_pres[:, i])) != 0))
+                    np.argwhere((np.diff(grid_pres[:, i], append=np.nan)) != 0))
 
                 if not np.argwhere(np.diff(grid_pres[isok, i]) == 0) and (isok.__len__() > 2) and (
                         np.min(grid_pres[isok, i]) < 300 < np.max(grid_pres[isok, i])):
-- 
2.43.0


From a0cd7cf52a3e067c449a8b1c926fe297a19921f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:12 +0000
Subject: [PATCH 08/45] fix: the frontal filter leaves profiles with repeated
 pressures undecided instead of failing

---
 pyowc/data/fetchers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyowc/data/fetchers.py b/pyowc/data/fetchers.py
index 318c001..cb37e23 100644
--- a/pyowc/data/fetchers.py
+++ b/pyowc/data/fetchers.py
@@ -567,7 +567,7 @@ def frontal_constraint_saf(config, grid_data, float_data):
         # Calculations for Argo float
         isok = np.argwhere((~np.isnan(float_pres)) & (~np.isnan(float_tmp)))
 
-        if not np.argwhere(np.diff(float_pres[isok].T) == 0) and (isok.__len__() > 2) and (
+        if not np.any(np.diff(float_pres[isok].T) == 0) and (isok.__len__() > 2) and (
                 np.min(float_pres[isok].T) < 300 < np.max(float_pres[isok].T)):
 
             # SAF:
@@ -649,7 +649,7 @@ def frontal_constraint_saf(config, grid_data, float_data):
                     np.argwhere(~np.isnan(grid_pres[:, i]) & ~np.isnan(grid_sal[:, i]) & ~np.isnan(grid_ptmp[:, i])),
                     np.argwhere((np.diff(grid_pres[:, i], append=np.nan)) != 0))
 
-                if not np.argwhere(np.diff(grid_pres[isok, i]) == 0) and (isok.__len__() > 2) and (
+                if not np.any(np.diff(grid_pres[isok, i]) == 0) and (isok.__len__() > 2) and (
                         np.min(grid_pres[isok, i]) < 300 < np.max(grid_pres[isok, i])):
                     t300 = np.interp(300, grid_pres[isok, i], grid_tmp[isok, i], left=np.nan, right=np.nan)
 
-- 
2.43.0


From e558b30cd605b7046b0d4aaa1bc7afb7d2b8e947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:48 +0000
Subject: [PATCH 09/45] fix: climatology with equal temperatures throughout no
 longer stops the interpolation

---
 pyowc/data/wrangling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyowc/data/wrangling.py b/pyowc/data/wrangling.py
index f8daee4..91c6691 100644
--- a/pyowc/data/wrangling.py
+++ b/pyowc/data/wrangling.py
@@ -169,7 +169,8 @@ def calculate_interpolation_weights(value, reference_values, reference_values_di
     diffs = reference_values - value
 
     # boolean array which is true if a sign change occurred between rows in a column
-    sign_changes = find_sign_changes_in_columns(diffs)
+    # (rows with the same value cannot be interpolated between)
+    sign_changes = find_sign_changes_in_columns(diffs) & (reference_values_diff != 0)
 
     # now convert to indices as we will be using it often
     sign_changes = np.nonzero(sign_changes)
-- 
2.43.0


From 6bc88d1e3acce9274fba8f900dfbcccff71fcd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:51 +0000
Subject: [PATCH 10/45] fix: ocean depths are interpolated with
 RectBivariateSpline, interp2d having been removed from SciPy

---
 pyowc/calibration.py | 13 ++++---------
 pyowc/helper.py      | 30 +++++++++++++++++++++++-------
 2 files changed, 27 insertions(+), 16 deletions(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 9aabe35..4760979 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -9,7 +9,6 @@ import gsw
 import numpy as np
 
 from scipy.io import loadmat, savemat
-from scipy import interpolate
 
 from .core.stats import signal_variance, noise_variance, build_cov, fit_cond
 from .core.finders import find_besthist, find_25boxes, find_10thetas
@@ -17,7 +16,7 @@ from .data.wrangling import interp_climatology, map_data_grid
 from .data.fetchers import get_topo_grid, get_region_data, get_region_hist_locations, frontal_constraint_saf
 from .helper import load_varibales_from_file, process_profiles_la_variables, process_profiles_grid_variables, \
     get_float_data, process_profile_hist_variables, remove_statical_outliers, sort_numpy_array, \
-    check_and_make_numpy_arry, selected_historical_points
+    check_and_make_numpy_arry, selected_historical_points, topo_interpolator
 
 
 # pylint: disable=too-many-lines
@@ -174,12 +173,9 @@ def update_salinity_mapping(float_dir, config, float_name):
                                                          float_data['float_lat'] + 1,
                                                          config)
 
-            float_interp = interpolate.interp2d(float_x[0, :],
-                                                float_y[:, 0],
-                                                float_elev,
-                                                kind='linear')
+            float_interp = topo_interpolator(float_x, float_y, float_elev)
 
-            float_data['float_z'] = -float_interp(float_long_tbase, float_data['float_lat'])[0]
+            float_data['float_z'] = -float_interp(float_long_tbase, float_data['float_lat'])
 
             # gather data from area surrounding the float location
             wmo_numbers = find_25boxes(float_data['float_long'], float_data['float_lat'], wmo_boxes)
@@ -437,8 +433,7 @@ def calc_piecewisefit(float_dir, float_name, system_config):
         elev, x_grid, y_grid = get_topo_grid(np.nanmin(long_1) - 1, np.nanmax(long_1) + 1,
                                              np.nanmin(lat) - 1, np.nanmax(lat) + 1, system_config)
 
-        grid_interp = interpolate.interp2d(x_grid[0, :], y_grid[:, 0],
-                                           elev, kind='linear')
+        grid_interp = topo_interpolator(x_grid, y_grid, elev)
 
         z_grid = []
         for i in range(long_1[0].__len__()):
diff --git a/pyowc/helper.py b/pyowc/helper.py
index 9672e85..aec3350 100644
--- a/pyowc/helper.py
+++ b/pyowc/helper.py
@@ -5,7 +5,7 @@ from copy import deepcopy
 from pathlib import Path
 
 import numpy as np
-from scipy.interpolate import interp2d
+from scipy.interpolate import RectBivariateSpline
 from scipy.io import loadmat
 
 from .data.fetchers import get_topo_grid
@@ -179,6 +179,24 @@ def process_profiles_la_variables(data, float_level_count, profile_index):
     return data
 
 
+def topo_interpolator(grid_x, grid_y, grid_elev):
+    """ Bilinear interpolation of the output of get_topo_grid (latitudes in descending order)
+
+    Parameters
+    ----------
+    grid_x : longitudes
+    grid_y : latitudes
+    grid_elev : elevations
+
+    Returns
+    -------
+    function of longitude and latitude, giving the elevation
+    """
+    spline = RectBivariateSpline(grid_y[::-1, 0], grid_x[0, :], grid_elev[::-1, :], kx=1, ky=1)
+
+    return lambda longitude, latitude: spline.ev(latitude, longitude)
+
+
 def process_profiles_grid_variables(grid_data, config):
     """
 
@@ -205,14 +223,12 @@ def process_profiles_grid_variables(grid_data, config):
                                               np.amax(grid_data['grid_lat']) + 1,
                                               config)
 
-    grid_interp = interp2d(grid_x[0], grid_y[:, 0],
-                           grid_elev, kind='linear')
+    grid_interp = topo_interpolator(grid_x, grid_y, grid_elev)
 
-    # As a note, the reason we vectorise the function here is because we do not
-    # want to compare every longitudinal value to ever latitude. Rather, we simply
-    # want to interpolate each pair of longitudes and latitudes.
+    # As a note, we do not want to compare every longitudinal value to ever latitude.
+    # Rather, we simply want to interpolate each pair of longitudes and latitudes.
 
-    grid_z = -1 * np.vectorize(grid_interp)(grid_long_tbase, grid_data['grid_lat'])
+    grid_z = -1 * grid_interp(grid_long_tbase, grid_data['grid_lat'])
 
     grid_data['grid_z'] = grid_z
     grid_data['grid_x'] = grid_x
-- 
2.43.0


From 536d512c77c9f07e9ea3feb4b8b850ecb1806ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:51 +0000
Subject: [PATCH 11/45] fix: the depth of each selected historical cast is the
 one at its own position

---
 pyowc/calibration.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 4760979..b2953cf 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -209,7 +209,9 @@ def update_salinity_mapping(float_dir, config, float_name):
                 # we can get the rest of the data from these casts
                 best_hist_data = get_region_data(wmo_numbers, float_name, config, index, float_data['float_pres'])
 
-                best_hist_data['grid_z'] = grid_data['grid_z'][index]
+                # the casts are returned in the order of the region's data and without empty ones,
+                # so find the depths at their own positions
+                best_hist_data = process_profiles_grid_variables(best_hist_data, config)
 
                 # If we are near the Subantarctic Front we need to figure out if
                 # the profile is north or south of it. Then we should remove data not on
-- 
2.43.0


From e3f82ea0e8934067c5c7983ef75365d709dbb43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:51 +0000
Subject: [PATCH 12/45] fix: the mapped columns are sorted by profile number
 once, not twice

---
 pyowc/calibration.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index b2953cf..60f8c1f 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -342,9 +342,6 @@ def update_salinity_mapping(float_dir, config, float_name):
     sorted_profile_index = data['la_profile_no'].argsort()
 
     # finalise the data sorted by profile number, make data type numpy arrays
-    data = sort_numpy_array(data, sorted_profile_index, ['la_ptmp', 'la_mapped_sal',
-                                                         'la_map_sal_errors', 'la_noise_sal',
-                                                         'la_signal_sal'])
     # check is numpy array
     data = check_and_make_numpy_arry(data)
 
-- 
2.43.0


From d311fc440c839094aa02fa878a6bb14b0344e565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:51 +0000
Subject: [PATCH 13/45] fix: a float without any mapped level is saved instead
 of stopping with UnboundLocalError

---
 pyowc/calibration.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 60f8c1f..0093588 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -347,6 +347,7 @@ def update_salinity_mapping(float_dir, config, float_name):
 
     # remove problem element from dic before genral sort
     selected_hist = data.pop('selected_hist')
+    selected_hist_1 = np.array(selected_hist)
 
     if len(selected_hist) > 0:
         selected_hist_1 = np.array(sorted(selected_hist, key=lambda x: x[2]))
-- 
2.43.0


From 6e7dccd40185ac9a06b1b0857b6967f5833eed23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:51 +0000
Subject: [PATCH 14/45] fix: mapped data are saved where they are looked for
 when resuming and when calibrating

---
 pyowc/calibration.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 0093588..9c70c25 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -358,8 +358,7 @@ def update_salinity_mapping(float_dir, config, float_name):
     data['selected_hist'] = selected_hist_1
 
     # define the saving location
-    save_location = os.path.sep.join([config['FLOAT_MAPPED_DIRECTORY'],
-                                      config['FLOAT_MAPPED_PREFIX'] + float_name + config['FLOAT_MAPPED_POSTFIX']])
+    save_location = mapped_data_path
 
     # save the data
     data['la_mapsalerrors'] = data.pop('la_map_sal_errors')
-- 
2.43.0


From bc4c979a6ab6526c4679eef64753cf7ba656ac0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:51 +0000
Subject: [PATCH 15/45] fix: a float already mapped can be mapped again with
 new profiles

---
 pyowc/helper.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/pyowc/helper.py b/pyowc/helper.py
index aec3350..8a1df0f 100644
--- a/pyowc/helper.py
+++ b/pyowc/helper.py
@@ -34,25 +34,25 @@ def load_varibales_from_file(mapped_data_path, float_level_count) -> dict:
             float_mapped_data['la_map_sal_errors'] = float_mapped_data['la_mapsalerrors']
             float_mapped_data.pop('la_mapsalerrors')
 
-        # flatten the data
-        float_mapped_data["la_profile_no"] = float_mapped_data['la_profile_no'].flatten()
-        float_mapped_data["scale_long_large"] = float_mapped_data['scale_long_large'].flatten()
-        float_mapped_data["scale_lat_large"] = float_mapped_data['scale_lat_large'].flatten()
-        float_mapped_data["scale_long_small"] = float_mapped_data['scale_long_small'].flatten()
-        float_mapped_data["scale_lat_small"] = float_mapped_data['scale_lat_small'].flatten()
-        float_mapped_data["scale_phi_large"] = float_mapped_data['scale_phi_large'].flatten()
-        float_mapped_data["scale_phi_small"] = float_mapped_data['scale_phi_small'].flatten()
-        float_mapped_data["scale_age_large"] = float_mapped_data['scale_age_large'].flatten()
-        float_mapped_data["scale_age_small"] = float_mapped_data['scale_age_small'].flatten()
-        float_mapped_data["use_pv"] = float_mapped_data['use_pv'].flatten()
-        float_mapped_data["use_saf"] = float_mapped_data['use_saf'].flatten()
-        float_mapped_data["p_delta"] = float_mapped_data['p_delta'].flatten()
-        float_mapped_data["p_exclude"] = float_mapped_data['p_exclude'].flatten()
-
         # Check to see if this is an older version run without the saf constraint
         if not "use_saf" in float_mapped_data:
             float_mapped_data["use_saf"] = np.zeros(float_mapped_data['use_pv'].shape)
 
+        # flatten the data (parameter settings are lists, to be extended by new profiles)
+        float_mapped_data["la_profile_no"] = float_mapped_data['la_profile_no'].flatten()
+        float_mapped_data["scale_long_large"] = float_mapped_data['scale_long_large'].flatten().tolist()
+        float_mapped_data["scale_lat_large"] = float_mapped_data['scale_lat_large'].flatten().tolist()
+        float_mapped_data["scale_long_small"] = float_mapped_data['scale_long_small'].flatten().tolist()
+        float_mapped_data["scale_lat_small"] = float_mapped_data['scale_lat_small'].flatten().tolist()
+        float_mapped_data["scale_phi_large"] = float_mapped_data['scale_phi_large'].flatten().tolist()
+        float_mapped_data["scale_phi_small"] = float_mapped_data['scale_phi_small'].flatten().tolist()
+        float_mapped_data["scale_age_large"] = float_mapped_data['scale_age_large'].flatten().tolist()
+        float_mapped_data["scale_age_small"] = float_mapped_data['scale_age_small'].flatten().tolist()
+        float_mapped_data["use_pv"] = float_mapped_data['use_pv'].flatten().tolist()
+        float_mapped_data["use_saf"] = float_mapped_data['use_saf'].flatten().tolist()
+        float_mapped_data["p_delta"] = float_mapped_data['p_delta'].flatten().tolist()
+        float_mapped_data["p_exclude"] = float_mapped_data['p_exclude'].flatten().tolist()
+
         # Get mapped data shape
         float_mapped_data["profile_index"] = float_mapped_data["la_mapped_sal"].shape[1]
         max_depth = float_mapped_data["la_mapped_sal"].shape[0]
-- 
2.43.0


From 1225c39e9312a1560e4d87a81df60df09a4fa780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:17 +0000
Subject: [PATCH 16/45] fix: the directory mapped data are saved in is created
 when missing

---
 pyowc/calibration.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 9c70c25..aad304f 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -359,6 +359,7 @@ def update_salinity_mapping(float_dir, config, float_name):
 
     # define the saving location
     save_location = mapped_data_path
+    os.makedirs(os.path.dirname(save_location), exist_ok=True)
 
     # save the data
     data['la_mapsalerrors'] = data.pop('la_map_sal_errors')
-- 
2.43.0


From 0d84ee497623243c5bb6dece4414a3887be633b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:46 +0000
Subject: [PATCH 17/45] fix: the float's longitude follows the historical data
 around Greenwich also when all of them lie on one side

---
 pyowc/calibration.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index aad304f..b36a6e1 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -193,10 +193,9 @@ def update_salinity_mapping(float_dir, config, float_name):
                 grid_data = process_profiles_grid_variables(grid_data, config)
 
                 # make sure that the grid and float longitudes match at the 0-360 mark
+                # (the historical data are at most 30 degrees away from the float)
                 float_long_0 = float_data['float_long']
-                if np.argwhere(grid_long > 360).__len__() > 0:
-                    if 0 <= float_data['float_long'] <= 20:
-                        float_long_0 += 360
+                float_long_0 += 360 * np.round((np.nanmean(grid_long) - float_long_0) / 360)
 
                 index = find_besthist(grid_data['grid_lat'], grid_data['grid_long'], grid_data['grid_dates'],
                                       grid_data['grid_z'], float_data['float_lat'], float_long_0,
@@ -224,9 +223,7 @@ def update_salinity_mapping(float_dir, config, float_name):
                         best_hist_data.update(best_hist_data_2)
 
                 # make the float longitude wrap around the 0-360 mark if the historical data has
-                if np.argwhere(best_hist_data['grid_long'] > 360).__len__() > 0:
-                    if 0 <= float_data['float_long'] <= 20:
-                        float_data['float_long'] += 360
+                float_data['float_long'] = float_long_0
 
                 # interpolate historical data onto float theta levels
                 hist_interp_sal, hist_interp_pres = interp_climatology(best_hist_data['grid_sal'],
-- 
2.43.0


From bf11fdd93f2d598425bd1b1a1b428a232d82ab8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:46 +0000
Subject: [PATCH 18/45] fix: a profile without historical data in range no
 longer stops the mapping of the float

---
 pyowc/calibration.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index b36a6e1..b786959 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -204,6 +204,12 @@ def update_salinity_mapping(float_dir, config, float_name):
                                       phi_large, phi_small, map_age_large, map_age_small,
                                       map_use_pv, max_casts)
 
+                # no historical data close enough: there is nothing to map this profile with
+                if index.__len__() == 0:
+                    print("no historical data found within range of the profile")
+                    profile_index += 1
+                    continue
+
                 # Now that we have the indices of the best spatial and temporal data
                 # we can get the rest of the data from these casts
                 best_hist_data = get_region_data(wmo_numbers, float_name, config, index, float_data['float_pres'])
-- 
2.43.0


From aa8b0a3d40f7c6f7cde9fe49156701ec7cd1af0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:46 +0000
Subject: [PATCH 19/45] fix: a profile with a pressure at its first level only
 is mapped

---
 pyowc/calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index b786959..eb54ce1 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -158,7 +158,7 @@ def update_salinity_mapping(float_dir, config, float_name):
 
         # if we have any good location data and pressure data from the float
         if not np.isnan(float_data['float_long']) and not np.isnan(float_data['float_lat']) \
-                and np.argwhere(np.isnan(float_data['float_pres']) == 0).any():
+                and not np.all(np.isnan(float_data['float_pres'])):
 
             # tbase.int file requires longitudes from 0 to +/-180
             float_long_tbase = copy.deepcopy(float_data['float_long'])
-- 
2.43.0


From 7ab8ce6771b6d318fbed5789da22b9e08a15565c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:15 +0000
Subject: [PATCH 20/45] fix: profiles added to a float are added to its
 calibration series

---
 pyowc/configuration.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyowc/configuration.py b/pyowc/configuration.py
index 474fc36..00ca027 100644
--- a/pyowc/configuration.py
+++ b/pyowc/configuration.py
@@ -230,9 +230,10 @@ def set_calseries(float_dir, float_name, system_config):
     # Add the missing profiles to the data set
     for i in range(missing_profiles_index.__len__()):
         missing = missing_profiles_index[i]
-        calib_profile_no.append(profile_no[missing])
         # set flag as the same as previous entry
-        calseries = np.append(calseries, calseries(max(missing - 1, 1)))
+        previous = np.flatnonzero(calib_profile_no == profile_no[missing - 1]) if missing > 0 else [0]
+        calseries = np.append(calseries, calseries[previous[0]])
+        calib_profile_no = np.append(calib_profile_no, profile_no[missing])
 
     # sort the calseries file by profile number
 
-- 
2.43.0


From 81abd105ae1dc146f8338b8747d136a3c7152f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:15 +0000
Subject: [PATCH 21/45] fix: calibration series without use_percent_gt get its
 default

---
 pyowc/configuration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyowc/configuration.py b/pyowc/configuration.py
index 00ca027..305db8e 100644
--- a/pyowc/configuration.py
+++ b/pyowc/configuration.py
@@ -176,7 +176,7 @@ def set_calseries(float_dir, float_name, system_config):
         try:
             use_percent_gt = calseries_data['use_percent_gt']
 
-        except NameError:
+        except KeyError:
             use_percent_gt = 0.5
 
         print("Using parameters found in ", calseries_filename,
-- 
2.43.0


From 7cdfdea12f60584b719fddc166bd5c34a90a15cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:15 +0000
Subject: [PATCH 22/45] fix: profiles without data are flagged by profile
 number, not by their place in the source

---
 pyowc/configuration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyowc/configuration.py b/pyowc/configuration.py
index 305db8e..32a9930 100644
--- a/pyowc/configuration.py
+++ b/pyowc/configuration.py
@@ -256,7 +256,7 @@ def set_calseries(float_dir, float_name, system_config):
         if sal_nan.__len__() == 0 or \
                 temp_nan.__len__() == 0 or \
                 pres_nan.__len__() == 0:
-            calseries[i] = 0
+            calseries[calib_profile_no == profile_no[i]] = 0
 
     savemat(calseries_filename, {'breaks': breaks,
                                  'max_breaks': max_breaks,
-- 
2.43.0


From 7f5ebb0ac3dfbeb5b7cd4044ba3adfa8f6ddac30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:15 +0000
Subject: [PATCH 23/45] fix: bounds given more than once are recognised in row
 vectors, as they are loaded

---
 pyowc/configuration.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyowc/configuration.py b/pyowc/configuration.py
index 32a9930..22eecd6 100644
--- a/pyowc/configuration.py
+++ b/pyowc/configuration.py
@@ -202,19 +202,19 @@ def set_calseries(float_dir, float_name, system_config):
 
     # ensure values are in a realistic range
 
-    if use_theta_lt.__len__() > 1:
+    if np.size(use_theta_lt) > 1:
         print("More than one potential temperature boundary used, removing boundary...")
         use_theta_lt = []
 
-    if use_theta_gt.__len__() > 1:
+    if np.size(use_theta_gt) > 1:
         print("More than one potential temperature boundary used, removing boundary...")
         use_theta_gt = []
 
-    if use_pres_lt.__len__() > 1:
+    if np.size(use_pres_lt) > 1:
         print("More than one pressure boundary used, removing boundary...")
         use_pres_lt = []
 
-    if use_pres_gt.__len__() > 1:
+    if np.size(use_pres_gt) > 1:
         print("More than one pressure boundary used, removing boundary...")
         use_pres_gt = []
 
-- 
2.43.0


From 13e67ade965c66c71dca0fa15bd53cca3611908c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:20 +0000
Subject: [PATCH 24/45] fix: find_10thetas takes a single neighbouring sample
 to interpolate salinity

---
 pyowc/core/finders.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyowc/core/finders.py b/pyowc/core/finders.py
index d3b00da..161f2ad 100644
--- a/pyowc/core/finders.py
+++ b/pyowc/core/finders.py
@@ -641,7 +641,7 @@ def find_10thetas(sal, ptmp, pres, la_ptmp,
 
                     if pos_diff.__len__() > 0:
                         min_diff = np.argwhere(ptmp_diff == np.nanmin(ptmp_diff[pos_diff]))
-                        k_index = interval[min_diff]
+                        k_index = interval[min_diff[0, 0]]
 
                     else:
                         k_index = theta_index
@@ -651,7 +651,7 @@ def find_10thetas(sal, ptmp, pres, la_ptmp,
 
                     if neg_diff.__len__() > 0:
                         min_diff = np.argwhere(-ptmp_diff == np.nanmin(-ptmp_diff[neg_diff]))
-                        k_index = interval[min_diff]
+                        k_index = interval[min_diff[0, 0]]
 
                     else:
                         k_index = theta_index
-- 
2.43.0


From 1bf524c953ade90f9f6032aa8c6290b2c5821f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:20 +0000
Subject: [PATCH 25/45] fix: find_10thetas returns no level when there is no
 valid temperature range, instead of failing

---
 pyowc/core/finders.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyowc/core/finders.py b/pyowc/core/finders.py
index 161f2ad..23dfaeb 100644
--- a/pyowc/core/finders.py
+++ b/pyowc/core/finders.py
@@ -556,6 +556,8 @@ def find_10thetas(sal, ptmp, pres, la_ptmp,
     min_theta = np.ceil(np.nanmin(ptmp) * 10) / 10
     max_theta = np.floor(np.nanmax(ptmp) * 10) / 10
 
+    pres_levels = np.array([])
+
     # only find levels if we have a valid theta range
     if min_theta < max_theta:
 
-- 
2.43.0


From c722344662f07d8e4dd32ebffabf91291e7db12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:20 +0000
Subject: [PATCH 26/45] fix: find_10thetas copes with pressures within less
 than 10 dbar

---
 pyowc/core/finders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyowc/core/finders.py b/pyowc/core/finders.py
index 23dfaeb..87a1bf9 100644
--- a/pyowc/core/finders.py
+++ b/pyowc/core/finders.py
@@ -569,7 +569,7 @@ def find_10thetas(sal, ptmp, pres, la_ptmp,
 
         # check we can get 10 theta levels. If not, alter pressure increment
         if pres_levels.__len__() < no_levels:
-            increment = np.floor((max_pres - min_pres) / no_levels)
+            increment = max(np.floor((max_pres - min_pres) / no_levels), 1)
             pres_levels = np.arange(min_pres, max_pres, increment)
 
     # interpolate levels onto pressure increments
-- 
2.43.0


From c4436a05e1682e9816cf278d748af96afa65c127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:20 +0000
Subject: [PATCH 27/45] fix: find_10thetas drops only the levels seen in too
 few profiles

---
 pyowc/core/finders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyowc/core/finders.py b/pyowc/core/finders.py
index 87a1bf9..7c869c3 100644
--- a/pyowc/core/finders.py
+++ b/pyowc/core/finders.py
@@ -694,7 +694,7 @@ def find_10thetas(sal, ptmp, pres, la_ptmp,
         if np.nanmax(num_good) != 0:
             percent_s_profs[j] = num_good[j] / np.nanmax(num_good)
 
-    bad = np.argwhere(percent_s_profs < use_percent_gt)
+    bad = percent_s_profs < use_percent_gt
     var_sal_tlevels[bad] = np.nan
     var_sal_theta = copy.deepcopy(var_sal_tlevels)
 
-- 
2.43.0


From ef2acc1aa9d086f824f47b5721ac529480c7c325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:51 +0000
Subject: [PATCH 28/45] fix: fit_cond estimates the errors of a fit with free
 break points instead of failing

---
 pyowc/core/stats.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyowc/core/stats.py b/pyowc/core/stats.py
index ac39a12..9fcb848 100644
--- a/pyowc/core/stats.py
+++ b/pyowc/core/stats.py
@@ -545,6 +545,7 @@ def fit_cond(x, y, n_err, lvcov, *args):
                 # give an initial guess as the fitted break points to speed up calculation
                 nbr = real_breaks.__len__()
                 b_g = np.concatenate(([-1], real_breaks))
+                ubrk_g = []
 
                 for n in range(nbr):
                     ubrk_g.append(np.log((b_g[n + 1] - b_g[n]) / (1 - b_g[nbr])))
@@ -555,7 +556,7 @@ def fit_cond(x, y, n_err, lvcov, *args):
                 ubrk = optim['x'][0]
                 residual = optim['fun']
 
-                btem = np.concatenate([xfit[0]], breaks)
+                btem = np.concatenate(([xfit[0]], breaks))
                 E = np.zeros((xfit.__len__(), best))
                 E[:, 0] = np.ones((xfit.__len__(), 1)).T
                 ixb = sorter(btem, xfit)
-- 
2.43.0


From ee205df574072a837c69e12d2ddef0af6ea71d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:44 +0000
Subject: [PATCH 29/45] fix: fit_cond keeps values, errors and covariances with
 their profile when sorting by profile number

---
 pyowc/core/stats.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyowc/core/stats.py b/pyowc/core/stats.py
index 9fcb848..ede180e 100644
--- a/pyowc/core/stats.py
+++ b/pyowc/core/stats.py
@@ -178,10 +178,11 @@ def fit_cond(x, y, n_err, lvcov, *args):
     # condition the series so that the fit is well behaved
     # sort by the independent variable
 
-    x = np.sort(x)
     sorted_index = np.argsort(x, kind='stable')
+    x = x[sorted_index]
     y = y[sorted_index]
     n_err = n_err[sorted_index]
+    lvcov = lvcov[sorted_index, :][:, sorted_index]
 
     # scale x from -1 to 1
 
-- 
2.43.0


From f417e743fff37ffd1b214a7f1a026fd4f4017a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:06 +0000
Subject: [PATCH 30/45] fix: fit_cond evaluates the fit from the first profile
 with data, also when earlier ones have none

---
 pyowc/core/stats.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyowc/core/stats.py b/pyowc/core/stats.py
index ede180e..872452b 100644
--- a/pyowc/core/stats.py
+++ b/pyowc/core/stats.py
@@ -494,10 +494,11 @@ def fit_cond(x, y, n_err, lvcov, *args):
     P_2 = np.diag(P)
 
     # reduce matrix to have only one value per profile
-    btem = np.concatenate(([xfit[0]], breaks))
+    # (the first profiles may have no good data: the first segment extends to them)
+    btem = np.concatenate(([xf[0]], breaks))
     E = np.zeros((xfit.__len__(), best))
     E[:, 0] = np.ones((xfit.__len__(), 1)).T
-    ixb = sorter(btem, xfit)
+    ixb = np.maximum(sorter(btem, xfit), 0)
 
     if best >= 2:
         for j in range(best - 1):
@@ -557,10 +558,10 @@ def fit_cond(x, y, n_err, lvcov, *args):
                 ubrk = optim['x'][0]
                 residual = optim['fun']
 
-                btem = np.concatenate(([xfit[0]], breaks))
+                btem = np.concatenate(([xf[0]], breaks))
                 E = np.zeros((xfit.__len__(), best))
                 E[:, 0] = np.ones((xfit.__len__(), 1)).T
-                ixb = sorter(btem, xfit)
+                ixb = np.maximum(sorter(btem, xfit), 0)
 
                 for j in range(best - 1):
                     # pointer to x values greater than break point j
-- 
2.43.0


From a0756e430268bfb3a717ea0d9d54767cbbee2b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:00 +0000
Subject: [PATCH 31/45] fix: calc_piecewisefit passes the positions to
 build_cov as latitude, longitude, depth

---
 pyowc/calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index eb54ce1..61a9d40 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -443,7 +443,7 @@ def calc_piecewisefit(float_dir, float_name, system_config):
             z_grid.append(grid_interp(long_1[0][i], lat[0][i]))
 
         z_grid = -np.array(z_grid)
-        coord_float = np.column_stack((long.T, lat.T, z_grid))
+        coord_float = np.column_stack((lat.T, long.T, z_grid))
 
     # load the calibration settings
     float_calseries_path = os.path.sep.join([system_config['FLOAT_CALIB_DIRECTORY'], float_dir,
-- 
2.43.0


From 6805632b9ed0d90a1aabe3b419a1c756c05e33e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:00 +0000
Subject: [PATCH 32/45] fix: the lateral covariance of a float that crosses the
 0-360 mark uses continuous longitudes

---
 pyowc/calibration.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 61a9d40..99f82af 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -427,6 +427,10 @@ def calc_piecewisefit(float_dir, float_name, system_config):
         if lat.shape[0] > 1:
             lat = lat.flatten()
 
+        # keep the positions of a float that crosses the 0-360 mark together
+        if np.nanmax(long) - np.nanmin(long) > 180:
+            long = np.where(long > 180, long - 360, long)
+
         if np.any(long > 180):
             long_1 = copy.deepcopy(long) - 360
 
-- 
2.43.0


From ae1c399d76aff2583900d675bff918f37b078eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:00 +0000
Subject: [PATCH 33/45] fix: a float or series without valid theta levels is
 saved uncalibrated instead of stopping with an error

---
 pyowc/calibration.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 99f82af..8df2016 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -420,6 +420,8 @@ def calc_piecewisefit(float_dir, float_name, system_config):
     selected_hist = float_mapped_data['selected_hist']
 
     # retrieve XYZ of float position used to build covariance
+    coord_float = np.ones((long.size, 3)) * np.nan
+
     if selected_hist.__len__() > 0:
         if long.shape[0] > 1:
             long = long.flatten()
@@ -597,8 +599,8 @@ def calc_piecewisefit(float_dir, float_name, system_config):
                                                       use_pres_lt, use_pres_gt,
                                                       use_percent_gt)
 
-        index = np.array(index, dtype=int)
         pp = np.argwhere(np.isnan(index) == 0)
+        index = np.array(index, dtype=int)
         # only proceed if we have valied theta levels
         if pp.__len__() > 0:
             for ipr in range(k):
-- 
2.43.0


From 404d115b1268d539837181afdea59d4ea464e90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:00 +0000
Subject: [PATCH 34/45] fix: fit_cond returns missing values of the usual
 shapes without any good data

---
 pyowc/core/stats.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyowc/core/stats.py b/pyowc/core/stats.py
index 872452b..2b9947a 100644
--- a/pyowc/core/stats.py
+++ b/pyowc/core/stats.py
@@ -162,12 +162,12 @@ def fit_cond(x, y, n_err, lvcov, *args):
     if npts == 0:
         print("Failed to find any good data")
 
-        condslope = np.nan
-        condslope_err = np.nan
-        time_deriv = np.nan
-        time_deriv_err = np.nan
-        sta_mean = np.nan
-        sta_rms = np.nan
+        condslope = np.ones(nfit) * np.nan
+        condslope_err = np.ones(nfit) * np.nan
+        time_deriv = np.ones((nfit, 1)) * np.nan
+        time_deriv_err = np.ones((nfit, 1)) * np.nan
+        sta_mean = np.ones((1, nfit)) * np.nan
+        sta_rms = np.ones((1, nfit)) * np.nan
         NDF = []
         fit_coef = []
         fit_breaks = []
-- 
2.43.0


From 5b083bb5b428cabf729ae03967d10acfe1904983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:00 +0000
Subject: [PATCH 35/45] fix: the maximum numbers of breaks of several series
 are read from a row vector, as they are saved

---
 pyowc/calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 8df2016..260a5ff 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -458,7 +458,7 @@ def calc_piecewisefit(float_dir, float_name, system_config):
     float_calseries = loadmat(float_calseries_path)
 
     calseries = float_calseries['calseries']
-    max_breaks = float_calseries['max_breaks']
+    max_breaks = float_calseries['max_breaks'].reshape((-1, 1))
     breaks = float_calseries['breaks']
     use_theta_gt = float_calseries['use_theta_gt']
     use_theta_lt = float_calseries['use_theta_lt']
-- 
2.43.0


From 3302f6bf4a63cf24f55e0aec01414b43e3c1503f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:00 +0000
Subject: [PATCH 36/45] fix: breaks for too few series are reported instead of
 stopping with an IndexError

---
 pyowc/calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 260a5ff..2138aa2 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -522,7 +522,7 @@ def calc_piecewisefit(float_dir, float_name, system_config):
 
             sstatus = 0
 
-        for n in range(n_seq):
+        for n in range(min(ns, n_seq)):
             nb = np.argwhere(np.isfinite(breaks[n, :])).__len__()
 
             if nb > max_breaks[n]:
-- 
2.43.0


From c019a255dc2e57ae2b14550d2a64c334e10355ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:00 +0000
Subject: [PATCH 37/45] fix: series with prescribed breaks are fitted with
 them, and never with more than their maximum

---
 pyowc/calibration.py | 50 +++++++++++++++-----------------------------
 1 file changed, 17 insertions(+), 33 deletions(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 2138aa2..32c57ac 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -659,39 +659,23 @@ def calc_piecewisefit(float_dir, float_name, system_config):
 
             else:
                 breaks_in = breaks[i, :]
-                breaks_in = breaks_in[np.argwhere(np.isfinite(breaks_in))]
-
-                if max_breaks[i]:
-                    (xfit, condslope, condslope_err,
-                     time_deriv_temp, time_deriv_err_temp,
-                     sta_mean_temp, sta_rms_temp, ndf,
-                     fit_coef, fit_breaks) = fit_cond(x, y, err,
-                                                      covariance,
-                                                      'breaks',
-                                                      breaks_in,
-                                                      'max_no_breaks',
-                                                      max_breaks[i][0])
-                    pcond_factor[0][calindex] = condslope
-                    pcond_factor_err[0][calindex] = condslope_err
-                    time_deriv[calindex] = time_deriv_temp
-                    time_deriv_err[calindex] = time_deriv_err_temp
-                    sta_mean[0][calindex], = sta_mean_temp
-                    sta_rms[0][calindex] = sta_rms_temp
-
-                else:
-                    (xfit, condslope, condslope_err,
-                     time_deriv_temp, time_deriv_err_temp,
-                     sta_mean_temp, sta_rms_temp, ndf,
-                     fit_coef, fit_breaks) = fit_cond(x, y, err,
-                                                      covariance,
-                                                      'breaks',
-                                                      breaks_in)
-                    pcond_factor[0][calindex] = condslope
-                    pcond_factor_err[0][calindex] = condslope_err
-                    time_deriv[calindex] = time_deriv_temp
-                    time_deriv_err[calindex] = time_deriv_err_temp
-                    sta_mean[0][calindex], = sta_mean_temp
-                    sta_rms[0][calindex] = sta_rms_temp
+                breaks_in = breaks_in[np.isfinite(breaks_in)]
+
+                (xfit, condslope, condslope_err,
+                 time_deriv_temp, time_deriv_err_temp,
+                 sta_mean_temp, sta_rms_temp, ndf,
+                 fit_coef, fit_breaks) = fit_cond(x, y, err,
+                                                  covariance,
+                                                  'breaks',
+                                                  breaks_in,
+                                                  'max_no_breaks',
+                                                  max_breaks[i][0])
+                pcond_factor[0][calindex] = condslope
+                pcond_factor_err[0][calindex] = condslope_err
+                time_deriv[0][calindex] = time_deriv_temp.flatten()
+                time_deriv_err[0][calindex] = time_deriv_err_temp.flatten()
+                sta_mean[0][calindex], = sta_mean_temp
+                sta_rms[0][calindex] = sta_rms_temp
 
             # apply calibrations to float data
 
-- 
2.43.0


From b6f4b6aa492c31cab0c87a94d230bd764b98f66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:58 +0000
Subject: [PATCH 38/45] fix: the salinity time series is interpolated at the
 neighbouring sample instead of stopping with a ValueError

---
 pyowc/plot/plots.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyowc/plot/plots.py b/pyowc/plot/plots.py
index 7f9d62b..648c80c 100644
--- a/pyowc/plot/plots.py
+++ b/pyowc/plot/plots.py
@@ -451,7 +451,7 @@ def sal_var_plot(levels, sal, pres, ptmp, map_sal, map_sal_errors,
 
                     if pos_diff.__len__() > 0:
                         min_diff = np.argwhere(ptmp_diff == np.nanmin(ptmp_diff[pos_diff]))
-                        k_index = inter[min_diff]
+                        k_index = inter[min_diff[0, 0]]
 
                     else:
                         k_index = theta_index
@@ -461,7 +461,7 @@ def sal_var_plot(levels, sal, pres, ptmp, map_sal, map_sal_errors,
 
                     if neg_diff.__len__() > 0:
                         min_diff = np.argwhere(-ptmp_diff == np.nanmin(-ptmp_diff[neg_diff]))
-                        k_index = inter[min_diff]
+                        k_index = inter[min_diff[0, 0]]
 
                     else:
                         k_index = theta_index
-- 
2.43.0


From 407512afaf302abd94be2cdadc0d41a8fc2e7766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:21 +0000
Subject: [PATCH 39/45] fix: the salinity time series excludes only the samples
 outside the bounds, not whole levels

---
 pyowc/plot/plots.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pyowc/plot/plots.py b/pyowc/plot/plots.py
index 648c80c..847f386 100644
--- a/pyowc/plot/plots.py
+++ b/pyowc/plot/plots.py
@@ -353,7 +353,7 @@ def sal_var_plot(levels, sal, pres, ptmp, map_sal, map_sal_errors,
         cal_sal_errors[good] = np.nan
 
     if use_theta_lt.__len__() == 0 and use_theta_gt.__len__() > 0:
-        good = np.argwhere(ptmp < use_theta_gt)
+        good = ptmp < use_theta_gt
         pres[good] = np.nan
         sal[good] = np.nan
         ptmp[good] = np.nan
@@ -368,10 +368,10 @@ def sal_var_plot(levels, sal, pres, ptmp, map_sal, map_sal_errors,
 
         if use_theta_lt < use_theta_gt:
             # exclude middle band
-            good = np.argwhere(np.logical_and(theta_range_lt, theta_range_gt))
+            good = np.logical_and(theta_range_lt, theta_range_gt)
 
         else:
-            good = np.argwhere(np.logical_or(theta_range_gt, theta_range_lt))
+            good = np.logical_or(theta_range_gt, theta_range_lt)
 
         pres[good] = np.nan
         sal[good] = np.nan
@@ -382,7 +382,7 @@ def sal_var_plot(levels, sal, pres, ptmp, map_sal, map_sal_errors,
         cal_sal_errors[good] = np.nan
 
     if use_pres_lt.__len__() > 0 and use_pres_gt.__len__() == 0:
-        good = np.argwhere(pres > use_pres_lt)
+        good = pres > use_pres_lt
         pres[good] = np.nan
         sal[good] = np.nan
         ptmp[good] = np.nan
@@ -392,7 +392,7 @@ def sal_var_plot(levels, sal, pres, ptmp, map_sal, map_sal_errors,
         cal_sal_errors[good] = np.nan
 
     if use_pres_lt.__len__() == 0 and use_pres_gt.__len__() > 0:
-        good = np.argwhere(pres < use_pres_gt)
+        good = pres < use_pres_gt
         pres[good] = np.nan
         sal[good] = np.nan
         ptmp[good] = np.nan
@@ -407,10 +407,10 @@ def sal_var_plot(levels, sal, pres, ptmp, map_sal, map_sal_errors,
 
         if use_pres_lt < use_pres_gt:
             # exclude middle band
-            good = np.argwhere(np.logical_and(pres_range_lt, pres_range_gt))
+            good = np.logical_and(pres_range_lt, pres_range_gt)
 
         else:
-            good = np.argwhere(np.logical_or(pres_range_gt, pres_range_lt))
+            good = np.logical_or(pres_range_gt, pres_range_lt)
 
         pres[good] = np.nan
         sal[good] = np.nan
-- 
2.43.0


From f0a13a903c9a3dd47fdf4ce6ed05ca5efc0c84df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:16 +0000
Subject: [PATCH 40/45] fix: both panels of the calibration curve are drawn in
 the saved figure, also while other figures are open

---
 pyowc/plot/plots.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pyowc/plot/plots.py b/pyowc/plot/plots.py
index 847f386..52e8310 100644
--- a/pyowc/plot/plots.py
+++ b/pyowc/plot/plots.py
@@ -630,7 +630,6 @@ def cal_sal_curve_plot(sal, cal_sal, cal_sal_err, sta_sal, sta_sal_err, sta_mean
 
         # vertically averaged salinity plot
         plt.subplot(212)
-        plt.figure(1)
 
         plt.plot(profile_no[0], avg_sal_offset, color=(0, 1, 0), linestyle='-', linewidth=2)
         good = np.argwhere(np.isfinite(avg_sta_offset))
-- 
2.43.0


From 28d681a10b3bf3de08fb397f7d8e65c13a836e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:16 +0000
Subject: [PATCH 41/45] fix: the trajectory and the chosen levels are drawn in
 figures of their own, also while other figures are open

---
 pyowc/plot/plots.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyowc/plot/plots.py b/pyowc/plot/plots.py
index 52e8310..ae71633 100644
--- a/pyowc/plot/plots.py
+++ b/pyowc/plot/plots.py
@@ -52,7 +52,7 @@ def trajectory_plot(bath, reef, floats, climatology, float_name, config):
         Nothing
     """
 
-    axes = plt.gca()
+    axes = plt.figure().gca()
     axes.set_aspect(1)
 
     # load in the coastline data
@@ -224,8 +224,7 @@ def t_s_profile_plot(sal, ptmp, pres, sal_var, theta_levels, tlevels, plevels, f
         Nothing
     """
 
-    #plt.figure(1)
-    plt.figure(1, figsize=(7, 9))
+    plt.figure(figsize=(7, 9))
     # plot t-s profile
     plt.subplot(222)
 
-- 
2.43.0


From 5dcfee843fc2e438d164570845338282d58f4ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:12 +0000
Subject: [PATCH 42/45] fix: the diagnostic plots read the mapped data of the
 float's directory, where the mapping saves them

---
 pyowc/plot/dashboard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyowc/plot/dashboard.py b/pyowc/plot/dashboard.py
index 3dadf17..f0d2143 100644
--- a/pyowc/plot/dashboard.py
+++ b/pyowc/plot/dashboard.py
@@ -27,7 +27,7 @@ def plot_diagnostics(float_dir, float_name, config, levels=2):
         Nothing, but will save the plots as PDFs
     """
 
-    grid_data_loc = os.path.sep.join([config['FLOAT_MAPPED_DIRECTORY'],
+    grid_data_loc = os.path.sep.join([config['FLOAT_MAPPED_DIRECTORY'], float_dir,
                                       config['FLOAT_MAPPED_PREFIX'] + float_name + config['FLOAT_MAPPED_POSTFIX']])
     float_data_loc = os.path.sep.join([config['FLOAT_SOURCE_DIRECTORY'], float_dir,
                                        float_name + config['FLOAT_SOURCE_POSTFIX']])
-- 
2.43.0


From dedd2bf8882bccea1efca7dab5b68edfbb8f1ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:29 +0000
Subject: [PATCH 43/45] fix: calibration settings and results are read with the
 postfix they are saved with

---
 pyowc/calibration.py    | 2 +-
 pyowc/plot/dashboard.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 32c57ac..d086d08 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -454,7 +454,7 @@ def calc_piecewisefit(float_dir, float_name, system_config):
     # load the calibration settings
     float_calseries_path = os.path.sep.join([system_config['FLOAT_CALIB_DIRECTORY'], float_dir,
                                              system_config['FLOAT_CALSERIES_PREFIX'] + float_name +
-                                             system_config['FLOAT_MAPPED_POSTFIX']])
+                                             system_config['FLOAT_CALIB_POSTFIX']])
     float_calseries = loadmat(float_calseries_path)
 
     calseries = float_calseries['calseries']
diff --git a/pyowc/plot/dashboard.py b/pyowc/plot/dashboard.py
index f0d2143..9d89e9d 100644
--- a/pyowc/plot/dashboard.py
+++ b/pyowc/plot/dashboard.py
@@ -32,9 +32,9 @@ def plot_diagnostics(float_dir, float_name, config, levels=2):
     float_data_loc = os.path.sep.join([config['FLOAT_SOURCE_DIRECTORY'], float_dir,
                                        float_name + config['FLOAT_SOURCE_POSTFIX']])
     cal_data_loc = os.path.sep.join([config['FLOAT_CALIB_DIRECTORY'], float_dir,
-                                     config['FLOAT_CALIB_PREFIX'] + float_name + config['FLOAT_SOURCE_POSTFIX']])
+                                     config['FLOAT_CALIB_PREFIX'] + float_name + config['FLOAT_CALIB_POSTFIX']])
     cal_series_loc = os.path.sep.join([config['FLOAT_CALIB_DIRECTORY'], float_dir,
-                                       config['FLOAT_CALSERIES_PREFIX'] + float_name + config['FLOAT_SOURCE_POSTFIX']])
+                                       config['FLOAT_CALSERIES_PREFIX'] + float_name + config['FLOAT_CALIB_POSTFIX']])
 
     grid_data = loadmat(grid_data_loc)
     float_data = loadmat(float_data_loc)
-- 
2.43.0


From c90df8039f9d7a92780e0548291a34868dff5a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:54 +0000
Subject: [PATCH 44/45] fix: the fit keeps the positions of a float crossing
 the date line together when they are given from -180 to 180

---
 pyowc/calibration.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index d086d08..bc9e059 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -429,7 +429,10 @@ def calc_piecewisefit(float_dir, float_name, system_config):
         if lat.shape[0] > 1:
             lat = lat.flatten()
 
-        # keep the positions of a float that crosses the 0-360 mark together
+        # keep the positions of a float that crosses the 0-360 mark or the date line together
+        if np.nanmax(long) - np.nanmin(long) > 180:
+            long = long % 360
+
         if np.nanmax(long) - np.nanmin(long) > 180:
             long = np.where(long > 180, long - 360, long)
 
-- 
2.43.0


From daf44cc1f4196ad2c672472a7a9a0495e122d220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:19 +0000
Subject: [PATCH 45/45] fix: the error of the change per profile is the rms
 error of the slope in the units of the change

---
 pyowc/core/stats.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyowc/core/stats.py b/pyowc/core/stats.py
index 2b9947a..508ffd2 100644
--- a/pyowc/core/stats.py
+++ b/pyowc/core/stats.py
@@ -617,11 +617,12 @@ def fit_cond(x, y, n_err, lvcov, *args):
         break_pts = breaks * x_scale + x_0
 
     A[0] = A[0] * y_scale + y_0
-    P[0] = P[0] * y_scale
 
     if A.__len__() > 1:
         A[1:best] = A[1:best] * y_scale / x_scale
-        P[1:best] = P[1:best] * y_scale / x_scale
+
+    # rms errors of the slopes
+    slope_err = np.sqrt(P_2[1:best]) * y_scale / x_scale
 
     yfit = yfit * y_scale + y_0
     err = np.sqrt(err) * y_scale
@@ -639,7 +640,7 @@ def fit_cond(x, y, n_err, lvcov, *args):
 
     elif best == 2:
         time_deriv = A[1] * np.ones((nfit, 1))
-        time_deriv_err = P_2[1] * np.ones((nfit, 1))
+        time_deriv_err = slope_err[0] * np.ones((nfit, 1))
 
     else:
         time_deriv = np.ones((nfit, 1)) * np.nan
@@ -647,7 +648,7 @@ def fit_cond(x, y, n_err, lvcov, *args):
         for j in range(best - 1):
             ib = np.argwhere(ixb == j)
             time_deriv[ib] = A[j + 1]
-            time_deriv_err[ib] = P_2[j + 1]
+            time_deriv_err[ib] = slope_err[j]
 
     condslope = yfit.T
     condslope_err = yerr.T
-- 
2.43.0

