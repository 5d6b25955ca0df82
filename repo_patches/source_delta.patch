From 5da8fb0bae529209ad00ce29089d38154b42deae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:43 +0000
Subject: [PATCH 01/20] fix: do not write into the caller's
 sinogram/projections when replacing non-positive values before the logarithm

---
 algotom/rec/reconstruction.py | 12 ++++++------
 algotom/rec/vertrec.py        | 24 ++++++++++++++++--------
 2 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/algotom/rec/reconstruction.py b/algotom/rec/reconstruction.py
index 7a88823..305818c 100644
--- a/algotom/rec/reconstruction.py
+++ b/algotom/rec/reconstruction.py
@@ -432,7 +432,7 @@ def fbp_reconstruction(sinogram, center, angles=None, ratio=1.0, ramp_win=None,
         if np.any(sinogram <= 0.0):
             warnings.warn("!!!Applying logarithm is enabled but "
                           "there are values <= 0.0 in the data!!!")
-            sinogram[sinogram <= 0.0] = np.float32(1.0)
+            sinogram = np.where(sinogram <= 0.0, np.float32(1.0), sinogram)
         sinogram = -np.log(sinogram)
     if ratio is not None:
         if ratio == 0.0:
@@ -633,7 +633,7 @@ def bpf_reconstruction(sinogram, center, angles=None, ratio=1.0, ramp_win=None,
         if np.any(sinogram <= 0.0):
             warnings.warn("!!!Applying logarithm is enabled but "
                           "there are values <= 0.0 in the data!!!")
-            sinogram[sinogram <= 0.0] = np.float32(1.0)
+            sinogram = np.where(sinogram <= 0.0, np.float32(1.0), sinogram)
         sinogram = -np.log(sinogram)
     if ratio is not None:
         if ratio == 0.0:
@@ -863,7 +863,7 @@ def dfi_reconstruction(sinogram, center, angles=None, ratio=1.0,
         if np.any(sinogram <= 0.0):
             warnings.warn("!!!Applying logarithm is enabled but "
                           "there are values <= 0.0 in the data!!!")
-            sinogram[sinogram <= 0.0] = np.float32(1.0)
+            sinogram = np.where(sinogram <= 0.0, np.float32(1.0), sinogram)
         sinogram = -np.log(sinogram)
     if ncore is None:
         ncore = np.clip(mp.cpu_count() - 1, 1, None)
@@ -962,7 +962,7 @@ def gridrec_reconstruction(sinogram, center, angles=None, ratio=1.0,
         if np.any(sinogram <= 0.0):
             warnings.warn("!!!Applying logarithm is enabled but "
                           "there are values <= 0.0 in the data!!!")
-            sinogram[sinogram <= 0.0] = np.float32(1.0)
+            sinogram = np.where(sinogram <= 0.0, np.float32(1.0), sinogram)
         sinogram = -np.log(sinogram)
     if ncore is None:
         ncore = np.clip(mp.cpu_count() - 1, 1, None)
@@ -1137,7 +1137,7 @@ def astra_reconstruction(sinogram, center, angles=None, ratio=1.0,
         if np.any(sinogram <= 0.0):
             warnings.warn("!!!Applying logarithm is enabled but "
                           "there are values <= 0.0 in the data!!!")
-            sinogram[sinogram <= 0.0] = np.float32(1.0)
+            sinogram = np.where(sinogram <= 0.0, np.float32(1.0), sinogram)
         sinogram = -np.log(sinogram)
     if filter_name is None:
         filter_name = "ram-lak"
@@ -1320,7 +1320,7 @@ def _find_center_based_slice_metric(sinogram, start, stop, step=1,
         if np.any(sinogram <= 0.0):
             warnings.warn("!!!Applying logarithm is enabled but "
                           "there are values <= 0.0 in the data!!!")
-            sinogram[sinogram <= 0.0] = np.float32(1.0)
+            sinogram = np.where(sinogram <= 0.0, np.float32(1.0), sinogram)
         sinogram = -np.log(sinogram)
         apply_log = False
     if not cuda.is_available():
diff --git a/algotom/rec/vertrec.py b/algotom/rec/vertrec.py
index a97ad11..2e25b05 100644
--- a/algotom/rec/vertrec.py
+++ b/algotom/rec/vertrec.py
@@ -606,7 +606,8 @@ def vertical_reconstruction(projections, slice_index, center, alpha=0.0,
                 except RuntimeWarning:
                     warnings.warn("!!! Applying logarithm is enabled but "
                                   "there are values <= 0.0 in the data !!!")
-                    img_chunk[img_chunk <= 0.0] = np.float32(1.0)
+                    img_chunk = np.where(img_chunk <= 0.0, np.float32(1.0),
+                                         img_chunk)
                     img_chunk = -np.log(img_chunk)
         if ramp_filter == "before":
             img_chunk = util.parallel_process_slices(img_chunk,
@@ -647,7 +648,8 @@ def vertical_reconstruction(projections, slice_index, center, alpha=0.0,
                 except RuntimeWarning:
                     warnings.warn("Applying logarithm is enabled but "
                                   "there are values <= 0.0.")
-                    img_chunk[img_chunk <= 0.0] = np.float32(1.0)
+                    img_chunk = np.where(img_chunk <= 0.0, np.float32(1.0),
+                                         img_chunk)
                     img_chunk = -np.log(img_chunk)
         if ramp_filter == "before":
             img_chunk = util.parallel_process_slices(img_chunk,
@@ -877,7 +879,8 @@ def vertical_reconstruction_multiple(projections, start_index, stop_index,
                 except RuntimeWarning:
                     warnings.warn("!!! Applying logarithm is enabled but "
                                   "there are values <= 0.0 in the data !!!")
-                    img_chunk[img_chunk <= 0.0] = np.float32(1.0)
+                    img_chunk = np.where(img_chunk <= 0.0, np.float32(1.0),
+                                         img_chunk)
                     img_chunk = -np.log(img_chunk)
         if ramp_filter == "before":
             img_chunk = util.parallel_process_slices(img_chunk,
@@ -922,7 +925,8 @@ def vertical_reconstruction_multiple(projections, start_index, stop_index,
                 except RuntimeWarning:
                     warnings.warn("Applying logarithm is enabled but "
                                   "there are values <= 0.0.")
-                    img_chunk[img_chunk <= 0.0] = np.float32(1.0)
+                    img_chunk = np.where(img_chunk <= 0.0, np.float32(1.0),
+                                         img_chunk)
                     img_chunk = -np.log(img_chunk)
         if ramp_filter == "before":
             img_chunk = util.parallel_process_slices(img_chunk,
@@ -1152,7 +1156,8 @@ def vertical_reconstruction_different_angles(projections, slice_indices,
                 except RuntimeWarning:
                     warnings.warn("!!! Applying logarithm is enabled but "
                                   "there are values <= 0.0 in the data !!!")
-                    img_chunk[img_chunk <= 0.0] = np.float32(1.0)
+                    img_chunk = np.where(img_chunk <= 0.0, np.float32(1.0),
+                                         img_chunk)
                     img_chunk = -np.log(img_chunk)
         if ramp_filter == "before":
             img_chunk = util.parallel_process_slices(img_chunk,
@@ -1197,7 +1202,8 @@ def vertical_reconstruction_different_angles(projections, slice_indices,
                 except RuntimeWarning:
                     warnings.warn("Applying logarithm is enabled but "
                                   "there are values <= 0.0.")
-                    img_chunk[img_chunk <= 0.0] = np.float32(1.0)
+                    img_chunk = np.where(img_chunk <= 0.0, np.float32(1.0),
+                                         img_chunk)
                     img_chunk = -np.log(img_chunk)
         if ramp_filter == "before":
             img_chunk = util.parallel_process_slices(img_chunk,
@@ -1350,7 +1356,8 @@ def find_center_vertical_slice(projections, slice_index, start, stop, step=1.0,
             except RuntimeWarning:
                 warnings.warn("!!! Applying logarithm is enabled but "
                               "there are values <= 0.0 in the data !!!")
-                projections[projections <= 0.0] = np.float32(1.0)
+                projections = np.where(projections <= 0.0, np.float32(1.0),
+                                       projections)
                 projections = -np.log(projections)
 
     if masking:
@@ -1498,7 +1505,8 @@ def find_center_visual_vertical_slices(projections, output_folder, slice_index,
             except RuntimeWarning:
                 warnings.warn("!!! Applying logarithm is enabled but "
                               "there are values <= 0.0 in the data !!!")
-                projections[projections <= 0.0] = np.float32(1.0)
+                projections = np.where(projections <= 0.0, np.float32(1.0),
+                                       projections)
                 projections = -np.log(projections)
     if ramp_filter is None:
         ramp_filter = "after"
-- 
2.43.0


From d835921211b3c18d0fc992187a69c425e4e14bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:43 +0000
Subject: [PATCH 02/20] fix: apply_wavelet_reconstruction no longer changes the
 caller's list of components

---
 algotom/util/utility.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/algotom/util/utility.py b/algotom/util/utility.py
index 3d94037..279b371 100644
--- a/algotom/util/utility.py
+++ b/algotom/util/utility.py
@@ -529,6 +529,7 @@ def apply_wavelet_reconstruction(data, wavelet_name, ignore_level=None):
     if ignore_level is not None:
         level = len(data[1:])
         if level >= ignore_level > 0:
+            data = list(data)
             data[-ignore_level] = tuple(
                 [np.zeros_like(v) for v in data[-ignore_level]])
     return pywt.waverec2(data, wavelet_name)
-- 
2.43.0


From 5dd98544872e9eef2765e926d43bba41fb762d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:43 +0000
Subject: [PATCH 03/20] fix: remove_blob and remove_blob_1d no longer change
 the caller's mask, and interpolate from the mask with its borders cleared

---
 algotom/prep/removal.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/algotom/prep/removal.py b/algotom/prep/removal.py
index 2fe56ea..41eef99 100644
--- a/algotom/prep/removal.py
+++ b/algotom/prep/removal.py
@@ -971,11 +971,12 @@ def remove_blob_1d(sino_1d, mask_1d):
     [1] : https://doi.org/10.1364/OE.418448
     """
     sino_1d = np.copy(sino_1d)
+    mask_1d = np.copy(mask_1d)
+    mask_1d[:2] = 0.0
+    mask_1d[-2:] = 0.0
     xlist = np.where(mask_1d < 1.0)[0]
     ylist = sino_1d[xlist]
     finter = interpolate.interp1d(xlist, ylist)
-    mask_1d[:2] = 0.0
-    mask_1d[-2:] = 0.0
     xlist_miss = np.where(mask_1d > 0.0)[0]
     if len(xlist_miss) > 0:
         sino_1d[xlist_miss] = finter(xlist_miss)
@@ -1003,7 +1004,7 @@ def remove_blob(mat, mask):
         raise ValueError("The image and the mask are not the same shape !!!")
     for i in range(mat.shape[0]):
         array_1d = mat[i]
-        mask_1d = mask[i]
+        mask_1d = np.copy(mask[i])
         mask_1d[:2] = 0.0
         mask_1d[-2:] = 0.0
         xlist = np.where(mask_1d < 1.0)[0]
-- 
2.43.0


From ffbd35a92a0a21e69f36e366388e3897f2d51233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:15 +0000
Subject: [PATCH 04/20] fix: replace non-positive values before the logarithm
 in extend_sinogram and fresnel_filter

---
 algotom/prep/conversion.py | 5 +++++
 algotom/prep/filtering.py  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/algotom/prep/conversion.py b/algotom/prep/conversion.py
index e0d91e2..2e248aa 100644
--- a/algotom/prep/conversion.py
+++ b/algotom/prep/conversion.py
@@ -33,6 +33,7 @@ Module of conversion methods in the preprocessing stage:
     -   Generating a sinogram from a helical data.
 """
 
+import warnings
 import numpy as np
 from scipy import interpolate
 from scipy.ndimage import shift
@@ -418,6 +419,10 @@ def extend_sinogram(sino_360, cor, apply_log=True):
     [1] : https://doi.org/10.1364/OE.418448
     """
     if apply_log is True:
+        if np.any(sino_360 <= 0.0):
+            warnings.warn("!!!Applying logarithm is enabled but "
+                          "there are values <= 0.0 in the data!!!")
+            sino_360 = np.where(sino_360 <= 0.0, np.float32(1.0), sino_360)
         sino_360 = -np.log(sino_360)
     else:
         sino_360 = np.copy(sino_360)
diff --git a/algotom/prep/filtering.py b/algotom/prep/filtering.py
index 18eae99..a9d78fd 100644
--- a/algotom/prep/filtering.py
+++ b/algotom/prep/filtering.py
@@ -28,6 +28,7 @@ Module of filtering methods in the preprocessing stage:
     -   Double-wedge filter.
 """
 
+import warnings
 import numpy as np
 import numpy.fft as fft
 import algotom.prep.conversion as conv
@@ -104,6 +105,10 @@ def fresnel_filter(mat, ratio, dim=1, window=None, pad=150, apply_log=True):
     [2] : https://tinyurl.com/2f8nv875
     """
     if apply_log:
+        if np.any(mat <= 0.0):
+            warnings.warn("!!!Applying logarithm is enabled but "
+                          "there are values <= 0.0 in the data!!!")
+            mat = np.where(mat <= 0.0, np.float32(1.0), mat)
         mat = -np.log(mat)
     (nrow, ncol) = mat.shape
     if dim == 2:
-- 
2.43.0


From 2aabd7924f058f9d6b37872d806d14dacade9b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:15 +0000
Subject: [PATCH 05/20] fix: avoid division by zero in flat-field correction of
 helical sinograms

---
 algotom/prep/conversion.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/algotom/prep/conversion.py b/algotom/prep/conversion.py
index 2e248aa..9db0c5e 100644
--- a/algotom/prep/conversion.py
+++ b/algotom/prep/conversion.py
@@ -535,6 +535,10 @@ def generate_sinogram_helical_scan(index, tomo_data, num_proj, pixel_size,
         step_angle = 180.0 / (num_proj - 1)
         angles = np.arange(0, depth0) * step_angle
     flat_dark = flat - dark
+    if 0.0 in flat_dark:
+        nmean = np.mean(flat_dark)
+        flat_dark = np.where(flat_dark == 0.0,
+                             nmean if nmean != 0.0 else 1.0, flat_dark)
     fov = pixel_size * height
     y_step = pitch / (2.0 * (num_proj - 1))
     if scan_type == "180":
@@ -647,6 +651,10 @@ def generate_full_sinogram_helical_scan(index, tomo_data, num_proj, pixel_size,
         step_angle = 180.0 / (num_proj - 1)
         angles = np.arange(0, depth0) * step_angle
     flat_dark = flat - dark
+    if 0.0 in flat_dark:
+        nmean = np.mean(flat_dark)
+        flat_dark = np.where(flat_dark == 0.0,
+                             nmean if nmean != 0.0 else 1.0, flat_dark)
     fov = pixel_size * height
     y_step = pitch / (2.0 * (num_proj - 1))
     if scan_type == "180":
-- 
2.43.0


From c3df0ed785ace369801532b73c04612d23f0d1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:54 +0000
Subject: [PATCH 06/20] fix: do not hold image indices in 16-bit integers

---
 algotom/prep/correction.py | 24 ++++++++++++------------
 algotom/prep/filtering.py  |  8 ++++----
 algotom/util/simulation.py |  2 +-
 algotom/util/utility.py    |  8 ++++----
 4 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/algotom/prep/correction.py b/algotom/prep/correction.py
index babf819..c24c288 100644
--- a/algotom/prep/correction.py
+++ b/algotom/prep/correction.py
@@ -214,8 +214,8 @@ def unwarp_sinogram(data, index, xcenter, ycenter, list_fact, **option):
         [factor * ru_list ** i for i, factor in enumerate(list_fact)]), axis=0)
     xd_list = np.clip(xcenter + flist * xu_list, 0, width - 1)
     yd_list = np.clip(ycenter + flist * yu, 0, height - 1)
-    yd_min = np.int16(np.floor(np.amin(yd_list)))
-    yd_max = np.int16(np.ceil(np.amax(yd_list))) + 1
+    yd_min = np.int32(np.floor(np.amin(yd_list)))
+    yd_max = np.int32(np.ceil(np.amax(yd_list))) + 1
     yd_list = yd_list - yd_min
     indices = yd_list, xd_list
     sinogram = np.zeros((depth, width), dtype=np.float32)
@@ -276,8 +276,8 @@ def unwarp_sinogram_chunk(data, start_index, stop_index, xcenter, ycenter,
     flist = np.sum(np.asarray(
         [factor * ru_list ** i for i, factor in enumerate(list_fact)]), axis=0)
     yd_list2 = np.clip(ycenter + flist * yu2, 0, height - 1)
-    yd_min = np.int16(np.floor(np.amin(yd_list1)))
-    yd_max = np.int16(np.ceil(np.amax(yd_list2)))
+    yd_min = np.int32(np.floor(np.amin(yd_list1)))
+    yd_max = np.int32(np.ceil(np.amax(yd_list2)))
     yu_list = np.arange(start_index, stop_index) - ycenter
     xu_mat, yu_mat = np.meshgrid(xu_list, yu_list)
     ru_mat = np.sqrt(xu_mat ** 2 + yu_mat ** 2)
@@ -371,8 +371,8 @@ def generate_tilted_sinogram(data, index, angle, **option):
     yt_list = xlist * np.sin(angle) + y * np.cos(angle)
     xt_list = np.clip(x_cen + xt_list, 0, width - 1)
     yt_list = np.clip(y_cen + yt_list, 0, height - 1)
-    yt_min = np.int16(np.floor(np.amin(yt_list)))
-    yt_max = np.int16(np.ceil(np.amax(yt_list))) + 1
+    yt_min = np.int32(np.floor(np.amin(yt_list)))
+    yt_max = np.int32(np.ceil(np.amax(yt_list))) + 1
     yt_list = yt_list - yt_min
     indices = yt_list, xt_list
     sinogram = np.zeros((depth, width), dtype=np.float32)
@@ -426,8 +426,8 @@ def generate_tilted_sinogram_chunk(data, start_index, stop_index, angle,
     y_mat1 = x_mat * np.sin(angle) + y_mat * np.cos(angle)
     x_mat1 = np.clip(x_cen + x_mat1, 0, width - 1)
     y_mat1 = np.clip(y_cen + y_mat1, 0, height - 1)
-    y_min = np.int16(np.floor(np.amin(y_mat1)))
-    y_max = np.int16(np.ceil(np.amax(y_mat1))) + 1
+    y_min = np.int32(np.floor(np.amin(y_mat1)))
+    y_max = np.int32(np.ceil(np.amax(y_mat1))) + 1
     y_mat1 = y_mat1 - y_min
     sino_chunk = np.asarray(
         [util.mapping(data[i, y_min:y_max, :], x_mat1, y_mat1) for i in
@@ -465,8 +465,8 @@ def generate_tilted_profile_line(mat, index, angle):
     yt_list = xlist * np.sin(angle) + y * np.cos(angle)
     xt_list = np.clip(x_cen + xt_list, 0, width - 1)
     yt_list = np.clip(y_cen + yt_list, 0, height - 1)
-    yt_min = np.int16(np.floor(np.amin(yt_list)))
-    yt_max = np.int16(np.ceil(np.amax(yt_list))) + 1
+    yt_min = np.int32(np.floor(np.amin(yt_list)))
+    yt_max = np.int32(np.ceil(np.amax(yt_list))) + 1
     yt_list = yt_list - yt_min
     indices = yt_list, xt_list
     profile_line = map_coordinates(mat[yt_min:yt_max, :], indices, order=1,
@@ -507,8 +507,8 @@ def generate_tilted_profile_chunk(mat, start_index, stop_index, angle):
     y_mat1 = x_mat * np.sin(angle) + y_mat * np.cos(angle)
     x_mat1 = np.clip(x_cen + x_mat1, 0, width - 1)
     y_mat1 = np.clip(y_cen + y_mat1, 0, height - 1)
-    y_min = np.int16(np.floor(np.amin(y_mat1)))
-    y_max = np.int16(np.ceil(np.amax(y_mat1))) + 1
+    y_min = np.int32(np.floor(np.amin(y_mat1)))
+    y_max = np.int32(np.ceil(np.amax(y_mat1))) + 1
     y_mat1 = y_mat1 - y_min
     profile_chunk = util.mapping(mat[y_min:y_max, :], x_mat1, y_mat1)
     return profile_chunk
diff --git a/algotom/prep/filtering.py b/algotom/prep/filtering.py
index a9d78fd..9f1682c 100644
--- a/algotom/prep/filtering.py
+++ b/algotom/prep/filtering.py
@@ -157,12 +157,12 @@ def make_double_wedge_mask(height, width, radius):
     du = 1.0 / width
     dv = (height - 1.0) / (height * 2.0 * np.pi)
     ndrop = 1
-    ycenter = np.int16(np.ceil((height - 1) / 2.0))
-    xcenter = np.int16(np.ceil((width - 1) / 2.0))
+    ycenter = np.int32(np.ceil((height - 1) / 2.0))
+    xcenter = np.int32(np.ceil((width - 1) / 2.0))
     mask = np.ones((height, width), dtype=np.float32)
     for i in range(height):
-        num = np.int16(np.ceil(((i - ycenter) * dv / radius) / du))
-        (p1, p2) = np.int16(np.clip(
+        num = np.int32(np.ceil(((i - ycenter) * dv / radius) / du))
+        (p1, p2) = np.int32(np.clip(
             np.sort((-num + xcenter, num + xcenter)), 0, width - 1))
         mask[i, p1:p2 + 1] = 0.0
     mask[ycenter - ndrop:ycenter + ndrop + 1, :] = 1.0
diff --git a/algotom/util/simulation.py b/algotom/util/simulation.py
index 8fe2543..c46fa02 100644
--- a/algotom/util/simulation.py
+++ b/algotom/util/simulation.py
@@ -497,7 +497,7 @@ def add_background_fluctuation(sinogram, strength_ratio=0.2):
     sinogram = np.copy(sinogram)
     (nrow, ncol) = sinogram.shape
     list_fact = 1.0 - np.random.rand(nrow) * strength_ratio
-    list_shift = np.int16(
+    list_shift = np.int32(
         (0.5 - np.random.rand(nrow)) * strength_ratio * ncol * 0.5)
     for i in range(nrow):
         sinogram[i] = sinogram[i] * np.roll(
diff --git a/algotom/util/utility.py b/algotom/util/utility.py
index 279b371..d65dc7a 100644
--- a/algotom/util/utility.py
+++ b/algotom/util/utility.py
@@ -358,7 +358,7 @@ def detect_stripe(list_data, snr):
     npoint = len(list_data)
     list_sort = np.sort(list_data)
     xlist = np.arange(0, npoint, 1.0)
-    ndrop = np.int16(0.25 * npoint)
+    ndrop = np.int32(0.25 * npoint)
     (slope, intercept) = np.polyfit(xlist[ndrop:-ndrop - 1],
                                     list_sort[ndrop:-ndrop - 1], 1)[:2]
     y_end = intercept + slope * xlist[-1]
@@ -437,11 +437,11 @@ def make_2d_butterworth_window(width, height, u, v, n):
         2D array.
     """
     xcenter = np.ceil(width / 2.0) - 1.0
-    ycenter = np.int16(np.ceil(height / 2.0) - 1)
+    ycenter = np.int32(np.ceil(height / 2.0) - 1)
     xlist = np.arange(width) - xcenter
     window = 1.0 / (1.0 + np.power(xlist / u, 2 * n))
-    row1 = ycenter - np.int16(v)
-    row2 = ycenter + np.int16(v) + 1
+    row1 = ycenter - np.int32(v)
+    row2 = ycenter + np.int32(v) + 1
     window_2d = np.ones((height, width), dtype=np.float32)
     window_2d[row1:row2] = window
     return window_2d
-- 
2.43.0


From 119fe5f21c67d6901d87f8221fda4c4062a68c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:28 +0000
Subject: [PATCH 07/20] fix: detect a stack of flat/dark fields by its number
 of dimensions, not by having three rows

---
 algotom/io/loadersaver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algotom/io/loadersaver.py b/algotom/io/loadersaver.py
index 417d268..b14222e 100644
--- a/algotom/io/loadersaver.py
+++ b/algotom/io/loadersaver.py
@@ -880,7 +880,7 @@ def __check_dark_flat_field(flat_field, dark_field, height, width):
     Supplementary method for checking dark-field image, flat-field image.
     """
     if flat_field is not None:
-        if len(flat_field) == 3:
+        if np.ndim(flat_field) == 3:
             flat_field = np.mean(flat_field, axis=0)
         (height2, width2) = flat_field.shape
         if height2 != height or width2 != width:
@@ -889,7 +889,7 @@ def __check_dark_flat_field(flat_field, dark_field, height, width):
     else:
         flat_field = np.ones((height, width))
     if dark_field is not None:
-        if len(dark_field) == 3:
+        if np.ndim(dark_field) == 3:
             dark_field = np.mean(dark_field, axis=0)
         (height2, width2) = dark_field.shape
         if height2 != height or width2 != width:
-- 
2.43.0


From 598884c04bd62bb090a8626e09b87f050793313d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:28 +0000
Subject: [PATCH 08/20] fix: wavelet-based stripe removal works on images too
 small for a decomposition level

---
 algotom/prep/removal.py | 2 +-
 algotom/util/utility.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/algotom/prep/removal.py b/algotom/prep/removal.py
index 41eef99..82a81cb 100644
--- a/algotom/prep/removal.py
+++ b/algotom/prep/removal.py
@@ -679,7 +679,7 @@ def remove_stripe_based_wavelet_fft(sinogram, level=5, size=1,
     sinogram = np.pad(sinogram, ((0, 0), (pad, pad)), mode='edge')
     output_data = util.apply_wavelet_decomposition(sinogram, wavelet_name,
                                                    level=level)
-    output_data = [list(data) for data in output_data]
+    output_data = [output_data[0]] + [list(data) for data in output_data[1:]]
     n_level = len(output_data[1:])
     for i in range(1, n_level + 1):
         if len(options) == 0:
diff --git a/algotom/util/utility.py b/algotom/util/utility.py
index d65dc7a..f602726 100644
--- a/algotom/util/utility.py
+++ b/algotom/util/utility.py
@@ -499,8 +499,8 @@ def apply_wavelet_decomposition(mat, wavelet_name, level=None):
         (cH_level_1, cV_level_1, cD_level_1)]
     """
     (nrow, ncol) = mat.shape
-    max_level = int(
-        min(np.floor(np.log2(nrow / 16.0)), np.floor(np.log2(ncol / 16.0))))
+    max_level = max(0, int(
+        min(np.floor(np.log2(nrow / 16.0)), np.floor(np.log2(ncol / 16.0)))))
     if (level is None) or (level > max_level) or (level < 1):
         level = max_level
     return pywt.wavedec2(mat, wavelet_name, level=level)
-- 
2.43.0


From bd6ebd3565dc8c2300c85ffa187fd7c024e92032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:30 +0000
Subject: [PATCH 09/20] fix: close HDF files when an error is raised, and after
 building the tree view

---
 algotom/io/loadersaver.py      | 6 ++++--
 algotom/post/postprocessing.py | 1 +
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/algotom/io/loadersaver.py b/algotom/io/loadersaver.py
index b14222e..c8a8ba1 100644
--- a/algotom/io/loadersaver.py
+++ b/algotom/io/loadersaver.py
@@ -264,6 +264,7 @@ def load_hdf(file_path, key_path, return_file_obj=False):
         raise ValueError(f"{error}")
     check = key_path in hdf_object
     if not check:
+        hdf_object.close()
         raise ValueError(
             "Couldn't open object with the given key: {}".format(key_path))
     if return_file_obj:
@@ -462,6 +463,7 @@ def open_hdf_stream(file_path, data_shape, key_path='entry/data',
                     msg = "!!!Selected key-path, '{0}', can not be a child " \
                           "key-path of '{1}'!!!\n!!!Change to make sure " \
                           "they are at the same level!!!".format(key, key_path)
+                    ofile.close()
                     raise ValueError(msg)
                 ofile.create_dataset(key, data=opts[key])
     data_out = ofile.create_dataset(key_path, data_shape, dtype=data_type)
@@ -645,9 +647,9 @@ def get_hdf_tree(file_path, output=None, add_shape=True, display=True):
     -------
     list of string
     """
-    hdf_object = h5py.File(__get_path(file_path), 'r')
     tree = deque()
-    _make_tree_body(tree, hdf_object, add_shape=add_shape)
+    with h5py.File(__get_path(file_path), 'r') as hdf_object:
+        _make_tree_body(tree, hdf_object, add_shape=add_shape)
     if output is not None:
         make_folder(output)
         output_file = open(output, mode="w", encoding="UTF-8")
diff --git a/algotom/post/postprocessing.py b/algotom/post/postprocessing.py
index fadca44..234409c 100644
--- a/algotom/post/postprocessing.py
+++ b/algotom/post/postprocessing.py
@@ -121,6 +121,7 @@ def __get_shape(input_, key_path=None):
             hdf_object = h5py.File(input_, 'r')
             check = key_path in hdf_object
             if not check:
+                hdf_object.close()
                 raise ValueError("!!! Wrong key !!!")
             data = hdf_object[key_path]
             (depth, height, width) = data.shape
-- 
2.43.0


From d62a2567a7ab575a18d7ede0c567415ab9ceec0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:26 +0000
Subject: [PATCH 10/20] fix: rescale_dataset writes to the requested hdf file
 when overwriting is asked for

---
 algotom/post/postprocessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/post/postprocessing.py b/algotom/post/postprocessing.py
index 234409c..2d2612b 100644
--- a/algotom/post/postprocessing.py
+++ b/algotom/post/postprocessing.py
@@ -559,7 +559,7 @@ def rescale_dataset(input_, output, nbit=16, minmax=None, skip=None,
         data_res = losa.open_hdf_stream(output, (depth1, height1, width1),
                                         key_path="entry/data",
                                         data_type=data_type,
-                                        overwrite=False)
+                                        overwrite=True)
     elif out_type is None:
         data_res = []
     else:
-- 
2.43.0


From 7e5341cc4118d3b27791eff8d180f8ee335dddf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:02 +0000
Subject: [PATCH 11/20] fix: reslice_dataset keeps its intermediate file in a
 folder of its own and always removes it

---
 algotom/post/postprocessing.py | 40 ++++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/algotom/post/postprocessing.py b/algotom/post/postprocessing.py
index 2d2612b..f540ac8 100644
--- a/algotom/post/postprocessing.py
+++ b/algotom/post/postprocessing.py
@@ -34,6 +34,7 @@ Module of methods in the postprocessing stage:
 import os
 import sys
 import shutil
+import tempfile
 import timeit
 import glob
 import h5py
@@ -592,7 +593,7 @@ def rescale_dataset(input_, output, nbit=16, minmax=None, skip=None,
     return data_res
 
 
-def __save_intermediate_data(input_, output, axis, crop, key_path=None,
+def __save_intermediate_data(input_, folder_tmp, axis, crop, key_path=None,
                              rotate=0.0, chunk=16, mode="constant",
                              ncore=None, show_progress=True):
     """
@@ -606,9 +607,7 @@ def __save_intermediate_data(input_, output, axis, crop, key_path=None,
     (depth1, height1, width1) = results[1]
     chunk = np.clip(chunk, 1, depth1 - 1)
     last_chunk = depth1 - chunk * (depth1 // chunk)
-    folder_tmp = os.path.splitext(output)[0] + "/tmp_/"
     file_tmp = folder_tmp + "/file_tmp.hdf"
-    losa.make_folder(folder_tmp)
     out_key = "entry/data"
     b_unit = 1024.0 * 1024.0
     with h5py.File(file_tmp, 'w') as ofile:
@@ -777,7 +776,7 @@ def __save_intermediate_data(input_, output, axis, crop, key_path=None,
         print("Finish saving intermediate file! File size: {0:0.2f}MB. Time: "
               "{1:0.2f}s. The file will be deleted at the end!"
               "".format(f_size, t1 - t0))
-    return file_tmp, out_key, folder_tmp
+    return file_tmp, out_key
 
 
 def reslice_dataset(input_, output, axis=1, key_path=None, rescaling=False,
@@ -840,10 +839,33 @@ def reslice_dataset(input_, output, axis=1, key_path=None, rescaling=False,
     in_type = __get_input_type(input_)
     if in_type != "tif" and in_type != "hdf":
         raise ValueError("Wrong input type !!!")
-    results = __save_intermediate_data(input_, output, axis, crop, key_path,
-                                       rotate, chunk, mode, ncore,
+    folder_tmp = __make_temporary_folder(output)
+    try:
+        __reslice(input_, output, folder_tmp, axis, key_path, rescaling, nbit,
+                  minmax, skip, rotate, chunk, mode, crop, ncore,
+                  show_progress)
+    finally:
+        shutil.rmtree(folder_tmp, ignore_errors=True)
+
+
+def __make_temporary_folder(output):
+    """
+    Supplementary method: to create a new folder next to the output.
+    """
+    parent = os.path.dirname(os.path.abspath(output))
+    os.makedirs(parent, exist_ok=True)
+    return tempfile.mkdtemp(prefix="tmp_", dir=parent)
+
+
+def __reslice(input_, output, folder_tmp, axis, key_path, rescaling, nbit,
+              minmax, skip, rotate, chunk, mode, crop, ncore, show_progress):
+    """
+    Supplementary method: to reslice data using an intermediate file.
+    """
+    results = __save_intermediate_data(input_, folder_tmp, axis, crop,
+                                       key_path, rotate, chunk, mode, ncore,
                                        show_progress)
-    file_tmp, key_tmp, folder_tmp = results
+    file_tmp, key_tmp = results
     with h5py.File(file_tmp, 'r') as hdf_object:
         data = hdf_object[key_tmp]
         (depth1, height1, width1) = data.shape
@@ -947,10 +969,6 @@ def reslice_dataset(input_, output, axis=1, key_path=None, rescaling=False,
                     mat_chunk = rescale(mat_chunk, nbit, minmax)
                 losa.save_image_multiple(out_files, mat_chunk.astype(res_type),
                                          axis=1, ncore=ncore, prefer="threads")
-    if os.path.isdir(folder_tmp):
-        shutil.rmtree(folder_tmp)
-        if out_type == "hdf":
-            shutil.rmtree(os.path.splitext(output)[0])
     if show_progress:
         t1 = timeit.default_timer()
         f_size = __get_dataset_size(output)
-- 
2.43.0


From 4b856776301e73c4e0f1ab2a4029d85030c37f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:29 +0000
Subject: [PATCH 12/20] fix: stitch_image_multiple passes the normalization
 option on as such, not as a weight

---
 algotom/prep/conversion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/algotom/prep/conversion.py b/algotom/prep/conversion.py
index 9db0c5e..86e8a92 100644
--- a/algotom/prep/conversion.py
+++ b/algotom/prep/conversion.py
@@ -263,7 +263,8 @@ def stitch_image_multiple(list_mat, list_overlap, norm=True, total_width=None):
     if num_mat > 1:
         for i in range(1, num_mat):
             (overlap, side) = list_overlap[i - 1][0:2]
-            mat_comb = stitch_image(mat_comb, list_mat[i], overlap, side, norm)
+            mat_comb = stitch_image(mat_comb, list_mat[i], overlap, side,
+                                    norm=norm)
         width = mat_comb.shape[1]
         if total_width is None:
             total_width = width
-- 
2.43.0


From b0e1abd0717fefff6b290d452d316105d4a74d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:09 +0000
Subject: [PATCH 13/20] fix: find_local_shifts applies norm_global to 2D images
 too

---
 algotom/util/correlation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/algotom/util/correlation.py b/algotom/util/correlation.py
index f1f5233..14e6617 100644
--- a/algotom/util/correlation.py
+++ b/algotom/util/correlation.py
@@ -2534,12 +2534,13 @@ def find_local_shifts(ref_mat, mat, dim=1, win_size=7, margin=10,
             (x_shifts, y_shifts) = f_alias(ref_mat, mat, win_size=win_size,
                                            margin=margin, sub_pixel=True,
                                            method=method, size=size, gpu=False,
-                                           ncore=ncore, norm=norm)
+                                           ncore=ncore, norm=norm or norm_global)
         else:
             f_alias = _get_2d_shift_full_image_2d_input_gpu
             (x_shifts, y_shifts) = f_alias(ref_mat, mat, chunk_size=chunk_size,
                                            win_size=win_size, margin=margin,
-                                           block=block, norm=norm)
+                                           block=block, norm=norm,
+                                           norm_global=norm_global)
     else:
         if gpu is False:
             if dim == 1:
-- 
2.43.0


From ff299ea4b4a9840482301f6720a0c3632d4b646c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:47 +0000
Subject: [PATCH 14/20] fix: vertical reconstruction falls back to the CPU when
 there is no GPU

---
 algotom/rec/vertrec.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/algotom/rec/vertrec.py b/algotom/rec/vertrec.py
index 2e25b05..e13e23b 100644
--- a/algotom/rec/vertrec.py
+++ b/algotom/rec/vertrec.py
@@ -550,6 +550,9 @@ def vertical_reconstruction(projections, slice_index, center, alpha=0.0,
         raise ValueError("Index (relative to the cropped image) is out of "
                          "range {})".format((0, width - 1)))
 
+    if gpu and cuda.is_available() is False:
+        warnings.warn("!!!No Nvidia GPU found! Run with CPU instead!!!")
+        gpu = False
     flat_correction = True
     if (flat_field is None) and (dark_field is None):
         flat_correction = False
@@ -822,6 +825,9 @@ def vertical_reconstruction_multiple(projections, start_index, stop_index,
         raise ValueError("Start index (relative to the cropped image) is out "
                          "of range {})".format((0, width - 1)))
 
+    if gpu and cuda.is_available() is False:
+        warnings.warn("!!!No Nvidia GPU found! Run with CPU instead!!!")
+        gpu = False
     flat_correction = True
     if (flat_field is None) and (dark_field is None):
         flat_correction = False
@@ -1099,6 +1105,9 @@ def vertical_reconstruction_different_angles(projections, slice_indices,
         raise ValueError("Slice index (relative to the cropped image) is out "
                          "of range {})".format((0, width1)))
 
+    if gpu and cuda.is_available() is False:
+        warnings.warn("!!!No Nvidia GPU found! Run with CPU instead!!!")
+        gpu = False
     flat_correction = True
     if (flat_field is None) and (dark_field is None):
         flat_correction = False
-- 
2.43.0


From a79136ecd996bd1f92428196e8c2a1e00b2cf834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:19 +0000
Subject: [PATCH 15/20] fix: find_local_shifts falls back to the CPU in hybrid
 mode, too

---
 algotom/util/correlation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algotom/util/correlation.py b/algotom/util/correlation.py
index 14e6617..2f98bd6 100644
--- a/algotom/util/correlation.py
+++ b/algotom/util/correlation.py
@@ -2524,7 +2524,7 @@ def find_local_shifts(ref_mat, mat, dim=1, win_size=7, margin=10,
 
     [2] : https://doi.org/10.1088/0957-0233/17/6/045
     """
-    if gpu is True:
+    if gpu is not False:
         if cuda.is_available() is False:
             warnings.warn("!!!No Nvidia GPU found!!!Run with CPU instead!!!")
             gpu = False
@@ -3314,7 +3314,7 @@ def find_local_shifts_umpa(ref_mat, mat, win_size=7, margin=10,
 
     [3] : https://doi.org/10.1088/0957-0233/17/6/045
     """
-    if gpu is True:
+    if gpu is not False:
         if cuda.is_available() is False:
             warnings.warn("!!!No Nvidia GPU found!!!Run with CPU instead!!!")
             gpu = False
-- 
2.43.0


From 3ad16fefae33e169cf0d05f3b3bccd4fcc794057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:54 +0000
Subject: [PATCH 16/20] fix: fbp_reconstruction with ncore=1 keeps filtered
 sinograms as float for integer input

---
 algotom/rec/reconstruction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/rec/reconstruction.py b/algotom/rec/reconstruction.py
index 305818c..1333d21 100644
--- a/algotom/rec/reconstruction.py
+++ b/algotom/rec/reconstruction.py
@@ -459,7 +459,7 @@ def fbp_reconstruction(sinogram, center, angles=None, ratio=1.0, ramp_win=None,
             recon = recon * mask
     else:
         if ncore == 1:
-            sino_filtered = np.zeros_like(sinogram)
+            sino_filtered = np.zeros_like(sinogram, dtype=np.float32)
             for i in range(num_sino):
                 sino_filtered[:, i, :] = apply_ramp_filter(sinogram[:, i, :],
                                                            ramp_win,
-- 
2.43.0


From 39cd0f7a9d9a6fe26d4d5a50499e6e507dae0926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:16 +0000
Subject: [PATCH 17/20] fix: back_projection_cpu runs in parallel over rows of
 the slice, not over projections adding to the same pixels

---
 algotom/rec/reconstruction.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/algotom/rec/reconstruction.py b/algotom/rec/reconstruction.py
index 1333d21..934a217 100644
--- a/algotom/rec/reconstruction.py
+++ b/algotom/rec/reconstruction.py
@@ -330,12 +330,12 @@ def back_projection_cpu(sinogram, angles, center,
     sino_width1 = sino_width - 1
     icenter = 0.5 * sino_width1
     recon = np.zeros((sino_width, sino_width), dtype=np.float32)
-    for i in prange(sino_height):
-        theta = - angles[i]
-        cos_theta = math.cos(theta)
-        sin_theta = math.sin(theta)
-        for y_index in range(sino_width):
-            y_cor = y_index - icenter
+    for y_index in prange(sino_width):
+        y_cor = y_index - icenter
+        for i in range(sino_height):
+            theta = - angles[i]
+            cos_theta = math.cos(theta)
+            sin_theta = math.sin(theta)
             for x_index in range(sino_width):
                 x_pos = (x_index - icenter) * cos_theta + y_cor * sin_theta
                 f_pos = x_pos + center
-- 
2.43.0


From ec579739035fca28d67755c418f8a2b23b6b7929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:12 +0000
Subject: [PATCH 18/20] fix: reslice_dataset applies the depth crop to hdf
 inputs

---
 algotom/post/postprocessing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/algotom/post/postprocessing.py b/algotom/post/postprocessing.py
index f540ac8..653735b 100644
--- a/algotom/post/postprocessing.py
+++ b/algotom/post/postprocessing.py
@@ -713,7 +713,7 @@ def __save_intermediate_data(input_, folder_tmp, axis, crop, key_path=None,
                         len_msg = len(msg)
                         sys.stdout.write(msg)
                         sys.stdout.flush()
-                    mat_chunk = data[i: i + chunk]
+                    mat_chunk = data[i + d1: i + chunk + d1]
                     mat_tmp = []
                     for j in np.arange(chunk):
                         mat = mat_chunk[j]
@@ -725,7 +725,7 @@ def __save_intermediate_data(input_, folder_tmp, axis, crop, key_path=None,
                     if show_progress:
                         sys.stdout.write("\r" + " " * len_msg + "\r")
                 if last_chunk != 0:
-                    mat_chunk = data[depth1 - last_chunk: depth1]
+                    mat_chunk = data[depth1 - last_chunk + d1: depth1 + d1]
                     mat_tmp = []
                     for j in np.arange(last_chunk):
                         mat = mat_chunk[j]
@@ -749,7 +749,7 @@ def __save_intermediate_data(input_, folder_tmp, axis, crop, key_path=None,
                         len_msg = len(msg)
                         sys.stdout.write(msg)
                         sys.stdout.flush()
-                    mat_chunk = data[i: i + chunk]
+                    mat_chunk = data[i + d1: i + chunk + d1]
                     mat_tmp = []
                     for j in np.arange(chunk):
                         mat = mat_chunk[j]
@@ -761,7 +761,7 @@ def __save_intermediate_data(input_, folder_tmp, axis, crop, key_path=None,
                     if show_progress:
                         sys.stdout.write("\r" + " " * len_msg + "\r")
                 if last_chunk != 0:
-                    mat_chunk = data[depth1 - last_chunk: depth1]
+                    mat_chunk = data[depth1 - last_chunk + d1: depth1 + d1]
                     mat_tmp = []
                     for j in np.arange(last_chunk):
                         mat = mat_chunk[j]
-- 
2.43.0


From 68da75a13582ef25d4095caa94d76c0e5b50fd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:06 +0000
Subject: [PATCH 19/20] fix: stacks cropped to a single image or row can be
 resliced and measured

---
 algotom/post/postprocessing.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/algotom/post/postprocessing.py b/algotom/post/postprocessing.py
index 653735b..dcdbb85 100644
--- a/algotom/post/postprocessing.py
+++ b/algotom/post/postprocessing.py
@@ -261,7 +261,7 @@ def get_statistical_information_dataset(input_, percentile=(0, 100), skip=5,
     results = __get_cropped_shape(input_, crop=crop, key_path=key_path)
     (d1, d2, h1, h2, w1, w2) = results[0]
     depth1 = results[1][0]
-    skip = int(np.clip(skip, 1, depth1 - 1))
+    skip = int(np.clip(skip, 1, max(1, depth1 - 1)))
     in_type = __get_input_type(input_)
     f_alias = get_statistical_information
     if in_type == "tif":
@@ -450,7 +450,8 @@ def downsample_dataset(input_, output, cell_size, method="mean", key_path=None,
                 minmax = (0, 65535)
             else:
                 if skip is None:
-                    skip = int(np.clip(np.ceil(0.15 * depth1), 1, depth1 - 1))
+                    skip = int(np.clip(np.ceil(0.15 * depth1), 1,
+                                       max(1, depth1 - 1)))
                 if minmax is None:
                     f_alias = get_statistical_information_dataset
                     minmax = f_alias(input_, percentile=(0, 100), skip=skip,
@@ -605,7 +606,7 @@ def __save_intermediate_data(input_, folder_tmp, axis, crop, key_path=None,
     results = __get_cropped_shape(input_, crop=crop, key_path=key_path)
     (d1, d2, h1, h2, w1, w2) = results[0]
     (depth1, height1, width1) = results[1]
-    chunk = np.clip(chunk, 1, depth1 - 1)
+    chunk = np.clip(chunk, 1, max(1, depth1 - 1))
     last_chunk = depth1 - chunk * (depth1 // chunk)
     file_tmp = folder_tmp + "/file_tmp.hdf"
     out_key = "entry/data"
@@ -869,7 +870,7 @@ def __reslice(input_, output, folder_tmp, axis, key_path, rescaling, nbit,
     with h5py.File(file_tmp, 'r') as hdf_object:
         data = hdf_object[key_tmp]
         (depth1, height1, width1) = data.shape
-        chunk = np.clip(chunk, 1, height1 - 1)
+        chunk = np.clip(chunk, 1, max(1, height1 - 1))
         last_chunk = height1 - chunk * (height1 // chunk)
         data_type = data.dtype
         res_type = str(data_type)
@@ -888,7 +889,7 @@ def __reslice(input_, output, folder_tmp, axis, key_path, rescaling, nbit,
                 else:
                     if skip is None:
                         skip = min(20, int(0.02 * depth1))
-                    skip = int(np.clip(skip, 1, depth1 - 1))
+                    skip = int(np.clip(skip, 1, max(1, depth1 - 1)))
                     if minmax is None:
                         f_alias = get_statistical_information_dataset
                         minmax = f_alias(input_, percentile=(0, 100),
-- 
2.43.0


From 1ea66087785a316c15a9db4db35ff7d90cf56a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:32 +0000
Subject: [PATCH 20/20] fix: chunk counts never exceed the number of rows to
 split

---
 algotom/prep/removal.py     |  4 ++--
 algotom/util/correlation.py | 21 ++++++++++++++-------
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/algotom/prep/removal.py b/algotom/prep/removal.py
index 82a81cb..baa82ed 100644
--- a/algotom/prep/removal.py
+++ b/algotom/prep/removal.py
@@ -486,7 +486,7 @@ def remove_stripe_based_normalization(sinogram, sigma=15, num_chunk=1,
     sino_index = None
     if sort is True:
         sinogram, sino_index = util.sort_forward(sinogram, axis=0)
-    list_index = np.array_split(np.arange(nrow), num_chunk)
+    list_index = np.array_split(np.arange(nrow), min(num_chunk, nrow))
     for pos in list_index:
         bindex = pos[0]
         eindex = pos[-1] + 1
@@ -566,7 +566,7 @@ def remove_stripe_based_regularization(sinogram, alpha=0.0005, num_chunk=1,
         else:
             sinogram = -np.log(sinogram)
     sijmat = util.calculate_regularization_coefficient(ncol, alpha)
-    list_index = np.array_split(np.arange(nrow), num_chunk)
+    list_index = np.array_split(np.arange(nrow), min(num_chunk, nrow))
     list_grad = np.zeros(ncol, dtype=np.float32)
     mat_grad = np.zeros((ncol, ncol), dtype=np.float32)
     for pos in list_index:
diff --git a/algotom/util/correlation.py b/algotom/util/correlation.py
index 2f98bd6..d126754 100644
--- a/algotom/util/correlation.py
+++ b/algotom/util/correlation.py
@@ -1064,7 +1064,8 @@ def _get_1d_shift_full_image_3d_input_cpu(ref_mat, mat, direction="x",
                                   True, ncore, norm)
             shifts[bindex:eindex] = shift_chunk
     else:
-        list_index = np.array_split(np.arange(edge, height - edge), num_chunk)
+        list_index = np.array_split(np.arange(edge, height - edge),
+                                    min(num_chunk, height - 2 * edge))
         for pos in list_index:
             bindex, eindex = pos[0], pos[-1] + 1
             ref_mat1 = ref_mat[:, bindex - edge:eindex + edge, :]
@@ -1345,7 +1346,8 @@ def _get_2d_shift_full_image_3d_input_cpu(ref_mat, mat, chunk_size=None,
         raise ValueError("Height of the inputs {0} are smaller than the "
                          "requested size (win_size + 2*margin + 1) = "
                          "{1} x {1}".format(height, 2 * edge + 1))
-    list_index = np.array_split(np.arange(edge, height - edge), num_chunk)
+    list_index = np.array_split(np.arange(edge, height - edge),
+                                min(num_chunk, height - 2 * edge))
     x_shifts = np.zeros((height, width), dtype=np.float32)
     y_shifts = np.zeros((height, width), dtype=np.float32)
     f_alias = _get_2d_shift_multi_rows_3d_input
@@ -1631,7 +1633,8 @@ def _get_1d_shift_full_image_3d_input_gpu(ref_mat, mat, direction="x",
                                   block, True, norm)
             shifts[bindex:eindex] = shift_chunk
     else:
-        list_index = np.array_split(np.arange(edge, height - edge), num_chunk)
+        list_index = np.array_split(np.arange(edge, height - edge),
+                                    min(num_chunk, height - 2 * edge))
         for pos in list_index:
             bindex, eindex = pos[0], pos[-1] + 1
             ref_mat1 = ref_mat[:, bindex - edge:eindex + edge, :]
@@ -2026,7 +2029,8 @@ def _get_2d_shift_full_image_2d_input_gpu(ref_mat, mat, chunk_size=None,
         raise ValueError("Height of the inputs {0} are smaller than the "
                          "requested size (win_size + 2*margin + 1) = "
                          "{1} x {1}".format(height, 2 * edge + 1))
-    list_index = np.array_split(np.arange(edge, height - edge), num_chunk)
+    list_index = np.array_split(np.arange(edge, height - edge),
+                                min(num_chunk, height - 2 * edge))
     x_shifts = np.zeros((height, width), dtype=np.float32)
     y_shifts = np.zeros((height, width), dtype=np.float32)
     f_alias = _get_2d_shift_multi_rows_2d_input_gpu
@@ -2221,7 +2225,8 @@ def _get_2d_shift_full_image_3d_input_gpu(ref_mat, mat, chunk_size=None,
         raise ValueError("Height of the inputs {0} are smaller than the "
                          "requested size (win_size + 2*margin + 1) = "
                          "{1} x {1}".format(height, 2 * edge + 1))
-    list_index = np.array_split(np.arange(edge, height - edge), num_chunk)
+    list_index = np.array_split(np.arange(edge, height - edge),
+                                min(num_chunk, height - 2 * edge))
     x_shifts = np.zeros((height, width), dtype=np.float32)
     y_shifts = np.zeros((height, width), dtype=np.float32)
     f_alias = _get_2d_shift_multi_rows_3d_input_gpu
@@ -2451,7 +2456,8 @@ def _get_2d_shift_full_image_3d_input_cpu_gpu(ref_mat, mat, chunk_size=None,
         raise ValueError("Height of the inputs {0} are smaller than the "
                          "requested size (win_size + 2*margin + 1) = "
                          "{1} x {1}".format(height, 2 * edge + 1))
-    list_index = np.array_split(np.arange(edge, height - edge), num_chunk)
+    list_index = np.array_split(np.arange(edge, height - edge),
+                                min(num_chunk, height - 2 * edge))
     x_shifts = np.zeros((height, width), dtype=np.float32)
     y_shifts = np.zeros((height, width), dtype=np.float32)
     f_alias = _get_2d_shift_multi_rows_3d_input_cpu_gpu
@@ -3352,7 +3358,8 @@ def find_local_shifts_umpa(ref_mat, mat, win_size=7, margin=10,
     y_shifts = np.zeros_like(x_shifts)
     trans = np.ones_like(x_shifts)
     dark = np.ones_like(x_shifts)
-    list_index = np.array_split(np.arange(edge, height - edge), num_chunk)
+    list_index = np.array_split(np.arange(edge, height - edge),
+                                min(num_chunk, height - 2 * edge))
     f_alias1 = __get_2d_shift_multi_rows_3d_input_umpa_gpu
     f_alias2 = __get_2d_shift_multi_rows_3d_input_umpa_cpu
     for pos in list_index:
-- 
2.43.0

