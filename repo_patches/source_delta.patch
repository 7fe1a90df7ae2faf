From 32a3c14a00df4a429fa273a5e5a6e326d363ac8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 01/87] fix: copy read-only height data so cropped, zoomed and
 assigned topographies own their data

---
 surfalize/profile.py | 4 +++-
 surfalize/surface.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/surfalize/profile.py b/surfalize/profile.py
index 79f2d11..940f529 100644
--- a/surfalize/profile.py
+++ b/surfalize/profile.py
@@ -84,7 +84,9 @@ class Profile(BaseTopography):
 
     @data.setter
     def data(self, value):
-        self._data = value
+        # Read-only arrays (e.g. views of another profile's data) are copied, so that the profile owns its height data
+        # and can be edited in place without affecting other objects
+        self._data = value if value.flags.writeable else value.copy()
         self.length_um = (value.shape[0] - 1) * self.step
         self.clear_cache()
 
diff --git a/surfalize/surface.py b/surfalize/surface.py
index a5f6d05..2a9f8f6 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -139,7 +139,9 @@ class Surface(BaseTopography):
 
     @data.setter
     def data(self, value):
-        self._data = value
+        # Read-only arrays (e.g. views of another surface's data or arrays backed by immutable buffers) are copied, so
+        # that the surface owns its height data and can be edited in place without affecting other objects
+        self._data = value if value.flags.writeable else value.copy()
         self.width_um = (value.shape[1] - 1) * self.step_x
         self.height_um = (value.shape[0] - 1) * self.step_y
         self.clear_cache()
-- 
2.43.0


From 5558119b156815939e6fb470dc1c360eb87e2b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 02/87] fix: slicing a surface returns an independent surface

---
 surfalize/surface.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index 2a9f8f6..ec171ea 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -270,7 +270,8 @@ class Surface(BaseTopography):
                 step_y = item[0].step * self.step_y
             if isinstance(item[1], slice) and item[1].step is not None:
                 step_x = item[1].step * self.step_x
-        return Surface(self._data.__getitem__(item), step_x, step_y)
+        # Slicing the read-only view makes the new surface hold its own copy of the height data
+        return Surface(self.data.__getitem__(item), step_x, step_y)
 
     @classmethod
     def load(cls, path_or_buffer, format=None, encoding='auto', read_image_layers=False):
-- 
2.43.0


From 36dd79dcd7058546908294a20ec8b8940352db55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 03/87] fix: slicing a surface with a negative stride keeps a
 positive step size

---
 surfalize/surface.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index ec171ea..5046b8b 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -264,12 +264,12 @@ class Surface(BaseTopography):
         step_x = self.step_x
         if isinstance(item, slice):
             if item.step is not None:
-                step_y = item.step * self.step_y
+                step_y = abs(item.step) * self.step_y
         if isinstance(item, tuple):
             if isinstance(item[0], slice) and item[0].step is not None:
-                step_y = item[0].step * self.step_y
+                step_y = abs(item[0].step) * self.step_y
             if isinstance(item[1], slice) and item[1].step is not None:
-                step_x = item[1].step * self.step_x
+                step_x = abs(item[1].step) * self.step_x
         # Slicing the read-only view makes the new surface hold its own copy of the height data
         return Surface(self.data.__getitem__(item), step_x, step_y)
 
-- 
2.43.0


From a84eb0a3bdc785f9d431736b7ae74aab824a35f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 04/87] fix: fill_nonmeasured returns a new object if inplace
 is False and no points are missing

---
 surfalize/profile.py | 2 +-
 surfalize/surface.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/surfalize/profile.py b/surfalize/profile.py
index 940f529..cfe078c 100644
--- a/surfalize/profile.py
+++ b/surfalize/profile.py
@@ -147,7 +147,7 @@ class Profile(BaseTopography):
         profile : surfalize.Profile
         """
         if not self.has_missing_points:
-            return self
+            return self if inplace else self._with_data(self.data)
         indices = np.arange(self.size)
         mask = ~np.isnan(self.data)
         data_interpolated = griddata(indices[mask], self.data[mask], indices, method=method)
diff --git a/surfalize/surface.py b/surfalize/surface.py
index 5046b8b..8a9de9c 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -510,7 +510,7 @@ class Surface(BaseTopography):
             Surface object.
         """
         if not self.has_missing_points:
-            return self
+            return self if inplace else self._with_data(self.data)
         values = self.data.ravel()
         mask = ~np.isnan(values)
 
-- 
2.43.0


From a62660c84a55d4154a9777878a2de8656151c7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 05/87] fix: do not cache stepheight_level, which returned the
 same object on every call and ignored inplace

---
 surfalize/surface.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index 8a9de9c..221144f 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -771,7 +771,6 @@ class Surface(BaseTopography):
         return mask
 
     @batch_method('operation')
-    @cache
     def stepheight_level(self, inplace=False):
         """
         Levels the surface only based on the datapoints from the upper level surface in a rectangular ablation cavity.
-- 
2.43.0


From 21b48bb578067470f16eacce2f4d36f9ff630c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 06/87] fix: stepheight of a levelled copy is evaluated on the
 levelled data as for the inplace variant

---
 surfalize/surface.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index 221144f..368dcc5 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -805,12 +805,7 @@ class Surface(BaseTopography):
         if inplace:
             self._set_data(data=leveled_data)
             return self
-        surface = Surface(leveled_data, self.step_x, self.step_y)
-        # This is not an ideal solution, but I can't think of a better one without major refactoring
-        # If the leveling is not done inplace, we need to somehow transfer the computed mask to the new objhect
-        # We are manually creating a cache entry for the new surface object so that we don't have to recompute the mask
-        surface.create_cache_entry(surface._stepheight_get_mask, mask, tuple(), dict())
-        return surface
+        return Surface(leveled_data, self.step_x, self.step_y)
 
     @cache
     def _stepheight_get_upper_lower_median(self):
-- 
2.43.0


From 99de4ca469d4e822e72d03656b4d2b00d8fa3b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 07/87] fix: height_parameters returns a copy of the cached
 results

---
 surfalize/surface.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index 368dcc5..df64665 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -862,8 +862,6 @@ class Surface(BaseTopography):
    
     # Height parameters ################################################################################################
 
-    @cache
-    @no_nonmeasured_points
     def height_parameters(self):
         """
         Calculates the roughness parameters from the height parameter family.
@@ -873,6 +871,12 @@ class Surface(BaseTopography):
         -------
         dict[str: float]
         """
+        # Return a copy so that the caller cannot modify the cached results
+        return dict(self._height_parameters())
+
+    @cache
+    @no_nonmeasured_points
+    def _height_parameters(self):
         mean = self.data.mean()
         centered_data = self.data - mean
         abs_centered_data = np.abs(centered_data)
-- 
2.43.0


From b36a4eb7eba875fb975abe2930b3dde416fa9228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 08/87] fix: invert keeps measured points of topographies with
 non-measured points

---
 surfalize/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/base.py b/surfalize/base.py
index c9ff347..d15d56b 100644
--- a/surfalize/base.py
+++ b/surfalize/base.py
@@ -253,7 +253,7 @@ class BaseTopography(CachedInstance):
         -------
         Surface | Profile
         """
-        data = self.data.min() + self.data.max() - self.data
+        data = np.nanmin(self.data) + np.nanmax(self.data) - self.data
         if inplace:
             self._set_data(data=data)
             return self
-- 
2.43.0


From 162f0e44004f452f22ef572121b5fd180e514eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 09/87] fix: equal surfaces have equal hashes

---
 surfalize/surface.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index df64665..645ea05 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -257,7 +257,9 @@ class Surface(BaseTopography):
         return True
 
     def __hash__(self):
-        return hash((self.step_x, self.step_y, self.size.x, self.size.y, self.data.mean(), self.data.std()))
+        # Only attributes that must be identical for two surfaces to compare equal may contribute to the hash. The height
+        # data is compared with a tolerance and can contain nan values, so it cannot be part of the hash.
+        return hash((self.step_x, self.step_y, self.size.x, self.size.y))
 
     def __getitem__(self, item):
         step_y = self.step_y
-- 
2.43.0


From 3edc7638936c5eaf689da9e5e5ee7fa895933186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:53 +0000
Subject: [PATCH 10/87] fix: stepheight and cavity_volume ignore non-measured
 points instead of returning NaN and zero

---
 surfalize/surface.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index 645ea05..e28a09f 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -768,7 +768,7 @@ class Surface(BaseTopography):
         """
         threshold = otsu_threshold(self.data)
         mask = self.data > threshold
-        if self.data[~mask].mean() > self.data[mask].mean():
+        if np.nanmean(self.data[~mask]) > np.nanmean(self.data[mask]):
             mask = ~mask
         return mask
 
@@ -821,8 +821,8 @@ class Surface(BaseTopography):
         upper_median, lower_median : (float, flaot)
         """
         mask = self._stepheight_get_mask()
-        upper_median = np.median(self.data[mask])
-        lower_median = np.median(self.data[~mask])
+        upper_median = np.nanmedian(self.data[mask])
+        lower_median = np.nanmedian(self.data[~mask])
         return upper_median, lower_median
 
     @batch_method('parameter')
-- 
2.43.0


From f3954fabd412b085f52e5dcbe2ea84ca514786d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:47 +0000
Subject: [PATCH 11/87] fix: horizontal and vertical profiles use the closest
 rows that exist and the requested number of profiles

---
 surfalize/surface.py | 76 ++++++++++++++++++++++++--------------------
 1 file changed, 42 insertions(+), 34 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index e28a09f..09a66f1 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -363,6 +363,38 @@ class Surface(BaseTopography):
         """
         return list(self.image_layers.keys())
 
+    @staticmethod
+    def _profile_indices(position, step, size, average, average_step):
+        """
+        Calculates the array indices of the parallel profiles over which to average when extracting a profile.
+
+        Parameters
+        ----------
+        position : float
+            Position of the profile in µm perpendicular to the profile direction.
+        step : float
+            Interval between two datapoints perpendicular to the profile direction.
+        size : int
+            Number of datapoints perpendicular to the profile direction.
+        average : int
+            number of profiles over which to average.
+        average_step : float | None
+            distance in µm between parallel profiles.
+
+        Returns
+        -------
+        np.ndarray[int]
+        """
+        if average_step is None:
+            average_step_px = 1
+        else:
+            average_step_px = max(round(average_step / step), 1)
+        # index of the profile closest to the position
+        idx = min(round(position / step), size - 1)
+        indices = idx + (np.arange(average) - average // 2) * average_step_px
+        # Profiles that lie outside of the surface are skipped
+        return indices[(indices >= 0) & (indices < size)]
+
     def get_horizontal_profile(self, y, average=1, average_step=None):
         """
         Extracts a horizontal profile from the surface with optional averaging over parallel profiles.
@@ -384,23 +416,11 @@ class Surface(BaseTopography):
         -------
         profile : surfalize.Profile
         """
-        if y > self.height_um:
-            raise ValueError("y must not exceed height of surface.")
-        
-        if average_step is None:
-            average_step_px = 1
-        else:
-            average_step_px = int(average_step / self.step_y)
-
-        # vertical index of profile
-        idx = int(y / self.height_um * self.size.y)
-        # first index from which a profile is taken for averaging
-        idx_min = idx - int(average / 2) * average_step_px
-        idx_min = 0 if idx_min < 0 else idx_min
-        # last index from which a profile is taken for averaging
-        idx_max = idx + int(average / 2) * average_step_px
-        idx_max = self.size.y if idx_max > self.size.y else idx_max
-        data = self.data[idx_min:idx_max + 1:average_step_px].mean(axis=0)
+        if not 0 <= y <= self.height_um:
+            raise ValueError("y must not be negative or exceed height of surface.")
+
+        indices = self._profile_indices(y, self.step_y, self.size.y, average, average_step)
+        data = self.data[indices].mean(axis=0)
         return Profile(data, self.step_x, self.width_um)
     
     def get_vertical_profile(self, x, average=1, average_step=None):
@@ -424,23 +444,11 @@ class Surface(BaseTopography):
          -------
          profile : surfalize.Profile
          """
-        if x > self.width_um:
-            raise ValueError("x must not exceed height of surface.")
-        
-        if average_step is None:
-            average_step_px = 1
-        else:
-            average_step_px = int(average_step / self.step_x)
-
-        # vertical index of profile
-        idx = int(x / self.width_um * self.size.x)
-        # first index from which a profile is taken for averaging
-        idx_min = idx - int(average / 2) * average_step_px
-        idx_min = 0 if idx_min < 0 else idx_min
-        # last index from which a profile is taken for averaging
-        idx_max = idx + int(average / 2) * average_step_px
-        idx_max = self.size.x if idx_max > self.size.x else idx_max
-        data = self.data[:, idx_min:idx_max + 1:average_step_px].mean(axis=1)
+        if not 0 <= x <= self.width_um:
+            raise ValueError("x must not be negative or exceed width of surface.")
+
+        indices = self._profile_indices(x, self.step_x, self.size.x, average, average_step)
+        data = self.data[:, indices].mean(axis=1)
         return Profile(data, self.step_y, self.height_um)
 
     #TODO: implement averaging
-- 
2.43.0


From 4654d7923c67781d3a837ceeeaeaec9a91acc6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:47 +0000
Subject: [PATCH 12/87] fix: oblique profiles start and end at the requested
 points, including vertical lines

---
 surfalize/surface.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index 09a66f1..c99592d 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -476,28 +476,29 @@ class Surface(BaseTopography):
          -------
          profile : surfalize.Profile
          """
-        x0px = int(x0 / self.width_um * self.size.x)
-        y0px = int(y0 / self.height_um * self.size.y)
-        x1px = int(x1 / self.width_um * self.size.x)
-        y1px = int(y1 / self.height_um * self.size.y)
-
-        if (not(0 <= x0px <= self.size.x) or not(0 <= y0px <= self.size.y) or
-            not(0 <= x1px <= self.size.x) or not(0 <= y1px <= self.size.y)):
+        if (not(0 <= x0 <= self.width_um) or not(0 <= y0 <= self.height_um) or
+            not(0 <= x1 <= self.width_um) or not(0 <= y1 <= self.height_um)):
             raise ValueError("Start- and endpoint coordinates must lie within the surface.")
 
+        x0px = round(x0 / self.step_x)
+        y0px = round(y0 / self.step_y)
+        x1px = round(x1 / self.step_x)
+        y1px = round(y1 / self.step_y)
+
         dx = x1px - x0px
         dy = y1px - y0px
+        if dx == 0 and dy == 0:
+            raise ValueError("Start- and endpoint must not coincide.")
 
-        size = int(np.hypot(dx, dy))
+        size = int(np.hypot(dx, dy)) + 1
 
-        m = dy/dx
         xp = np.linspace(x0px, x1px, size)
-        yp = m * xp
+        yp = np.linspace(y0px, y1px, size)
 
-        data = ndimage.map_coordinates(self.data, [yp, xp])
+        data = ndimage.map_coordinates(self.data, [yp, xp], mode='nearest')
 
         length_um = np.hypot(dy * self.step_y, dx * self.step_x)
-        step = length_um / size
+        step = length_um / (size - 1)
         return Profile(data, step, length_um)
 
     # Operations #######################################################################################################
-- 
2.43.0


From f53b137bea9810ca989aeb8e5580e08d76e77ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:38 +0000
Subject: [PATCH 13/87] fix: surface area of surfaces with different pixel size
 in x and y

---
 surfalize/surface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index c99592d..43ec95a 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -1012,8 +1012,8 @@ class Surface(BaseTopography):
         dz_x = np.diff(self.data, axis=1)
 
         # Calculate cross products
-        cross_x = self.step_y * dz_y[:, :-1]
-        cross_y = self.step_x * dz_x[:-1, :]
+        cross_x = self.step_y * dz_x[:-1, :]
+        cross_y = self.step_x * dz_y[:, :-1]
         cross_z = self.step_x * self.step_y
 
         # Calculate areas using vectorized operations
-- 
2.43.0


From 6c0eddbb0eafe0c8351250f456b8adcde4b73e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:32 +0000
Subject: [PATCH 14/87] fix: integer height data is converted to real heights
 instead of truncating filtered, rotated and assigned heights

---
 surfalize/profile.py | 4 ++++
 surfalize/surface.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/surfalize/profile.py b/surfalize/profile.py
index cfe078c..81974b1 100644
--- a/surfalize/profile.py
+++ b/surfalize/profile.py
@@ -84,6 +84,10 @@ class Profile(BaseTopography):
 
     @data.setter
     def data(self, value):
+        # Heights are real numbers. Integer arrays would silently truncate the results of filters, interpolations and
+        # assignments, overflow, and cannot represent non-measured points
+        if not np.issubdtype(value.dtype, np.inexact):
+            value = value.astype(float)
         # Read-only arrays (e.g. views of another profile's data) are copied, so that the profile owns its height data
         # and can be edited in place without affecting other objects
         self._data = value if value.flags.writeable else value.copy()
diff --git a/surfalize/surface.py b/surfalize/surface.py
index 43ec95a..bebfbe9 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -139,6 +139,10 @@ class Surface(BaseTopography):
 
     @data.setter
     def data(self, value):
+        # Heights are real numbers. Integer arrays would silently truncate the results of filters, interpolations and
+        # assignments, overflow, and cannot represent non-measured points
+        if not np.issubdtype(value.dtype, np.inexact):
+            value = value.astype(float)
         # Read-only arrays (e.g. views of another surface's data or arrays backed by immutable buffers) are copied, so
         # that the surface owns its height data and can be edited in place without affecting other objects
         self._data = value if value.flags.writeable else value.copy()
-- 
2.43.0


From 591acb99b0d0dcf832b8ab4c6ca3f263a04eedff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:26 +0000
Subject: [PATCH 15/87] fix: material ratio of heights above and below a
 topography with repeated extreme heights is 0 and 100 percent

---
 surfalize/abbottfirestone.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/surfalize/abbottfirestone.py b/surfalize/abbottfirestone.py
index 692bd0e..a2ed800 100644
--- a/surfalize/abbottfirestone.py
+++ b/surfalize/abbottfirestone.py
@@ -116,7 +116,9 @@ class AbbottFirestoneCurve(CachedInstance):
         # Intercept of the equivalence line at 100% ratio
         self._ylower = self._slope * 100 + self._intercept
 
-        self._smr_fit = interp1d(height, material_ratio)
+        # The heights descend, so the reversed arrays are sorted. They must not be sorted by height alone, since that mixes
+        # up the material ratios of equal heights, and heights beyond the limits would get arbitrary material ratios
+        self._smr_fit = interp1d(height[::-1], material_ratio[::-1], assume_sorted=True)
         self._height = height
         self._material_ratio = material_ratio
 
-- 
2.43.0


From 35da26e7d131a001c766eb83384bcdb06cee1b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:26 +0000
Subject: [PATCH 16/87] fix: reduced peak height and dale depth of a topography
 without peaks or dales are zero instead of NaN

---
 surfalize/abbottfirestone.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/surfalize/abbottfirestone.py b/surfalize/abbottfirestone.py
index a2ed800..942310f 100644
--- a/surfalize/abbottfirestone.py
+++ b/surfalize/abbottfirestone.py
@@ -201,6 +201,9 @@ class AbbottFirestoneCurve(CachedInstance):
         # Area enclosed above yupper between y-axis (at x=0) and abbott-firestone curve
         idx = argclosest(self._yupper, self._height)
         A1 = np.abs(trapezoid(self._material_ratio[:idx], x=self._height[:idx]))
+        # Without material above the core there are no hills
+        if self.mr1() == 0:
+            return 0.0
         pk = 2 * A1 / self.mr1()
         return pk
 
@@ -216,6 +219,9 @@ class AbbottFirestoneCurve(CachedInstance):
         # Area enclosed below ylower between y-axis (at x=100) and abbott-firestone curve
         idx = argclosest(self._ylower, self._height)
         A2 = np.abs(trapezoid(100 - self._material_ratio[idx:], x=self._height[idx:]))
+        # Without voids below the core there are no dales
+        if self.mr2() == 100:
+            return 0.0
         vk = 2 * A2 / (100 - self.mr2())
         return vk
 
-- 
2.43.0


From 5d00369f0d504671e2baaa70381f8ead0338ac00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:12 +0000
Subject: [PATCH 17/87] fix: a file in a buffer is read relative to the current
 position and the position is restored when reading fails

---
 surfalize/file/common.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/surfalize/file/common.py b/surfalize/file/common.py
index 575f38b..b1b70fe 100644
--- a/surfalize/file/common.py
+++ b/surfalize/file/common.py
@@ -179,8 +179,12 @@ def open_file_like(file_or_path, mode='r'):
             yield f
     elif isinstance(file_or_path, io.IOBase):
         current_pos = file_or_path.tell()
-        yield file_or_path
-        file_or_path.seek(current_pos, 0)
+        try:
+            # The file begins at the current position of the buffer. Since the readers use absolute positions, they get
+            # a file that begins at zero
+            yield io.BytesIO(file_or_path.read()) if 'r' in mode else file_or_path
+        finally:
+            file_or_path.seek(current_pos, 0)
     else:
         raise TypeError("Expected a file path or file-like object")
 
-- 
2.43.0


From 643c0de9256ec2e94beabffbae0ec4b163301110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:39 +0000
Subject: [PATCH 18/87] fix: a failing writer does not destroy an existing file
 or leave an incomplete one

---
 surfalize/file/common.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/surfalize/file/common.py b/surfalize/file/common.py
index b1b70fe..ce70a8b 100644
--- a/surfalize/file/common.py
+++ b/surfalize/file/common.py
@@ -521,5 +521,9 @@ class FileHandler:
             raise UnsupportedFileFormatError(
                 f"File format {suffix} is currently not supported for writing.") from None
         writer = self._writers[suffix]
+        # The file is only opened when its contents are complete, so that a failing writer neither destroys an existing
+        # file nor leaves an incomplete one behind. Writers also rely on absolute positions within the file
+        contents = io.BytesIO()
+        writer(contents, surface, encoding=encoding, **kwargs)
         with open_file_like(self.file, 'wb') as filehandle:
-            writer(filehandle, surface, encoding=encoding, **kwargs)
+            filehandle.write(contents.getvalue())
-- 
2.43.0


From 2e843c8de202d51cb7329ca02d9d768a97e1ac24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:59 +0000
Subject: [PATCH 19/87] fix: saving honours an explicitly given format over the
 suffix and suffixes in any letter case

---
 surfalize/file/common.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/surfalize/file/common.py b/surfalize/file/common.py
index ce70a8b..b47886e 100644
--- a/surfalize/file/common.py
+++ b/surfalize/file/common.py
@@ -511,12 +511,13 @@ class FileHandler:
                                          'magic.')
 
     def write(self, surface, encoding='utf-8', **kwargs):
-        if self.is_path_like():
+        # If both a suffix and a format are given, the format overrides the suffix
+        suffix = self.format
+        if suffix is None and self.is_path_like():
             suffix = self.file.suffix
-        else:
-            suffix = self.format
         if not suffix:
             raise ValueError('No format for the file specified.') from None
+        suffix = suffix.lower()
         if suffix not in self._writers:
             raise UnsupportedFileFormatError(
                 f"File format {suffix} is currently not supported for writing.") from None
-- 
2.43.0


From 99f506ce881dbc8f9a5ea57d00ea111fbcad2b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:14 +0000
Subject: [PATCH 20/87] fix: files in buffers or archives whose content does
 not match the expected format are recognised, with a warning exactly if the
 format differs

---
 surfalize/file/common.py | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/surfalize/file/common.py b/surfalize/file/common.py
index b47886e..1316259 100644
--- a/surfalize/file/common.py
+++ b/surfalize/file/common.py
@@ -458,8 +458,16 @@ class FileHandler:
             return True
         return False
 
+    @staticmethod
+    def _warn_about_mismatch(expected, reader):
+        if expected is not None:
+            warnings.warn(f'The file suffix or format indicates a file of type {expected}. However, the file '
+                          f'seems to actually be of type {reader._suffix}. Check if the file extensions is '
+                          f'correct. The file was now loaded as {reader._suffix}.')
+
     def read(self, read_image_layers=False, encoding="utf-8"):
         exception = None
+        suffix = None
         # Surface is either a file on disk specified with a path or the format was explicitly specified
         # In this case, we know the file format
         if self.is_path_like() or self.format is not None:
@@ -482,13 +490,17 @@ class FileHandler:
         for magic, reader in self._readers_by_magic.items():
             with open_file_like(self.file, 'rb') as filehandle:
                 detected_magic = filehandle.read(len(magic))
-                if detected_magic == magic:
-                    if self.is_path_like() and reader._suffix != suffix:
-                        warnings.warn(f'The file suffix indicates a file of type {self.file.suffix}. However, the file '
-                                      f'seems to actually be of type {reader._suffix}. Check if the file extensions is '
-                                      f'correct. The file was now loaded as {reader._suffix}.')
+                # The reader of the expected format has already failed
+                if detected_magic == magic and reader is not self._readers_by_suffix.get(suffix):
                     filehandle.seek(0, 0)
-                    return reader(filehandle, read_image_layers=read_image_layers, encoding=encoding)
+                    try:
+                        result = reader(filehandle, read_image_layers=read_image_layers, encoding=encoding)
+                    except Exception as e:
+                        # Different formats can share the same magic (e.g. zip archives), so the search continues
+                        exception = e
+                        continue
+                    self._warn_about_mismatch(suffix, reader)
+                    return result
 
         # Else, as a last resort, we try all available readers. We are only probing here and silently discard any
         # reader that fails, so we also suppress any warnings the probed readers might emit on incompatible data.
@@ -497,13 +509,11 @@ class FileHandler:
                 with open_file_like(self.file, 'rb') as filehandle, warnings.catch_warnings():
                     warnings.simplefilter('ignore')
                     result = reader(filehandle, read_image_layers=read_image_layers, encoding=encoding)
-                # The probing succeeded, so we emit the mismatch warning outside the suppression context
-                warnings.warn(f'The file suffix indicates a file of type {self.file.suffix}. However, the file '
-                              f'seems to actually be of type {reader_suffix}. Check if the file extensions is '
-                              f'correct. The file was now loaded as {reader_suffix}.')
-                return result
             except Exception:
-                pass
+                continue
+            # The probing succeeded, so we emit the mismatch warning outside the suppression context
+            self._warn_about_mismatch(suffix, reader)
+            return result
 
         if exception is not None:
             raise exception
-- 
2.43.0


From 89365f6ddeee60713609d126e34908ebbc1260ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:03 +0000
Subject: [PATCH 21/87] fix: every spelling of a unit is accepted as target
 unit, and incorrect decodings with capital letters or micro signs are
 recognised

---
 surfalize/file/common.py | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/surfalize/file/common.py b/surfalize/file/common.py
index 1316259..2810c48 100644
--- a/surfalize/file/common.py
+++ b/surfalize/file/common.py
@@ -111,6 +111,27 @@ def _sanitize_mu(string):
     return string
 
 
+def _normalize_unit(unit):
+    """
+    Returns the key of a unit in UNIT_EXPONENT if there is one.
+
+    Parameters
+    ----------
+    unit : str
+        Any spelling of the unit.
+
+    Returns
+    -------
+    str
+    """
+    normalized = _sanitize_mu(unit).lower()
+    if normalized not in UNIT_EXPONENT:
+        # Incorrect decodings can contain capital letters and micro signs, so they are looked up in the original spelling
+        normalized = fix_decoding_issues(unit)
+    if normalized not in UNIT_EXPONENT:
+        normalized = fix_decoding_issues(_sanitize_mu(unit).lower())
+    return normalized
+
 def get_unit_conversion(from_unit, to_unit):
     """
     Calculates unit conversion factor.
@@ -127,13 +148,8 @@ def get_unit_conversion(from_unit, to_unit):
     factor : float
         Factor by which to multiply the original values.
     """
-    from_unit = _sanitize_mu(from_unit)
-    from_unit = from_unit.lower()
-    to_unit = to_unit.lower()
-    if from_unit not in UNIT_EXPONENT:
-        from_unit = fix_decoding_issues(from_unit)
-    if to_unit not in UNIT_EXPONENT:
-        to_unit = fix_decoding_issues(to_unit)
+    from_unit = _normalize_unit(from_unit)
+    to_unit = _normalize_unit(to_unit)
     if from_unit not in UNIT_EXPONENT:
         raise ValueError(f'Unit {from_unit} does not exist.')
     if to_unit not in UNIT_EXPONENT:
-- 
2.43.0


From a69103612858950f464c3ec3f60e561058696ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:55 +0000
Subject: [PATCH 22/87] fix: compressed sur files state the size of the
 compressed data and can be read again

---
 surfalize/file/sur.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/surfalize/file/sur.py b/surfalize/file/sur.py
index f9117ea..176c786 100644
--- a/surfalize/file/sur.py
+++ b/surfalize/file/sur.py
@@ -376,6 +376,13 @@ def write_sur(filehandle, surface, encoding='utf-8', compressed=False, comment='
 
     comment = comment.encode(encoding)
 
+    compressed_data_size = 0
+    if compressed:
+        uncompressed_data = data.tobytes()
+        compressed_data = zlib.compress(uncompressed_data)
+        # The size comprises the directory count, the directory and the data stream
+        compressed_data_size = 12 + len(compressed_data)
+
     header = {
         'code': MAGIC_CLASSIC if not compressed else MAGIC_COMPRESSED,
         'format': 0,  # PC Format
@@ -422,7 +429,7 @@ def write_sur(filehandle, surface, encoding='utf-8', compressed=False, comment='
         'year': timestamp.year,
         'week_day': timestamp.weekday(),
         'measurement_duration': 0,
-        'compressed_data_size': 0,
+        'compressed_data_size': compressed_data_size,
         'length_comment': len(comment),
         'length_private': 0,
         'client_zone': 'Exported by surfalize',
@@ -442,8 +449,6 @@ def write_sur(filehandle, surface, encoding='utf-8', compressed=False, comment='
         write_array(data, filehandle)
         return
     else:
-        uncompressed_data = data.tobytes()
-        compressed_data = zlib.compress(uncompressed_data)
         # Write directory count = 1 and the length of a single data stream containing all the compressed data
         filehandle.write(struct.pack('<3I', 1, len(uncompressed_data), len(compressed_data)))
         filehandle.write(compressed_data)
-- 
2.43.0


From 1a97ae4b1a878c7e6c3911b6636474833901781a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:31 +0000
Subject: [PATCH 23/87] fix: constant surfaces with non-measured points keep
 their heights in sur files

---
 surfalize/file/sur.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/surfalize/file/sur.py b/surfalize/file/sur.py
index 176c786..ee8d08c 100644
--- a/surfalize/file/sur.py
+++ b/surfalize/file/sur.py
@@ -366,7 +366,9 @@ def write_sur(filehandle, surface, encoding='utf-8', compressed=False, comment='
     INT_DATA_MAX = INT32_MAX - 1
     data_max = np.nanmax(surface.data)
     data_min = np.nanmin(surface.data)
-    data = ((surface.data - data_min) / (data_max - data_min)) * (INT_DATA_MAX - INT_DATA_MIN) + INT_DATA_MIN
+    # All heights of a constant surface equal the offset
+    height_range = data_max - data_min if data_max > data_min else 1
+    data = ((surface.data - data_min) / height_range) * (INT_DATA_MAX - INT_DATA_MIN) + INT_DATA_MIN
     if nm_points:
         data[np.isnan(data)] = INT_DATA_MIN - 2
     data = data.astype('int32')
-- 
2.43.0


From 4416dd69bd7aa069f682e9a6325ff2e5e6a9e4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:53 +0000
Subject: [PATCH 24/87] fix: the height offset of sur files is converted from
 the unit of the heights

---
 surfalize/file/sur.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/surfalize/file/sur.py b/surfalize/file/sur.py
index ee8d08c..b8f81ab 100644
--- a/surfalize/file/sur.py
+++ b/surfalize/file/sur.py
@@ -317,7 +317,8 @@ def get_surface(sur_obj):
     if sur_obj.header['non_measured_points'] == 1:
         data[nan_mask] = np.nan
 
-    data += sur_obj.header['offset_z']
+    # The offset is given in the same unit as the spacing
+    data += sur_obj.header['offset_z'] * get_unit_conversion(sur_obj.header['unit_step_z'], 'um')
 
     # This can be implemented in the future when metadata support is needed
     # timestamp = datetime.datetime(year=header['year'], month=header['month'], day=header['day'])
-- 
2.43.0


From 5264297304f24e20d92e2821ef36b3ff969e1695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:32 +0000
Subject: [PATCH 25/87] fix: ascii sdf files have a valid header and their
 trailer is read as metadata

---
 surfalize/file/sdf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surfalize/file/sdf.py b/surfalize/file/sdf.py
index bc34e9b..e1b9cbe 100644
--- a/surfalize/file/sdf.py
+++ b/surfalize/file/sdf.py
@@ -91,7 +91,7 @@ def read_ascii_sdf(filehandle, encoding="utf-8"):
     # If we want to parse this as xml, we need to clean it up first with a regex anyway, so we may as well use it
     # to parse it, even though it is an evil thing to do
     pattern = r'< ?\b(\w+)\b ?>(.*)< ?/ ?\b\1\b ?>'
-    metadata.update({k: v.strip() for k, v in re.findall(pattern, data_section)})
+    metadata.update({k: v.strip() for k, v in re.findall(pattern, trailer_section)})
 
     return RawSurface(data, step_x, step_y, metadata=metadata, image_layers=None)
 
@@ -186,7 +186,7 @@ def write_sdf(filehandle, surface, encoding='utf-8', binary=True):
         CRLF = '\n'.encode('ascii')
         filehandle.write(MAGIC_ASCII + CRLF)
         for k, v in header.items():
-            filehandle.write(f'{k} = {v}{CRLF}'.encode('ascii'))
+            filehandle.write(f'{k} = {v}'.encode('ascii') + CRLF)
         filehandle.write('*'.encode('ascii') + CRLF)
         line_values = []
         for i, value in enumerate(data.flatten()):
-- 
2.43.0


From f76608ab66b482d90be2dd5c11fb7fe092189ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:55 +0000
Subject: [PATCH 26/87] fix: surfaces with non-measured points are not lost
 when saved as sflz

---
 surfalize/file/sflz.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/surfalize/file/sflz.py b/surfalize/file/sflz.py
index d9fd329..c2495fa 100644
--- a/surfalize/file/sflz.py
+++ b/surfalize/file/sflz.py
@@ -108,6 +108,9 @@ def write_sflz(filehandle, surface, encoding='utf-8', compression='zlib', save_i
 
     dtype = np.dtype(dtype)
     data = surface.data
+    if surface.has_missing_points and dtype.kind in ['i', 'u']:
+        # Scaled integers cannot represent non-measured points
+        dtype = np.dtype('<f8')
     if dtype.kind in ['i', 'u']:
         # perform scaling
         min_val = data.min()
-- 
2.43.0


From 8e2634a87455491e6533bf4d320704050d024520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:28 +0000
Subject: [PATCH 27/87] fix: heights saved as signed or 64-bit integers in sflz
 files are read correctly

---
 surfalize/file/sflz.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/surfalize/file/sflz.py b/surfalize/file/sflz.py
index c2495fa..a5c14c4 100644
--- a/surfalize/file/sflz.py
+++ b/surfalize/file/sflz.py
@@ -86,7 +86,7 @@ def read_sflz(filehandle, encoding='utf-8', read_image_layers=True):
                 max_val = header['max_value']
                 dtype_min = np.iinfo(layer_header['datatype']).min
                 dtype_max = np.iinfo(layer_header['datatype']).max
-                height_data = (height_data.astype('float64') + dtype_min) / (dtype_max - dtype_min)
+                height_data = (height_data.astype('float64') - dtype_min) / (dtype_max - dtype_min)
                 height_data = height_data * (max_val - min_val) + min_val
         else:
             image_layers[layer_header['name']] = data
@@ -122,6 +122,9 @@ def write_sflz(filehandle, surface, encoding='utf-8', compression='zlib', save_i
         dtype_max = np.iinfo(dtype).max
         data_norm = (data - min_val) / (max_val - min_val)
         data = data_norm * (dtype_max - dtype_min) + dtype_min
+        if dtype.itemsize == 8:
+            # The largest 64-bit integer is rounded up as a float and would overflow
+            data = np.minimum(data, np.nextafter(float(dtype_max), 0))
     else:
         header['scaled'] = False
         header['min_value'] = 0
-- 
2.43.0


From 94e18be91ac7351ebc3b05ab0ffb2300a61377af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:57 +0000
Subject: [PATCH 28/87] fix: names of image layers with non-ascii characters
 are complete in sflz files

---
 surfalize/file/sflz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/file/sflz.py b/surfalize/file/sflz.py
index a5c14c4..9b2d1f6 100644
--- a/surfalize/file/sflz.py
+++ b/surfalize/file/sflz.py
@@ -150,7 +150,7 @@ def write_sflz(filehandle, surface, encoding='utf-8', compression='zlib', save_i
             data = compress(layer.data.tobytes(), compression)
 
             layer_header = {
-                'name_length': len(name),
+                'name_length': len(name.encode('utf-8')),
                 'name': name,
                 'width': layer.data.shape[1],
                 'height': layer.data.shape[0],
-- 
2.43.0


From a652c2b9876e68bad268dd4028c81eb2bbb79b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:39 +0000
Subject: [PATCH 29/87] fix: xyz files have the spacing of their coordinates
 and may list the points column by column

---
 surfalize/file/xyz.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/surfalize/file/xyz.py b/surfalize/file/xyz.py
index 51f795f..40e6a15 100644
--- a/surfalize/file/xyz.py
+++ b/surfalize/file/xyz.py
@@ -18,8 +18,13 @@ def read_xyz(filehandle, read_image_layers=False, encoding='utf-8'):
     ny = y.size
     if nx * ny != raw_data.shape[0]:
         raise CorruptedFileError('Number of datapoints does not match expected size.')
-    step_x = (x.max() - x.min()) / (nx) * 10**6
-    step_y = (y.max() - y.min()) / (ny) * 10**6
-    data = raw_data[:,2].copy().reshape(ny, nx) * 10**6
+    step_x = (x.max() - x.min()) / max(nx - 1, 1) * 10**6
+    step_y = (y.max() - y.min()) / max(ny - 1, 1) * 10**6
+    data = raw_data[:,2].copy() * 10**6
+    # The points can be listed row by row or column by column
+    if ny > 1 and raw_data[0, 0] == raw_data[1, 0]:
+        data = data.reshape(nx, ny).T
+    else:
+        data = data.reshape(ny, nx)
 
     return RawSurface(data, step_x, step_y)
\ No newline at end of file
-- 
2.43.0


From d3d7bf48a5c8fcb31b1e33898c2607fa572ae739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:05 +0000
Subject: [PATCH 30/87] fix: image layers of nms files that are not square can
 be read

---
 surfalize/file/nms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/file/nms.py b/surfalize/file/nms.py
index 3e5a7ea..a822679 100644
--- a/surfalize/file/nms.py
+++ b/surfalize/file/nms.py
@@ -36,7 +36,7 @@ def read_nms(filehandle, read_image_layers=False, encoding='utf-8'):
     step_y = dy * 1e-3
     image_layers = {}
     if read_image_layers:
-        image_layers['Grayscale'] = read_array(filehandle, dtype=DTYPE_IMG, count=nx * ny).reshape(ny, ny)
+        image_layers['Grayscale'] = read_array(filehandle, dtype=DTYPE_IMG, count=nx * ny).reshape(ny, nx)
 
     metadata = dict(date=date)
 
-- 
2.43.0


From ff9c615b4c11d431f4fa261adbdbca9860af5b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:27 +0000
Subject: [PATCH 31/87] fix: os3d files without image can be read when image
 layers are requested

---
 surfalize/file/os3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/file/os3d.py b/surfalize/file/os3d.py
index 83d2983..d1d1aa7 100644
--- a/surfalize/file/os3d.py
+++ b/surfalize/file/os3d.py
@@ -42,7 +42,7 @@ def read_os3d(filehandle, read_image_layers=False, encoding='utf-8'):
     metadata = header
     metadata['timestamp'] = dateutil.parser.parse(header['chArrayMeasureDateTime'])
 
-    has_image = struct.unpack('b', filehandle.read(1))
+    has_image = struct.unpack('b', filehandle.read(1))[0]
     image_layers = {}
     if has_image and read_image_layers:
         img_data = io.BytesIO(filehandle.read())
-- 
2.43.0


From b978b64d4a0c7b64aa9bb0059735d103fc5219bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:47 +0000
Subject: [PATCH 32/87] fix: plux files without image can be read when image
 layers are requested

---
 surfalize/file/plux.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/surfalize/file/plux.py b/surfalize/file/plux.py
index 590bd21..8c65f05 100644
--- a/surfalize/file/plux.py
+++ b/surfalize/file/plux.py
@@ -14,6 +14,7 @@ def read_plux(filehandle, read_image_layers=False, encoding='utf-8'):
     with zipfile.ZipFile(filehandle) as archive:
         contents = archive.namelist()
         data_raw = archive.read(TOPOGRAPHY_FILE_NAME)
+        img_raw = None
         if read_image_layers and IMAGE_FILE_NAME in contents:
             img_raw = archive.read(IMAGE_FILE_NAME)
         xml_metadata = archive.read(XML_METADATA_FILE_NAME)
@@ -44,7 +45,7 @@ def read_plux(filehandle, read_image_layers=False, encoding='utf-8'):
 
     data = np.frombuffer(data_raw, dtype=np.float32, count=size).reshape((shape_y, shape_x))
     image_layers = {}
-    if read_image_layers:
+    if img_raw is not None:
         img = np.frombuffer(img_raw, dtype=np.uint8).reshape((shape_y, shape_x, 3))
         if np.all((img[:, :, 0] == img[:, :, 1]) & (img[:, :, 0] == img[:, :, 2])):
             image_layers['Grayscale'] = img[:, :, 0]
-- 
2.43.0


From cbb3466ab0e7d102cf5f25a42e89a4e1f4018ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:10 +0000
Subject: [PATCH 33/87] fix: integer heights of x3p files are signed multiples
 of the z increment

---
 surfalize/file/x3p.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/surfalize/file/x3p.py b/surfalize/file/x3p.py
index 4dcb6e0..8d8568e 100644
--- a/surfalize/file/x3p.py
+++ b/surfalize/file/x3p.py
@@ -12,8 +12,8 @@ CONVERSION_FACTOR = get_unit_conversion(UNIT, 'um')
 MAGIC = b'PK\x03\x04\x14'
 
 DTYPE_MAP = {
-    "I": "<u2",
-    "L": "<u4",
+    "I": "<i2",
+    "L": "<i4",
     "F": "f4",
     "D": "f8",
 }
@@ -70,7 +70,12 @@ def read_x3p(filehandle, read_image_layers=False, encoding='utf-8'):
         cy = axes.find("CY")
         cz = axes.find("CZ")
 
-        dtype = DTYPE_MAP[cz.find("DataType").text]
+        data_type = cz.find("DataType").text
+        dtype = DTYPE_MAP[data_type]
+        # Integer heights are multiples of the increment of the z-axis
+        scale_z = CONVERSION_FACTOR
+        if data_type in ("I", "L") and cz.find("Increment") is not None:
+            scale_z *= float(cz.find("Increment").text)
 
         step_x = float(cx.find("Increment").text) * CONVERSION_FACTOR
         step_y = float(cy.find("Increment").text) * CONVERSION_FACTOR
@@ -88,7 +93,7 @@ def read_x3p(filehandle, read_image_layers=False, encoding='utf-8'):
             raise CorruptedFileError('Binary file containing topographical data not found.') from None
 
         with archive.open(bin_path, 'r') as data_file:
-            data = read_array(data_file, dtype=dtype).reshape(ny, nx) * CONVERSION_FACTOR
+            data = read_array(data_file, dtype=dtype).reshape(ny, nx) * scale_z
 
         metadata = {}
         if record2 is not None:
-- 
2.43.0


From 4ab2ae0acf8fdcbdf9e1a98461e40ee78fffe5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:52 +0000
Subject: [PATCH 34/87] fix: truncated fits files are refused, and extensions
 are found after full data blocks and long headers

---
 surfalize/file/fits.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/surfalize/file/fits.py b/surfalize/file/fits.py
index 1159b58..8ae5236 100644
--- a/surfalize/file/fits.py
+++ b/surfalize/file/fits.py
@@ -58,6 +58,8 @@ def read_header(filehandle, encoding='auto'):
     header = dict()
     while not has_ended:
         block = filehandle.read(BLOCKSIZE)
+        if len(block) != BLOCKSIZE:
+            raise FileFormatError("Unexpected end of file in header.")
         partial_header, has_ended = parse_header_block(decode(block, encoding))
         header.update(partial_header)
     return header
@@ -84,16 +86,20 @@ def read_fits(filehandle, read_image_layers=False, encoding='utf-8'):
     while True:
         block = filehandle.read(BLOCKSIZE)
         if block.startswith(b'XTENSION'):
-            hdu_header, has_ended = parse_header_block(decode(block, encoding))
+            filehandle.seek(-len(block), 1)
+            # The header of an extension can consist of several blocks, just as the primary header
+            hdu_header = read_header(filehandle, encoding=encoding)
             if hdu_header['NAXIS'] != 2:
                 raise UnsupportedFileFormatError("Array with number of dimensions not equal to 2 detected.")
             datasize = hdu_header['NAXIS1'] * hdu_header['NAXIS2'] * int(abs(hdu_header['BITPIX'] / 8))
             data = read_array(filehandle, dtype=dtype_map[hdu_header['BITPIX']],
                               count=hdu_header['NAXIS1'] * hdu_header['NAXIS2']).reshape(hdu_header['NAXIS2'],
                                                                                           hdu_header['NAXIS1'])
-            # Skip the remaining blocksize
-            filehandle.seek(BLOCKSIZE - (datasize % BLOCKSIZE), 1)
+            # Skip the remaining blocksize, if any
+            filehandle.seek(-datasize % BLOCKSIZE, 1)
             layers[hdu_header['EXTNAME']] = HeaderDataUnit(hdu_header, data)
+        elif 0 < len(block) < BLOCKSIZE:
+            raise FileFormatError("Unexpected end of file.")
 
         if filehandle.tell() >= filesize:
             break
-- 
2.43.0


From 9499199f52841d2d220937dbe616460a9780cd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:18 +0000
Subject: [PATCH 35/87] fix: the spacing of fits files in y is converted from
 its own unit

---
 surfalize/file/fits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/file/fits.py b/surfalize/file/fits.py
index 8ae5236..bac22b6 100644
--- a/surfalize/file/fits.py
+++ b/surfalize/file/fits.py
@@ -115,7 +115,7 @@ def read_fits(filehandle, read_image_layers=False, encoding='utf-8'):
         mask = layers['MASK'].data.astype('bool')
         data[~mask] = np.nan
     x_factor = header['UnitMultiplicatorDeltas'] * get_unit_conversion(header['UNITX'], 'um')
-    y_factor = header['UnitMultiplicatorDeltas'] * get_unit_conversion(header['UNITX'], 'um')
+    y_factor = header['UnitMultiplicatorDeltas'] * get_unit_conversion(header.get('UNITY', header['UNITX']), 'um')
     z_factor = header['UnitMultiplicatorHeights'] * get_unit_conversion(header['UNITZ'], 'um')
     step_x = header['DELTAX'] * x_factor
     step_y = header['DELTAY'] * y_factor
-- 
2.43.0


From 9bf23d5be122cc7ddae1e1e1b08f4d8a919485df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:50 +0000
Subject: [PATCH 36/87] fix: single precision heights are saved as sur and
 scaled sflz without overflowing

---
 surfalize/file/sflz.py | 3 ++-
 surfalize/file/sur.py  | 8 +++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/surfalize/file/sflz.py b/surfalize/file/sflz.py
index 9b2d1f6..8beba94 100644
--- a/surfalize/file/sflz.py
+++ b/surfalize/file/sflz.py
@@ -112,7 +112,8 @@ def write_sflz(filehandle, surface, encoding='utf-8', compression='zlib', save_i
         # Scaled integers cannot represent non-measured points
         dtype = np.dtype('<f8')
     if dtype.kind in ['i', 'u']:
-        # perform scaling
+        # perform scaling, for which single precision heights are too coarse
+        data = data.astype('float64')
         min_val = data.min()
         max_val = data.max()
         header['scaled'] = True
diff --git a/surfalize/file/sur.py b/surfalize/file/sur.py
index b8f81ab..68400dd 100644
--- a/surfalize/file/sur.py
+++ b/surfalize/file/sur.py
@@ -365,11 +365,13 @@ def write_sur(filehandle, surface, encoding='utf-8', compressed=False, comment='
 
     INT_DATA_MIN = INT32_MIN + 2
     INT_DATA_MAX = INT32_MAX - 1
-    data_max = np.nanmax(surface.data)
-    data_min = np.nanmin(surface.data)
+    # Single precision heights cannot represent 32-bit integers, the largest ones would overflow
+    heights = surface.data.astype('float64')
+    data_max = np.nanmax(heights)
+    data_min = np.nanmin(heights)
     # All heights of a constant surface equal the offset
     height_range = data_max - data_min if data_max > data_min else 1
-    data = ((surface.data - data_min) / height_range) * (INT_DATA_MAX - INT_DATA_MIN) + INT_DATA_MIN
+    data = ((heights - data_min) / height_range) * (INT_DATA_MAX - INT_DATA_MIN) + INT_DATA_MIN
     if nm_points:
         data[np.isnan(data)] = INT_DATA_MIN - 2
     data = data.astype('int32')
-- 
2.43.0


From c0ba4a71af94b68d9e69a1e7d8451b4ea297a724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:28 +0000
Subject: [PATCH 37/87] fix: integer heights of x3p files without increment do
 not overflow

---
 surfalize/file/x3p.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surfalize/file/x3p.py b/surfalize/file/x3p.py
index 8d8568e..32875e5 100644
--- a/surfalize/file/x3p.py
+++ b/surfalize/file/x3p.py
@@ -72,8 +72,8 @@ def read_x3p(filehandle, read_image_layers=False, encoding='utf-8'):
 
         data_type = cz.find("DataType").text
         dtype = DTYPE_MAP[data_type]
-        # Integer heights are multiples of the increment of the z-axis
-        scale_z = CONVERSION_FACTOR
+        # Integer heights are multiples of the increment of the z-axis. The factor is a float, so that they do not overflow
+        scale_z = float(CONVERSION_FACTOR)
         if data_type in ("I", "L") and cz.find("Increment") is not None:
             scale_z *= float(cz.find("Increment").text)
 
-- 
2.43.0


From 7d1e4f42385587e86c71c30b67d1797362e831ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:47 +0000
Subject: [PATCH 38/87] fix: xyz files with a single point can be loaded

---
 surfalize/file/xyz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/file/xyz.py b/surfalize/file/xyz.py
index 40e6a15..04f72db 100644
--- a/surfalize/file/xyz.py
+++ b/surfalize/file/xyz.py
@@ -7,7 +7,7 @@ from .common import RawSurface, FileHandler
 @FileHandler.register_reader(suffix='.xyz')
 def read_xyz(filehandle, read_image_layers=False, encoding='utf-8'):
     try:
-        raw_data = np.loadtxt(filehandle)
+        raw_data = np.loadtxt(filehandle, ndmin=2)
     except UnicodeDecodeError:
         raise UnsupportedFileFormatError('The xyz file contains binary data. Only ASCII xyz files are supported.')
     except ValueError:
-- 
2.43.0


From c4e885097233894b4cdd5c2b4c6a72949e987b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:07 +0000
Subject: [PATCH 39/87] fix: image layers of dat files with points without
 intensity can be loaded

---
 surfalize/file/dat.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/surfalize/file/dat.py b/surfalize/file/dat.py
index 225e25d..245de41 100644
--- a/surfalize/file/dat.py
+++ b/surfalize/file/dat.py
@@ -278,7 +278,8 @@ def read_dat(filehandle, read_image_layers=False, encoding='utf-8'):
         else:
             intensity_data = intensity_data.reshape(header['ac_height'], header['ac_width'])
             image_layers['Intensity'] = intensity_data
-        if np.nanmax(intensity_data) > header['ac_range']:
+        # Points without intensity are marked with a value above the range
+        if np.any((intensity_data > header['ac_range']) & (intensity_data != INVALID_VALUE_INTENSITY)):
             raise CorruptedFileError('Points above specified range detected in intensity data!')
     else:
         filehandle.seek(header['ac_n_bytes'], 1)
-- 
2.43.0


From cf99300a2c06d16c1885906df1561b23a4e43c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:25 +0000
Subject: [PATCH 40/87] fix: cards without value in fits headers are skipped

---
 surfalize/file/fits.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/surfalize/file/fits.py b/surfalize/file/fits.py
index bac22b6..b66a03d 100644
--- a/surfalize/file/fits.py
+++ b/surfalize/file/fits.py
@@ -44,7 +44,10 @@ def parse_header_block(block):
             break
         if '/' in line:
             line = line.split('/')[0]
-        left, right = line.split('=')
+        # Cards such as HISTORY do not have a value
+        if '=' not in line:
+            continue
+        left, right = line.split('=', 1)
         left = left.strip()
         right = right.strip()
         if left.startswith('HIERARCH'):
-- 
2.43.0


From 411953e03b873ed5e5ec83a538bbc5fd1d7dacfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:47 +0000
Subject: [PATCH 41/87] fix: gwy files with graphs, untitled channels or images
 without lateral unit can be loaded

---
 surfalize/file/gwy.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/surfalize/file/gwy.py b/surfalize/file/gwy.py
index b68caab..986668e 100644
--- a/surfalize/file/gwy.py
+++ b/surfalize/file/gwy.py
@@ -67,7 +67,7 @@ def _filter_candidates_by_name(tree, candidates, guesses=('height', 'topo')):
     """
     reduced_candidates = []
     for layer_key in candidates:
-        title = tree['GwyContainer'][f'/{layer_key}/data/title'].lower()
+        title = tree['GwyContainer'].get(f'/{layer_key}/data/title', '').lower()
         if any([guess in title for guess in guesses]):
             reduced_candidates.append(layer_key)
     if not reduced_candidates:
@@ -122,7 +122,8 @@ def guess_image_channels(tree, layer_candidates):
 def get_image_related_layer_keys(tree):
     image_related_layers = []
     for key in tree['GwyContainer']:
-        mo = re.search(r'/(\d+)/', key)
+        # Other objects such as graphs or volume data have numbers of their own
+        mo = re.search(r'^/(\d+)/data$', key)
         if mo:
             image_related_layers.append(mo.group(1))
     return list(set(image_related_layers))
@@ -257,7 +258,10 @@ def read_gwy(filehandle, read_image_layers=False, encoding='utf-8'):
             title = tree['GwyContainer'][f'/{layer_key}/data/title']
             img_data = datafield['data']
 
-            img_unit_xy = datafield['si_unit_xy']['GwySIUnit']['unitstr']
+            # Channels without lateral dimensions have no unit
+            img_unit_xy = None
+            if 'si_unit_xy' in datafield:
+                img_unit_xy = datafield['si_unit_xy']['GwySIUnit']['unitstr']
             img_nx = datafield['xres']
             img_ny = datafield['yres']
 
-- 
2.43.0


From 03957ba430adfbf572e5f08a5442cc82d891efdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:02 +0000
Subject: [PATCH 42/87] fix: refuse fits files that end within the padding of
 an extension

---
 surfalize/file/fits.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/surfalize/file/fits.py b/surfalize/file/fits.py
index b66a03d..5142702 100644
--- a/surfalize/file/fits.py
+++ b/surfalize/file/fits.py
@@ -99,7 +99,9 @@ def read_fits(filehandle, read_image_layers=False, encoding='utf-8'):
                               count=hdu_header['NAXIS1'] * hdu_header['NAXIS2']).reshape(hdu_header['NAXIS2'],
                                                                                           hdu_header['NAXIS1'])
             # Skip the remaining blocksize, if any
-            filehandle.seek(-datasize % BLOCKSIZE, 1)
+            padding = -datasize % BLOCKSIZE
+            if len(filehandle.read(padding)) != padding:
+                raise FileFormatError("Unexpected end of file.")
             layers[hdu_header['EXTNAME']] = HeaderDataUnit(hdu_header, data)
         elif 0 < len(block) < BLOCKSIZE:
             raise FileFormatError("Unexpected end of file.")
-- 
2.43.0


From 0c63aee264bb69b0bd0b477eff16989ae7673ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:33 +0000
Subject: [PATCH 43/87] fix: inputs of a batch that share a file object are not
 read at the same time

---
 surfalize/batch.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/surfalize/batch.py b/surfalize/batch.py
index 288ad43..f09027b 100644
--- a/surfalize/batch.py
+++ b/surfalize/batch.py
@@ -4,6 +4,7 @@ from multiprocessing.pool import ThreadPool
 from functools import partial
 from dataclasses import dataclass
 from pathlib import Path
+from threading import Lock
 from typing import Optional
 import logging
 logger = logging.getLogger(__name__)
@@ -402,6 +403,9 @@ class _CustomOperation:
         self.func(surface)
 
 
+# Several inputs can share one file-like object, whose position must not be moved by two threads at the same time
+_file_object_lock = Lock()
+
 def _task(file, steps, ignore_errors, preserve_chaining_order):
     """
     Task that loads a surface from file, executes a list of operations and calculates a list of parameters.
@@ -427,7 +431,8 @@ def _task(file, steps, ignore_errors, preserve_chaining_order):
         key.
     """
     if isinstance(file, FileInput):
-        surface = Surface.load(file.data, format=file.format)
+        with _file_object_lock:
+            surface = Surface.load(file.data, format=file.format)
     else:
         surface = Surface.load(file)
     results = dict(file=file.name)
-- 
2.43.0


From 338787745a3de46549ace525d17e18c6de86df43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:53 +0000
Subject: [PATCH 44/87] fix: errors of custom parameters are ignored in a batch
 if ignore_errors is true

---
 surfalize/batch.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/surfalize/batch.py b/surfalize/batch.py
index f09027b..ddbe1a4 100644
--- a/surfalize/batch.py
+++ b/surfalize/batch.py
@@ -391,6 +391,8 @@ class _CustomParameter:
         except CalculationError as error:
             if not ignore_errors:
                 raise error
+            # The names of the values are only known to the function, missing entries are filled with nan values
+            result = {}
         return result
 
 
-- 
2.43.0


From 7bc650cc14f09e9d83edb0680ac4271cc2ec5ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:12 +0000
Subject: [PATCH 45/87] fix: registering a custom parameter twice raises a
 BatchError

---
 surfalize/batch.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/surfalize/batch.py b/surfalize/batch.py
index ddbe1a4..4f4d5aa 100644
--- a/surfalize/batch.py
+++ b/surfalize/batch.py
@@ -766,6 +766,8 @@ class Batch:
         """
         if isinstance(step, (_Parameter, _CustomParameter)):
             if step.name in {s.name for s in self._steps if isinstance(s, (_Parameter, _CustomParameter))}:
+                if isinstance(step, _CustomParameter):
+                    raise BatchError('The custom parameter function is already registered.')
                 raise BatchError(f'The parameter "{step.identifier}" is already registered. Consider giving it an '
                                  f'alternate name using the keyword argument "custom_name".')
         self._steps.append(step)
-- 
2.43.0


From 628e2bbd5928c7cfd15fb609a795367b4e76e6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:20 +0000
Subject: [PATCH 46/87] fix: parameters of a batch never overwrite the result
 columns of others

---
 surfalize/batch.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/surfalize/batch.py b/surfalize/batch.py
index 4f4d5aa..1ef6684 100644
--- a/surfalize/batch.py
+++ b/surfalize/batch.py
@@ -405,6 +405,28 @@ class _CustomOperation:
         self.func(surface)
 
 
+def _add_results(results, result):
+    """
+    Adds the values of a parameter to the results of a file. Raises an error if a value with the same name is already
+    present.
+
+    Parameters
+    ----------
+    results : dict[str: value]
+        Results of the file, updated in place.
+    result : dict[str: value]
+        Values of the parameter.
+
+    Returns
+    -------
+    None
+    """
+    duplicates = results.keys() & result.keys()
+    if duplicates:
+        raise BatchError(f'The result columns {", ".join(map(str, sorted(duplicates, key=str)))} would be overwritten. '
+                         f'Consider giving the parameter an alternate name.')
+    results.update(result)
+
 # Several inputs can share one file-like object, whose position must not be moved by two threads at the same time
 _file_object_lock = Lock()
 
@@ -444,7 +466,7 @@ def _task(file, steps, ignore_errors, preserve_chaining_order):
                 step.execute_on(surface)
             elif isinstance(step, (_Parameter, _CustomParameter)):
                 result = step.calculate_from(surface, ignore_errors=ignore_errors)
-                results.update(result)
+                _add_results(results, result)
     else:
         operations = [step for step in steps if isinstance(step, (_Operation, _CustomOperation))]
         parameters = [step for step in steps if isinstance(step, (_Parameter, _CustomParameter))]
@@ -452,7 +474,7 @@ def _task(file, steps, ignore_errors, preserve_chaining_order):
             operation.execute_on(surface)
         for parameter in parameters:
             result = parameter.calculate_from(surface, ignore_errors=ignore_errors)
-            results.update(result)
+            _add_results(results, result)
     return results
 
 #TODO batch image export
-- 
2.43.0


From 353cde382e10ffc2ce3c6b7217c763a3f6e17ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:41 +0000
Subject: [PATCH 47/87] fix: depth with profiles that divide the size evenly or
 a single profile

---
 surfalize/surface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index bebfbe9..7ff0668 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -1583,11 +1583,11 @@ class Surface(BaseTopography):
             # Calculate the number of intervals per profile
             nintervals = int(self.width_um / periodx)
             period_px = periodx / self.step_x
-            profile_dist_px = int(size.y / (nprofiles-1))
+            profile_dist_px = int((size.y - 1) / max(nprofiles - 1, 1))
         else:
             nintervals = int(self.height_um / periody)
             period_px = periody / self.step_y
-            profile_dist_px = int(size.x / (nprofiles-1))
+            profile_dist_px = int((size.x - 1) / max(nprofiles - 1, 1))
 
         # Allocate depth array with twice the length of the number of periods to accommodate both peaks and valleys
         # multiplied by the number of sampled profiles
-- 
2.43.0


From 8d19850ff644029d6b1ce3fc7e384816d40b8bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:37 +0000
Subject: [PATCH 48/87] fix: text of a filename template is matched literally

---
 surfalize/batch.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/surfalize/batch.py b/surfalize/batch.py
index 1ef6684..6cb28fc 100644
--- a/surfalize/batch.py
+++ b/surfalize/batch.py
@@ -1,5 +1,6 @@
 import inspect
 import io
+import re
 from multiprocessing.pool import ThreadPool
 from functools import partial
 from dataclasses import dataclass
@@ -137,7 +138,7 @@ class FilenameParser:
         """
         patterns = []
         for token in tokens:
-            s = token.prefix
+            s = re.escape(token.prefix)
             s += f'(?P<{token.name}>'
             try:
                 s += self.TYPES[token.dtype]
@@ -145,12 +146,12 @@ class FilenameParser:
                 raise ParsingError(f'The datatype {token.dtype} is invalid. '
                                    f'Possible datatypes are "int", "float", "str"') from None
             s += ')'
-            s += token.suffix
+            s += re.escape(token.suffix)
             patterns.append(s)
         regex = ''
         for pattern, separator in zip(patterns, separators):
-            regex += separator + pattern
-        regex += separators[-1]
+            regex += re.escape(separator) + pattern
+        regex += re.escape(separators[-1])
         return regex
 
     def extract_from(self, df, column):
-- 
2.43.0


From 931590d3519dc39705921664789aee4546051ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:11 +0000
Subject: [PATCH 49/87] fix: values extracted from filenames never overwrite
 result columns of a batch

---
 surfalize/batch.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/surfalize/batch.py b/surfalize/batch.py
index 6cb28fc..cd8de81 100644
--- a/surfalize/batch.py
+++ b/surfalize/batch.py
@@ -770,6 +770,11 @@ class Batch:
             df = pd.merge(self._additional_data, df, on='file')
         if self._filename_pattern is not None:
             parser = FilenameParser(self._filename_pattern)
+            tokens, _ = parser.parse_template()
+            duplicates = [token.name for token in tokens if token.name in df.columns]
+            if duplicates:
+                raise BatchError(f'The columns {", ".join(duplicates)} would be overwritten by values extracted from the '
+                                 f'filename. Consider giving them an alternate name.')
             df = parser.apply_on(df, 'file')
         return df
 
-- 
2.43.0


From d6b111d0ca7875c02fed49d8b91d63e20ea626f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:35 +0000
Subject: [PATCH 50/87] fix: directories contribute each of their files to a
 batch exactly once, whatever the case of the suffix

---
 surfalize/batch.py | 42 +++++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/surfalize/batch.py b/surfalize/batch.py
index cd8de81..358cc22 100644
--- a/surfalize/batch.py
+++ b/surfalize/batch.py
@@ -428,6 +428,29 @@ def _add_results(results, result):
                          f'Consider giving the parameter an alternate name.')
     results.update(result)
 
+def _find_files(dir_path, file_extensions=None):
+    """
+    Finds the files in a directory that have one of the specified file extensions, irrespective of upper and lower case.
+
+    Parameters
+    ----------
+    dir_path : str | pathlib.Path
+        Path to the directory containing the files
+    file_extensions : str | list-like, optional
+        File extension or list of file extensions. Defaults to all supported file extensions.
+
+    Returns
+    -------
+    filepaths : list[pathlib.Path]
+    """
+    if file_extensions is None:
+        file_extensions = supported_formats_read
+    elif isinstance(file_extensions, str):
+        file_extensions = [file_extensions]
+    file_extensions = tuple(extension.lower() for extension in file_extensions)
+    return sorted(path for path in Path(dir_path).glob('*')
+                  if path.name.lower().endswith(file_extensions) and path.is_file())
+
 # Several inputs can share one file-like object, whose position must not be moved by two threads at the same time
 _file_object_lock = Lock()
 
@@ -632,15 +655,7 @@ class Batch:
         -------
         Batch
         """
-        dir_path = Path(dir_path)
-        filepaths = []
-        if file_extensions is None:
-            file_extensions = supported_formats_read
-        elif isinstance(file_extensions, str):
-            file_extensions = [file_extensions]
-        for extension in file_extensions:
-            filepaths.extend(list(dir_path.glob(f'*{extension}')))
-        return cls(filepaths, additional_data=additional_data)
+        return cls(_find_files(dir_path, file_extensions), additional_data=additional_data)
 
     def add_files(self, files):
         """
@@ -681,14 +696,7 @@ class Batch:
         -------
         self
         """
-        dir_path = Path(dir_path)
-        filepaths = []
-        if file_extensions is None:
-            file_extensions = supported_formats_read
-        elif isinstance(file_extensions, str):
-            file_extensions = [file_extensions]
-        for extension in file_extensions:
-            self._files.extend(list(dir_path.glob(f'*{extension}')))
+        self._files.extend(_find_files(dir_path, file_extensions))
         return self
 
     def _disptach_tasks(self, multiprocessing=True, ignore_errors=True, on_file_complete=None,
-- 
2.43.0


From 75d350f86a63f378939c1e29257a44b382382433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:58 +0000
Subject: [PATCH 51/87] fix: files without additional data are kept in the
 result of a batch

---
 surfalize/batch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/batch.py b/surfalize/batch.py
index 358cc22..f3ff229 100644
--- a/surfalize/batch.py
+++ b/surfalize/batch.py
@@ -775,7 +775,7 @@ class Batch:
         """
         df = pd.DataFrame(results)
         if self._additional_data is not None:
-            df = pd.merge(self._additional_data, df, on='file')
+            df = pd.merge(self._additional_data, df, on='file', how='right')
         if self._filename_pattern is not None:
             parser = FilenameParser(self._filename_pattern)
             tokens, _ = parser.parse_template()
-- 
2.43.0


From 1d1f60e305a2e46d0a730be9a5e10f5e4bd097ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:22 +0000
Subject: [PATCH 52/87] fix: execute batches without files if additional data
 or a filename template is given

---
 surfalize/batch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/batch.py b/surfalize/batch.py
index f3ff229..ebefc05 100644
--- a/surfalize/batch.py
+++ b/surfalize/batch.py
@@ -773,7 +773,7 @@ class Batch:
         -------
         pd.DataFrame
         """
-        df = pd.DataFrame(results)
+        df = pd.DataFrame(results if results else {'file': pd.Series(dtype='str')})
         if self._additional_data is not None:
             df = pd.merge(self._additional_data, df, on='file', how='right')
         if self._filename_pattern is not None:
-- 
2.43.0


From 4abb6bb41ab60ac9d03d61c53c5ee5b1676eed79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:54 +0000
Subject: [PATCH 53/87] fix: names of files in additional data are read as text

---
 surfalize/batch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/batch.py b/surfalize/batch.py
index ebefc05..058a834 100644
--- a/surfalize/batch.py
+++ b/surfalize/batch.py
@@ -564,7 +564,7 @@ class Batch:
         if additional_data is None:
             self._additional_data = None
         else:
-            self._additional_data = pd.read_excel(additional_data)
+            self._additional_data = pd.read_excel(additional_data, dtype={'file': str})
             if 'file' not in self._additional_data.columns:
                 raise ValueError("File specified by 'additional_data' does not contain column named 'file'.")
         self._steps = []
-- 
2.43.0


From c92f2385f75c2710714105da8423d1e1b12d9cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:44 +0000
Subject: [PATCH 54/87] fix: convert a file to the format of the output path on
 the command line

---
 surfalize/cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/surfalize/cli.py b/surfalize/cli.py
index 3b920a6..a4f8db9 100644
--- a/surfalize/cli.py
+++ b/surfalize/cli.py
@@ -200,8 +200,9 @@ def convert(input_path, output_path, format, skip_image_layers, compressed):
     """
     Convert a file or all files in a directory to another format.
     """
-    if output_path.is_file():
+    if input_path.is_file() and output_path.suffix:
         format = output_path.suffix
+    format = format.lower()
 
     if format != '.sur' and compressed:
         raise click.BadParameter(
-- 
2.43.0


From 739bef5ed484b3dc87336314bc16d018f851e31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:01 +0000
Subject: [PATCH 55/87] fix: process every file of a directory on the command
 line without overwriting others

---
 surfalize/cli.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/surfalize/cli.py b/surfalize/cli.py
index a4f8db9..42ff569 100644
--- a/surfalize/cli.py
+++ b/surfalize/cli.py
@@ -60,6 +60,11 @@ def open_pdf(file_path: Path):
         raise NotImplementedError(f'Operating system {system} is not supported.')
 
 
+def find_files(dir_path):
+    return sorted(path for path in dir_path.iterdir()
+                  if path.is_file() and path.suffix.lower() in supported_formats_read)
+
+
 def convert_file(input_path, output_path, skip_image_layers, **kwargs):
     surface = Surface.load(input_path, read_image_layers=not skip_image_layers)
     surface.save(output_path, **kwargs)
@@ -226,11 +231,16 @@ def convert(input_path, output_path, format, skip_image_layers, compressed):
         return
 
     output_path.mkdir(parents=True, exist_ok=True)
-    for input_file in input_path.iterdir():
-        if input_file.is_file() and input_file.suffix in supported_formats_read:
-            out = output_path / (input_file.stem + format)
-            convert_file(input_file, out, skip_image_layers, **kwargs)
-            click.echo(f"Converted {input_file} → {out}")
+    input_files = find_files(input_path)
+    # Neither an input file nor another output file must be overwritten
+    taken = {input_file.resolve() for input_file in input_files}
+    for input_file in input_files:
+        name = input_file.stem
+        while (out := output_path / (name + format)).resolve() in taken:
+            name = input_file.name if name == input_file.stem else name + '_'
+        taken.add(out.resolve())
+        convert_file(input_file, out, skip_image_layers, **kwargs)
+        click.echo(f"Converted {input_file} → {out}")
 
 
 # ---------------------------------------------------------------------
@@ -253,9 +263,7 @@ def report(input_path, open_after, periodic_parameters, **kwargs):
     input_path = Path(input_path).absolute()
 
     if input_path.is_dir():
-        files = []
-        for ext in supported_formats_read:
-            files.extend(input_path.glob(f'*{ext}'))
+        files = find_files(input_path)
     else:
         files = [input_path]
 
-- 
2.43.0


From 19fe3564763747bb96463d2daf04db5a7bce1123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:51 +0000
Subject: [PATCH 56/87] fix: a file that cannot be processed on the command
 line does not stop the others of its directory

---
 surfalize/cli.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/surfalize/cli.py b/surfalize/cli.py
index 42ff569..ff4c6ca 100644
--- a/surfalize/cli.py
+++ b/surfalize/cli.py
@@ -232,6 +232,7 @@ def convert(input_path, output_path, format, skip_image_layers, compressed):
 
     output_path.mkdir(parents=True, exist_ok=True)
     input_files = find_files(input_path)
+    failed = []
     # Neither an input file nor another output file must be overwritten
     taken = {input_file.resolve() for input_file in input_files}
     for input_file in input_files:
@@ -239,8 +240,15 @@ def convert(input_path, output_path, format, skip_image_layers, compressed):
         while (out := output_path / (name + format)).resolve() in taken:
             name = input_file.name if name == input_file.stem else name + '_'
         taken.add(out.resolve())
-        convert_file(input_file, out, skip_image_layers, **kwargs)
+        try:
+            convert_file(input_file, out, skip_image_layers, **kwargs)
+        except Exception as error:
+            failed.append(input_file)
+            click.echo(f"Could not convert {input_file}: {error!r}", err=True)
+            continue
         click.echo(f"Converted {input_file} → {out}")
+    if failed:
+        raise click.exceptions.Exit(1)
 
 
 # ---------------------------------------------------------------------
@@ -267,7 +275,7 @@ def report(input_path, open_after, periodic_parameters, **kwargs):
     else:
         files = [input_path]
 
-    for file in files:
+    def create_report(file):
         surface = Surface.load(file)
         perform_surface_operations(surface, **kwargs)
 
@@ -341,3 +349,15 @@ def report(input_path, open_after, periodic_parameters, **kwargs):
 
         if open_after:
             open_pdf(output)
+
+    failed = []
+    for file in files:
+        try:
+            create_report(file)
+        except Exception as error:
+            if file == input_path:
+                raise
+            failed.append(file)
+            click.echo(f"Could not create report for {file}: {error!r}", err=True)
+    if failed:
+        raise click.exceptions.Exit(1)
-- 
2.43.0


From 34bce4f8d84276f02caa89c89b86021c8230f0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:32 +0000
Subject: [PATCH 57/87] fix: refined orientation of textures with a period
 below ten points

---
 surfalize/surface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index 7ff0668..1abf835 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -1405,12 +1405,12 @@ class Surface(BaseTopography):
         if period_y > period_x:
             # We sample at 0.25 * period because we need to at least obey the Nyquist theorem
             period_px = int(period_x / self.step_x)
-            dist_px = int(period_px * SAMPLE_RATE_FACTOR)
+            dist_px = max(int(period_px * SAMPLE_RATE_FACTOR), 1)
             nprofiles = int(self.size.y / dist_px)
             get_profile = lambda idx: self.data[idx]
         else:
             period_px = int(period_y / self.step_y)
-            dist_px = int(period_px * SAMPLE_RATE_FACTOR)
+            dist_px = max(int(period_px * SAMPLE_RATE_FACTOR), 1)
             nprofiles = int(self.size.x / dist_px)
             get_profile = lambda idx: self.data[:, idx]
 
-- 
2.43.0


From b37c7431dea83436941ff5ad7d6a9805d4ca5212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:58 +0000
Subject: [PATCH 58/87] fix: refined orientation of textures without or with
 constant drift

---
 surfalize/surface.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index 1abf835..d08407c 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -1429,17 +1429,18 @@ class Surface(BaseTopography):
         # We assume that we have more values that correspond to the correct slope than outliers where the peak
         # jumps back by one period. For this to be true, we need to sample at least a couple points between each
         # periodic interval, which is determined by SAMPLE_RATE_FACTOR
-        diff_norm = np.abs((diff - np.median(diff)))
-        diff_norm = diff_norm / np.abs(diff_norm).max()
-        # Here we remove all values that deviate more than 5% from the median slope
+        deviation = np.abs(diff - np.median(diff))
+        # Here we remove all values that deviate more than 5% of the largest deviation from the median slope. There are
+        # no deviations if the drift is constant.
         THRESHOLD = 0.05
-        d = diff[diff_norm < THRESHOLD].mean()
+        valid = deviation <= THRESHOLD * deviation.max()
+        d = diff[valid].mean() if valid.any() else np.median(diff)
 
         # Compute the angle
         angle = np.rad2deg(np.arctan(d / dist_px))
         # If the texture is more aligned with the horizontal axis, we need to correct the angle
         if period_x > period_y:
-            angle = np.sign(angle) * 90 - angle
+            angle = np.copysign(90, angle) - angle
         return angle
 
     @batch_method('parameter')
-- 
2.43.0


From 02a4e23ea2a5cd55447c7a3ad9995749eb71e40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:16 +0000
Subject: [PATCH 59/87] fix: do not truncate the period from which the refined
 orientation starts to whole points

---
 surfalize/surface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index d08407c..de6bd8b 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -1404,12 +1404,12 @@ class Surface(BaseTopography):
 
         if period_y > period_x:
             # We sample at 0.25 * period because we need to at least obey the Nyquist theorem
-            period_px = int(period_x / self.step_x)
+            period_px = period_x / self.step_x
             dist_px = max(int(period_px * SAMPLE_RATE_FACTOR), 1)
             nprofiles = int(self.size.y / dist_px)
             get_profile = lambda idx: self.data[idx]
         else:
-            period_px = int(period_y / self.step_y)
+            period_px = period_y / self.step_y
             dist_px = max(int(period_px * SAMPLE_RATE_FACTOR), 1)
             nprofiles = int(self.size.x / dist_px)
             get_profile = lambda idx: self.data[:, idx]
-- 
2.43.0


From 947d01423900bfea912a5a4e474ef5ce5cff87bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:39 +0000
Subject: [PATCH 60/87] fix: refined orientation of surfaces with different
 spacing in x and y

---
 surfalize/surface.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index de6bd8b..c271935 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -1405,14 +1405,16 @@ class Surface(BaseTopography):
         if period_y > period_x:
             # We sample at 0.25 * period because we need to at least obey the Nyquist theorem
             period_px = period_x / self.step_x
-            dist_px = max(int(period_px * SAMPLE_RATE_FACTOR), 1)
+            dist_px = max(int(period_px * SAMPLE_RATE_FACTOR * self.step_x / self.step_y), 1)
             nprofiles = int(self.size.y / dist_px)
             get_profile = lambda idx: self.data[idx]
+            step_ratio = self.step_x / self.step_y
         else:
             period_px = period_y / self.step_y
-            dist_px = max(int(period_px * SAMPLE_RATE_FACTOR), 1)
+            dist_px = max(int(period_px * SAMPLE_RATE_FACTOR * self.step_y / self.step_x), 1)
             nprofiles = int(self.size.x / dist_px)
             get_profile = lambda idx: self.data[:, idx]
+            step_ratio = self.step_y / self.step_x
 
         xfp = np.zeros(nprofiles)
         for i in range(nprofiles):
@@ -1436,8 +1438,8 @@ class Surface(BaseTopography):
         valid = deviation <= THRESHOLD * deviation.max()
         d = diff[valid].mean() if valid.any() else np.median(diff)
 
-        # Compute the angle
-        angle = np.rad2deg(np.arctan(d / dist_px))
+        # Compute the angle, where the drift in pixels needs to be converted if the spacing differs between x and y
+        angle = np.rad2deg(np.arctan(d / dist_px * step_ratio))
         # If the texture is more aligned with the horizontal axis, we need to correct the angle
         if period_x > period_y:
             angle = np.copysign(90, angle) - angle
-- 
2.43.0


From 5e3083c0e157f564cae4fcda646d84250bfcbae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:55 +0000
Subject: [PATCH 61/87] fix: period of profiles with small amplitude or a
 single period on an offset

---
 surfalize/mathutils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/surfalize/mathutils.py b/surfalize/mathutils.py
index 63aed9f..6fbb230 100644
--- a/surfalize/mathutils.py
+++ b/surfalize/mathutils.py
@@ -195,9 +195,11 @@ def get_period_fft_1d(xdata, ydata):
     -------
     period : float
     """
-    fft = np.abs(np.fft.fft(ydata))
+    # The mean is subtracted to avoid the zero peak
+    fft = np.abs(np.fft.fft(ydata - np.mean(ydata)))
     freq = np.fft.fftfreq(len(ydata), d=xdata[1] - xdata[0])
-    peaks, properties = find_peaks(fft.flatten(), distance=10, prominence=10)
+    # The prominences are requested without a limit, since their magnitude depends on the amplitude and number of points
+    peaks, properties = find_peaks(fft.flatten(), distance=10, prominence=0)
     # Find the prominence of the peaks
     prominences = properties['prominences']
     # Sort in descending order by computing sorting indices
-- 
2.43.0


From d349383964d39d2c33823cad36d8e077046e5f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:16 +0000
Subject: [PATCH 62/87] fix: values of the lower class are not assigned to the
 upper class by Otsu's threshold

---
 surfalize/mathutils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/surfalize/mathutils.py b/surfalize/mathutils.py
index 6fbb230..4de85ea 100644
--- a/surfalize/mathutils.py
+++ b/surfalize/mathutils.py
@@ -142,7 +142,8 @@ def otsu_threshold(values, nbins=256):
     # Between-class variance for a threshold placed between bin i and i+1
     variance12 = weight1[:-1] * weight2[1:] * (mean1[:-1] - mean2[1:]) ** 2
     idx = np.argmax(variance12)
-    return bin_centers[idx]
+    # The upper edge of the last bin of the lower class, since all of its values belong to the lower class
+    return bin_edges[idx + 1]
 
 
 def argmax_all(arr):
-- 
2.43.0


From eba163621489f51c3cb348b33ad5227176174961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:31 +0000
Subject: [PATCH 63/87] fix: sinusoid fits of profiles start with the phase of
 the data

---
 surfalize/mathutils.py | 8 +++++++-
 surfalize/surface.py   | 4 ++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/surfalize/mathutils.py b/surfalize/mathutils.py
index 4de85ea..c55e614 100644
--- a/surfalize/mathutils.py
+++ b/surfalize/mathutils.py
@@ -273,7 +273,8 @@ class Sinusoid:
         ydata : list-like
             array of y-data
         p0 : list-like[float, float, float, float] | None, defaults to None
-            Optional initial guess for the parameters a, p, x0, y0.
+            Optional initial guess for the parameters a, p, x0, y0. If x0 is None, it is estimated from the data and the
+            initial guess of the other parameters.
         infer_p0 : bool, defaults to False
             If True, automatically infers starting guesses of the parameters. Any values provided to the p0 keyword
             argument will be overwritten with the automatically inferred values.
@@ -289,6 +290,11 @@ class Sinusoid:
             x0 = 0
             y0 = np.mean(ydata)
             p0 = (a, p, x0, y0)
+        if p0 is not None and p0[2] is None:
+            # Estimate the lateral offset by projecting the data on the sinusoid with the initially guessed period
+            a, p, _, y0 = p0
+            phase = np.angle(np.sum((ydata - y0) * np.exp(-2j * np.pi * xdata / p)))
+            p0 = (a, p, -(phase / (2 * np.pi) + 0.25) * p, y0)
         try:
             popt, _ = curve_fit(_sinusoid, xdata, ydata, p0=p0)
         except RuntimeError:
diff --git a/surfalize/surface.py b/surfalize/surface.py
index c271935..cd48ccc 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -1420,7 +1420,7 @@ class Surface(BaseTopography):
         for i in range(nprofiles):
             profile = get_profile(i * dist_px)
             # We make an initial guess for the fit
-            p0 = ((profile.max() - profile.min()) / 2, period_px, 0, profile.mean())
+            p0 = ((profile.max() - profile.min()) / 2, period_px, None, profile.mean())
             sinusoid = Sinusoid.from_fit(np.arange(profile.size), profile, p0=p0)
             # This computes the position of the first peak of the sinusoid
             xfp[i] = sinusoid.first_extremum()
@@ -1604,7 +1604,7 @@ class Surface(BaseTopography):
                 line = self.data[:, profile_dist_px * i]
             xp = np.arange(line.size)
             # Define initial guess for fit parameters
-            p0=((line.max() - line.min())/2, period_px, 0, line.mean())
+            p0=((line.max() - line.min())/2, period_px, None, line.mean())
             # Fit the data to the general sine function
             sinusoid = Sinusoid.from_fit(xp, line, p0=p0)
             first_extremum = sinusoid.first_extremum()
-- 
2.43.0


From 7c5658fed781e062b4f342e0381c27edda6a7322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:36 +0000
Subject: [PATCH 64/87] fix: refined orientation of textures with the same
 period in x and y

---
 surfalize/surface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index cd48ccc..2a9adaa 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -1441,7 +1441,7 @@ class Surface(BaseTopography):
         # Compute the angle, where the drift in pixels needs to be converted if the spacing differs between x and y
         angle = np.rad2deg(np.arctan(d / dist_px * step_ratio))
         # If the texture is more aligned with the horizontal axis, we need to correct the angle
-        if period_x > period_y:
+        if period_x >= period_y:
             angle = np.copysign(90, angle) - angle
         return angle
 
-- 
2.43.0


From fd4496ca7ae3f8b0b6f357d0c2450641b920cb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:33 +0000
Subject: [PATCH 65/87] fix: rotation keeps the spacing of the surface

---
 surfalize/surface.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index 2a9adaa..36eff84 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -666,10 +666,11 @@ class Surface(BaseTopography):
         xmax = int(nx - (nx - w)/2) - 1
         
         rotated_cropped = rotated[ymin:ymax+1, xmin:xmax+1]
-        width_um = (self.width_um * pre_comp_cos + self.height_um * pre_comp_sin) * w / nx
-        height_um = (self.width_um * pre_comp_sin + self.height_um * pre_comp_cos) * h / ny
-        step_y = height_um / rotated_cropped.shape[0]
-        step_x = width_um / rotated_cropped.shape[1]
+        # The rotation keeps the pixel size. If it differs between x and y, it is the average over the extents of the
+        # original surface along the rotated axes.
+        nx, ny = self.size.x - 1, self.size.y - 1
+        step_x = (self.width_um * pre_comp_cos + self.height_um * pre_comp_sin) / (nx * pre_comp_cos + ny * pre_comp_sin)
+        step_y = (self.width_um * pre_comp_sin + self.height_um * pre_comp_cos) / (nx * pre_comp_sin + ny * pre_comp_cos)
 
         if inplace:
             self._set_data(data=rotated_cropped, step_x=step_x, step_y=step_y)
-- 
2.43.0


From 358d53d84d5b850e37b6d0089b275919da49164f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:56 +0000
Subject: [PATCH 66/87] fix: rotated surfaces do not contain points outside of
 the original one

---
 surfalize/surface.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index 36eff84..95f9f28 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -643,7 +643,7 @@ class Surface(BaseTopography):
         surface : surfalize.Surface
             Surface object.
         """
-        rotated = ndimage.rotate(self.data, angle, reshape=True)
+        rotated = ndimage.rotate(self.data, angle, reshape=True, cval=np.nan)
 
         aspect_ratio = self.size.y / self.size.x
         rotated_aspect_ratio = rotated.shape[0] / rotated.shape[1]
@@ -666,6 +666,9 @@ class Surface(BaseTopography):
         xmax = int(nx - (nx - w)/2) - 1
         
         rotated_cropped = rotated[ymin:ymax+1, xmin:xmax+1]
+        # Small angles can leave invalid points at the corners
+        while np.isnan(rotated_cropped).any():
+            rotated_cropped = rotated_cropped[1:-1, 1:-1]
         # The rotation keeps the pixel size. If it differs between x and y, it is the average over the extents of the
         # original surface along the rotated axes.
         nx, ny = self.size.x - 1, self.size.y - 1
-- 
2.43.0


From 74adbdcdae46a2a36490b8bac8ea4addcd71aa86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:12 +0000
Subject: [PATCH 67/87] fix: refuse comments of tmd files that do not fit into
 the header in bytes (before: the file could not be loaded)

---
 surfalize/file/tmd.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/surfalize/file/tmd.py b/surfalize/file/tmd.py
index 731535e..7f1ff7c 100644
--- a/surfalize/file/tmd.py
+++ b/surfalize/file/tmd.py
@@ -36,11 +36,13 @@ def read_tmd(filehandle, read_image_layers=False, encoding='utf-8'):
 
 @FileHandler.register_writer(suffix='.tmd')
 def write_tmd(filehandle, surface, encoding='utf-8', comment='Exported by surfalize'):
-    if len(comment) > COMMENT_LEN:
+    # The length of the field is limited in bytes, a character that is cut off could not be decoded anymore
+    comment_length = len(comment.encode('utf-8'))
+    if comment_length > COMMENT_LEN:
         raise ValueError(f'Comment has too many characters. Maximum number allows is {COMMENT_LEN}')
     header = {
         'header': decode(MAGIC, encoding) + LINE_TERMINATION,
-        'comment': comment + ' ' * (COMMENT_LEN - len(comment)) + LINE_TERMINATION,
+        'comment': comment + ' ' * (COMMENT_LEN - comment_length) + LINE_TERMINATION,
         'width': surface.size.x,
         'height': surface.size.y,
         'length_x': surface.size.x * surface.step_x,
-- 
2.43.0


From e0e8dad15716f91ea1b7f68522b0f95bff629827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:19 +0000
Subject: [PATCH 68/87] fix: refuse zoom factors below 1 (before: a corner of
 the topography was returned)

---
 surfalize/profile.py | 2 ++
 surfalize/surface.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/surfalize/profile.py b/surfalize/profile.py
index 81974b1..ec41382 100644
--- a/surfalize/profile.py
+++ b/surfalize/profile.py
@@ -266,6 +266,8 @@ class Profile(BaseTopography):
         -------
         profile : surfalize.Profile
         """
+        if not factor >= 1:
+            raise ValueError('The factor must be at least 1.')
         n = self.size
         nn = int(n / factor)
         data = self.data[int((n - nn) / 2):nn + int((n - nn) / 2) + 1]
diff --git a/surfalize/surface.py b/surfalize/surface.py
index 95f9f28..0f9e15a 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -699,6 +699,8 @@ class Surface(BaseTopography):
         surface : surfalize.Surface
             Surface object.
         """
+        if not factor >= 1:
+            raise ValueError('The factor must be at least 1.')
         y, x = self.size
         xn, yn = int(x / factor), int(y / factor)
         data = self.data[int((y - yn) / 2):yn + int((y - yn) / 2) + 1, int((x - xn) / 2):xn + int((x - xn) / 2) + 1]
-- 
2.43.0


From 110f9317b9d56ca39735abba06348a6f30558f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:37 +0000
Subject: [PATCH 69/87] fix: refuse crop boxes whose limits are reversed
 (before: a surface without points was returned)

---
 surfalize/surface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index 0f9e15a..7a6e096 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -734,7 +734,7 @@ class Surface(BaseTopography):
         else:
             x0, x1, y0, y1 = box
 
-        if x0 < 0 or y0 < 0 or x1 > self.size.x - 1 or y1 > self.size.y - 1:
+        if x0 < 0 or y0 < 0 or x1 > self.size.x - 1 or y1 > self.size.y - 1 or x0 > x1 or y0 > y1:
             raise ValueError('Box is out of bounds!')
 
         data = self.data[y0:y1 + 1, x0:x1 + 1]
-- 
2.43.0


From b6cffcc3a5387322597afa7e54776d93f9c58651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:50 +0000
Subject: [PATCH 70/87] fix: analyses describe the topography they were
 obtained from (before: a mixture with what it became later)

---
 surfalize/abbottfirestone.py | 3 ++-
 surfalize/autocorrelation.py | 3 ++-
 surfalize/fourier.py         | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/surfalize/abbottfirestone.py b/surfalize/abbottfirestone.py
index 942310f..f3e61a0 100644
--- a/surfalize/abbottfirestone.py
+++ b/surfalize/abbottfirestone.py
@@ -29,7 +29,8 @@ class AbbottFirestoneCurve(CachedInstance):
             raise ValueError("Missing points must be filled before the "
                              "Abbott-Firestone curve can be instantiated.") from None
         super().__init__()
-        self._obj = obj
+        # Parts of the curve are evaluated later, so it needs a topography that does not change in the meantime
+        self._obj = obj._with_data(obj.data)
         self._nbins = nbins
         self._calculate_curve()
 
diff --git a/surfalize/autocorrelation.py b/surfalize/autocorrelation.py
index 5b3c57d..b73bbc5 100644
--- a/surfalize/autocorrelation.py
+++ b/surfalize/autocorrelation.py
@@ -27,7 +27,8 @@ class AutocorrelationFunction(CachedInstance):
         super().__init__()
         # For now we level and center. In the future, we should replace that with lookups of booleans
         # to avoid double computation
-        self._surface = surface
+        # The function is evaluated later, so it needs a surface that does not change in the meantime
+        self._surface = surface._with_data(surface.data)
         self._current_threshold = None
         self.data = self.calculate_autocorrelation()
         self.center = np.array(self.data.shape) // 2
diff --git a/surfalize/fourier.py b/surfalize/fourier.py
index b86d2d2..ebca6ce 100644
--- a/surfalize/fourier.py
+++ b/surfalize/fourier.py
@@ -22,7 +22,8 @@ class FourierTransform(CachedInstance):
             raise ValueError("Missing points must be filled before "
                              "the Fourier transform can be instantiated.") from None
         super().__init__()
-        self._surface = surface
+        # The transform is evaluated later, so it needs a surface that does not change in the meantime
+        self._surface = surface._with_data(surface.data)
 
     @cache
     def _get_peak_dx_dy(self):
-- 
2.43.0


From 061eea3da2bed353bc0dbdb2454341bb57789da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:14 +0000
Subject: [PATCH 71/87] fix: later results do not depend on changes of the
 arrays of an analysis by the caller

---
 surfalize/autocorrelation.py | 2 ++
 surfalize/fourier.py         | 5 +++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/surfalize/autocorrelation.py b/surfalize/autocorrelation.py
index b73bbc5..428bf87 100644
--- a/surfalize/autocorrelation.py
+++ b/surfalize/autocorrelation.py
@@ -31,6 +31,8 @@ class AutocorrelationFunction(CachedInstance):
         self._surface = surface._with_data(surface.data)
         self._current_threshold = None
         self.data = self.calculate_autocorrelation()
+        # Changes of the data would not be reflected by cached results
+        self.data.flags.writeable = False
         self.center = np.array(self.data.shape) // 2
 
     def calculate_autocorrelation(self):
diff --git a/surfalize/fourier.py b/surfalize/fourier.py
index ebca6ce..605a046 100644
--- a/surfalize/fourier.py
+++ b/surfalize/fourier.py
@@ -167,7 +167,6 @@ class FourierTransform(CachedInstance):
         spectrum = np.bincount(bin_idx.ravel(), weights=weights.ravel(), minlength=angles.size)
         return angles, spectrum
 
-    @cache
     def angular_power_spectrum(self, angle_step=1):
         """
         Computes the angular power spectrum (angular power density fAPD) by integrating the squared amplitude of the
@@ -182,7 +181,9 @@ class FourierTransform(CachedInstance):
         -------
         (angles, spectrum) : tuple[ndarray, ndarray]
         """
-        return self._angular_spectrum(angle_step, squared=True)
+        # Return copies so that the caller cannot modify the cached results
+        angles, spectrum = self._angular_spectrum(angle_step, squared=True)
+        return angles.copy(), spectrum.copy()
 
     def Std(self, angle_step=0.5):
         """
-- 
2.43.0


From dcbfd8354ace7911c3a7f13cacea0a965636c3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:16 +0000
Subject: [PATCH 72/87] fix: material volume counts the step down to the
 plateau at its ratio (before: too small by a whole step for quantized
 heights)

---
 surfalize/abbottfirestone.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/surfalize/abbottfirestone.py b/surfalize/abbottfirestone.py
index f3e61a0..1bde881 100644
--- a/surfalize/abbottfirestone.py
+++ b/surfalize/abbottfirestone.py
@@ -306,7 +306,8 @@ class AbbottFirestoneCurve(CachedInstance):
         -------
         float
         """
-        idx = argclosest(self.mc(p), self._height)
+        # The last one of equal heights, so that the step down to a plateau of the curve counts
+        idx = len(self._height) - 1 - argclosest(self.mc(p), self._height[::-1])
         return np.abs(trapezoid(self._material_ratio[:idx], x=self._height[:idx])) / 100
 
     @cache
-- 
2.43.0


From 9b6f71c407d0cf429a949a551dc036741e32cf4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:07 +0000
Subject: [PATCH 73/87] fix: reduced peak height counts the step down to the
 plateau at the upper limit of the core (before: too small by a whole step for
 quantized heights)

---
 surfalize/abbottfirestone.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/surfalize/abbottfirestone.py b/surfalize/abbottfirestone.py
index 1bde881..46132bf 100644
--- a/surfalize/abbottfirestone.py
+++ b/surfalize/abbottfirestone.py
@@ -200,7 +200,8 @@ class AbbottFirestoneCurve(CachedInstance):
         # additional interpolation. For now this is sufficient.
 
         # Area enclosed above yupper between y-axis (at x=0) and abbott-firestone curve
-        idx = argclosest(self._yupper, self._height)
+        # The last one of equal heights, so that the step down to a plateau of the curve counts
+        idx = len(self._height) - 1 - argclosest(self._yupper, self._height[::-1])
         A1 = np.abs(trapezoid(self._material_ratio[:idx], x=self._height[:idx]))
         # Without material above the core there are no hills
         if self.mr1() == 0:
-- 
2.43.0


From 182f12334ba5542f5ccf433897eb720dda3a1d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:50 +0000
Subject: [PATCH 74/87] fix: plot_2d adds the legend marker to whatever figure
 is current

---
 surfalize/surface.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index 7a6e096..79b29fc 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -10,6 +10,7 @@ from collections import namedtuple
 # Scipy stack
 import numpy as np
 import matplotlib.pyplot as plt
+from matplotlib.lines import Line2D
 from matplotlib.patches import Rectangle
 from mpl_toolkits.axes_grid1 import make_axes_locatable
 from scipy.linalg import lstsq
@@ -1797,7 +1798,7 @@ class Surface(BaseTopography):
         ax.set_xlabel('x [µm]')
         ax.set_ylabel('y [µm]')
         if layer == 'Topography' and self.has_missing_points:
-            handles = [plt.plot([], [], marker='s', c=maskcolor, ls='')[0]]
+            handles = [Line2D([], [], marker='s', c=maskcolor, ls='')]
             ax.legend(handles, ['non-measured points'], loc='lower right', fancybox=False, framealpha=1, fontsize=6)
         if save_to:
             fig.savefig(save_to, dpi=300, bbox_inches='tight')
-- 
2.43.0


From 612ebfd85efe5320b796ff54cd3f9a68059a1138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:50 +0000
Subject: [PATCH 75/87] fix: Fourier transform plots of odd size are cropped
 asymmetrically

---
 surfalize/fourier.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surfalize/fourier.py b/surfalize/fourier.py
index 605a046..8172b96 100644
--- a/surfalize/fourier.py
+++ b/surfalize/fourier.py
@@ -270,12 +270,12 @@ class FourierTransform(CachedInstance):
 
         if fxmax is not None:
             ixmax = argclosest(fxmax, freq_x)
-            ixmin = M - ixmax
+            ixmin = 2 * (M // 2) - ixmax
             fft = fft[:, ixmin:ixmax + 1]
 
         if fymax is not None:
             iymax = argclosest(fymax, freq_y)
-            iymin = N - iymax
+            iymin = 2 * (N // 2) - iymax
             fft = fft[iymin:iymax + 1]
 
         vmin = None
-- 
2.43.0


From d5bfd84d795d0ec1c54870b011d19e689ab9c341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:50 +0000
Subject: [PATCH 76/87] fix: Fourier transform plots without prominent peaks
 cannot be drawn

---
 surfalize/fourier.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/surfalize/fourier.py b/surfalize/fourier.py
index 8172b96..2d38ed0 100644
--- a/surfalize/fourier.py
+++ b/surfalize/fourier.py
@@ -283,6 +283,9 @@ class FourierTransform(CachedInstance):
         if adjust_colormap:
             vmin = fft.mean()
             vmax = 0.7 * fft.max()
+            if vmax <= vmin:
+                # The mean of a logarithmic spectrum without prominent peaks can lie above this limit
+                vmax = fft.max()
 
         ax.set_xlabel('Frequency [µm$^{-1}$]')
         ax.set_ylabel('Frequency [µm$^{-1}$]')
-- 
2.43.0


From 2459d22a14b566ed872e314f74d79f6892ca8f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:50 +0000
Subject: [PATCH 77/87] fix: 3d plots of reduced detail lose missing points and
 shrink

---
 surfalize/plotting.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/surfalize/plotting.py b/surfalize/plotting.py
index d91cc33..37cd3e8 100644
--- a/surfalize/plotting.py
+++ b/surfalize/plotting.py
@@ -98,9 +98,12 @@ def plot_3d(surface, vertical_angle=50, horizontal_angle=0, zoom=1, cmap='jet',
 
     if level_of_detail < 100:
         factor = level_of_detail / 100
-        surface = surface.__class__(ndimage.zoom(surface.data, factor),
-                                    surface.step_x / factor,
-                                    surface.step_y / factor)
+        # A spline of higher order would spread non-measured points over the entire surface
+        data = ndimage.zoom(surface.data, factor, order=1 if surface.has_missing_points else 3)
+        # The first and last points remain at the borders
+        surface = surface.__class__(data,
+                                    surface.width_um / max(data.shape[1] - 1, 1),
+                                    surface.height_um / max(data.shape[0] - 1, 1))
 
     # Generate a grid of x, y values
     x = np.linspace(0, surface.width_um, surface.size.x)
-- 
2.43.0


From 36828cc5eacfd45879b5edd0d1083e9106a899c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:50 +0000
Subject: [PATCH 78/87] fix: angular power spectrum is not drawn at the place
 of the given axes

---
 surfalize/fourier.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/surfalize/fourier.py b/surfalize/fourier.py
index 2d38ed0..d564fff 100644
--- a/surfalize/fourier.py
+++ b/surfalize/fourier.py
@@ -306,9 +306,13 @@ class FourierTransform(CachedInstance):
             fig, ax = plt.subplots(dpi=150, subplot_kw={'projection': 'polar'})
         else:
             fig = ax.figure
-            rows, cols, start, stop = ax.get_subplotspec().get_geometry()
+            # The axes are replaced by polar ones at the same place, which may span several cells or lie outside a grid
+            subplotspec, position = ax.get_subplotspec(), ax.get_position()
             ax.remove()
-            ax = fig.add_subplot(rows, cols, start + 1, projection='polar')
+            if subplotspec is None:
+                ax = fig.add_axes(position, projection='polar')
+            else:
+                ax = fig.add_subplot(subplotspec, projection='polar')
 
         angles, spectrum = self.angular_power_spectrum(angle_step=angle_step)
 
-- 
2.43.0


From bc231f0d0e65ee9ed4052b028675e5dff7112e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:43 +0000
Subject: [PATCH 79/87] fix: a slash inside of a quoted text of a FITS header
 ended it, and characters of several bytes shifted the cards

---
 surfalize/file/fits.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/surfalize/file/fits.py b/surfalize/file/fits.py
index 5142702..aec17bd 100644
--- a/surfalize/file/fits.py
+++ b/surfalize/file/fits.py
@@ -1,3 +1,4 @@
+import re
 import numpy as np
 from .common import RawSurface, get_unit_conversion, FileHandler, read_array, decode
 from ..exceptions import FileFormatError, UnsupportedFileFormatError
@@ -29,11 +30,13 @@ def convert_dtype(string):
         return float(string)
     except ValueError:
         pass
-    return string.strip("' ")
+    # A quote inside of a string is doubled
+    return string.strip("' ").replace("''", "'")
 
 
-def parse_header_block(block):
-    lines = [block[i * 80:(i + 1) * 80].rstrip() for i in range(int(BLOCKSIZE / 80))]
+def parse_header_block(block, encoding='auto'):
+    # A card consists of 80 bytes, which can be less characters
+    lines = [decode(block[i * 80:(i + 1) * 80], encoding).rstrip() for i in range(int(BLOCKSIZE / 80))]
     header = dict()
     block_ended = False
     for line in lines:
@@ -42,14 +45,14 @@ def parse_header_block(block):
         if line == 'END':
             block_ended = True
             break
-        if '/' in line:
-            line = line.split('/')[0]
         # Cards such as HISTORY do not have a value
         if '=' not in line:
             continue
         left, right = line.split('=', 1)
         left = left.strip()
-        right = right.strip()
+        # The comment starts with a slash, but a slash inside of a string belongs to the value
+        string = re.match(r"\s*'(?:[^']|'')*'", right)
+        right = string.group().strip() if string else right.split('/')[0].strip()
         if left.startswith('HIERARCH'):
             left = left.replace('HIERARCH ', '')
         header[left] = convert_dtype(right)
@@ -63,7 +66,7 @@ def read_header(filehandle, encoding='auto'):
         block = filehandle.read(BLOCKSIZE)
         if len(block) != BLOCKSIZE:
             raise FileFormatError("Unexpected end of file in header.")
-        partial_header, has_ended = parse_header_block(decode(block, encoding))
+        partial_header, has_ended = parse_header_block(block, encoding)
         header.update(partial_header)
     return header
 
-- 
2.43.0


From 4ae8c6a18e28d049539649817f1c71d8d31a2182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:03 +0000
Subject: [PATCH 80/87] fix: a .dat file whose texts are not UTF-8 could not be
 loaded, whatever the encoding

---
 surfalize/file/dat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surfalize/file/dat.py b/surfalize/file/dat.py
index 245de41..91522ff 100644
--- a/surfalize/file/dat.py
+++ b/surfalize/file/dat.py
@@ -257,13 +257,13 @@ def read_dat(filehandle, read_image_layers=False, encoding='utf-8'):
     magic = filehandle.read(LEN_MAGIC)
     if magic not in (MAGIC_1, MAGIC_2, MAGIC_3):
         raise CorruptedFileError('Unrecognized magic detected.')
-    header = LAYOUT_HEADER.read(filehandle)
+    header = LAYOUT_HEADER.read(filehandle, encoding=encoding)
 
     if (magic, header['header_format'], header['header_size']) not in VALID_FORMAT_SPECIFICATIONS:
         raise CorruptedFileError('File is not a valid metropro file!')
 
     if header['header_format'] == 3:
-        header_3 = LAYOUT_HEADER_3.read(filehandle)
+        header_3 = LAYOUT_HEADER_3.read(filehandle, encoding=encoding)
 
     n_points = header['ac_width'] * header['ac_height'] * header['ac_n_buckets']
     if n_points * 2 != header['ac_n_bytes']:
-- 
2.43.0


From 6ebd13bea938aa74ed07856e46d134a99069dccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:29 +0000
Subject: [PATCH 81/87] fix: a .tmd file whose comment is not UTF-8 could not
 be loaded, whatever the encoding

---
 surfalize/file/tmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/file/tmd.py b/surfalize/file/tmd.py
index 7f1ff7c..aad5f52 100644
--- a/surfalize/file/tmd.py
+++ b/surfalize/file/tmd.py
@@ -24,7 +24,7 @@ def read_tmd(filehandle, read_image_layers=False, encoding='utf-8'):
     if magic != MAGIC:
         raise CorruptedFileError('Incorrect file magic detected.')
     filehandle.seek(0)
-    header = HEADER_LAYOUT.read(filehandle)
+    header = HEADER_LAYOUT.read(filehandle, encoding=encoding)
     data = read_array(filehandle, dtype=DTYPE)
     if data.size != header['height'] * header['width']:
         raise CorruptedFileError('Size of data does not match expectted size.')
-- 
2.43.0


From 24eb1888a9e8f89cf3b1f613fca509fe685206c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:49 +0000
Subject: [PATCH 82/87] fix: names of 16 bit characters in .vk4 files were
 garbled or could not be decoded

---
 surfalize/file/vk.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/surfalize/file/vk.py b/surfalize/file/vk.py
index b8464dd..f272275 100644
--- a/surfalize/file/vk.py
+++ b/surfalize/file/vk.py
@@ -147,12 +147,12 @@ def read_string_data(filehandle, offset, encoding='auto'):
     filehandle.seek(offset, 0)
     str_data = dict()
     size_title = struct.unpack('I', filehandle.read(4))[0] * 2
-    # Every character is followed by a null byte. Therefore, we read twice the since of the expected string length and slice to
-    # remove every second character
-    str_data['title'] = decode(filehandle.read(size_title), encoding)[::2]
+    # The strings consist of 16 bit characters. Therefore, we read twice the size of the expected string length, regardless of
+    # the encoding of other strings
+    str_data['title'] = filehandle.read(size_title).decode('utf-16-le', errors='replace')
     size_lens_name = struct.unpack('I', filehandle.read(4))[0] * 2
     # Same here
-    str_data['lens_name'] = decode(filehandle.read(size_lens_name), encoding)[::2]
+    str_data['lens_name'] = filehandle.read(size_lens_name).decode('utf-16-le', errors='replace')
     return str_data
 
 @FileHandler.register_reader(suffix='.vk4', magic=b'VK4_')
-- 
2.43.0


From b1883bf0a4e70114643acdacbd08eabacd3792eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:13 +0000
Subject: [PATCH 83/87] fix: a text of 4096 or more characters in a .gwy file
 made it unreadable

---
 surfalize/file/gwy.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/surfalize/file/gwy.py b/surfalize/file/gwy.py
index 986668e..2e3b5a9 100644
--- a/surfalize/file/gwy.py
+++ b/surfalize/file/gwy.py
@@ -6,34 +6,30 @@ from .common import get_unit_conversion, RawSurface, UNIT_EXPONENT, FileHandler,
 from ..exceptions import FileFormatError, UnsupportedFileFormatError
 
 MAGIC = b'GWYP'
-# This is not specified by the file standard but we nonetheless assume that the name will never be longer than that
-STR_MAX_SIZE = 4096
 
 
-def read_null_terminated_string(filehandle, maxsize=STR_MAX_SIZE, encoding='auto'):
+def read_null_terminated_string(filehandle, encoding='auto'):
     """
-    Reads a null-terminated string from a Gwyddion file. Stops on a null character or when maxsize is reached.
+    Reads a null-terminated string from a Gwyddion file. The length of strings is not limited.
 
     Parameters
     ----------
     filehandle
         Handle to the opened file. Is assumed to be at the correct position.
-    maxsize: int
-        Maximum size of the string to read.
 
     Returns
     -------
     Decoded string
     """
-    string = b''
-    i = 0
-    while i < maxsize:
+    string = bytearray()
+    while True:
         char = filehandle.read(1)
+        if not char:
+            raise FileFormatError('Unexpected end of file.')
         if char == b'\x00':
             break
         string += char
-        i += 1
-    return decode(string, encoding)
+    return decode(bytes(string), encoding)
 
 
 def _filter_candidates_by_z_unit_presence(tree, candidates):
-- 
2.43.0


From 19f5a5cfc2477dcd0043fa17d1b056f3a313c001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:45 +0000
Subject: [PATCH 84/87] fix: convert fails for an output file without suffix,
 whatever the format option says

---
 surfalize/cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/surfalize/cli.py b/surfalize/cli.py
index ff4c6ca..2ad6129 100644
--- a/surfalize/cli.py
+++ b/surfalize/cli.py
@@ -226,7 +226,8 @@ def convert(input_path, output_path, format, skip_image_layers, compressed):
         kwargs['compressed'] = compressed
 
     if input_path.is_file():
-        convert_file(input_path, output_path, skip_image_layers, **kwargs)
+        # The output path does not have to have a suffix
+        convert_file(input_path, output_path, skip_image_layers, format=format, **kwargs)
         click.echo(f"Converted {input_path} → {output_path}")
         return
 
-- 
2.43.0


From c8e42d71d6404d2338aa9d9ef58b16951d5213e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:29:03 +0000
Subject: [PATCH 85/87] fix: extract_cag loses measurements that share their
 original file name

---
 surfalize/file/cag.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/surfalize/file/cag.py b/surfalize/file/cag.py
index 364fabf..299b205 100644
--- a/surfalize/file/cag.py
+++ b/surfalize/file/cag.py
@@ -19,7 +19,7 @@ def extract_cag(filepath, target=None):
     with zipfile.ZipFile(filepath, 'r') as zip_ref:
         idx_table = None
         file_list = zip_ref.infolist()
-        vk_files = []
+        written = set()
         for file_name in file_list:
             with zip_ref.open(file_name) as file:
                 magic = file.read(5)
@@ -32,6 +32,14 @@ def extract_cag(filepath, target=None):
                         if p.is_file():
                             with p.open() as xmlfile:
                                 idx_table = parse_idx_table(xmlfile.read())
+                # Measurements from different folders can share their original name, they must not overwrite each other
+                original = Path(idx_table[file_id])
+                name = original.name
+                number = 0
+                while name in written or (number > 0 and name in idx_table.values()):
+                    number += 1
+                    name = f'{original.stem}_{number}{original.suffix}'
+                written.add(name)
                 file.seek(0)
-                with open(target / idx_table[file_id], 'wb') as target_file:
+                with open(target / name, 'wb') as target_file:
                     target_file.write(file.read())
\ No newline at end of file
-- 
2.43.0


From c4a0ded053700f1821ef6c9f1b0f71058cd9cf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:29:28 +0000
Subject: [PATCH 86/87] fix: extract_cag keeps XML escapes in the names of the
 extracted files

---
 surfalize/file/cag.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/surfalize/file/cag.py b/surfalize/file/cag.py
index 299b205..7d89ef5 100644
--- a/surfalize/file/cag.py
+++ b/surfalize/file/cag.py
@@ -1,11 +1,12 @@
 import re
+from html import unescape
 from pathlib import Path
 import zipfile
 
 def parse_idx_table(idx_table_str):
     file_ids = re.findall(r'<Path>(.+)</Path>', idx_table_str)
     file_paths = re.findall(r'<OriginalFileName>(.+)</OriginalFileName>', idx_table_str)
-    file_names = [Path(file_path).name for file_path in file_paths]
+    file_names = [Path(unescape(file_path)).name for file_path in file_paths]
     file_dict = dict(zip(file_ids, file_names))
     return file_dict
 
-- 
2.43.0


From dbae83d9aa774de872ebdc30d8e86de63798d4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:29:52 +0000
Subject: [PATCH 87/87] fix: extract_cag writes the whole Windows path as file
 name outside of Windows

---
 surfalize/file/cag.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surfalize/file/cag.py b/surfalize/file/cag.py
index 7d89ef5..851abfa 100644
--- a/surfalize/file/cag.py
+++ b/surfalize/file/cag.py
@@ -1,12 +1,12 @@
 import re
 from html import unescape
-from pathlib import Path
+from pathlib import Path, PureWindowsPath
 import zipfile
 
 def parse_idx_table(idx_table_str):
     file_ids = re.findall(r'<Path>(.+)</Path>', idx_table_str)
     file_paths = re.findall(r'<OriginalFileName>(.+)</OriginalFileName>', idx_table_str)
-    file_names = [Path(unescape(file_path)).name for file_path in file_paths]
+    file_names = [PureWindowsPath(unescape(file_path)).name for file_path in file_paths]
     file_dict = dict(zip(file_ids, file_names))
     return file_dict
 
-- 
2.43.0

