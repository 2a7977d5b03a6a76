From 314ad0fe9863be555e51b9f1cd9001856b865291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:08 +0000
Subject: [PATCH 01/87] fix: round, do not truncate, the minutes of a timezone
 offset's text form

---
 gridded/time.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gridded/time.py b/gridded/time.py
index 0893aec..727af6c 100644
--- a/gridded/time.py
+++ b/gridded/time.py
@@ -40,8 +40,7 @@ def offset_as_iso_string(offset_hours):
         return ""
     else:
         sign = "-" if offset_hours < 0 else "+"
-        hours = int(abs(offset_hours))
-        minutes = int((abs(offset_hours) - hours) * 60)
+        hours, minutes = divmod(round(abs(offset_hours) * 60), 60)
         return f"{sign}{hours:0>2}:{minutes:0>2}"
 
 
-- 
2.43.0


From 1cd896fadafaea9a36f897d03d1d725c06284a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:56 +0000
Subject: [PATCH 02/87] fix: Time no longer shifts the caller's array (or
 another Time) in place

---
 gridded/time.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/gridded/time.py b/gridded/time.py
index 727af6c..b456aa0 100644
--- a/gridded/time.py
+++ b/gridded/time.py
@@ -130,11 +130,12 @@ class Time:
         :type displacement: `datetime.timedelta`
         """
         if isinstance(data, Time):
-            self.data = data.data
+            self.data = np.array(data.data)
         elif data is None:
             self.data = np.array([datetime.now().replace(second=0, microsecond=0)])
         else:
-            self.data = np.asarray(data)
+            # a copy: the shifts below must not change the caller's data
+            self.data = np.array(data)
 
         # Quick check to ensure data is 'datetime-like' enough
         try:
@@ -386,9 +387,9 @@ class Time:
         """
         if self._tz_offset is not None and offset is not None:
             # undo previous offset
-            self.data -= timedelta(hours=self._tz_offset)
+            self.data = self.data - timedelta(hours=self._tz_offset)
             # set new offset
-            self.data += timedelta(hours=offset)
+            self.data = self.data + timedelta(hours=offset)
 
         self._tz_offset = offset
 
@@ -406,7 +407,7 @@ class Time:
                 return
             if isinstance(displacement, (float, int)):
                 displacement = timedelta(hours=displacement)
-            self.data += displacement
+            self.data = self.data + displacement
             self._displacement = displacement
         else:
             # why not jsut make  this an init thing, then??
-- 
2.43.0


From 6811827bcb976911467a7a13573bea97f08c3725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:46 +0000
Subject: [PATCH 03/87] fix: UGrid.interpolate_var_to_points accepts plain
 arrays without a location

---
 gridded/pyugrid/ugrid.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 964cd28..e4eeb28 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -770,7 +770,6 @@ class UGrid:
         # (for compatibility with old code)
         if location is None:
             location = self.infer_location(variable)
-            variable.location = location
         if location is None:
             raise ValueError("Data is incompatible with grid nodes or faces")
 
-- 
2.43.0


From 4f4442fa0515e6203a915d4885765bdadafa1531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:51 +0000
Subject: [PATCH 04/87] fix: UGrid.locate_faces keeps the caller's array shape
 and returns a scalar for a repeated single point

---
 gridded/pyugrid/ugrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index e4eeb28..f504b95 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -610,14 +610,14 @@ class UGrid:
         """
         points = np.asarray(points, dtype=np.float64)
         just_one = points.ndim == 1
-        points.shape = (-1, 2)
+        points = points.reshape((-1, 2))
 
         if _memo:
             if _hash is None:
                 _hash = self._hash_of_pts(points)
             result = self._get_memoed(points, self._ind_memo_dict, _copy, _hash)
             if result is not None:
-                return result
+                return result[0] if just_one else result
 
         if method == "celltree":
             try:
-- 
2.43.0


From 1fffa94fe92e5196e639115ea56718e9f76b8f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:57 +0000
Subject: [PATCH 05/87] fix: UGrid.index_of no longer passes an argument
 locate_faces does not take

---
 gridded/pyugrid/ugrid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index f504b95..fa787e8 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -652,7 +652,8 @@ class UGrid:
             return indices
 
     def index_of(self, points, method="celltree", _memo=False, _copy=False, _hash=None, use_mask=True):
-        return self.locate_faces(points=points, method=method, _memo=_memo, _copy=_copy, _hash=_hash, use_mask=use_mask)
+        # an unstructured grid has no mask: use_mask is accepted for compatibility with the other grids
+        return self.locate_faces(points=points, method=method, _memo=_memo, _copy=_copy, _hash=_hash)
 
     def build_celltree(self):
         """
-- 
2.43.0


From 09067b837f51b49f881c37a2147e2dcaa0e9c26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:29 +0000
Subject: [PATCH 06/87] fix: point_in_tri handles clockwise triangles

---
 gridded/pyugrid/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gridded/pyugrid/util.py b/gridded/pyugrid/util.py
index 16c2c8c..69fd0b5 100644
--- a/gridded/pyugrid/util.py
+++ b/gridded/pyugrid/util.py
@@ -21,7 +21,8 @@ def point_in_tri(face_points, point, return_weights=False):
     sub_tri_areas[0] = _signed_area_tri(np.vstack((face_points[(0, 1), :], point)))
     sub_tri_areas[1] = _signed_area_tri(np.vstack((face_points[(1, 2), :], point)))
     sub_tri_areas[2] = _signed_area_tri(np.vstack((face_points[(0, 2), :], point)))
-    tri_area = _signed_area_tri(face_points)
+    # the vertices can be in either order: the area can have either sign
+    tri_area = abs(_signed_area_tri(face_points))
 
     if abs(np.abs(sub_tri_areas).sum() - tri_area) / tri_area <= epsilon:
         if return_weights:
-- 
2.43.0


From f40078cc11df755661b93a1b6b43609d34816aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:42 +0000
Subject: [PATCH 07/87] fix: UGrid forgets its search trees and memoised
 results when nodes or faces change

---
 gridded/pyugrid/ugrid.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index fa787e8..6efa812 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -275,8 +275,18 @@ class UGrid:
     def node_lat(self):
         return self._nodes[:, 1]
 
+    def _clear_caches(self):
+        """
+        Forget everything computed from the nodes and faces
+        """
+        self._kdtree = None
+        self._cell_tree = None
+        self._ind_memo_dict = OrderedDict()
+        self._alpha_memo_dict = OrderedDict()
+
     @nodes.setter
     def nodes(self, nodes_coords):
+        self._clear_caches()
         # Room here to do consistency checking, etc.
         # For now -- simply make sure it's a numpy array.
         if nodes_coords is None:
@@ -287,6 +297,7 @@ class UGrid:
     @nodes.deleter
     def nodes(self):
         # If there are no nodes, there can't be anything else.
+        self._clear_caches()
         self._nodes = np.zeros((0, 2), dtype=NODE_DT)
         self._edges = None
         self._faces = None
@@ -301,6 +312,7 @@ class UGrid:
         # Room here to do consistency checking, etc.
         if self._nodes is None:
             raise ValueError("Nodes must be defined before faces")
+        self._clear_caches()
         if faces_indexes is not None:
             faces_indexes = np.asanyarray(faces_indexes, dtype=IND_DT)
             if faces_indexes.max() > len(self.nodes):
@@ -331,6 +343,7 @@ class UGrid:
 
     @faces.deleter
     def faces(self):
+        self._clear_caches()
         self._faces = None
         self._faces = None
         # Other things are no longer valid.
-- 
2.43.0


From a341f6a7b4aa13926c5add748cbc1a81e588d3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:22 +0000
Subject: [PATCH 08/87] fix: time interpolation keeps the slices chosen by
 earlier dimensions

---
 gridded/variable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index 6e2c426..4925412 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -680,9 +680,9 @@ class Variable:
 
         if time == self.time.min_time or (extrapolate and time < self.time.min_time):
             # min or before
-            return val_func(points, time, extrapolate, slices=(0,), **kwargs)
+            return val_func(points, time, extrapolate, slices=slices + (0,), **kwargs)
         elif time == self.time.max_time or (extrapolate and time > self.time.max_time):
-            return val_func(points, time, extrapolate, slices=(-1,), **kwargs)
+            return val_func(points, time, extrapolate, slices=slices + (-1,), **kwargs)
         else:
             ind = self.time.index_of(time)
             s1 = slices + (ind,)
-- 
2.43.0


From 7c6bc4473167fd39972ec0d3f35a9ed60d2a88a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:05 +0000
Subject: [PATCH 09/87] fix: terrain-following depth lookup works with unmasked
 bathymetry and elevation

---
 gridded/depth.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gridded/depth.py b/gridded/depth.py
index 749c4c5..c22d901 100644
--- a/gridded/depth.py
+++ b/gridded/depth.py
@@ -698,8 +698,8 @@ class S_Depth(DepthBase):
 
         # depth_profile mask is True where the point is outside the grid horizontally
         # so it must be reapplied
-        indices = np.ma.array(indices, mask=depth_profiles.mask[:, 0].copy())
-        alphas.mask = depth_profiles.mask[:, 0].copy()
+        indices = np.ma.array(indices, mask=np.ma.getmaskarray(depth_profiles)[:, 0].copy())
+        alphas.mask = np.ma.getmaskarray(depth_profiles)[:, 0].copy()
         indices, alphas, oob_mask = self._apply_boundary_conditions(
             indices, alphas, surface_index, bottom_index, surface_boundary_condition, bottom_boundary_condition
         )
-- 
2.43.0


From 98730f60679aa7ed4e36424a2531e8685a1f704d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:21 +0000
Subject: [PATCH 10/87] fix: values beyond the last depth level or outside the
 layers go to their own points

---
 gridded/variable.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index 4925412..aaee120 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -748,20 +748,19 @@ class Variable:
         if self.data.shape[dim_idx] == self.depth.num_layers:
             #data is located on cell centers, so value is held constant across cell.
             for idx in uniq_idx:
-                if idx == -1:
-                    #special case for out of bounds and extrapolation.
-                    idx = 0
                 lay_idxs = np.where(d_indices == idx)[0]
+                # special case for out of bounds and extrapolation: use the nearest layer
+                idx = min(max(idx, 0), self.data.shape[dim_idx] - 1)
                 values.put(lay_idxs, val_func(points[lay_idxs], time, extrapolate, slices=slices + (idx,), **kwargs))
         else:
             #data is on cell edge, or on nodes, so we need to interpolate between the two levels.
             for idx in uniq_idx:
+                lay_idxs = np.where(d_indices == idx)[0]
                 if idx == self.data.shape[dim_idx] - 1:
                     # special case, index == depth dim length, so only v0 is valid
                     v0 = val_func(points[lay_idxs], time, extrapolate, slices=slices + (idx,), **kwargs)
                     values.put(lay_idxs, v0)
                     continue
-                lay_idxs = np.where(d_indices == idx)[0]
                 v1 = val_func(points[lay_idxs], time, extrapolate, slices=slices + (idx + 1,), **kwargs)
                 v0 = val_func(points[lay_idxs], time, extrapolate, slices=slices + (idx,), **kwargs)
                 sub_vals = v0 + (v1 - v0) * d_alphas[lay_idxs]
-- 
2.43.0


From 1c7cc41a9fdf2652bffef1ccfb5a40dea13af38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:26 +0000
Subject: [PATCH 11/87] fix: variables with a surface-only depth can be
 evaluated

---
 gridded/depth.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/gridded/depth.py b/gridded/depth.py
index c22d901..7e092b6 100644
--- a/gridded/depth.py
+++ b/gridded/depth.py
@@ -64,6 +64,15 @@ class DepthBase:
         # for the system being represented
         return self._bottom_index
 
+    @property
+    def num_levels(self):
+        # only the surface is used
+        return 1
+
+    @property
+    def num_layers(self):
+        return 0
+
     def interpolation_alphas(
         self,
         points,
-- 
2.43.0


From 8b2ca8f6df93cdc02a627822fa7865105b87caf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:38 +0000
Subject: [PATCH 12/87] fix: surface values do not depend on masked data at
 other depths

---
 gridded/variable.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index aaee120..c4130df 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -756,12 +756,16 @@ class Variable:
             #data is on cell edge, or on nodes, so we need to interpolate between the two levels.
             for idx in uniq_idx:
                 lay_idxs = np.where(d_indices == idx)[0]
-                if idx == self.data.shape[dim_idx] - 1:
+                if idx == self.data.shape[dim_idx] - 1 or np.all(d_alphas[lay_idxs] == 0):
                     # special case, index == depth dim length, so only v0 is valid
                     v0 = val_func(points[lay_idxs], time, extrapolate, slices=slices + (idx,), **kwargs)
                     values.put(lay_idxs, v0)
                     continue
                 v1 = val_func(points[lay_idxs], time, extrapolate, slices=slices + (idx + 1,), **kwargs)
+                if idx == -1:
+                    # special case, before the first level, so only v1 is valid
+                    values.put(lay_idxs, v1)
+                    continue
                 v0 = val_func(points[lay_idxs], time, extrapolate, slices=slices + (idx,), **kwargs)
                 sub_vals = v0 + (v1 - v0) * d_alphas[lay_idxs]
                 # partially fill the values array for this layer
-- 
2.43.0


From 213fa5cf7b454aaa32e0116d37b88e254dc95fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:10 +0000
Subject: [PATCH 13/87] fix: SGrid.interpolate_var_to_points works without
 slices

---
 gridded/pysgrid/sgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 381623f..2085f30 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -1139,7 +1139,7 @@ class SGrid:
         # else:
         #     slices = (xslice, yslice)
         zero_aligned_idxs = idxs#.copy() - [xslice.start, yslice.start]
-        var = variable[slices]
+        var = variable[:] if slices is None else variable[slices]
         if len(var.shape) > 2:
             raise ValueError(
                 "Variable has too many dimensions to \
-- 
2.43.0


From 1c7ab5f5cffaf04fe3e7d644ddffa7fae3436c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:30 +0000
Subject: [PATCH 14/87] fix: curvilinear interpolation is exact on rotated,
 transposed and nearly parallelogram cells

---
 gridded/pysgrid/sgrid.py | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 2085f30..24f1800 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -1297,6 +1297,16 @@ class SGrid:
         l = (l-a1 - a3*m)/(a2 + a4*m)
         """
 
+        def l_of_m(t, m):
+            """
+            solves for l, given m, with the equation (x or y) in which it weighs more
+            """
+            dx = a[1][t] + a[3][t] * m
+            dy = b[1][t] + b[3][t] * m
+            use_y = np.abs(dy) > np.abs(dx)
+            num = np.ma.where(use_y, y[t] - b[0][t] - b[2][t] * m, x[t] - a[0][t] - a[2][t] * m)
+            return num / np.ma.where(use_y, dy, dx)
+
         def quad_eqn(l, m, t, aa, bb, cc):
             """
             solves the following eqns for m and l
@@ -1308,19 +1318,21 @@ class SGrid:
             k = bb * bb - 4 * aa * cc
             k = np.ma.masked_less(k, 0)
 
-            det = np.ma.sqrt(k)
-            m1 = (-bb - det) / (2 * aa)
-            l1 = (x[t] - a[0][t] - a[2][t] * m1) / (a[1][t] + a[3][t] * m1)
+            # the form of the solution that does not cancel when aa is tiny
+            q = (bb + np.where(bb < 0, -1, 1) * np.ma.sqrt(k)) / -2
+            m1 = q / aa
+            l1 = l_of_m(t, m1)
 
-            m2 = (-bb + det) / (2 * aa)
-            l2 = (x[t] - a[0][t] - a[2][t] * m2) / (a[1][t] + a[3][t] * m2)
+            m2 = cc / q
+            l2 = l_of_m(t, m2)
 
-            t1 = np.logical_or(l1 < 0, l1 > 1)
-            t2 = np.logical_or(m1 < 0, m1 > 1)
-            t3 = np.logical_or(t1, t2)
+            # the root that lies in (or, rounding aside, nearest to) the cell
+            d1 = np.maximum(np.abs(l1 - 0.5), np.abs(m1 - 0.5))
+            d2 = np.maximum(np.abs(l2 - 0.5), np.abs(m2 - 0.5))
+            t3 = np.ma.filled(d1, np.inf) > np.ma.filled(d2, np.inf)
 
-            m[t] = np.choose(t3, (m1, m2))
-            l[t] = np.choose(t3, (l1, l2))
+            m[t] = np.where(t3, m2, m1)
+            l[t] = np.where(t3, l2, l1)
 
         a = a.T
         b = b.T
@@ -1335,7 +1347,7 @@ class SGrid:
         # Attempts to solve the simpler linear case first.
         with np.errstate(invalid="ignore"):
             m[t] = -cc[t] / bb[t]
-            l[t] = (x[t] - a[0][t] - a[2][t] * m[t]) / (a[1][t] + a[3][t] * m[t])
+            l[t] = l_of_m(t, m[t])
         # now solve the quadratic cases
         quad_eqn(l, m, ~t, aa[~t], bb[~t], cc[~t])
 
-- 
2.43.0


From c62fc534cd5a5903cf312546e90c477820cdd0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:47 +0000
Subject: [PATCH 15/87] fix: mask and mirror rules of compute_interpolant treat
 every point by its own mask

---
 gridded/pysgrid/sgrid.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 24f1800..cb59467 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -956,9 +956,9 @@ class SGrid:
 
         NOTE: This function is not currently implemented for interpolation situations of length 4
         """
-        if values.shape[1] == 4:
+        if values.shape[-1] == 4:
             raise ValueError("Mirror behavior is not implemented for more than two values")
-        mm_values = np.where(values.mask, -values[:, ::-1], values)
+        mm_values = np.where(np.ma.getmaskarray(values), -values[..., ::-1], values)
         return mm_values
 
     def compute_interpolant(self, values, alphas, mask_behavior=None, check_alphas=True):
@@ -1009,7 +1009,7 @@ class SGrid:
         if mask_behavior is None:
             mask_behavior = self.masked_interpolant_behavior
 
-        if mask_behavior == "mirror" and len(values) > 2:
+        if mask_behavior == "mirror" and values.shape[-1] > 2:
             raise ValueError("Mirror behavior is not implemented for more than two values")
 
         if mask_behavior == "zero":
@@ -1018,7 +1018,7 @@ class SGrid:
             filled_values = self.mirror_mask_values(values)
         elif mask_behavior == "mask":
             filled_values = values.copy()
-            filled_values.mask = np.tile(np.any(values.mask, axis=-1), 2)
+            filled_values.mask = np.broadcast_to(np.any(np.ma.getmaskarray(values), axis=-1, keepdims=True), values.shape)
         else:
             raise ValueError(f"unrecognized mask_behavior: {mask_behavior}")
 
-- 
2.43.0


From ccd4b4339c0659db666929c9556218215c635acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:50 +0000
Subject: [PATCH 16/87] fix: masked nodes, masked node coordinates and masks
 without land are honoured when locating cells

---
 gridded/pysgrid/sgrid.py | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index cb59467..4672cf7 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -14,7 +14,7 @@ from netCDF4 import Dataset
 from gridded.pysgrid.read_netcdf import NetCDFDataset, find_grid_topology_var, parse_padding
 from gridded.pysgrid.utils import GridPadding, calculate_angle_from_true_east, pair_arrays
 from gridded.pysgrid.variables import SGridVariable
-from gridded.utilities import gen_celltree_mask_from_center_mask
+from gridded.utilities import convert_mask_to_numpy_mask, gen_celltree_mask_from_center_mask
 
 node_alternate_names = ["node", "nodes", "psi", "vertex", "vertices", "point", "points"]
 center_alternate_names = ["center", "centers", "face", "faces", "cell", "cells"]
@@ -805,6 +805,25 @@ class SGrid:
         lin_points = np.column_stack((lon.ravel(), lat.ravel()))
         self._kd_trees[grid] = cKDTree(lin_points, leafsize=4)
 
+    def _get_cell_mask(self):
+        """
+        Returns which cells (without padding) are masked, or None if there are no masks:
+        the cells masked by self.center_mask, else those with a node masked by self.node_mask;
+        and the cells with a node that has no coordinates.
+        """
+        cell_mask = None
+        node_mask = np.ma.getmaskarray(self.node_lon[:]) | np.ma.getmaskarray(self.node_lat[:])
+        if self.center_mask is not None and self.center_mask is not False:
+            cell_mask = gen_celltree_mask_from_center_mask(
+                self.center_mask, self.get_padding_slices(self.center_padding)
+            )
+        elif self.node_mask is not None and self.node_mask is not False:
+            node_mask = node_mask | convert_mask_to_numpy_mask(self.node_mask)
+        if node_mask.any():
+            no_node = node_mask[:-1, :-1] | node_mask[:-1, 1:] | node_mask[1:, 1:] | node_mask[1:, :-1]
+            cell_mask = no_node if cell_mask is None else cell_mask | no_node
+        return cell_mask
+
     def build_celltree(self, use_mask=True):
         """
         Builds the celltree across the grid defined by nodes (self.node_lon, self.node_lat)
@@ -832,17 +851,8 @@ class SGrid:
         if lon is None or lat is None:
             raise ValueError("node_lon and node_lat must be defined in order to create and use CellTree for this grid")
 
-        if use_mask and (
-            (self.node_mask is not None and self.node_mask is not False)
-            or (self.center_mask is not None and self.center_mask is not False)
-        ):
-            if np.any(self.center_mask):
-                cell_mask = gen_celltree_mask_from_center_mask(
-                    self.center_mask, self.get_padding_slices(self.center_padding)
-                )
-            else:
-                pass
-
+        cell_mask = self._get_cell_mask() if use_mask else None
+        if cell_mask is not None:
             lin_faces = np.empty(shape=(lon[1::, 1::].size, 4))
             if lin_faces.shape[0] != cell_mask.size:
                 raise ValueError(
-- 
2.43.0


From d3bb33ecc97949aea33ee0b2aa41ba5755d167bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:00 +0000
Subject: [PATCH 17/87] fix: SGrid.locate_faces answers a repeated single point
 with one index and forgets answers from an earlier tree

---
 gridded/pysgrid/sgrid.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 4672cf7..2d057e0 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -645,7 +645,7 @@ class SGrid:
                 _hash = self._hash_of_pts(points)
             result = self._get_memoed(points, self._cell_ind_memo_dict, _copy, _hash)
             if result is not None:
-                return result
+                return result.data[0].copy() if just_one else result
 
         if self._cell_tree is None:
             self.build_celltree(use_mask=use_mask)
@@ -919,6 +919,9 @@ class SGrid:
             lin_nodes = np.ascontiguousarray(np.stack((lon, lat), axis=-1).reshape(-1, 2).astype(np.float64))
 
         self._cell_tree = (CellTree(lin_nodes, lin_faces), lin_nodes, lin_faces)
+        # a new tree, with or without the masks, gives new answers
+        self._cell_ind_memo_dict.clear()
+        self._log_ind_memo_dict.clear()
 
     def nearest_var_to_points(
         self,
-- 
2.43.0


From cfb40663f284618a94d3e8e62d97782f458fee4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:21 +0000
Subject: [PATCH 18/87] fix: SGrid nearest lookup builds its tree when needed
 and takes plain arrays

---
 gridded/pysgrid/sgrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 2d057e0..d459c01 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -678,7 +678,7 @@ class SGrid:
         points = np.asarray(points, dtype=np.float64)
         points = points.reshape(-1, 2)
 
-        if self._kd_trees[grid] is None:
+        if self._kd_trees.get(grid) is None:
             self.build_kdtree(grid)
         tree = self._kd_trees[grid]
         lin_indices = np.array(tree.query(points))[1].astype(np.int32)
@@ -778,7 +778,7 @@ class SGrid:
         """
         Given a list of 2D indices, return the value of var at each index
         """
-        var = var[:]
+        var = np.ma.asarray(var[:])
         rv = np.ma.zeros((index.shape[0], 1), dtype=np.float64)
         mask = np.ma.zeros((index.shape[0], 1), dtype=bool)
         raw = np.ravel_multi_index(index.T, var.shape, mode="clip")
-- 
2.43.0


From aa3eea039fb814bb9b93e910b248d8a602c789d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:43 +0000
Subject: [PATCH 19/87] fix: memoised values are not returned for a query with
 other options or another shape of points

---
 gridded/variable.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index c4130df..9edb434 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -427,7 +427,12 @@ class Variable:
         """
         Returns a SHA1 hash of the array of points passed in
         """
-        return (hashlib.sha1(points.tobytes()).hexdigest(), hashlib.sha1(str(time).encode("utf-8")).hexdigest())
+        return (
+            hashlib.sha1(points.tobytes()).hexdigest(),
+            hashlib.sha1(str(time).encode("utf-8")).hexdigest(),
+            points.shape,
+            points.dtype.str,
+        )
 
     def _memoize_result(self, points, time, result, D, _copy=False, _hash=None):
         if _copy:
@@ -602,8 +607,10 @@ class Variable:
         if _hash is None:
             _hash = self._get_hash(pts, time)
 
+        # the options the result depends on are part of the memo key
+        memo_key = (_hash, bool(extrapolate), bool(unmask), repr(sorted(kwargs.items())))
         if _mem:
-            res = self._get_memoed(pts, time, self._result_memo, _hash=_hash)
+            res = self._get_memoed(pts, time, self._result_memo, _hash=memo_key)
             if res is not None:
                 return res
 
@@ -623,7 +630,7 @@ class Variable:
             value = np.ma.filled(value)
 
         if _mem:
-            self._memoize_result(pts, time, value, self._result_memo, _hash=_hash)
+            self._memoize_result(pts, time, value, self._result_memo, _hash=memo_key)
         return value
 
     interpolate = at  # common request
@@ -1181,7 +1188,12 @@ class VectorVariable:
         """
         Returns a SHA1 hash of the array of points passed in
         """
-        return (hashlib.sha1(points.tobytes()).hexdigest(), hashlib.sha1(str(time).encode("utf-8")).hexdigest())
+        return (
+            hashlib.sha1(points.tobytes()).hexdigest(),
+            hashlib.sha1(str(time).encode("utf-8")).hexdigest(),
+            points.shape,
+            points.dtype.str,
+        )
 
     def _memoize_result(self, points, time, result, D, _copy=True, _hash=None):
         if _copy:
@@ -1271,8 +1283,10 @@ class VectorVariable:
         if _hash is None:
             _hash = self._get_hash(pts, time)
 
+        # the options the result depends on are part of the memo key
+        memo_key = (_hash, bool(extrapolate), bool(unmask), repr(sorted(kwargs.items())))
         if _mem:
-            res = self._get_memoed(pts, time, self._result_memo, _hash=_hash)
+            res = self._get_memoed(pts, time, self._result_memo, _hash=memo_key)
             if res is not None:
                 return res
 
@@ -1293,7 +1307,7 @@ class VectorVariable:
         )
 
         if _mem:
-            self._memoize_result(pts, time, value, self._result_memo, _hash=_hash)
+            self._memoize_result(pts, time, value, self._result_memo, _hash=memo_key)
 
         return value
 
-- 
2.43.0


From 7a313bd557431a97cf53b94e63f47ec18fcf85f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:29 +0000
Subject: [PATCH 20/87] fix: variables forget memoised values when their data,
 time or layout is replaced

---
 gridded/variable.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index 9edb434..dafa7b6 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -1,5 +1,6 @@
 import collections
 import hashlib
+import itertools
 import logging
 from functools import wraps
 from textwrap import dedent
@@ -38,6 +39,7 @@ class Variable:
     default_names = []
     cf_names = []
     _instance_count = 0
+    _versions = itertools.count()
 
     _default_component_types = {"time": Time, "grid": Grid, "depth": Depth}
 
@@ -330,6 +332,7 @@ class Variable:
         if location not in VALID_LOCATIONS:
             raise ValueError(f"Invalid location: {location}, must be one of: {VALID_LOCATIONS}")
         self._location = location
+        self._forget_results()
 
     @property
     def info(self):
@@ -359,6 +362,7 @@ class Variable:
     @time.setter
     def time(self, t):
         Time_class = self.__class__._default_component_types["time"]
+        self._forget_results()
         if t is None:
             self._time = None
             return
@@ -391,6 +395,7 @@ class Variable:
                     f"Grid shape is {self.grid.node_lon.shape}"
                 )
         self._data = d
+        self._forget_results()
 
     @property
     def units(self):
@@ -434,6 +439,20 @@ class Variable:
             points.dtype.str,
         )
 
+    def _forget_results(self):
+        """
+        To be called when the data, or what determines how they are used, is replaced
+        """
+        self._result_memo = collections.OrderedDict()
+        self._version = next(Variable._versions)
+
+    @property
+    def _memo_state(self):
+        """
+        What memoised results depend on besides the query
+        """
+        return (self._version, self.surface_boundary_condition, self.bottom_boundary_condition, self.fill_value)
+
     def _memoize_result(self, points, time, result, D, _copy=False, _hash=None):
         if _copy:
             result = result.copy()
@@ -525,6 +544,7 @@ class Variable:
     @dimension_ordering.setter
     def dimension_ordering(self, order):
         self._order = order
+        self._forget_results()
 
     def at(
         self,
@@ -608,7 +628,7 @@ class Variable:
             _hash = self._get_hash(pts, time)
 
         # the options the result depends on are part of the memo key
-        memo_key = (_hash, bool(extrapolate), bool(unmask), repr(sorted(kwargs.items())))
+        memo_key = (_hash, bool(extrapolate), bool(unmask), repr(sorted(kwargs.items())), self._memo_state)
         if _mem:
             res = self._get_memoed(pts, time, self._result_memo, _hash=memo_key)
             if res is not None:
@@ -1285,6 +1305,7 @@ class VectorVariable:
 
         # the options the result depends on are part of the memo key
         memo_key = (_hash, bool(extrapolate), bool(unmask), repr(sorted(kwargs.items())))
+        memo_key += tuple(getattr(v, "_memo_state", None) for v in self.variables)
         if _mem:
             res = self._get_memoed(pts, time, self._result_memo, _hash=memo_key)
             if res is not None:
-- 
2.43.0


From a37dda279d4f29fdee165cda2fab615b9cb982d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:57 +0000
Subject: [PATCH 21/87] fix: the time of a vector variable can be set from any
 iterable

---
 gridded/variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index dafa7b6..d020cdb 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -1161,7 +1161,7 @@ class VectorVariable:
                     Original error: {str(e)}""")
         if isinstance(t, Time_class):
             self._time = t
-        elif isinstance(t, collections.Iterable) or isinstance(t, nc4.Variable):
+        elif isinstance(t, collections.abc.Iterable) or isinstance(t, nc4.Variable):
             self._time = Time_class(t)
         else:
             raise ValueError("Time must be set with an iterable container or netCDF variable")
-- 
2.43.0


From 1c71ba1e01f97f5d432c3f46cfc7d3946c860cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:12 +0000
Subject: [PATCH 22/87] fix: memoised weights and logical coordinates are not
 returned for other faces or cells than asked

---
 gridded/pysgrid/sgrid.py | 3 +++
 gridded/pyugrid/ugrid.py | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index d459c01..f863021 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -1272,6 +1272,9 @@ class SGrid:
         if _memo:
             if _hash is None:
                 _hash = self._hash_of_pts(points)
+            if indices is not None:
+                # the coordinates depend on the cells that were passed in
+                _hash = (_hash, self._hash_of_pts(np.asarray(indices)))
             result = self._get_memoed(points, self._log_ind_memo_dict, _copy, _hash)
             if result is not None:
                 return result
diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 6efa812..8cea6d6 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -697,12 +697,15 @@ class UGrid:
         if _memo:
             if _hash is None:
                 _hash = self._hash_of_pts(points)
+            if indices is not None:
+                # the alphas depend on the faces that were passed in
+                _hash = (_hash, self._hash_of_pts(np.asarray(indices)))
             result = self._get_memoed(points, self._alpha_memo_dict, _copy, _hash)
             if result is not None:
                 return result
 
         if indices is None:
-            indices = self.locate_faces(points, "celltree", _copy, _memo, _hash)
+            indices = self.locate_faces(points, "celltree", _memo=_memo, _copy=_copy, _hash=_hash)
         node_positions = self.nodes[self.faces[indices]]
 
         (lon1, lon2, lon3) = node_positions[:, :, 0].T
-- 
2.43.0


From 361cae9201d70f69db4e38b9d41d7154d9b689d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:30 +0000
Subject: [PATCH 23/87] fix: topology and face coordinates of flexible meshes
 leave out unused vertices

---
 gridded/pyugrid/ugrid.py | 60 +++++++++++++++++++++++-----------------
 1 file changed, 35 insertions(+), 25 deletions(-)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 8cea6d6..49f1439 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -815,6 +815,14 @@ class UGrid:
 
     interpolate = interpolate_var_to_points
 
+    def _used_vertices(self):
+        """
+        The vertices of each face, without the masked or negative ones that fill up
+        the smaller faces of a flexible mesh.
+        """
+        unused = np.ma.getmaskarray(self.faces) | (np.ma.getdata(self.faces) < 0)
+        return [face[~fill] for face, fill in zip(np.ma.getdata(self.faces), unused)]
+
     def build_face_face_connectivity(self):
         """
         Builds the face_face_connectivity array: giving the neighbors of each cell.
@@ -829,10 +837,10 @@ class UGrid:
 
         # Loop through all the faces to find the matching edges:
         edges = {}  # dict to store the edges.
-        for i, face in enumerate(self.faces):
+        for i, face in enumerate(self._used_vertices()):
             # Loop through edges of the cell:
-            for j in range(num_vertices):
-                if j < self.num_vertices - 1:
+            for j in range(len(face)):
+                if j < len(face) - 1:
                     edge = (face[j], face[j + 1])
                 else:
                     edge = (face[-1], face[0])
@@ -873,9 +881,9 @@ class UGrid:
 
         # Loop through all the faces to find all the edges:
         edges = set()  # Use a set so no duplicates.
-        for i, face in enumerate(self.faces):
+        for i, face in enumerate(self._used_vertices()):
             # Loop through edges:
-            for j in range(num_vertices):
+            for j in range(len(face)):
                 edge = (face[j - 1], face[j])
                 if edge[0] > edge[1]:  # Flip them
                     edge = (edge[1], edge[0])
@@ -898,11 +906,11 @@ class UGrid:
         boundaries = []
         if self.face_face_connectivity is None:
             self.build_face_face_connectivity()
-        for i, face in enumerate(self.face_face_connectivity):
-            for j, neighbor in enumerate(face):
+        for i, vertices in enumerate(self._used_vertices()):
+            for j, neighbor in enumerate(self.face_face_connectivity[i, : len(vertices)]):
                 if neighbor == -1:
-                    if j == self.num_vertices - 1:
-                        bound = (self.faces[i, -1], self.faces[i, 0])
+                    if j == len(vertices) - 1:
+                        bound = (self.faces[i, j], self.faces[i, 0])
                     else:
                         bound = (self.faces[i, j], self.faces[i, j + 1])
                     boundaries.append(bound)
@@ -921,11 +929,15 @@ class UGrid:
         except ImportError:
             raise ImportError("The scipy package is required to use UGrid.locatbuild_face_edge_connectivity")
 
-        faces = self.faces
+        faces = np.ma.getdata(self.faces)
         edges = self.edges.copy()
-        face_edges = np.dstack([faces, np.roll(faces, 1, 1)])
-        if np.ma.isMA(faces) and np.ndim(faces.mask):
-            face_edges.mask = np.dstack([faces.mask, np.roll(faces.mask, 1, 1)])
+        # each vertex and the one after it: the first one follows the last one used
+        following = np.roll(faces, -1, 1)
+        mask = np.ones(faces.shape, dtype=bool)
+        for i, face in enumerate(self._used_vertices()):
+            mask[i, : len(face)] = False
+            following[i, len(face) - 1] = faces[i, 0]
+        face_edges = np.dstack([faces, following])
         face_edges.sort(axis=-1)
         edges.sort(axis=-1)
 
@@ -933,17 +945,12 @@ class UGrid:
 
         face_edge_2d = face_edges.reshape((-1, 2))
 
-        if np.ma.isMA(faces) and faces.mask.any():
-            mask = face_edge_2d.mask.any(-1)
-            connectivity = np.ma.ones(
-                len(face_edge_2d),
-                dtype=face_edge_2d.dtype,
-            )
-            connectivity.mask = mask
-            connectivity[~mask] = tree.query(face_edge_2d[~mask])[1]
-        else:
-            connectivity = tree.query(face_edge_2d)[1]
-        self.face_edge_connectivity = np.roll(connectivity.reshape(faces.shape), -1, -1)
+        distance, connectivity = tree.query(face_edge_2d)
+        # no edge: unused vertices, and edges that are not listed
+        mask = mask.reshape(-1) | (distance > 0)
+        if mask.any():
+            connectivity = np.ma.MaskedArray(connectivity, mask=mask)
+        self.face_edge_connectivity = connectivity.reshape(faces.shape)
 
     def build_face_coordinates(self):
         """
@@ -959,7 +966,10 @@ class UGrid:
         Useful if you want this in the output file.
 
         """
-        self.face_coordinates = self.nodes[self.faces].mean(axis=1)
+        if np.ma.is_masked(self.faces) or (self.faces < 0).any():
+            self.face_coordinates = np.array([self.nodes[face].mean(axis=0) for face in self._used_vertices()])
+        else:
+            self.face_coordinates = self.nodes[self.faces].mean(axis=1)
 
     def build_edge_coordinates(self):
         """
-- 
2.43.0


From 43666ed543d804ff04d4d924354ad4b9c7a99877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:51 +0000
Subject: [PATCH 24/87] fix: replacing the faces of a mesh drops the
 connectivity derived from the old ones

---
 gridded/pyugrid/ugrid.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 49f1439..2d7c390 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -313,6 +313,9 @@ class UGrid:
         if self._nodes is None:
             raise ValueError("Nodes must be defined before faces")
         self._clear_caches()
+        # Derived from the faces: no longer valid.
+        self._face_face_connectivity = None
+        self._face_edge_connectivity = None
         if faces_indexes is not None:
             faces_indexes = np.asanyarray(faces_indexes, dtype=IND_DT)
             if faces_indexes.max() > len(self.nodes):
@@ -337,9 +340,6 @@ class UGrid:
 
         else:
             self._faces = None
-            # Other things are no longer valid.
-            self._face_face_connectivity = None
-            self._face_edge_connectivity = None
 
     @faces.deleter
     def faces(self):
-- 
2.43.0


From d73e8a30048554b2a513e01334d64943082e17fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:04 +0000
Subject: [PATCH 25/87] fix: meshes with three faces, two edges or two
 boundaries survive saving and loading

---
 gridded/pyugrid/read_netcdf.py | 14 ++++++++++++--
 gridded/pyugrid/ugrid.py       |  3 +++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/gridded/pyugrid/read_netcdf.py b/gridded/pyugrid/read_netcdf.py
index 27dbe0c..d63d680 100755
--- a/gridded/pyugrid/read_netcdf.py
+++ b/gridded/pyugrid/read_netcdf.py
@@ -66,21 +66,25 @@ grid_defs = [
         "grid_attr": "faces",  # Name in UGrid object.
         "role": "face_node_connectivity",  # Name in mesh variable.
         "num_ind": 3,  # Number of idx (3 for faces, 2 for segments).
+        "dimension": "face_dimension",  # Attribute that names the other dimension.
     },
     {
         "grid_attr": "face_face_connectivity",  # Name in UGrid object.
         "role": "face_face_connectivity",  # Name in mesh variable.
         "num_ind": 3,  # Number of idx (3 for faces, 2 for segments).
+        "dimension": "face_dimension",  # Attribute that names the other dimension.
     },
     {
         "grid_attr": "boundaries",  # Name in UGrid object.
         "role": "boundary_node_connectivity",  # Name in mesh var.
         "num_ind": 2,  # Number of idx (3 for faces, 2 for segments).
+        "dimension": "boundary_dimension",  # Attribute that names the other dimension.
     },
     {
         "grid_attr": "edges",  # Name in UGrid object.
         "role": "edge_node_connectivity",  # Name in mesh variable.
         "num_ind": 2,  # Number of idx (3 for faces, 2 for segments).
+        "dimension": "edge_dimension",  # Attribute that names the other dimension.
     },
 ]
 # definitions for various coordinate arrays
@@ -214,8 +218,14 @@ def load_grid_from_nc_dataset(nc, grid, mesh_name=None):  # , load_data=True):
                 continue
             array = var[:, :]
             # Fortran order, instead of C order, transpose the array
-            # logic below will fail for 3 node or two edge grids.
-            if array.shape[0] == defs["num_ind"]:
+            dimension = getattr(mesh_var, defs["dimension"], None)
+            if dimension in var.dimensions:
+                transposed = var.dimensions[0] != dimension
+            else:
+                # not declared: logic below will fail for three faces with more than
+                # three vertices. Square arrays are taken to be in C order, the default.
+                transposed = array.shape[0] == defs["num_ind"] != array.shape[1]
+            if transposed:
                 array = array.T
             try:
                 start_index = int(var.start_index)
diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 2d7c390..4987a9e 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -1063,12 +1063,14 @@ class UGrid:
         if self._edges is not None:
             # Attribute required if variables will be defined on edges.
             mesh.edge_node_connectivity = mesh_name + "_edge_nodes"
+            mesh.edge_dimension = mesh_name + "_num_edge"
             if self.edge_coordinates is not None:
                 # Optional attribute (requires edge_node_connectivity).
                 coord = "{0}_edge_lon {0}_edge_lat".format
                 mesh.edge_coordinates = coord(mesh_name)
         if self._faces is not None:
             mesh.face_node_connectivity = mesh_name + "_face_nodes"
+            mesh.face_dimension = mesh_name + "_num_face"
             if self.face_coordinates is not None:
                 # Optional attribute.
                 coord = "{0}_face_lon {0}_face_lat".format
@@ -1081,6 +1083,7 @@ class UGrid:
             mesh.face_face_connectivity = mesh_name + "_face_links"
         if self._boundaries is not None:
             mesh.boundary_node_connectivity = mesh_name + "_boundary_nodes"
+            mesh.boundary_dimension = mesh_name + "_num_boundary"
 
         # FIXME: This could be re-factored to be more generic, rather than
         # separate for each type of data see the coordinates example below.
-- 
2.43.0


From a0e6a379fa162ca88db66dfc12f28aafe4920578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:31 +0000
Subject: [PATCH 26/87] fix: UGrid.save writes the connectivity it refers to
 and refers to the boundary coordinates it writes

---
 gridded/pyugrid/read_netcdf.py |  6 ++++++
 gridded/pyugrid/ugrid.py       | 19 +++++++++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/gridded/pyugrid/read_netcdf.py b/gridded/pyugrid/read_netcdf.py
index d63d680..7117284 100755
--- a/gridded/pyugrid/read_netcdf.py
+++ b/gridded/pyugrid/read_netcdf.py
@@ -86,6 +86,12 @@ grid_defs = [
         "num_ind": 2,  # Number of idx (3 for faces, 2 for segments).
         "dimension": "edge_dimension",  # Attribute that names the other dimension.
     },
+    {
+        "grid_attr": "face_edge_connectivity",  # Name in UGrid object.
+        "role": "face_edge_connectivity",  # Name in mesh variable.
+        "num_ind": 3,  # Number of idx (3 for faces, 2 for segments).
+        "dimension": "face_dimension",  # Attribute that names the other dimension.
+    },
 ]
 # definitions for various coordinate arrays
 coord_defs = [
diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 4987a9e..c2e101b 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -1084,6 +1084,9 @@ class UGrid:
         if self._boundaries is not None:
             mesh.boundary_node_connectivity = mesh_name + "_boundary_nodes"
             mesh.boundary_dimension = mesh_name + "_num_boundary"
+            if self.boundary_coordinates is not None:
+                coord = "{0}_boundary_lon {0}_boundary_lat".format
+                mesh.boundary_coordinates = coord(mesh_name)
 
         # FIXME: This could be re-factored to be more generic, rather than
         # separate for each type of data see the coordinates example below.
@@ -1126,6 +1129,22 @@ class UGrid:
             boundary_nodes.long_name = "Maps every boundary segment to the two nodes that it connects."
             boundary_nodes.start_index = IND_DT(0)
 
+        # Optional connectivity of the faces.
+        for role, name, long_name in [
+            ("face_edge_connectivity", "_face_edges", "Maps every face to its edges."),
+            ("face_face_connectivity", "_face_links", "Indicates which other faces neighbor each face."),
+        ]:
+            if getattr(self, role) is not None:
+                links = nclocal.createVariable(
+                    mesh_name + name,
+                    IND_DT,
+                    (mesh_name + "_num_face", mesh_name + "_num_vertices"),
+                )
+                links[:] = getattr(self, role)
+                links.cf_role = role
+                links.long_name = long_name
+                links.start_index = IND_DT(0)
+
         # Optional "coordinate variables."
         for location in ["face", "edge", "boundary"]:
             loc = f"{location}_coordinates"
-- 
2.43.0


From 56b2a73cc31f218ec74698dd8add2d2e53ac2698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:03 +0000
Subject: [PATCH 27/87] fix: setting 1-based faces no longer changes the
 caller's array

---
 gridded/pyugrid/ugrid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index c2e101b..b1578b3 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -327,6 +327,7 @@ class UGrid:
                 # faces index maximum equal to number of nodes, so we need to decrement by 1
                 # but only if the minimum is also gte 1
                 if faces_indexes.min() >= 1:
+                    faces_indexes = faces_indexes.copy()  # it could be the caller's
                     faces_indexes[faces_indexes > 0] -= 1
                     warnings.warn("faces index maximum equal to number of nodes, automatic decrement by 1 applied")
                 else:
-- 
2.43.0


From ac50bdda7a224476f47034a3d875b4c6be3f58d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:05 +0000
Subject: [PATCH 28/87] fix: undeclared index bases are inferred for the whole
 file, and entries that refer to nothing are not shifted

---
 gridded/pyugrid/read_netcdf.py | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/gridded/pyugrid/read_netcdf.py b/gridded/pyugrid/read_netcdf.py
index 7117284..ab06322 100755
--- a/gridded/pyugrid/read_netcdf.py
+++ b/gridded/pyugrid/read_netcdf.py
@@ -118,6 +118,19 @@ coord_defs = [
 ]
 
 
+def _infer_start_index(nc, mesh_var, num_nodes):
+    """
+    The index base of the connectivity arrays that do not declare theirs: 1 if any of them
+    refers to a node with the number of nodes as its index.
+    """
+    for defs in grid_defs:
+        var = nc.variables.get(getattr(mesh_var, defs["role"], None))
+        if defs["role"].endswith("_node_connectivity") and var is not None and not hasattr(var, "start_index"):
+            if var[:].max() == num_nodes:
+                return 1
+    return 0
+
+
 def load_grid_from_nc_dataset(nc, grid, mesh_name=None):  # , load_data=True):
     """
     loads UGrid object from a netCDF4.DataSet object, adding the data
@@ -216,6 +229,7 @@ def load_grid_from_nc_dataset(nc, grid, mesh_name=None):  # , load_data=True):
         setattr(grid, defs["grid_attr"], nodes)
 
     # Load assorted connectivity arrays.
+    default_start_index = _infer_start_index(nc, mesh_var, grid.nodes.shape[0])
     for defs in grid_defs:
         try:
             try:
@@ -236,19 +250,12 @@ def load_grid_from_nc_dataset(nc, grid, mesh_name=None):  # , load_data=True):
             try:
                 start_index = int(var.start_index)
             except AttributeError:
-                if array.max() == grid.nodes.shape[0]:
-                    start_index = 1
-                else:
-                    start_index = 0
+                start_index = default_start_index
+            # Flag values, like negative numbers, refer to nothing.
+            flagged = np.isin(np.ma.getdata(array), getattr(var, "flag_values", -1)) & ~np.ma.getmaskarray(array)
             if start_index >= 1:
-                array -= start_index
-                # Check for flag value.
-                try:
-                    # FIXME: This won't work for more than one flag value.
-                    flag_value = var.flag_values
-                    array[array == flag_value - start_index] = flag_value
-                except AttributeError:
-                    pass
+                array -= np.where(np.ma.getdata(array) < 0, 0, start_index).astype(array.dtype)
+            array[flagged] = -1
             setattr(grid, defs["grid_attr"], array)
         except KeyError:
             pass  # OK not to have this...
-- 
2.43.0


From a684fe904bacdbfb97965306eddae3a7db544b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:12 +0000
Subject: [PATCH 29/87] fix: saved variables keep their names, fill values,
 packing and the mesh they are on

---
 gridded/pyugrid/ugrid.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index b1578b3..253dcdb 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -1232,20 +1232,23 @@ class UGrid:
             print("var data is:", var.data)
             print("var data shape is:", var.data.shape)
             data_var = nclocal.createVariable(
-                var.name,
+                name,
                 var.data.dtype,
                 shape,
+                fill_value=var.attributes.get("_FillValue"),
                 chunksizes=chunksizes,
                 # zlib=False,
                 # complevel=0,
             )
             print("new dat var shape:", shape)
-            data_var[:] = var.data[:]
+            # Add the extra attributes: before the data, as these may be packed, and without
+            # those that describe the file the data came from.
+            for att_name, att_value in var.attributes.items():
+                if att_name not in ("_FillValue", "coordinates"):
+                    setattr(data_var, att_name, att_value)
             # Add the standard attributes:
             data_var.location = var.location
             data_var.mesh = mesh_name
             if coordinates is not None:
                 data_var.coordinates = coordinates
-            # Add the extra attributes.
-            for att_name, att_value in var.attributes.items():
-                setattr(data_var, att_name, att_value)
+            data_var[:] = var.data[:]
-- 
2.43.0


From 8a44cce92bc8dd4a7978ba694a88682e9ea6ea11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:49 +0000
Subject: [PATCH 30/87] fix: variables named like a word of the mesh's
 description are loaded

---
 gridded/gridded.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gridded/gridded.py b/gridded/gridded.py
index a7735a1..4f1ea9d 100644
--- a/gridded/gridded.py
+++ b/gridded/gridded.py
@@ -153,7 +153,13 @@ class Dataset:
         variables = {}
         for k in ds.variables.keys():
             # find which netcdf variables are used to define the grid
-            is_not_grid_attr = all([k not in str(v).split() for v in self.grid.grid_topology.values()])
+            is_not_grid_attr = all(
+                [
+                    k not in str(v).split()
+                    for a, v in self.grid.grid_topology.items()
+                    if a not in ("cf_role", "long_name", "comment")  # text, not variable names
+                ]
+            )
             if is_not_grid_attr:
                 ncvar = ds[k]
                 # find the location of the variable
-- 
2.43.0


From 718577c74550f06b8c1b44f121f913b50ad562ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:22 +0000
Subject: [PATCH 31/87] fix: flag values are not taken for the last node when
 the index base is inferred

---
 gridded/pyugrid/read_netcdf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gridded/pyugrid/read_netcdf.py b/gridded/pyugrid/read_netcdf.py
index ab06322..f89d633 100755
--- a/gridded/pyugrid/read_netcdf.py
+++ b/gridded/pyugrid/read_netcdf.py
@@ -126,7 +126,9 @@ def _infer_start_index(nc, mesh_var, num_nodes):
     for defs in grid_defs:
         var = nc.variables.get(getattr(mesh_var, defs["role"], None))
         if defs["role"].endswith("_node_connectivity") and var is not None and not hasattr(var, "start_index"):
-            if var[:].max() == num_nodes:
+            indices = np.ma.compressed(var[:])
+            indices = indices[~np.isin(indices, getattr(var, "flag_values", -1))]
+            if (indices == num_nodes).any():
                 return 1
     return 0
 
-- 
2.43.0


From b3602763b97b240f4092b5e75f40f0aa87c6f621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:53 +0000
Subject: [PATCH 32/87] fix: slices for high padding drop the last element

---
 gridded/pysgrid/sgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index f863021..874e746 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -23,7 +23,7 @@ edge2_alternate_names = ["edge2", "v"]
 
 
 class SGrid:
-    padding_slices = {"both": (1, -1), "none": (None, None), "low": (1, None), "high": (None, 1)}
+    padding_slices = {"both": (1, -1), "none": (None, None), "low": (1, None), "high": (None, -1)}
 
     topology_dimension = 2
 
-- 
2.43.0


From 9a7de06788700319b8625e97ab4d72401bd7c341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:57 +0000
Subject: [PATCH 33/87] fix: structured grids without vertical dimensions can
 be loaded

---
 gridded/pysgrid/sgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 874e746..3fb02cc 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -269,7 +269,7 @@ class SGrid:
 
     def all_padding(self):
         all_padding = self.get_all_face_padding() + self.get_all_edge_padding()
-        if self.vertical_padding is not None:
+        if self._vertical_padding is not None:
             all_padding += self._vertical_padding
         return all_padding
 
-- 
2.43.0


From d28a17edd2b9299bb73bf989eabdcbc82aa289bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:04 +0000
Subject: [PATCH 34/87] fix: structured grids without face coordinates can be
 loaded and saved

---
 gridded/pysgrid/sgrid.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 3fb02cc..a8b9baf 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -418,13 +418,21 @@ class SGrid:
             dim_name, dim_size = grid_dim
             nc_file.createDimension(dim_name, dim_size)
         # Create variables.
-        center_lon, center_lat = self.face_coordinates
-        center_lon_obj = getattr(self, center_lon)
-        center_lat_obj = getattr(self, center_lat)
-        center_lon = nc_file.createVariable(center_lon_obj.variable, center_lon_obj.dtype, center_lon_obj.dimensions)
-        center_lat = nc_file.createVariable(center_lat_obj.variable, center_lat_obj.dtype, center_lat_obj.dimensions)
-        center_lon[:] = self.center_lon[:]
-        center_lat[:] = self.center_lat[:]
+        try:
+            center_lon, center_lat = self.face_coordinates
+        except TypeError:
+            pass
+        else:
+            center_lon_obj = getattr(self, center_lon)
+            center_lat_obj = getattr(self, center_lat)
+            grid_center_lon = nc_file.createVariable(
+                center_lon_obj.variable, center_lon_obj.dtype, center_lon_obj.dimensions
+            )
+            grid_center_lat = nc_file.createVariable(
+                center_lat_obj.variable, center_lat_obj.dtype, center_lat_obj.dimensions
+            )
+            grid_center_lon[:] = self.center_lon[:]
+            grid_center_lat[:] = self.center_lat[:]
         try:
             node_lon, node_lat = self.node_coordinates
         except TypeError:
@@ -1447,6 +1455,8 @@ class SGridAttributes:
         if not angles:
             # FIXME: Get rid of pair_arrays.
             center_lon, center_lat = self.get_cell_center_lat_lon()
+            if center_lon is None or center_lat is None:
+                return None
             cell_centers = pair_arrays(center_lon, center_lat)
             centers_start = cell_centers[..., :-1, :]
             centers_end = cell_centers[..., 1:, :]
-- 
2.43.0


From 868a092cfaf906acfb43eca49017bc6b4206a0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:10 +0000
Subject: [PATCH 35/87] fix: paddings are parsed whatever the spacing, and axes
 with digits in their names

---
 gridded/pysgrid/read_netcdf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gridded/pysgrid/read_netcdf.py b/gridded/pysgrid/read_netcdf.py
index 03d5869..990671e 100644
--- a/gridded/pysgrid/read_netcdf.py
+++ b/gridded/pysgrid/read_netcdf.py
@@ -60,7 +60,7 @@ def parse_padding(padding_str, mesh_topology_var):
     :rtype: list.
 
     """
-    p = re.compile(r"([a-zA-Z0-9_]+:) ([a-zA-Z0-9_]+) (\(padding: [a-zA-Z]+\))")
+    p = re.compile(r"([a-zA-Z0-9_]+:)\s*([a-zA-Z0-9_]+)\s*(\(padding:\s*[a-zA-Z]+\))")
     padding_matches = p.findall(padding_str)
     padding_type_list = []
     for padding_match in padding_matches:
@@ -86,7 +86,7 @@ def parse_padding(padding_str, mesh_topology_var):
 
 
 def parse_axes(axes_attr):
-    p = re.compile("([a-zA-Z]: [a-zA-Z_]+)")
+    p = re.compile("([a-zA-Z]: [a-zA-Z0-9_]+)")
     matches = p.findall(axes_attr)
     x_axis = None
     y_axis = None
-- 
2.43.0


From 0d4acc9436a815e1b82f49ce3028b39a5a10e98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:38 +0000
Subject: [PATCH 36/87] fix: variables named like a grid attribute no longer
 replace it when a structured grid is loaded

---
 gridded/pysgrid/sgrid.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index a8b9baf..4832a9b 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -149,6 +149,7 @@ class SGrid:
         self._log_ind_memo_dict = OrderedDict()
         self._cell_ind_memo_dict = OrderedDict()
         self._cell_tree_mask = None
+        self._sgrid_variables = {}  # the variables of the file, by name
         self.grid_topology = grid_topology
         self.masked_interpolant_behavior = masked_interpolant_behavior
         super().__init__(*args, **kwargs)
@@ -423,8 +424,8 @@ class SGrid:
         except TypeError:
             pass
         else:
-            center_lon_obj = getattr(self, center_lon)
-            center_lat_obj = getattr(self, center_lat)
+            center_lon_obj = self._sgrid_variables[center_lon]
+            center_lat_obj = self._sgrid_variables[center_lat]
             grid_center_lon = nc_file.createVariable(
                 center_lon_obj.variable, center_lon_obj.dtype, center_lon_obj.dimensions
             )
@@ -438,13 +439,13 @@ class SGrid:
         except TypeError:
             pass
         else:
-            node_lon_obj = getattr(self, node_lon)
+            node_lon_obj = self._sgrid_variables[node_lon]
             grid_node_lon = nc_file.createVariable(node_lon_obj.variable, node_lon_obj.dtype, node_lon_obj.dimensions)
-            node_lat_obj = getattr(self, node_lat)
+            node_lat_obj = self._sgrid_variables[node_lat]
             grid_node_lat = nc_file.createVariable(node_lat_obj.variable, node_lat_obj.dtype, node_lat_obj.dimensions)
             grid_node_lon[:] = self.node_lon[:]
             grid_node_lat[:] = self.node_lat[:]
-        grid_var_obj = getattr(self, grid_var)
+        grid_var_obj = self._sgrid_variables[grid_var]
         grid_vars = nc_file.createVariable(grid_var_obj.variable, grid_var_obj.dtype)
         grid_vars.cf_role = "grid_topology"
         grid_vars.topology_dimension = self.topology_dimension
@@ -459,13 +460,13 @@ class SGrid:
             grid_vars.edge1_coordinates = " ".join(self.edge1_coordinates)
         if self.edge2_coordinates is not None:
             grid_vars.edge2_coordinates = " ".join(self.edge2_coordinates)
-        if hasattr(self, "angle"):
-            angle_obj = getattr(self, "angle", None)
+        if "angle" in self._sgrid_variables:
+            angle_obj = self._sgrid_variables["angle"]
             grid_angle = nc_file.createVariable(angle_obj.variable, angle_obj.dtype, angle_obj.dimensions)
             if self.angles is not None:
                 grid_angle[:] = self.angles[:]
         for dataset_variable in self.variables:
-            dataset_var_obj = getattr(self, dataset_variable)
+            dataset_var_obj = self._sgrid_variables[dataset_variable]
             try:
                 dataset_grid_var = nc_file.createVariable(
                     dataset_var_obj.variable, dataset_var_obj.dtype, dataset_var_obj.dimensions
@@ -1443,7 +1444,9 @@ class SGridAttributes:
         for nc_variable in nc_variables:
             nc_var = nc_variables[nc_variable]
             sgrid_var = SGridVariable.create_variable(nc_var, sgrid)
-            setattr(sgrid, sgrid_var.variable, sgrid_var)
+            sgrid._sgrid_variables[sgrid_var.variable] = sgrid_var
+            if not hasattr(sgrid, sgrid_var.variable):  # it could be named like an attribute of the grid
+                setattr(sgrid, sgrid_var.variable, sgrid_var)
             dataset_variables.append(nc_var.name)
             if hasattr(nc_var, "grid"):
                 grid_variables.append(nc_var.name)
-- 
2.43.0


From 3913ffd83dba4e226ebfd35651f248ee483c1c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:45 +0000
Subject: [PATCH 37/87] fix: face paddings apply to the array dimensions they
 are declared for

---
 gridded/pysgrid/sgrid.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 4832a9b..ca1f3bc 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -317,7 +317,15 @@ class SGrid:
     def face_padding(self):
         if hasattr(self, "_face_padding") and self._face_padding:
             if isinstance(self._face_padding[0], GridPadding):
-                return (self._face_padding[0].padding, self._face_padding[1].padding)
+                pad0, pad1 = self._face_padding[:2]
+                # these are in the order of the file's attribute, which need not be that of the arrays
+                for names, dim in ((self.node_coordinates, pad0.node_dim), (self.face_coordinates, pad0.face_dim)):
+                    var = self._sgrid_variables.get(names[0]) if names else None
+                    if var is not None and dim in var.dimensions[-2:]:
+                        if var.dimensions[-2:].index(dim) == 1:
+                            pad0, pad1 = pad1, pad0
+                        break
+                return (pad0.padding, pad1.padding)
             else:
                 return self._face_padding
         elif hasattr(self, "center_lon") and self.center_lon is not None:
-- 
2.43.0


From 1ef13b8d6419e469d29350281fab68c0cff72f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:40 +0000
Subject: [PATCH 38/87] fix: edge coordinates, masks and locations are saved
 with a structured grid

---
 gridded/pysgrid/sgrid.py     | 19 +++++++++++++++++++
 gridded/pysgrid/variables.py |  3 +++
 2 files changed, 22 insertions(+)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index ca1f3bc..a5c3f61 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -473,6 +473,17 @@ class SGrid:
             grid_angle = nc_file.createVariable(angle_obj.variable, angle_obj.dtype, angle_obj.dimensions)
             if self.angles is not None:
                 grid_angle[:] = self.angles[:]
+        # The other variables that make up the grid.
+        grid_data = {}
+        for names, lon_lat in (
+            (self.edge1_coordinates, (self.edge1_lon, self.edge1_lat)),
+            (self.edge2_coordinates, (self.edge2_lon, self.edge2_lat)),
+        ):
+            if names is not None:
+                grid_data.update(zip(names, lon_lat))
+        for mask in (self.node_mask, self.center_mask, self.edge1_mask, self.edge2_mask):
+            if hasattr(mask, "ncattrs"):
+                grid_data[mask.name] = mask
         for dataset_variable in self.variables:
             dataset_var_obj = self._sgrid_variables[dataset_variable]
             try:
@@ -489,6 +500,8 @@ class SGrid:
                     dataset_grid_var.standard_name = dataset_var_obj.standard_name  # noqa
                 if dataset_var_obj.coordinates is not None:
                     dataset_grid_var.coordinates = " ".join(dataset_var_obj.coordinates)  # noqa
+                if dataset_var_obj.location_attribute is not None:
+                    dataset_grid_var.location = dataset_var_obj.location_attribute
                 if dataset_var_obj.x_axis is not None:
                     x_axis = f"X: {dataset_var_obj.x_axis}"
                     axes.append(x_axis)
@@ -500,6 +513,12 @@ class SGrid:
                     axes.append(z_axis)
                 if axes:
                     dataset_grid_var.axes = " ".join(axes)
+                data = grid_data.get(dataset_variable)
+                if data is not None:
+                    for att in ("long_name", "flag_values", "flag_meanings", "option_0"):
+                        if hasattr(data, "ncattrs") and att in data.ncattrs():
+                            dataset_grid_var.setncattr(att, data.getncattr(att))
+                    dataset_grid_var[:] = data[:]
         return grid_vars
 
     def _get_geo_mask(self, name):
diff --git a/gridded/pysgrid/variables.py b/gridded/pysgrid/variables.py
index 202793e..8933eda 100644
--- a/gridded/pysgrid/variables.py
+++ b/gridded/pysgrid/variables.py
@@ -28,6 +28,7 @@ class SGridVariable:
         dtype=None,
         grid=None,
         location=None,
+        location_attribute=None,
         node_axis=None,
         node_slicing=None,
         standard_name=None,
@@ -45,6 +46,7 @@ class SGridVariable:
         self.dtype = dtype
         self.grid = grid
         self.location = location
+        self.location_attribute = location_attribute
         self.node_axis = node_axis
         self.node_slicing = node_slicing
         self.standard_name = standard_name
@@ -135,6 +137,7 @@ class SGridVariable:
             dimensions=dimensions,
             dtype=dtype,
             location=location,
+            location_attribute=getattr(nc_var_obj, "location", None),
             standard_name=standard_name,
             vector_axis=vector_axis,
             coordinates=coordinates,
-- 
2.43.0


From ef28940d1f05125019bae78faf02bd415b76da33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:02 +0000
Subject: [PATCH 39/87] fix: masks of structured grids go with the coordinates
 that have their dimensions

---
 gridded/pysgrid/sgrid.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index a5c3f61..a92417c 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -1543,16 +1543,19 @@ class SGridAttributes:
             for var in self.nc.variables.values()
             if "mask" in var.name or (hasattr(var, "long_name") and "mask" in var.long_name)
         ]
-        node_mask = center_mask = edge1_mask = edge2_mask = None
+        # A mask goes with the coordinates that have its dimensions. Failing that, its shape has to tell.
+        coordinate_names = [self.get_node_coordinates()[1]]
+        coordinate_names += [self.get_attr_coordinates(f"{loc}_coordinates") for loc in ("face", "edge1", "edge2")]
+        coordinate_dims = [self.nc[names[0]].dimensions if names else None for names in coordinate_names]
+        shapes = [node_shape, center_shape, edge1_shape, edge2_shape]
+        masks = [None, None, None, None]
         for mc in mask_candidates:
-            if node_shape and self.nc.variables[mc].shape == node_shape and node_mask is None:
-                node_mask = self.nc.variables[mc]  # do not [:] mask variables. They contain important metadata
-            if center_shape and self.nc.variables[mc].shape == center_shape and center_mask is None:
-                center_mask = self.nc.variables[mc]
-            if edge1_shape and self.nc.variables[mc].shape == edge1_shape and edge1_mask is None:
-                edge1_mask = self.nc.variables[mc]
-            if edge2_shape and self.nc.variables[mc].shape == edge2_shape and edge2_mask is None:
-                edge2_mask = self.nc.variables[mc]
+            mask = self.nc.variables[mc]  # do not [:] mask variables. They contain important metadata
+            for i, (dims, shape) in enumerate(zip(coordinate_dims, shapes)):
+                matches = dims == mask.dimensions if mask.dimensions in coordinate_dims else True
+                if shape and mask.shape == shape and matches and masks[i] is None:
+                    masks[i] = mask
+        node_mask, center_mask, edge1_mask, edge2_mask = masks
 
         return node_mask, center_mask, edge1_mask, edge2_mask
 
-- 
2.43.0


From cf2baf52f3bbe7096bb99fc0dbfbeae3257731ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:21 +0000
Subject: [PATCH 40/87] fix: missing values of masks without flags are masked

---
 gridded/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/utilities.py b/gridded/utilities.py
index ab5dafc..cf31c9e 100644
--- a/gridded/utilities.py
+++ b/gridded/utilities.py
@@ -64,7 +64,7 @@ def convert_mask_to_numpy_mask(mask_var):
         for k, v in tfmap.items():
             ret_mask[mask_data == k] = v
     else:
-        ret_mask[:] = mask_data
+        ret_mask[:] = np.ma.filled(mask_data, True)  # missing values are masked
 
     return ret_mask
 
-- 
2.43.0


From 34562ce9cc371a982c4b3c5fc71e7b6aa6dceb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:16 +0000
Subject: [PATCH 41/87] fix: masks with a single flag value can be read

---
 gridded/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/utilities.py b/gridded/utilities.py
index cf31c9e..7dfd84b 100644
--- a/gridded/utilities.py
+++ b/gridded/utilities.py
@@ -53,7 +53,7 @@ def convert_mask_to_numpy_mask(mask_var):
         # "Land Water" is valid metadata. Lowercase before the substring test
         # so capitalized words are recognized as water/lake.
         meaning_mask = [False if ("water" in s.lower() or "lake" in s.lower()) else True for s in fm]
-        tfmap = dict(zip(fv, meaning_mask))
+        tfmap = dict(zip(np.atleast_1d(fv), meaning_mask))  # a single flag comes as a scalar
         for k, v in tfmap.items():
             ret_mask[mask_data == k] = v
     elif type2:  # special case where option_0 == land,
-- 
2.43.0


From 26706f84da59516a4669e6b97f4538bded809717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:20 +0000
Subject: [PATCH 42/87] fix: points that are neither one point nor a list of
 points are refused

---
 gridded/utilities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gridded/utilities.py b/gridded/utilities.py
index 7dfd84b..c936368 100644
--- a/gridded/utilities.py
+++ b/gridded/utilities.py
@@ -234,6 +234,8 @@ def _reorganize_spatial_data(points):
     if points_arr.dtype in (np.object_, np.bytes_, np.bool_):
         raise TypeError("points data does not convert to a numeric array type")
     shp = points_arr.shape
+    if len(shp) not in (1, 2):
+        raise ValueError("points data must be a single point or a list of points")
     # special cases
     if len(shp) == 1:
         # two valid cases: [lon, lat] and [lon, lat, depth]. all others = error
-- 
2.43.0


From de87007f676f8fc2bd4390a4bc6d9817afcc6765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:25 +0000
Subject: [PATCH 43/87] fix: boundary segments that join at the start of a
 boundary in reverse are ordered

---
 gridded/io/verdat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/io/verdat.py b/gridded/io/verdat.py
index e215f17..b598fd1 100644
--- a/gridded/io/verdat.py
+++ b/gridded/io/verdat.py
@@ -175,7 +175,7 @@ def order_boundary_segments(bound_segs):
                     bound.append(p0)
                     bound_segs.pop(i)
                 elif p0 == bound[0]:
-                    bound.insert(p1)
+                    bound.insert(0, p1)
                     bound_segs.pop(i)
                 elif p1 == bound[0]:
                     bound.insert(0, p0)
-- 
2.43.0


From e09d0611b8d12c2068a73273691c594fc92f6c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:31 +0000
Subject: [PATCH 44/87] fix: verdat datasets without units can be saved

---
 gridded/io/verdat.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gridded/io/verdat.py b/gridded/io/verdat.py
index b598fd1..7bffdec 100644
--- a/gridded/io/verdat.py
+++ b/gridded/io/verdat.py
@@ -19,6 +19,7 @@ FEET = ("foot", "ft", "feet")
 METER = ("meter", "m", "meters", "metre")
 UNITS_MAP = {u: "FEET" for u in FEET}
 UNITS_MAP.update({u: "METERS" for u in METER})
+UNITS_MAP[""] = ""  # files without units
 
 
 def load_verdat(filename):
-- 
2.43.0


From df3d8b8a19b225de353338835127a874027539b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:14 +0000
Subject: [PATCH 45/87] fix: rectangular grids infer locations for variables of
 any shape

---
 gridded/grids.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gridded/grids.py b/gridded/grids.py
index 8c36d60..ba90c27 100644
--- a/gridded/grids.py
+++ b/gridded/grids.py
@@ -451,6 +451,8 @@ class Grid_R(GridBase):
         if hasattr(variable, "location"):
             return variable.location
 
+        if len(variable.shape) < 2:
+            return None
         x_len = len(self.node_lon)
         y_len = len(self.node_lat)
         node_shape = np.array((y_len, x_len))
@@ -458,9 +460,9 @@ class Grid_R(GridBase):
         difference = (var_shape - node_shape).tolist()
         if (difference == [1, 1] or difference == [-1, -1]) and self.center_lon is not None:
             return "center"
-        elif difference == [1, 0] and self.edge1_lon is not None:
+        elif difference == [1, 0] and getattr(self, "edge1_lon", None) is not None:
             return "edge1"
-        elif difference == [0, 1] and self.edge2_lon is not None:
+        elif difference == [0, 1] and getattr(self, "edge2_lon", None) is not None:
             return "edge2"
         elif difference == [0, 0] and self.node_lon is not None:
             return "node"
-- 
2.43.0


From e972d27d86567bb29dcec507de4ae45f2926b141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:20 +0000
Subject: [PATCH 46/87] fix: unknown location names do not stop rectangular
 grids from inferring a location

---
 gridded/grids.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gridded/grids.py b/gridded/grids.py
index ba90c27..95762e0 100644
--- a/gridded/grids.py
+++ b/gridded/grids.py
@@ -1,5 +1,6 @@
 import numpy as np
 
+from gridded import VALID_LOCATIONS
 from gridded.pysgrid.sgrid import SGrid
 from gridded.pyugrid.ugrid import UGrid
 from gridded.utilities import get_dataset, parse_filename_dataset_args
@@ -448,8 +449,9 @@ class Grid_R(GridBase):
         But now we are checking variable dimensions to which part
         of the grid it is on.
         """
-        if hasattr(variable, "location"):
-            return variable.location
+        location = getattr(variable, "location", None)
+        if location is not None and location in VALID_LOCATIONS:
+            return location
 
         if len(variable.shape) < 2:
             return None
-- 
2.43.0


From 6764c2eadd3dd81d868005d42fe33c18ea194521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:49 +0000
Subject: [PATCH 47/87] fix: units of a vector variable made of one repeated
 letter are kept

---
 gridded/variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index d020cdb..47f4150 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -1173,7 +1173,7 @@ class VectorVariable:
 
         :rtype: string
         """
-        if hasattr(self._units, "__iter__"):
+        if hasattr(self._units, "__iter__") and not isinstance(self._units, str):
             if len(set(self._units)) > 1:
                 return self._units
             else:
-- 
2.43.0


From 143bfb9196fbce6004530b39132a3d7f499917bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:33 +0000
Subject: [PATCH 48/87] fix: times read from a file with a timezone offset stay
 in that timezone

num2date already converts units such as 'hours since 2024-01-01 00:00 -07:00' to UTC; the Time was labelled with the file's offset all the same.
---
 gridded/time.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/gridded/time.py b/gridded/time.py
index b456aa0..8e71a33 100644
--- a/gridded/time.py
+++ b/gridded/time.py
@@ -61,7 +61,7 @@ def parse_time_offset(unit_str):
     :returns: Number: hours, str: name:
 
     """
-    import dateutil
+    import dateutil.parser
 
     t_string = unit_str.split("since")[1]
     try:
@@ -270,6 +270,16 @@ class Time:
             tz_offset_name = name
 
         tdata = nc4.num2date(tvar[:], units=tvar.units, only_use_cftime_datetimes=False, only_use_python_datetimes=True)
+        file_offset = parse_time_offset(tvar.units)[0]
+        if file_offset:
+            import dateutil.parser
+
+            # num2date returns UTC for the offsets it understands (-07:00, but not -7:00):
+            # undo that, the data are kept in the time zone of the file
+            start = nc4.num2date(0, units=tvar.units, only_use_cftime_datetimes=False, only_use_python_datetimes=True)
+            local_start = dateutil.parser.parse(tvar.units.split("since")[1]).replace(tzinfo=None)
+            if start != local_start:
+                tdata = tdata + timedelta(hours=file_offset)
         # Fixme: use the name and pass it through?
         time = cls(
             data=tdata,
-- 
2.43.0


From dabc50d85631c924de05b390f35e05ffd2062e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:39 +0000
Subject: [PATCH 49/87] fix: the bottom rule of a depth object can be given at
 construction

The parameter's name was misspelled, so default_bottom_boundary_condition=... was accepted and ignored.
---
 gridded/depth.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gridded/depth.py b/gridded/depth.py
index 7e092b6..5c87c63 100644
--- a/gridded/depth.py
+++ b/gridded/depth.py
@@ -24,7 +24,7 @@ class DepthBase:
         surface_index=-1,
         bottom_index=0,
         default_surface_boundary_condition="extrapolate",
-        default_bottom_boundary_conditon="mask",
+        default_bottom_boundary_condition="mask",
         **kwargs,
     ):
         """
@@ -36,7 +36,7 @@ class DepthBase:
         self._surface_index = surface_index
         self._bottom_index = bottom_index
         self.default_surface_boundary_condition = default_surface_boundary_condition
-        self.default_bottom_boundary_condition = default_bottom_boundary_conditon
+        self.default_bottom_boundary_condition = default_bottom_boundary_condition
 
     @classmethod
     def _can_create_from_netCDF(
-- 
2.43.0


From 48547d606a857f689ab2507d58dba31b3a6b96f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:15 +0000
Subject: [PATCH 50/87] fix: a topology mapping may name variables with capital
 letters

---
 gridded/grids.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gridded/grids.py b/gridded/grids.py
index 95762e0..cc88707 100644
--- a/gridded/grids.py
+++ b/gridded/grids.py
@@ -51,7 +51,7 @@ class GridBase:
         create a valid instance.
         """
         gf_vars = dataset.variables if dataset is not None else get_dataset(filename).variables
-        gf_vars = dict([(k.lower(), v) for k, v in gf_vars.items()])
+        gf_vars = dict([(k.lower(), v) for k, v in gf_vars.items()], **gf_vars)
         init_args = {}
         gt = {}
         init_args["filename"] = filename
@@ -117,7 +117,7 @@ class Grid_U(GridBase, UGrid):
     def _find_required_grid_attrs(cls, filename, dataset=None, grid_topology=None):
 
         gf_vars = dataset.variables if dataset is not None else get_dataset(filename).variables
-        gf_vars = dict([(k.lower(), v) for k, v in gf_vars.items()])
+        gf_vars = dict([(k.lower(), v) for k, v in gf_vars.items()], **gf_vars)
         # Get superset attributes
         init_args, gt = super()._find_required_grid_attrs(
             filename=filename, dataset=dataset, grid_topology=grid_topology
@@ -171,7 +171,7 @@ class Grid_S(GridBase, SGrid):
         # Get superset attributes
         # get_datset is not defined -- this must not be used
         gf_vars = dataset.variables if dataset is not None else get_dataset(filename).variables
-        gf_vars = dict([(k.lower(), v) for k, v in gf_vars.items()])
+        gf_vars = dict([(k.lower(), v) for k, v in gf_vars.items()], **gf_vars)
         init_args, gt = super()._find_required_grid_attrs(filename, dataset=dataset, grid_topology=grid_topology)
 
         # These are the attributes to search for, the keys in a grid_topology
@@ -277,7 +277,7 @@ class Grid_R(GridBase):
         # are dealt with
         # Get superset attributes
         gf_vars = dataset.variables if dataset is not None else get_dataset(filename).variables
-        gf_vars = dict([(k.lower(), v) for k, v in gf_vars.items()])
+        gf_vars = dict([(k.lower(), v) for k, v in gf_vars.items()], **gf_vars)
         init_args, gt = super()._find_required_grid_attrs(filename, dataset=dataset, grid_topology=grid_topology)
 
         # Grid_R only needs node_lon and node_lat.
-- 
2.43.0


From 46bea0d3051da5555bd1449ec183cfcaffc7af65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:21 +0000
Subject: [PATCH 51/87] fix: a file's grid_type attribute is honoured for
 rectangular grids and in any case

---
 gridded/grids.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gridded/grids.py b/gridded/grids.py
index cc88707..ee844ae 100644
--- a/gridded/grids.py
+++ b/gridded/grids.py
@@ -607,7 +607,10 @@ class Grid:
                 return Grid_S
         else:
             # no topology, so search dataset for grid_type variable
-            if hasattr(dataset, "grid_type") and dataset.grid_type in sgrid_names + ugrid_names:
+            if (
+                hasattr(dataset, "grid_type")
+                and str(dataset.grid_type).lower() in sgrid_names + ugrid_names + rgrid_names
+            ):
                 if dataset.grid_type.lower() in ugrid_names:
                     return Grid_U
                 elif dataset.grid_type.lower() in rgrid_names:
-- 
2.43.0


From 4ef1d3a29de9fa9e11dc5a3119ecbe2b780c95aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:34 +0000
Subject: [PATCH 52/87] fix: the nodes are read from the variable a topology
 mapping names

---
 gridded/grids.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gridded/grids.py b/gridded/grids.py
index ee844ae..712de5b 100644
--- a/gridded/grids.py
+++ b/gridded/grids.py
@@ -81,9 +81,9 @@ class GridBase:
                 if n in node_attrs:
                     init_args[n] = gf_vars[v][:]
                 if n in composite_node_names:
-                    v = gf_vars[n][:].reshape(-1, 2)
-                    init_args[node_attrs[0]] = v[:, 0]
-                    init_args[node_attrs[1]] = v[:, 1]
+                    nodes = gf_vars[v][:].reshape(-1, 2)
+                    init_args[node_attrs[0]] = nodes[:, 0]
+                    init_args[node_attrs[1]] = nodes[:, 1]
             gt = grid_topology
         return init_args, gt
 
-- 
2.43.0


From 08cfc1e2df2815c86be2982520be705db989ee46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:53 +0000
Subject: [PATCH 53/87] fix: variables are searched by name before description,
 so FVCOM levels and layers stay apart

---
 gridded/utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gridded/utilities.py b/gridded/utilities.py
index c936368..4827237 100644
--- a/gridded/utilities.py
+++ b/gridded/utilities.py
@@ -470,11 +470,11 @@ def search_netcdf_vars(cls=None, ds=None, dg=None):
     """
     vn_search = search_dataset_for_variables_by_varname(ds, cls.default_names)
     ds_search = search_dataset_for_variables_by_longname(ds, cls.cf_names)
-    found_vars = merge_var_search_dicts(ds_search, vn_search)
+    found_vars = merge_var_search_dicts(vn_search, ds_search)
     if ds != dg:
         dg_vn_search = search_dataset_for_variables_by_varname(dg, cls.default_names)
         dg_ln_search = search_dataset_for_variables_by_longname(dg, cls.cf_names)
-        dg_search = merge_var_search_dicts(dg_ln_search, dg_vn_search)
+        dg_search = merge_var_search_dicts(dg_vn_search, dg_ln_search)
         found_vars = merge_var_search_dicts(found_vars, dg_search)
     return found_vars
 
-- 
2.43.0


From 2103c6ee127bef0307e613cf67d83e6f3e97fcb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:59 +0000
Subject: [PATCH 54/87] fix: depth levels are found by their standard name, not
 by its letters

---
 gridded/depth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/depth.py b/gridded/depth.py
index 5c87c63..3bedec1 100644
--- a/gridded/depth.py
+++ b/gridded/depth.py
@@ -151,7 +151,7 @@ class DepthBase:
 class L_Depth(DepthBase):
     default_terms = [("depth_levels")]
     default_names = {"depth_levels": ["depth", "depth_levels", "Depth"]}
-    cf_names = {"depth_levels": "depth"}
+    cf_names = {"depth_levels": ["depth"]}
 
     def __init__(self, terms=None, **kwargs):
         super().__init__(**kwargs)
-- 
2.43.0


From 998840376c718a8a29c2a8e4ec73321110c6007e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:05 +0000
Subject: [PATCH 55/87] fix: the surface index asked for is used when only the
 surface is known

---
 gridded/depth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/depth.py b/gridded/depth.py
index 3bedec1..d76f1fe 100644
--- a/gridded/depth.py
+++ b/gridded/depth.py
@@ -50,7 +50,7 @@ class DepthBase:
 
     @classmethod
     def from_netCDF(cls, surface_index=-1, **kwargs):
-        return cls(surface_index, **kwargs)
+        return cls(surface_index=surface_index, **kwargs)
 
     @property
     def surface_index(self):
-- 
2.43.0


From 3148a00e652d25e9459add90c093fa2954503ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:11 +0000
Subject: [PATCH 56/87] fix: the free surface's own location decides whether it
 is averaged to the nodes

---
 gridded/depth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/depth.py b/gridded/depth.py
index d76f1fe..b39f7f4 100644
--- a/gridded/depth.py
+++ b/gridded/depth.py
@@ -544,7 +544,7 @@ class S_Depth(DepthBase):
                 warnings.warn(warn)
                 zeta = Zeta.constant(0)
             else:
-                if 'node' in grid.infer_location(bathy_var):
+                if 'node' in grid.infer_location(zeta_var):
                     zeta = Zeta(data=zeta_var, grid=grid, time=time, name="zeta")
                 else:
                     #zeta data is on cell centers, but needs to be averaged to the nodes in order
-- 
2.43.0


From 508e6b181d19c9df9b69dfd039887f260921fee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:16 +0000
Subject: [PATCH 57/87] fix: levels given by the caller are not changed when
 their top is set to zero

---
 gridded/depth.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gridded/depth.py b/gridded/depth.py
index b39f7f4..e98e73b 100644
--- a/gridded/depth.py
+++ b/gridded/depth.py
@@ -192,6 +192,7 @@ class L_Depth(DepthBase):
             for term, tvar in nc_vars.items():
                 terms[term] = tvar[:]
         # 2023-02-21 set the depth of the top layer to zero
+        terms = dict(terms, depth_levels=np.array(terms["depth_levels"]))  # not in the caller's terms
         surface_index = np.argmin(terms["depth_levels"])
         terms["depth_levels"][surface_index] = 0.0
         # 2023-02-21 set the depth of the top layer to zero
-- 
2.43.0


From 2486e1a1a556c194766a5d9cfd27065fc8474b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:42 +0000
Subject: [PATCH 58/87] fix: terms of an s-coordinate can be given by the names
 of their variables

---
 gridded/depth.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/gridded/depth.py b/gridded/depth.py
index e98e73b..fb6e40a 100644
--- a/gridded/depth.py
+++ b/gridded/depth.py
@@ -485,6 +485,12 @@ class S_Depth(DepthBase):
 
         # Do a comprehensive search for netCDF4 Variables all at once
         nc_vars = search_netcdf_vars(cls, ds, dg)
+        given_terms = {}
+        for term, source in (terms or {}).items():
+            if isinstance(source, str):  # the name of a netCDF variable
+                nc_vars[term] = ds.variables[source] if source in ds.variables else dg.variables[source]
+            else:
+                given_terms[term] = source
 
         if time is None:
             if zeta is None:
@@ -554,16 +560,15 @@ class S_Depth(DepthBase):
                     psi_z = (z[:,:,0:-1] + z[:,:,1:]) /2
                     zeta = Zeta(data=psi_z, grid=grid, time=time, name="zeta")
 
-        if terms is None:
-            terms = {}
-            for term, tvar in nc_vars.items():
-                if term in ["bathymetry", "zeta"]:
-                    # skip these because they're done separately...
-                    continue
-                if tvar is not None:
-                    terms[term] = tvar[:]
-                else:
-                    warnings.warn('term not found in netCDF dataset: ' + term)
+        terms = given_terms
+        for term, tvar in nc_vars.items():
+            if term in ["bathymetry", "zeta"] or term in terms:
+                # skip these because they're done separately...
+                continue
+            if tvar is not None:
+                terms[term] = tvar[:]
+            else:
+                warnings.warn('term not found in netCDF dataset: ' + term)
         if vtransform is None:
             vtransform = 2  # default for ROMS
             #  messing about trying to detect this.
-- 
2.43.0


From 2b392fd0f3d32d73828df38daf88bc6daa47c893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:19 +0000
Subject: [PATCH 59/87] fix: separate data and grid files take precedence over
 the default file name

---
 gridded/utilities.py | 3 ++-
 gridded/variable.py  | 8 ++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/gridded/utilities.py b/gridded/utilities.py
index 4827237..311394a 100644
--- a/gridded/utilities.py
+++ b/gridded/utilities.py
@@ -418,7 +418,8 @@ def parse_filename_dataset_args(
             filename = os.fspath(filename)
         except TypeError:
             pass
-        data_file = grid_file = filename
+        data_file = filename if data_file is None else data_file
+        grid_file = filename if grid_file is None else grid_file
     if dataset is None:
         if grid_file == data_file:
             ds = dg = get_dataset(grid_file)
diff --git a/gridded/variable.py b/gridded/variable.py
index 47f4150..d0c3788 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -222,8 +222,8 @@ class Variable:
         Time = cls._default_component_types["time"]
         Depth = cls._default_component_types["depth"]
         if filename is not None:
-            data_file = filename
-            grid_file = filename
+            data_file = filename if data_file is None else data_file
+            grid_file = filename if grid_file is None else grid_file
 
         ds, dg = parse_filename_dataset_args(
             filename=filename, dataset=dataset, grid_file=grid_file, data_file=data_file
@@ -984,8 +984,8 @@ class VectorVariable:
         Variable = cls._default_component_types["variable"]
         Depth = cls._default_component_types["depth"]
         if filename is not None:
-            data_file = filename
-            grid_file = filename
+            data_file = filename if data_file is None else data_file
+            grid_file = filename if grid_file is None else grid_file
 
         ds, dg = parse_filename_dataset_args(
             filename=filename, dataset=dataset, grid_file=grid_file, data_file=data_file
-- 
2.43.0


From 585149b755c85f2f9106b31e67593888286d49bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:24 +0000
Subject: [PATCH 60/87] fix: data of a variable without a time series can be
 replaced

---
 gridded/variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index d0c3788..601c992 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -383,7 +383,7 @@ class Variable:
     def data(self, d):
         d = asarraylike(d)
         # Fixme: maybe all this checking should be done when it gets added to the Dataset??
-        if self.time is not None and len(d) != len(self.time):
+        if self.time is not None and len(d) != len(self.time) and len(self.time) > 1:
             raise ValueError("Data/time interval mismatch")
         ## fixme: we should check Depth, too.
         if self.grid is not None:  # if there is not a grid, we can't check this
-- 
2.43.0


From 3fd6b8d9274a8cdd0c31371e67b9b8f3b39095e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:13 +0000
Subject: [PATCH 61/87] fix: a dataset can be loaded from a series of files

---
 gridded/gridded.py   | 5 ++++-
 gridded/utilities.py | 6 ++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/gridded/gridded.py b/gridded/gridded.py
index 4f1ea9d..a28b8f6 100644
--- a/gridded/gridded.py
+++ b/gridded/gridded.py
@@ -94,7 +94,10 @@ class Dataset:
             raise NotImplementedError("Loading from separate netcdf files is not yet supported")
 
         self.nc_dataset = get_dataset(filename)
-        self.filename = self.nc_dataset.filepath()
+        try:
+            self.filename = self.nc_dataset.filepath()
+        except RuntimeError:  # a series of files
+            self.filename = filename
         self.grid = Grid.from_netCDF(filename=self.filename,
                                      dataset=self.nc_dataset,
                                      grid_topology=grid_topology)
diff --git a/gridded/utilities.py b/gridded/utilities.py
index 311394a..6d7f27d 100644
--- a/gridded/utilities.py
+++ b/gridded/utilities.py
@@ -456,10 +456,12 @@ def get_writable_dataset(ncfile, format="netcdf4"):
 
 def get_dataset_attrs(ds):
     """
-    get all the attributes of the dataset as a single dict
+    get all the attributes of the dataset, or of one of its variables, as a single dict
 
-    :param ds: an open netCDF4.Dataset
+    :param ds: an open netCDF4.Dataset or netCDF4.Variable
     """
+    if isinstance(ds, nc4.MFDataset) or not hasattr(ds, "getncattr"):  # a series of files
+        return {name: getattr(ds, name) for name in ds.ncattrs()}
     return {name: ds.getncattr(name) for name in ds.ncattrs()}
 
 
-- 
2.43.0


From 0a486e7ebe063b82d811dd4e7e14e9f8682912dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:18 +0000
Subject: [PATCH 62/87] fix: variables of a series of files keep their
 attributes

---
 gridded/variable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index 601c992..a1e91dd 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -16,6 +16,7 @@ from gridded.utilities import (
     _reorganize_spatial_data,
     asarraylike,
     get_dataset,
+    get_dataset_attrs,
     parse_filename_dataset_args,
 )
 
@@ -125,8 +126,7 @@ class Variable:
         self.attributes = {} if attributes is None else attributes
         # if the data is a netcdf variable, pull the attributes from there
         try:
-            for attr in self.data.ncattrs():
-                self.attributes[attr] = data.getncattr(attr)
+            self.attributes.update(get_dataset_attrs(self.data))
         except AttributeError:  # must not be a netcdf variable
             pass  # so just use what was passed in.
         self.surface_boundary_condition = surface_boundary_condition
-- 
2.43.0


From 4f60946cf9fae10f2f99ada34c47ee67d2d0393d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:24 +0000
Subject: [PATCH 63/87] fix: a variable loaded at once keeps the attributes it
 has in the file

---
 gridded/variable.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gridded/variable.py b/gridded/variable.py
index a1e91dd..934ed1d 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -277,6 +277,7 @@ class Variable:
             if hasattr(data, "location"):
                 location = data.location
         if load_all:
+            kwargs.setdefault("attributes", get_dataset_attrs(data))
             data = data[:]
         return cls(
             name=name,
-- 
2.43.0


From c1722699b92b73501309752a17137d72a98d2e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:31 +0000
Subject: [PATCH 64/87] fix: a dataset made from a file uses the grid topology
 it is given

---
 gridded/gridded.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/gridded.py b/gridded/gridded.py
index a28b8f6..1011f6d 100644
--- a/gridded/gridded.py
+++ b/gridded/gridded.py
@@ -73,7 +73,7 @@ class Dataset:
         if ncfile is not None:
             if grid is not None or variables is not None or attributes is not None:
                 raise ValueError("You can create a Dataset from a file, or from raw databut not both.")
-            self._init_from_netCDF(ncfile)
+            self._init_from_netCDF(ncfile, grid_topology=grid_topology)
         else:  # Create from grid and variables -- this is what should usually happen.
             self.filename = None
             self.grid = grid
-- 
2.43.0


From b335eb251a21e0200affa1ba24e60765d523b047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:24 +0000
Subject: [PATCH 65/87] fix: a UVar does not add the attributes of its data to
 the caller's dict

---
 gridded/pyugrid/uvar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gridded/pyugrid/uvar.py b/gridded/pyugrid/uvar.py
index b4713ea..4e15c87 100755
--- a/gridded/pyugrid/uvar.py
+++ b/gridded/pyugrid/uvar.py
@@ -60,7 +60,8 @@ class UVar:
 
         # FixMe: we need a separate attribute dict -- we really do'nt want all this
         #        getting mixed up with the python object attributes
-        self.attributes = {} if attributes is None else attributes
+        # a copy: attributes read from the data must not end up in the caller's dict
+        self.attributes = {} if attributes is None else dict(attributes)
         # if the data is a netcdf variable, pull the attributes from there
         try:
             for attr in data.ncattrs():
-- 
2.43.0


From 074a1086a982a50ea31a31fcae5379b5e94d61e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:31 +0000
Subject: [PATCH 66/87] fix: reading a UVar whose data was replaced gives the
 new data

---
 gridded/pyugrid/uvar.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gridded/pyugrid/uvar.py b/gridded/pyugrid/uvar.py
index 4e15c87..1c1baba 100755
--- a/gridded/pyugrid/uvar.py
+++ b/gridded/pyugrid/uvar.py
@@ -90,10 +90,12 @@ class UVar:
     @data.setter
     def data(self, data):
         self._data = asarraylike(data)
+        self._cache.clear()
 
     @data.deleter
     def data(self):
         self._data = self._data = np.zeros((0,), dtype=np.float64)
+        self._cache.clear()
 
     @property
     def shape(self):
-- 
2.43.0


From 322ebd87b093e43504c9ccb68ee668c2ee01e8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:11 +0000
Subject: [PATCH 67/87] fix: variables read the index asked for, and their data
 as it is now

---
 gridded/pysgrid/variables.py | 12 +++++++-----
 gridded/pyugrid/uvar.py      | 27 +++++++++++++--------------
 gridded/utilities.py         | 15 +++++++++++++++
 3 files changed, 35 insertions(+), 19 deletions(-)

diff --git a/gridded/pysgrid/variables.py b/gridded/pysgrid/variables.py
index 8933eda..f3bc1e0 100644
--- a/gridded/pysgrid/variables.py
+++ b/gridded/pysgrid/variables.py
@@ -10,6 +10,7 @@ import numpy as np
 
 from gridded.pysgrid.read_netcdf import parse_axes, parse_vector_axis
 from gridded.pysgrid.utils import determine_variable_slicing, infer_avg_axes, infer_variable_location
+from gridded.utilities import index_key
 
 
 class SGridVariable:
@@ -173,15 +174,16 @@ class SGridVariable:
 
         if not hasattr(self, "_cache"):
             self._cache = OrderedDict()
-        rv = None
-        if str(item) in self._cache:
-            rv = self._cache[str(item)]
+        key = index_key(item)
+        if key in self._cache:
+            rv = self._cache[key]
         else:
             rv = self._data.__getitem__(item)
-            self._cache[str(item)] = rv
+            self._cache[key] = rv
             if len(self._cache) > 3:
                 self._cache.popitem(last=False)
-        return rv
+        # a copy: what the caller does with it must not change the cached one
+        return rv.copy() if isinstance(rv, np.ndarray) else rv
 
     def __str__(self):
         return f"SGridVariable object: {self.standard_name:s}, on the {self.location:s}s"
diff --git a/gridded/pyugrid/uvar.py b/gridded/pyugrid/uvar.py
index 1c1baba..274c9f0 100755
--- a/gridded/pyugrid/uvar.py
+++ b/gridded/pyugrid/uvar.py
@@ -15,6 +15,8 @@ from collections import OrderedDict
 
 import numpy as np
 
+from gridded.utilities import index_key
+
 try:
     from .util import asarraylike, isarraylike
 except ValueError:
@@ -128,15 +130,19 @@ class UVar:
         """
         Transfers responsibility to the data's __getitem__ if not cached
         """
-        rv = None
-        if str(item) in self._cache:
-            rv = self._cache[str(item)]
+        if isinstance(self._data, np.ndarray):
+            # already in memory: a cached copy would not follow changes to it
+            return self._data[item]
+        key = index_key(item)
+        if key in self._cache:
+            rv = self._cache[key]
         else:
             rv = self._data.__getitem__(item)
-            self._cache[str(item)] = rv
+            self._cache[key] = rv
             if len(self._cache) > 3:
                 self._cache.popitem(last=False)
-        return rv
+        # a copy: what the caller does with it must not change the cached one
+        return rv.copy() if isinstance(rv, np.ndarray) else rv
 
     def __str__(self):
         print("in __str__, data is:", self.data)
@@ -191,7 +197,6 @@ class UMVar:
             setattr(self, d.name, d)
 
         self.variables = [d.name for d in data]
-        self._cache = OrderedDict()
 
     def add_var(self, var):
         if var.shape != self.shape:
@@ -202,14 +207,8 @@ class UMVar:
         setattr(self, var.name, var)
 
     def __getitem__(self, item):
-        if str(item) in self._cache:
-            return self._cache[str(item)]
-        else:
-            rv = np.ma.column_stack([self.__getattribute__(var).__getitem__(item) for var in self.variables])
-            self._cache[str(item)] = rv
-            if len(self._cache) > 3:
-                self._cache.popitem(last=False)
-            return rv
+        # not cached: the grouped variables can change, and do their own caching
+        return np.ma.column_stack([self.__getattribute__(var).__getitem__(item) for var in self.variables])
 
 
 if __name__ == "__main__":
diff --git a/gridded/utilities.py b/gridded/utilities.py
index 6d7f27d..0477204 100644
--- a/gridded/utilities.py
+++ b/gridded/utilities.py
@@ -332,6 +332,21 @@ def _align_results_to_spatial_data(result, points):
                 return result
 
 
+def index_key(item):
+    """
+    A hashable key that identifies an index into an array
+
+    The text of an index will not do: numpy abbreviates that of a long array.
+
+    :param item: anything an array can be indexed with
+    """
+    if isinstance(item, (tuple, list)):
+        return (type(item).__name__, *[index_key(i) for i in item])
+    if isinstance(item, np.ndarray):
+        return (str(item.dtype), item.shape, item.tobytes())
+    return repr(item)
+
+
 def isarraylike(obj):
     """
     tests if obj acts enough like an array to be used in gridded.
-- 
2.43.0


From 78b01725f7d327cbd4cf6f65207bf71b99a6060c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:17 +0000
Subject: [PATCH 68/87] fix: UMVar refuses variables that share a name

---
 gridded/pyugrid/uvar.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gridded/pyugrid/uvar.py b/gridded/pyugrid/uvar.py
index 274c9f0..3071fcf 100755
--- a/gridded/pyugrid/uvar.py
+++ b/gridded/pyugrid/uvar.py
@@ -193,6 +193,9 @@ class UMVar:
         if not all([d.shape == self.shape for d in data]):
             raise ValueError("All data sources must be the same size and shape")
 
+        if len({d.name for d in data}) != len(data):
+            raise ValueError("All data sources must have unique names")
+
         for d in data:
             setattr(self, d.name, d)
 
-- 
2.43.0


From 2c8493bbf3b8672d9d8418e66022737f2c3954ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:26 +0000
Subject: [PATCH 69/87] fix: the extremes of a variable of a file leave out its
 missing values

---
 gridded/pysgrid/variables.py | 4 ++--
 gridded/pyugrid/uvar.py      | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/gridded/pysgrid/variables.py b/gridded/pysgrid/variables.py
index f3bc1e0..59098a7 100644
--- a/gridded/pysgrid/variables.py
+++ b/gridded/pysgrid/variables.py
@@ -152,11 +152,11 @@ class SGridVariable:
 
     @property
     def max(self):
-        return np.max(self._data)
+        return np.max(self._data[:])
 
     @property
     def min(self):
-        return np.min(self._data)
+        return np.min(self._data[:])
 
     @property
     def ndim(self):
diff --git a/gridded/pyugrid/uvar.py b/gridded/pyugrid/uvar.py
index 3071fcf..4206306 100755
--- a/gridded/pyugrid/uvar.py
+++ b/gridded/pyugrid/uvar.py
@@ -109,12 +109,12 @@ class UVar:
     @property
     def max(self):
         """maximum value of the variable"""
-        return np.max(self._data)
+        return np.max(self._data[:])
 
     @property
     def min(self):
         """minimum value of the variable"""
-        return np.min(self._data)
+        return np.min(self._data[:])
 
     @property
     def dtype(self):
-- 
2.43.0


From 5dca91d9cfb45200ecede20a1cf7613c9ffdffb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:14 +0000
Subject: [PATCH 70/87] fix: grids are equal when the same of their values are
 missing

---
 gridded/pysgrid/sgrid.py |  7 +++----
 gridded/pyugrid/ugrid.py |  8 ++++----
 gridded/utilities.py     | 14 ++++++++++++++
 3 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index a92417c..70c6bf8 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -14,7 +14,7 @@ from netCDF4 import Dataset
 from gridded.pysgrid.read_netcdf import NetCDFDataset, find_grid_topology_var, parse_padding
 from gridded.pysgrid.utils import GridPadding, calculate_angle_from_true_east, pair_arrays
 from gridded.pysgrid.variables import SGridVariable
-from gridded.utilities import convert_mask_to_numpy_mask, gen_celltree_mask_from_center_mask
+from gridded.utilities import convert_mask_to_numpy_mask, gen_celltree_mask_from_center_mask, same_arrays
 
 node_alternate_names = ["node", "nodes", "psi", "vertex", "vertices", "point", "points"]
 center_alternate_names = ["center", "centers", "face", "faces", "cell", "cells"]
@@ -172,11 +172,10 @@ class SGrid:
             "center_lat",
             "center_mask",
             "faces",
-            "face_padding",
         ):
-            if not np.array_equal(getattr(self, attr), getattr(other, attr)):
+            if not same_arrays(getattr(self, attr), getattr(other, attr)):
                 return False
-        return True
+        return np.array_equal(self.face_padding, other.face_padding)
 
     @classmethod
     def load_grid(cls, nc):
diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 253dcdb..d801c38 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -24,7 +24,7 @@ import numpy as np
 
 import gridded.pyugrid.read_netcdf as read_netcdf
 from gridded.pyugrid.util import point_in_tri
-from gridded.utilities import get_writable_dataset
+from gridded.utilities import get_writable_dataset, same_arrays
 
 # from gridded.pyugrid.uvar import UVar
 
@@ -225,9 +225,9 @@ class UGrid:
         if self.__class__ is not other.__class__:
             return False
         if (
-            np.array_equal(self.nodes, other.nodes)
-            and np.array_equal(self.faces, other.faces)
-            and np.array_equal(self.boundaries, other.boundaries)
+            same_arrays(self.nodes, other.nodes)
+            and same_arrays(self.faces, other.faces)
+            and same_arrays(self.boundaries, other.boundaries)
         ):
             return True
         return False
diff --git a/gridded/utilities.py b/gridded/utilities.py
index 0477204..bfb5d09 100644
--- a/gridded/utilities.py
+++ b/gridded/utilities.py
@@ -347,6 +347,20 @@ def index_key(item):
     return repr(item)
 
 
+def same_arrays(a, b):
+    """
+    Whether two arrays (or None) hold the same values, with the same ones missing
+
+    What lies under a mask does not count: numpy's array_equal would look at that, and not at the mask.
+    """
+    if a is None or b is None:
+        return a is b
+    a, b = np.ma.asarray(a[:]), np.ma.asarray(b[:])
+    if a.shape != b.shape:
+        return False
+    return np.array_equal(np.ma.getmaskarray(a), np.ma.getmaskarray(b)) and np.array_equal(a.filled(0), b.filled(0))
+
+
 def isarraylike(obj):
     """
     tests if obj acts enough like an array to be used in gridded.
-- 
2.43.0


From ae893cbf13489c040751cff5e5666088ea093989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:23 +0000
Subject: [PATCH 71/87] fix: plot_ugrid draws a mesh of three triangles as it
 is, not transposed

---
 gridded/plotting/mpl_plotting.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/gridded/plotting/mpl_plotting.py b/gridded/plotting/mpl_plotting.py
index ef09bc4..5fcb951 100644
--- a/gridded/plotting/mpl_plotting.py
+++ b/gridded/plotting/mpl_plotting.py
@@ -47,12 +47,9 @@ def plot_ugrid(axes, grid, nodes=False, node_numbers=False, face_numbers=False):
     """
 
     nodes_lon, nodes_lat = grid.node_lon, grid.node_lat
+    # one row per face, also when there are exactly three of them
     faces = grid.faces
 
-    if faces.shape[0] == 3:
-        # swap order for mpl triangulation
-        faces = faces.T
-
     mpl_tri = Triangulation(nodes_lon, nodes_lat, faces)
 
     axes.triplot(mpl_tri)
-- 
2.43.0


From c6895b4ffd0b84d4f00f8414ac7897bdc587b2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:40 +0000
Subject: [PATCH 72/87] fix: changing the edges of a UGrid drops the tables
 that referred to the old ones

---
 gridded/pyugrid/ugrid.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index d801c38..f9779cd 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -364,7 +364,8 @@ class UGrid:
             self._edges = np.asanyarray(edges_indexes, dtype=IND_DT)
         else:
             self._edges = None
-            self._face_edge_connectivity = None
+        # It referred to the edges there were before.
+        self._face_edge_connectivity = None
 
     @edges.deleter
     def edges(self):
@@ -872,6 +873,9 @@ class UGrid:
         """
 
         num_vertices = self.num_vertices
+        # These refer to the edges being replaced.
+        self._face_edge_connectivity = None
+        self.edge_coordinates = None
         if self.faces is None:
             # No faces means no edges
             self._edges = None
-- 
2.43.0


From 4b044466a014aeb66d7895bcdcfe1cd2dbd7d884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:20 +0000
Subject: [PATCH 73/87] fix: SGrid.nearest_var_to_points reads the right values
 when the location of the variable cannot be inferred

---
 gridded/pysgrid/sgrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 70c6bf8..779a44f 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -979,13 +979,13 @@ class SGrid:
             indices = self.locate_nearest(points, grid, _memo, _copy, _hash)
         [yslice, xslice] = self.get_efficient_slice(points, indices, grid, _memo, _copy, _hash)
         if slices is not None:
+            slices = tuple(slices)
             slices = slices + (yslice,)
             slices = slices + (xslice,)
         else:
             slices = (yslice, xslice)
 
-        if self.infer_location(variable) is not None:
-            variable = variable[slices]
+        variable = variable[slices]
         if len(variable.shape) > 2:
             raise ValueError(
                 "Variable has too many dimensions to \
-- 
2.43.0


From 845e3f1ee7c6dc3791a0ebfe164b20f15280e04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:26 +0000
Subject: [PATCH 74/87] fix: slices can be given as a list, as documented, to
 interpolate_var_to_points

---
 gridded/pysgrid/sgrid.py | 2 ++
 gridded/pyugrid/ugrid.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 779a44f..47105b2 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -1187,6 +1187,8 @@ class SGrid:
         # else:
         #     slices = (xslice, yslice)
         zero_aligned_idxs = idxs#.copy() - [xslice.start, yslice.start]
+        if isinstance(slices, list):
+            slices = tuple(slices)  # a list would select from the first dimension only
         var = variable[:] if slices is None else variable[slices]
         if len(var.shape) > 2:
             raise ValueError(
diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index f9779cd..1bc7cb6 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -793,6 +793,8 @@ class UGrid:
             raise ValueError("Data is incompatible with grid nodes or faces")
 
         if slices is not None:
+            if isinstance(slices, list):
+                slices = tuple(slices)  # a list would select from the first dimension only
             if len(slices) == 1:
                 slices = slices[0]
             variable = variable[slices]
-- 
2.43.0


From df9e6802065b9c4513bd8460070d78b6af1dbbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:09 +0000
Subject: [PATCH 75/87] fix: results are not remembered past a change of the
 time axis, grid or depth a Variable holds

---
 gridded/variable.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/gridded/variable.py b/gridded/variable.py
index 934ed1d..2f08ae2 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -41,6 +41,7 @@ class Variable:
     cf_names = []
     _instance_count = 0
     _versions = itertools.count()
+    _remembered = ()
 
     _default_component_types = {"time": Time, "grid": Grid, "depth": Depth}
 
@@ -447,11 +448,31 @@ class Variable:
         self._result_memo = collections.OrderedDict()
         self._version = next(Variable._versions)
 
+    def _held_parts(self):
+        """
+        The objects that determine the results, which can be replaced without this Variable being told
+        """
+        held = [self.grid, self.depth, self.time, getattr(self.time, "data", None)]
+        for name in ("nodes", "faces") if isinstance(self.grid, Grid_U) else ("node_lon", "node_lat"):
+            held.append(getattr(self.grid, name, None))
+        if self.depth is not None:
+            held.extend(vars(self.depth).values())
+            for name in ("bathymetry", "zeta"):
+                if isinstance(getattr(self.depth, name, None), Variable):
+                    held.extend(getattr(self.depth, name)._held_parts())
+                    held.append(getattr(self.depth, name).data)
+        return held
+
     @property
     def _memo_state(self):
         """
         What memoised results depend on besides the query
         """
+        held = self._held_parts()
+        if len(held) != len(self._remembered) or any(a is not b for a, b in zip(held, self._remembered)):
+            # something was replaced through the object that holds it
+            self._forget_results()
+            self._remembered = held
         return (self._version, self.surface_boundary_condition, self.bottom_boundary_condition, self.fill_value)
 
     def _memoize_result(self, points, time, result, D, _copy=False, _hash=None):
-- 
2.43.0


From ceac5c3fb81a14a6cbe1650c65d8889d46692ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:10 +0000
Subject: [PATCH 76/87] fix: saving in the netcdf3 format writes that format

---
 gridded/gridded.py       | 4 ++--
 gridded/pyugrid/ugrid.py | 4 ++--
 gridded/utilities.py     | 4 +++-
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/gridded/gridded.py b/gridded/gridded.py
index 1011f6d..43d284c 100644
--- a/gridded/gridded.py
+++ b/gridded/gridded.py
@@ -224,10 +224,10 @@ class Dataset:
             raise ValueError(f"format: {format} not supported. Options are: {format_options}")
 
         # create an ncdataset
-        ncds = get_writable_dataset(filename)
+        ncds = get_writable_dataset(filename, format=format)
 
         # Save the grid and variables
-        self.grid.save(ncds, format="netcdf4", variables=self.variables)
+        self.grid.save(ncds, format=format, variables=self.variables)
 
         ncds.close()
 
diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 1bc7cb6..89f0518 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -1020,7 +1020,7 @@ class UGrid:
         :param format: format to save -- 'netcdf3' or 'netcdf4'
                        are the only options at this point.
         """
-        self.save(filename, format="netcdf4")
+        self.save(filename, format=format)
 
     def save(self, filepath, format="netcdf4", variables={}):
         """
@@ -1044,7 +1044,7 @@ class UGrid:
 
         mesh_name = self.mesh_name
 
-        nclocal = get_writable_dataset(filepath)
+        nclocal = get_writable_dataset(filepath, format=format)
 
         nclocal.createDimension(mesh_name + "_num_node", len(self.nodes))
         if self._edges is not None:
diff --git a/gridded/utilities.py b/gridded/utilities.py
index bfb5d09..a4651ee 100644
--- a/gridded/utilities.py
+++ b/gridded/utilities.py
@@ -478,7 +478,9 @@ def get_writable_dataset(ncfile, format="netcdf4"):
         return ncfile
     elif isstring(ncfile):  # Fixme: should be pathlike...
         print("filename is:", ncfile)
-        return nc4.Dataset(ncfile, mode="w", clobber=True, format="NETCDF4")
+        return nc4.Dataset(
+            ncfile, mode="w", clobber=True, format="NETCDF3_CLASSIC" if format == "netcdf3" else "NETCDF4"
+        )
     else:
         raise ValueError("Must be a string path or a netcdf4 Dataset")
 
-- 
2.43.0


From a4a6425a7c5da2873da1175b40669122f65e77dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:58 +0000
Subject: [PATCH 77/87] fix: missing values and lists of slices are handled
 alike by every way to interpolate on a rectangular grid

---
 gridded/grids.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gridded/grids.py b/gridded/grids.py
index 712de5b..d0e1aaf 100644
--- a/gridded/grids.py
+++ b/gridded/grids.py
@@ -406,10 +406,11 @@ class Grid_R(GridBase):
         points_x = points[:, 0]  # lon
         y, x = self.lonlat_to_yx(variable)
 
-        if slices is not None:
-            variable = variable[slices]
-            if np.ma.isMA(variable):
-                variable = variable.filled(0)  # eventually should use Variable fill value
+        if isinstance(slices, list):
+            slices = tuple(slices)  # a list would select from the first dimension only
+        variable = variable[() if slices is None else slices]
+        if np.ma.isMA(variable):
+            variable = variable.filled(0)  # eventually should use Variable fill value
 
         # idx_y = np.digitize(points_y, y) - 1
         # idx_x = np.digitize(points_x, x) - 1
-- 
2.43.0


From 61313fa6fa4d008ac3db2e1ca77ee7a3935c14b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:15 +0000
Subject: [PATCH 78/87] fix: masking entries of a remembered result no longer
 changes later answers

---
 gridded/pysgrid/sgrid.py | 5 +++--
 gridded/variable.py      | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 47105b2..7cf6127 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -557,7 +557,8 @@ class SGrid:
         :param D: Dict that will store hash -> item mapping.
         :param _hash: If hash is already computed it may be passed in here.
         """
-        if _copy:
+        if _copy or isinstance(item, np.ma.MaskedArray):
+            # what the caller gets must not share its mask, which stays writable
             item = item.copy()
         item.setflags(write=False)
         if _hash is None:
@@ -571,7 +572,7 @@ class SGrid:
         if _hash is None:
             _hash = self._hash_of_pts(points)
         if D is not None and _hash in D:
-            return D[_hash].copy() if _copy else D[_hash]
+            return D[_hash].copy() if _copy or isinstance(D[_hash], np.ma.MaskedArray) else D[_hash]
         else:
             return None
 
diff --git a/gridded/variable.py b/gridded/variable.py
index 2f08ae2..a4e5bfc 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -476,7 +476,8 @@ class Variable:
         return (self._version, self.surface_boundary_condition, self.bottom_boundary_condition, self.fill_value)
 
     def _memoize_result(self, points, time, result, D, _copy=False, _hash=None):
-        if _copy:
+        if _copy or isinstance(result, np.ma.MaskedArray):
+            # what the caller gets must not share its mask, which stays writable
             result = result.copy()
         result.setflags(write=False)
         if _hash is None:
@@ -490,7 +491,7 @@ class Variable:
         if _hash is None:
             _hash = self._get_hash(points, time)
         if D is not None and _hash in D:
-            return D[_hash].copy() if _copy else D[_hash]
+            return D[_hash].copy() if _copy or isinstance(D[_hash], np.ma.MaskedArray) else D[_hash]
         else:
             return None
 
-- 
2.43.0


From 5566b5ec414f9e2d47e85177e55c3b2f9997486f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:21 +0000
Subject: [PATCH 79/87] fix: fill values off an S grid when every point asked
 for is off it

---
 gridded/pysgrid/sgrid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 7cf6127..151e98f 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -1162,7 +1162,8 @@ class SGrid:
             # ind has to be writable
             ind = self.locate_faces(points, _memo, _copy, _hash)
             if (ind.mask).all():
-                return np.ma.masked_all((points.shape[0], 1))
+                result = np.ma.masked_all((points.shape[0], 1))
+                return result.filled(fill_value) if unmask else result
 
         if self._l_coeffs is None:
             self._compute_transform_coeffs()
-- 
2.43.0


From edaf020d2dd501fb1c10c372d286c3440e92f1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:45 +0000
Subject: [PATCH 80/87] fix: depths beyond the first and last layer of a
 terrain-following coordinate

---
 gridded/depth.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gridded/depth.py b/gridded/depth.py
index fb6e40a..b955b70 100644
--- a/gridded/depth.py
+++ b/gridded/depth.py
@@ -686,8 +686,10 @@ class S_Depth(DepthBase):
             raise ValueError(
                 "Cannot get depth interpolation alphas for data shape specified; does not fit r or w depth axis"
             )
-        # if data_shape[0] == self.num_layers:
-        #    raise NotImplementedError('Interpolation of data on depth layers not supported yet')
+        if data_shape[0] == self.num_layers:
+            # the profile has a depth per layer, one fewer than the levels
+            surface_index = min(surface_index, self.num_layers - 1)
+            bottom_index = min(bottom_index, self.num_layers - 1)
 
         depth_profiles = self.get_depth_profile(points,
                                                 time,
-- 
2.43.0


From 81bb66cb115ffa4340df1ea720f862fe0bf9ac80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:50 +0000
Subject: [PATCH 81/87] fix: points that are text, complex numbers or dates are
 refused

---
 gridded/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/utilities.py b/gridded/utilities.py
index a4651ee..2958698 100644
--- a/gridded/utilities.py
+++ b/gridded/utilities.py
@@ -231,7 +231,7 @@ def _reorganize_spatial_data(points):
     if points is None:
         return None
     points_arr = np.array(points).squeeze()
-    if points_arr.dtype in (np.object_, np.bytes_, np.bool_):
+    if points_arr.dtype.kind not in "iuf":
         raise TypeError("points data does not convert to a numeric array type")
     shp = points_arr.shape
     if len(shp) not in (1, 2):
-- 
2.43.0


From 2289d8a27d0cd0fd25f9d15b265e81e416e34c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:55 +0000
Subject: [PATCH 82/87] fix: SGridVariable follows changes to an array it holds

---
 gridded/pysgrid/variables.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gridded/pysgrid/variables.py b/gridded/pysgrid/variables.py
index 59098a7..a8dcacd 100644
--- a/gridded/pysgrid/variables.py
+++ b/gridded/pysgrid/variables.py
@@ -172,6 +172,9 @@ class SGridVariable:
         Does not flatten any underlying data.
         """
 
+        if isinstance(self._data, np.ndarray):
+            # already in memory: a cached copy would not follow changes to it
+            return self._data[item]
         if not hasattr(self, "_cache"):
             self._cache = OrderedDict()
         key = index_key(item)
-- 
2.43.0


From 14f8566be3733b72c49e19bcbe678d7fee182a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:00 +0000
Subject: [PATCH 83/87] fix: zero off an unstructured mesh also when the last
 face has a missing value

---
 gridded/pyugrid/ugrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 89f0518..d94d030 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -804,7 +804,7 @@ class UGrid:
         inds = self.locate_faces(points, "celltree", _copy, _memo, _hash)
         if location == "face":
             vals = variable[inds]
-            vals[inds == -1] = vals[inds == -1] * 0
+            vals[inds == -1] = 0  # whatever the value at the last face
             return vals
         #             raise NotImplementedError("Currently does not support interpolation of a "
         #                                       "variable defined on the faces")
@@ -813,7 +813,7 @@ class UGrid:
             vals = variable.take(self.faces[inds], axis=0)
             if len(vals.shape) == (len(pos_alphas.shape) + 1):
                 pos_alphas = pos_alphas[:, :, np.newaxis]
-            vals[inds == -1] = vals[inds == -1] * 0
+            vals[inds == -1] = 0  # whatever the value at the last face
             return np.sum(vals * pos_alphas, axis=1)
         return None
 
-- 
2.43.0


From dfb25844401cb2d9a73101e577dc7f3c621fe437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:06 +0000
Subject: [PATCH 84/87] fix: remembered face indices are those of the method
 asked for

---
 gridded/pyugrid/ugrid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index d94d030..74e47dc 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -630,6 +630,7 @@ class UGrid:
         if _memo:
             if _hash is None:
                 _hash = self._hash_of_pts(points)
+            _hash = (_hash, method)
             result = self._get_memoed(points, self._ind_memo_dict, _copy, _hash)
             if result is not None:
                 return result[0] if just_one else result
-- 
2.43.0


From c6fdcee62eb718b25fbdf1981066ed33b60ec1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:11 +0000
Subject: [PATCH 85/87] fix: the simple face search on meshes with more than
 three vertices per face

---
 gridded/pyugrid/ugrid.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 74e47dc..c7c0132 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -649,9 +649,10 @@ class UGrid:
         elif method == "simple":
             indices = np.zeros((points.shape[0]), dtype=IND_DT)
             for n, point in enumerate(points):
-                for i, face in enumerate(self._faces):
+                for i, face in enumerate(self._used_vertices()):
                     f = self._nodes[face]
-                    if point_in_tri(f, point):
+                    # a face with more than three vertices is made up of triangles
+                    if any(point_in_tri(f[[0, k, k + 1]], point) for k in range(1, len(f) - 1)):
                         indices[n] = i
                         break
                     else:
-- 
2.43.0


From f2767201b92bd0408b8dde6eb2ea07b83caef5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:01 +0000
Subject: [PATCH 86/87] fix: rivers in mask variables count as water, as
 documented

---
 gridded/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/utilities.py b/gridded/utilities.py
index 2958698..13f4511 100644
--- a/gridded/utilities.py
+++ b/gridded/utilities.py
@@ -52,7 +52,7 @@ def convert_mask_to_numpy_mask(mask_var):
         # CF Conventions 3.5 places no case requirement on flag_meanings, so
         # "Land Water" is valid metadata. Lowercase before the substring test
         # so capitalized words are recognized as water/lake.
-        meaning_mask = [False if ("water" in s.lower() or "lake" in s.lower()) else True for s in fm]
+        meaning_mask = [not any(word in s.lower() for word in ("water", "lake", "river")) for s in fm]
         tfmap = dict(zip(np.atleast_1d(fv), meaning_mask))  # a single flag comes as a scalar
         for k, v in tfmap.items():
             ret_mask[mask_data == k] = v
-- 
2.43.0


From 858579c1baa8e9f5fe8fb5f871dcd11c8a9aa35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:08 +0000
Subject: [PATCH 87/87] fix: several blanks between the names in
 structured-grid attributes

---
 gridded/pysgrid/read_netcdf.py | 6 +++---
 gridded/pysgrid/sgrid.py       | 4 ++--
 gridded/pysgrid/utils.py       | 6 +++---
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/gridded/pysgrid/read_netcdf.py b/gridded/pysgrid/read_netcdf.py
index 990671e..d758e9f 100644
--- a/gridded/pysgrid/read_netcdf.py
+++ b/gridded/pysgrid/read_netcdf.py
@@ -86,7 +86,7 @@ def parse_padding(padding_str, mesh_topology_var):
 
 
 def parse_axes(axes_attr):
-    p = re.compile("([a-zA-Z]: [a-zA-Z0-9_]+)")
+    p = re.compile(r"([a-zA-Z]:\s*[a-zA-Z0-9_]+)")
     matches = p.findall(axes_attr)
     x_axis = None
     y_axis = None
@@ -133,7 +133,7 @@ class NetCDFDataset:
 
         """
         nc_vars = self.nc.variables
-        node_dims = node_dimensions.split(" ")
+        node_dims = node_dimensions.split()
         node_dim_set = set(node_dims)
         x_node_coordinate = None
         y_node_coordinate = None
@@ -231,7 +231,7 @@ class NetCDFDataset:
                     else:
                         z_coordinate = pc_name  # this might not always work...
             else:
-                lvc_split = location_var_coordinates.strip().split(" ")
+                lvc_split = location_var_coordinates.split()
                 for lvc in lvc_split:
                     var_coord = nc_vars[lvc]
                     try:
diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 151e98f..3733a54 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -1450,7 +1450,7 @@ class SGridAttributes:
             location_name = attr_name.split("_")[0]
             attr_coordinates = self.ncd.find_coordinates_by_location(location_name, self.topology_dim)  # noqa
         else:
-            attr_coordinates_val = attr_coordinates_raw.split(" ")
+            attr_coordinates_val = attr_coordinates_raw.split()
             attr_coordinates = tuple(attr_coordinates_val)
         return attr_coordinates
 
@@ -1463,7 +1463,7 @@ class SGridAttributes:
             grid_cell_node_vars = self.ncd.find_node_coordinates(node_dimensions)  # noqa
             node_coordinates = grid_cell_node_vars
         else:
-            node_coordinate_val = node_coordinates.split(" ")
+            node_coordinate_val = node_coordinates.split()
             node_coordinates = tuple(node_coordinate_val)
         return node_dimensions, node_coordinates
 
diff --git a/gridded/pysgrid/utils.py b/gridded/pysgrid/utils.py
index e52b62c..93c15f7 100644
--- a/gridded/pysgrid/utils.py
+++ b/gridded/pysgrid/utils.py
@@ -95,7 +95,7 @@ def determine_variable_slicing(sgrid_obj, nc_variable, method="center"):
     if grid_variables is None:
         grid_variables = []
     var_dims = nc_variable.dimensions
-    node_dims = tuple(sgrid_obj.node_dimensions.split(" "))
+    node_dims = tuple(sgrid_obj.node_dimensions.split())
     separate_edge_dim_exists = does_intersection_exist(var_dims, node_dims)
     slice_indices = tuple()
     if separate_edge_dim_exists:
@@ -128,7 +128,7 @@ def infer_avg_axes(sgrid_obj, nc_var_obj):
 
     """
     var_dims = nc_var_obj.dimensions
-    node_dimensions = tuple(sgrid_obj.node_dimensions.split(" "))
+    node_dimensions = tuple(sgrid_obj.node_dimensions.split())
     separate_edge_dim_exists = does_intersection_exist(node_dimensions, var_dims)  # noqa
     if separate_edge_dim_exists:
         padding = sgrid_obj.get_all_face_padding()
@@ -161,7 +161,7 @@ def infer_avg_axes(sgrid_obj, nc_var_obj):
 
 
 def infer_variable_location(sgrid, variable):
-    node_dims_val = sgrid.node_dimensions.split(" ")
+    node_dims_val = sgrid.node_dimensions.split()
     node_dims = tuple(node_dims_val)
     face_dims = tuple([f.face_dim for f in sgrid.get_all_face_padding()])
     try:
-- 
2.43.0

