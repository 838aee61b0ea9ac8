From 40b71fdb8f27c49c7050de29602053bee13d85ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:58 +0000
Subject: [PATCH 01/94] fix: locate points in skewed, rotated and transposed
 cells of a curvilinear grid

SGrid.x_to_l tested the leading coefficient of the quadratic for being exactly
zero, so any parallelogram cell for which rounding left it at 1e-17 lost all
precision, and divided 0/0 if the l axis of the cell was parallel to the y axis.
---
 gridded/pysgrid/sgrid.py | 75 +++++++++++++++++++---------------------
 1 file changed, 36 insertions(+), 39 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 381623f..053d4d0 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -1294,50 +1294,47 @@ class SGrid:
 
         Eqns:
         m = (-bb +- sqrt(bb^2 - 4*aa*cc))/(2*aa)
-        l = (l-a1 - a3*m)/(a2 + a4*m)
+        l = (x-a1 - a3*m)/(a2 + a4*m)
         """
 
-        def quad_eqn(l, m, t, aa, bb, cc):
-            """
-            solves the following eqns for m and l
-            m = (-bb +- sqrt(bb^2 - 4*aa*cc))/(2*aa)
-            l = (l-a1 - a3*m)/(a2 + a4*m)
-            """
-            if len(aa) == 0:
-                return
-            k = bb * bb - 4 * aa * cc
-            k = np.ma.masked_less(k, 0)
-
-            det = np.ma.sqrt(k)
-            m1 = (-bb - det) / (2 * aa)
-            l1 = (x[t] - a[0][t] - a[2][t] * m1) / (a[1][t] + a[3][t] * m1)
-
-            m2 = (-bb + det) / (2 * aa)
-            l2 = (x[t] - a[0][t] - a[2][t] * m2) / (a[1][t] + a[3][t] * m2)
-
-            t1 = np.logical_or(l1 < 0, l1 > 1)
-            t2 = np.logical_or(m1 < 0, m1 > 1)
-            t3 = np.logical_or(t1, t2)
-
-            m[t] = np.choose(t3, (m1, m2))
-            l[t] = np.choose(t3, (l1, l2))
-
         a = a.T
         b = b.T
         aa = a[3] * b[2] - a[2] * b[3]
-        bb = a[3] * b[0] - a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + x * b[3] - y * a[3]
-        cc = a[1] * b[0] - a[0] * b[1] + x * b[1] - y * a[1]
-        m = np.zeros(bb.shape)
-        l = np.zeros(bb.shape)
-
-        t = aa[:] == 0
-
-        # Attempts to solve the simpler linear case first.
-        with np.errstate(invalid="ignore"):
-            m[t] = -cc[t] / bb[t]
-            l[t] = (x[t] - a[0][t] - a[2][t] * m[t]) / (a[1][t] + a[3][t] * m[t])
-        # now solve the quadratic cases
-        quad_eqn(l, m, ~t, aa[~t], bb[~t], cc[~t])
+        bb = a[3] * (b[0] - y) - b[3] * (a[0] - x) + a[1] * b[2] - a[2] * b[1]
+        cc = a[1] * (b[0] - y) - b[1] * (a[0] - x)
+
+        def solve_l(m):
+            # either of the x and y equations gives l from m: use the one that
+            # is better conditioned, as the other may well be 0/0 (e.g. if the
+            # l axis of the cell is parallel to the y axis)
+            x_den = a[1] + a[3] * m
+            y_den = b[1] + b[3] * m
+            use_x = np.abs(x_den) >= np.abs(y_den)
+            num = np.where(use_x, x - a[0] - a[2] * m, y - b[0] - b[2] * m)
+            return num / np.where(use_x, x_den, y_den)
+
+        def distance(l, m):
+            # how far from the middle of the unit square: <= 0.5 is in the cell
+            return np.maximum(np.abs(l - 0.5), np.abs(m - 0.5))
+
+        # This form of the quadratic formula does not lose precision if aa is
+        # (almost) zero, which is the case for any parallelogram: m2 is then
+        # the solution of the linear equation, and m1 is very far away.
+        with np.errstate(invalid="ignore", divide="ignore", over="ignore"):
+            det = np.sqrt(np.maximum(bb * bb - 4 * aa * cc, 0))
+            q = -0.5 * (bb + np.where(bb < 0, -det, det))
+            m1 = q / aa
+            m2 = cc / q
+            # q is only zero if bb is zero, too: a double root at zero
+            m2 = np.where(q == 0, 0.0, m2)
+            l1 = solve_l(m1)
+            l2 = solve_l(m2)
+            d1 = distance(l1, m1)
+            d2 = distance(l2, m2)
+            first = np.isfinite(d1) & ~(d2 <= d1)
+
+        l = np.where(first, l1, l2)
+        m = np.where(first, m1, m2)
 
         return (l, m)
 
-- 
2.43.0


From 1357264c9038b4ed52c7253ab36f1b29a400abff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:11 +0000
Subject: [PATCH 02/94] fix: SGrid.interpolate_var_to_points failed on 2D data
 without slices

The documented call with an already sliced array indexed it with None, which
added a dimension instead of leaving it alone.
---
 gridded/pysgrid/sgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 053d4d0..86c084e 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -1139,7 +1139,7 @@ class SGrid:
         # else:
         #     slices = (xslice, yslice)
         zero_aligned_idxs = idxs#.copy() - [xslice.start, yslice.start]
-        var = variable[slices]
+        var = variable[:] if slices is None else variable[slices]
         if len(var.shape) > 2:
             raise ValueError(
                 "Variable has too many dimensions to \
-- 
2.43.0


From d1ae07127dd0d8e7441a67b9f773a92966e0b97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:00 +0000
Subject: [PATCH 03/94] fix: 'mask' and 'mirror' interpolation of masked edge
 values for many points

compute_interpolant tiled the mask of the points over the wrong axis, so that
one masked value masked unrelated points, and rejected 'mirror' by the number
of points instead of the number of values per point.
---
 gridded/pysgrid/sgrid.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 86c084e..a0c5687 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -1009,7 +1009,7 @@ class SGrid:
         if mask_behavior is None:
             mask_behavior = self.masked_interpolant_behavior
 
-        if mask_behavior == "mirror" and len(values) > 2:
+        if mask_behavior == "mirror" and values.shape[-1] > 2:
             raise ValueError("Mirror behavior is not implemented for more than two values")
 
         if mask_behavior == "zero":
@@ -1017,8 +1017,9 @@ class SGrid:
         elif mask_behavior == "mirror":
             filled_values = self.mirror_mask_values(values)
         elif mask_behavior == "mask":
-            filled_values = values.copy()
-            filled_values.mask = np.tile(np.any(values.mask, axis=-1), 2)
+            filled_values = np.ma.array(values, copy=True)
+            any_masked = np.any(np.ma.getmaskarray(values), axis=-1, keepdims=True)
+            filled_values.mask = np.broadcast_to(any_masked, values.shape)
         else:
             raise ValueError(f"unrecognized mask_behavior: {mask_behavior}")
 
-- 
2.43.0


From 3f5d19ba4eaea0fea57bf76718885ed5f7d55a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:40 +0000
Subject: [PATCH 04/94] fix: locate cells of a curvilinear grid with only a
 node mask, or an all False center mask

build_celltree raised UnboundLocalError for both.
---
 gridded/pysgrid/sgrid.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index a0c5687..1611071 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -14,7 +14,7 @@ from netCDF4 import Dataset
 from gridded.pysgrid.read_netcdf import NetCDFDataset, find_grid_topology_var, parse_padding
 from gridded.pysgrid.utils import GridPadding, calculate_angle_from_true_east, pair_arrays
 from gridded.pysgrid.variables import SGridVariable
-from gridded.utilities import gen_celltree_mask_from_center_mask
+from gridded.utilities import convert_mask_to_numpy_mask, gen_celltree_mask_from_center_mask
 
 node_alternate_names = ["node", "nodes", "psi", "vertex", "vertices", "point", "points"]
 center_alternate_names = ["center", "centers", "face", "faces", "cell", "cells"]
@@ -836,12 +836,16 @@ class SGrid:
             (self.node_mask is not None and self.node_mask is not False)
             or (self.center_mask is not None and self.center_mask is not False)
         ):
-            if np.any(self.center_mask):
+            if self.center_mask is not None and self.center_mask is not False:
                 cell_mask = gen_celltree_mask_from_center_mask(
                     self.center_mask, self.get_padding_slices(self.center_padding)
                 )
             else:
-                pass
+                # a masked node removes all the cells it is a corner of
+                nodes_masked = convert_mask_to_numpy_mask(self.node_mask)
+                cell_mask = (
+                    nodes_masked[:-1, :-1] | nodes_masked[:-1, 1:] | nodes_masked[1:, 1:] | nodes_masked[1:, :-1]
+                )
 
             lin_faces = np.empty(shape=(lon[1::, 1::].size, 4))
             if lin_faces.shape[0] != cell_mask.size:
-- 
2.43.0


From bcd34a0a172fa4709854b31a3a9b526cd9db46d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:40 +0000
Subject: [PATCH 05/94] fix: SGrid.locate_nearest raised KeyError unless the
 kdtree had been built before

---
 gridded/pysgrid/sgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 1611071..89e5577 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -678,7 +678,7 @@ class SGrid:
         points = np.asarray(points, dtype=np.float64)
         points = points.reshape(-1, 2)
 
-        if self._kd_trees[grid] is None:
+        if self._kd_trees.get(grid) is None:
             self.build_kdtree(grid)
         tree = self._kd_trees[grid]
         lin_indices = np.array(tree.query(points))[1].astype(np.int32)
-- 
2.43.0


From 7ee71e78f7ffb66363b7765d352167b162c7c5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:46 +0000
Subject: [PATCH 06/94] fix: center slicing of a variable padded at the high
 end kept only the first element

---
 gridded/pysgrid/sgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 89e5577..d677336 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -23,7 +23,7 @@ edge2_alternate_names = ["edge2", "v"]
 
 
 class SGrid:
-    padding_slices = {"both": (1, -1), "none": (None, None), "low": (1, None), "high": (None, 1)}
+    padding_slices = {"both": (1, -1), "none": (None, None), "low": (1, None), "high": (None, -1)}
 
     topology_dimension = 2
 
-- 
2.43.0


From d5c819b0ad0455c8c0a6b7bb4eee8c5e9300d61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:47 +0000
Subject: [PATCH 07/94] fix: segfault locating points on a curvilinear grid
 with masked node coordinates

With masked longitudes or latitudes and no mask variable, build_celltree
dropped the masked nodes but numbered the cells as if they were still there.
Masked nodes now remove the cells they are a corner of.
---
 gridded/pysgrid/sgrid.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index d677336..9267a09 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -832,9 +832,11 @@ class SGrid:
         if lon is None or lat is None:
             raise ValueError("node_lon and node_lat must be defined in order to create and use CellTree for this grid")
 
+        coords_masked = np.ma.is_masked(lon[:]) or np.ma.is_masked(lat[:])
         if use_mask and (
             (self.node_mask is not None and self.node_mask is not False)
             or (self.center_mask is not None and self.center_mask is not False)
+            or coords_masked
         ):
             if self.center_mask is not None and self.center_mask is not False:
                 cell_mask = gen_celltree_mask_from_center_mask(
@@ -842,7 +844,9 @@ class SGrid:
                 )
             else:
                 # a masked node removes all the cells it is a corner of
-                nodes_masked = convert_mask_to_numpy_mask(self.node_mask)
+                nodes_masked = np.ma.getmaskarray(lon[:]) | np.ma.getmaskarray(lat[:])
+                if self.node_mask is not None and self.node_mask is not False:
+                    nodes_masked = nodes_masked | convert_mask_to_numpy_mask(self.node_mask)
                 cell_mask = (
                     nodes_masked[:-1, :-1] | nodes_masked[:-1, 1:] | nodes_masked[1:, 1:] | nodes_masked[1:, :-1]
                 )
@@ -905,7 +909,7 @@ class SGrid:
             )
         lin_faces = np.ascontiguousarray(lin_faces.reshape(-1, 4).astype(np.int32))
 
-        if isinstance(lon, np.ma.MaskedArray) and lon.mask is not False and use_mask:
+        if self._cell_tree_mask is not None:
             lin_nodes = np.ascontiguousarray(
                 np.column_stack((np.ma.compressed(lon[:]), np.ma.compressed(lat[:]))).reshape(-1, 2).astype(np.float64)
             )
-- 
2.43.0


From fe2d1b7af023fe12e6e61b0c84513241cae70c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:55 +0000
Subject: [PATCH 08/94] fix: locating points on a curvilinear grid that is all
 land raised IndexError

---
 gridded/pysgrid/sgrid.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 9267a09..69448f5 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -653,7 +653,7 @@ class SGrid:
         rev_arrs = None
         if self._cell_tree_mask is not None:
             rev_arrs = self._cell_tree_mask[1]
-        indices = tree.locate(points)
+        indices = tree.locate(points) if tree is not None else np.full(len(points), -1, dtype=np.int32)
         if rev_arrs is not None:
             indices = rev_arrs[indices]
         lon, lat = self.node_lon, self.node_lat
@@ -916,7 +916,9 @@ class SGrid:
         else:
             lin_nodes = np.ascontiguousarray(np.stack((lon, lat), axis=-1).reshape(-1, 2).astype(np.float64))
 
-        self._cell_tree = (CellTree(lin_nodes, lin_faces), lin_nodes, lin_faces)
+        # CellTree can not be built without any cells, as on a grid that is all land
+        tree = CellTree(lin_nodes, lin_faces) if len(lin_faces) > 0 else None
+        self._cell_tree = (tree, lin_nodes, lin_faces)
 
     def nearest_var_to_points(
         self,
-- 
2.43.0


From bb346fcbd9adaec83551509d81831b542a8016b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:23 +0000
Subject: [PATCH 09/94] fix: UGrid.locate_faces returned an array for a
 repeated single point

The memoized result of a single point was returned as an array instead of a
scalar, and the array the point was passed in was reshaped in place.
---
 gridded/pyugrid/ugrid.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 964cd28..8dd1bc9 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -610,14 +610,15 @@ class UGrid:
         """
         points = np.asarray(points, dtype=np.float64)
         just_one = points.ndim == 1
-        points.shape = (-1, 2)
+        # reshape() rather than setting the shape: points may be the caller's own array
+        points = points.reshape(-1, 2)
 
         if _memo:
             if _hash is None:
                 _hash = self._hash_of_pts(points)
             result = self._get_memoed(points, self._ind_memo_dict, _copy, _hash)
             if result is not None:
-                return result
+                return result[0] if just_one else result
 
         if method == "celltree":
             try:
-- 
2.43.0


From 82bf4f18f31b623ce2172eca52e53241f854f773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:24 +0000
Subject: [PATCH 10/94] fix: UGrid.index_of always raised TypeError

---
 gridded/pyugrid/ugrid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 8dd1bc9..c69b7d0 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -653,7 +653,8 @@ class UGrid:
             return indices
 
     def index_of(self, points, method="celltree", _memo=False, _copy=False, _hash=None, use_mask=True):
-        return self.locate_faces(points=points, method=method, _memo=_memo, _copy=_copy, _hash=_hash, use_mask=use_mask)
+        # use_mask is there to match SGrid: there are no masked cells in a UGrid
+        return self.locate_faces(points=points, method=method, _memo=_memo, _copy=_copy, _hash=_hash)
 
     def build_celltree(self):
         """
-- 
2.43.0


From c1999f469f52e248fcc04a46a475ee796116650c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:24 +0000
Subject: [PATCH 11/94] fix: UGrid.interpolate_var_to_points without a location
 raised AttributeError for an array

---
 gridded/pyugrid/ugrid.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index c69b7d0..6e7c1ea 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -772,7 +772,6 @@ class UGrid:
         # (for compatibility with old code)
         if location is None:
             location = self.infer_location(variable)
-            variable.location = location
         if location is None:
             raise ValueError("Data is incompatible with grid nodes or faces")
 
-- 
2.43.0


From 34b73effbf7f74aad71caf6bf8651e4cd526dc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:38 +0000
Subject: [PATCH 12/94] fix: point_in_tri took any point to be in a clockwise
 triangle

---
 gridded/pyugrid/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/pyugrid/util.py b/gridded/pyugrid/util.py
index 16c2c8c..10f2938 100644
--- a/gridded/pyugrid/util.py
+++ b/gridded/pyugrid/util.py
@@ -21,7 +21,7 @@ def point_in_tri(face_points, point, return_weights=False):
     sub_tri_areas[0] = _signed_area_tri(np.vstack((face_points[(0, 1), :], point)))
     sub_tri_areas[1] = _signed_area_tri(np.vstack((face_points[(1, 2), :], point)))
     sub_tri_areas[2] = _signed_area_tri(np.vstack((face_points[(0, 2), :], point)))
-    tri_area = _signed_area_tri(face_points)
+    tri_area = abs(_signed_area_tri(face_points))
 
     if abs(np.abs(sub_tri_areas).sum() - tri_area) / tri_area <= epsilon:
         if return_weights:
-- 
2.43.0


From 674ff60b1ef929238195aa4db3ec23ee06bb5abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:06 +0000
Subject: [PATCH 13/94] fix: edges, neighbors and boundaries of flexible meshes

build_edges, build_face_face_connectivity and build_boundaries raised TypeError
for masked faces, and took the -1 that pads smaller faces for a node.
---
 gridded/pyugrid/ugrid.py | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 6e7c1ea..f4e6094 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -800,6 +800,14 @@ class UGrid:
 
     interpolate = interpolate_var_to_points
 
+    @staticmethod
+    def _face_nodes(face):
+        """
+        The node indices of a face, without the masked (or -1) ones at the end
+        that pad the smaller faces of a flexible mesh.
+        """
+        return [node for node in np.ma.filled(face, -1).tolist() if node >= 0]
+
     def build_face_face_connectivity(self):
         """
         Builds the face_face_connectivity array: giving the neighbors of each cell.
@@ -816,11 +824,9 @@ class UGrid:
         edges = {}  # dict to store the edges.
         for i, face in enumerate(self.faces):
             # Loop through edges of the cell:
-            for j in range(num_vertices):
-                if j < self.num_vertices - 1:
-                    edge = (face[j], face[j + 1])
-                else:
-                    edge = (face[-1], face[0])
+            nodes = self._face_nodes(face)
+            for j in range(len(nodes)):
+                edge = (nodes[j], nodes[(j + 1) % len(nodes)])
                 if edge[0] > edge[1]:  # Sort the node numbers.
                     edge = (edge[1], edge[0])
                 # see if it is already in there
@@ -847,21 +853,18 @@ class UGrid:
         NOTE: arbitrary order -- should the order be preserved?
         """
 
-        num_vertices = self.num_vertices
         if self.faces is None:
             # No faces means no edges
             self._edges = None
             return
-        num_faces = self.faces.shape[0]
-        face_face = np.zeros((num_faces, num_vertices), dtype=IND_DT)
-        face_face += -1  # Fill with -1.
 
         # Loop through all the faces to find all the edges:
         edges = set()  # Use a set so no duplicates.
         for i, face in enumerate(self.faces):
             # Loop through edges:
-            for j in range(num_vertices):
-                edge = (face[j - 1], face[j])
+            nodes = self._face_nodes(face)
+            for j in range(len(nodes)):
+                edge = (nodes[j - 1], nodes[j])
                 if edge[0] > edge[1]:  # Flip them
                     edge = (edge[1], edge[0])
                 edges.add(edge)
@@ -884,12 +887,10 @@ class UGrid:
         if self.face_face_connectivity is None:
             self.build_face_face_connectivity()
         for i, face in enumerate(self.face_face_connectivity):
-            for j, neighbor in enumerate(face):
+            nodes = self._face_nodes(self.faces[i])
+            for j, neighbor in enumerate(face[: len(nodes)]):
                 if neighbor == -1:
-                    if j == self.num_vertices - 1:
-                        bound = (self.faces[i, -1], self.faces[i, 0])
-                    else:
-                        bound = (self.faces[i, j], self.faces[i, j + 1])
+                    bound = (nodes[j], nodes[(j + 1) % len(nodes)])
                     boundaries.append(bound)
         self.boundaries = boundaries
 
-- 
2.43.0


From c8da2bc14019f9fb9f56c65dd78ad99533a3cd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:19 +0000
Subject: [PATCH 14/94] fix: face coordinates and face-edge connectivity of
 flexible meshes

---
 gridded/pyugrid/ugrid.py | 44 ++++++++++++++++++----------------------
 1 file changed, 20 insertions(+), 24 deletions(-)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index f4e6094..fb0232c 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -907,29 +907,22 @@ class UGrid:
         except ImportError:
             raise ImportError("The scipy package is required to use UGrid.locatbuild_face_edge_connectivity")
 
-        faces = self.faces
-        edges = self.edges.copy()
-        face_edges = np.dstack([faces, np.roll(faces, 1, 1)])
-        if np.ma.isMA(faces) and np.ndim(faces.mask):
-            face_edges.mask = np.dstack([faces.mask, np.roll(faces.mask, 1, 1)])
-        face_edges.sort(axis=-1)
-        edges.sort(axis=-1)
-
-        tree = cKDTree(edges)
-
-        face_edge_2d = face_edges.reshape((-1, 2))
-
-        if np.ma.isMA(faces) and faces.mask.any():
-            mask = face_edge_2d.mask.any(-1)
-            connectivity = np.ma.ones(
-                len(face_edge_2d),
-                dtype=face_edge_2d.dtype,
-            )
-            connectivity.mask = mask
-            connectivity[~mask] = tree.query(face_edge_2d[~mask])[1]
-        else:
-            connectivity = tree.query(face_edge_2d)[1]
-        self.face_edge_connectivity = np.roll(connectivity.reshape(faces.shape), -1, -1)
+        edges = np.sort(self.edges, axis=-1)
+        faces = np.ma.filled(self.faces, -1)
+        padding = faces < 0
+        # the edges of a face go from each of its nodes to the next, and from the
+        # last one, which may be followed by padding, back to the first
+        next_nodes = np.roll(faces, -1, axis=1)
+        last = (~padding).sum(axis=1) - 1
+        next_nodes[np.arange(len(faces)), last] = faces[:, 0]
+        face_edges = np.sort(np.dstack([faces, next_nodes]), axis=-1).reshape((-1, 2))
+
+        distance, connectivity = cKDTree(edges).query(face_edges)
+        # no edge for the padding, and none for the edges that are not in self.edges
+        missing = padding.ravel() | (distance > 0)
+        if missing.any():
+            connectivity = np.ma.array(connectivity, mask=missing)
+        self.face_edge_connectivity = connectivity.reshape(faces.shape)
 
     def build_face_coordinates(self):
         """
@@ -945,7 +938,10 @@ class UGrid:
         Useful if you want this in the output file.
 
         """
-        self.face_coordinates = self.nodes[self.faces].mean(axis=1)
+        faces = np.ma.filled(self.faces, -1)
+        # smaller faces of a flexible mesh are padded: only average their own nodes
+        own = (faces >= 0)[:, :, np.newaxis]
+        self.face_coordinates = (self.nodes[faces] * own).sum(axis=1) / own.sum(axis=1)
 
     def build_edge_coordinates(self):
         """
-- 
2.43.0


From 74f55d0d96e7e001b9c88cf6ce715dffe1891a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:38 +0000
Subject: [PATCH 15/94] fix: depth interpolation of points beyond the first or
 last level or layer

---
 gridded/variable.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index 6e2c426..2f82a2f 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -748,23 +748,23 @@ class Variable:
         if self.data.shape[dim_idx] == self.depth.num_layers:
             #data is located on cell centers, so value is held constant across cell.
             for idx in uniq_idx:
-                if idx == -1:
-                    #special case for out of bounds and extrapolation.
-                    idx = 0
                 lay_idxs = np.where(d_indices == idx)[0]
-                values.put(lay_idxs, val_func(points[lay_idxs], time, extrapolate, slices=slices + (idx,), **kwargs))
+                # extrapolated points are above the first or below the last layer
+                lay = min(max(idx, 0), self.depth.num_layers - 1)
+                values.put(lay_idxs, val_func(points[lay_idxs], time, extrapolate, slices=slices + (lay,), **kwargs))
         else:
             #data is on cell edge, or on nodes, so we need to interpolate between the two levels.
             for idx in uniq_idx:
-                if idx == self.data.shape[dim_idx] - 1:
-                    # special case, index == depth dim length, so only v0 is valid
-                    v0 = val_func(points[lay_idxs], time, extrapolate, slices=slices + (idx,), **kwargs)
-                    values.put(lay_idxs, v0)
-                    continue
                 lay_idxs = np.where(d_indices == idx)[0]
-                v1 = val_func(points[lay_idxs], time, extrapolate, slices=slices + (idx + 1,), **kwargs)
+                alphas = d_alphas[lay_idxs]
+                # only v0 is valid for the last level, and only v1 for index -1 (extrapolation)
+                if not np.all(alphas == 0):
+                    v1 = val_func(points[lay_idxs], time, extrapolate, slices=slices + (idx + 1,), **kwargs)
+                    if np.all(alphas == 1):
+                        values.put(lay_idxs, v1)
+                        continue
                 v0 = val_func(points[lay_idxs], time, extrapolate, slices=slices + (idx,), **kwargs)
-                sub_vals = v0 + (v1 - v0) * d_alphas[lay_idxs]
+                sub_vals = v0 if np.all(alphas == 0) else v0 + (v1 - v0) * alphas
                 # partially fill the values array for this layer
                 values.put(lay_idxs, sub_vals)
         return values
-- 
2.43.0


From 9e3c7928625c5aa2d6538368a06a83887b4d21f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:38 +0000
Subject: [PATCH 16/94] fix: first and last time of a variable with its depth
 dimension before time

---
 gridded/variable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index 2f82a2f..06b4443 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -680,9 +680,9 @@ class Variable:
 
         if time == self.time.min_time or (extrapolate and time < self.time.min_time):
             # min or before
-            return val_func(points, time, extrapolate, slices=(0,), **kwargs)
+            return val_func(points, time, extrapolate, slices=slices + (0,), **kwargs)
         elif time == self.time.max_time or (extrapolate and time > self.time.max_time):
-            return val_func(points, time, extrapolate, slices=(-1,), **kwargs)
+            return val_func(points, time, extrapolate, slices=slices + (-1,), **kwargs)
         else:
             ind = self.time.index_of(time)
             s1 = slices + (ind,)
-- 
2.43.0


From 53bc691d68cd4e9b84b46571089de38918c4dc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:06 +0000
Subject: [PATCH 17/94] fix: surface only depth of variables with a depth
 dimension

---
 gridded/depth.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/gridded/depth.py b/gridded/depth.py
index 749c4c5..7ce430d 100644
--- a/gridded/depth.py
+++ b/gridded/depth.py
@@ -50,7 +50,7 @@ class DepthBase:
 
     @classmethod
     def from_netCDF(cls, surface_index=-1, **kwargs):
-        return cls(surface_index, **kwargs)
+        return cls(surface_index=surface_index, **kwargs)
 
     @property
     def surface_index(self):
@@ -64,6 +64,15 @@ class DepthBase:
         # for the system being represented
         return self._bottom_index
 
+    @property
+    def num_levels(self):
+        # surface only
+        return 1
+
+    @property
+    def num_layers(self):
+        return self.num_levels - 1
+
     def interpolation_alphas(
         self,
         points,
-- 
2.43.0


From d64c0549f906e090616fcb1c97146947023ddcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:58 +0000
Subject: [PATCH 18/94] fix: time offsets and displacements shifted the array
 the Time was made from

---
 gridded/time.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gridded/time.py b/gridded/time.py
index 0893aec..cb4cb44 100644
--- a/gridded/time.py
+++ b/gridded/time.py
@@ -135,7 +135,7 @@ class Time:
         elif data is None:
             self.data = np.array([datetime.now().replace(second=0, microsecond=0)])
         else:
-            self.data = np.asarray(data)
+            self.data = data
 
         # Quick check to ensure data is 'datetime-like' enough
         try:
@@ -308,7 +308,8 @@ class Time:
         if isinstance(data, self.__class__) or data.__class__ in self.__class__.__mro__:
             data = data.data
         # add check for valid datetime list?
-        self._data = np.asarray(data)
+        # a copy, as changing the offset or displacement shifts it in place
+        self._data = np.array(data)
 
     @property
     def info(self):
-- 
2.43.0


From 8b07eff8a2f07d61dfae6292f3472ec9ad6ce5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:05 +0000
Subject: [PATCH 19/94] fix: minutes of a time zone offset name were truncated

---
 gridded/time.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gridded/time.py b/gridded/time.py
index cb4cb44..8c5bcee 100644
--- a/gridded/time.py
+++ b/gridded/time.py
@@ -40,8 +40,7 @@ def offset_as_iso_string(offset_hours):
         return ""
     else:
         sign = "-" if offset_hours < 0 else "+"
-        hours = int(abs(offset_hours))
-        minutes = int((abs(offset_hours) - hours) * 60)
+        hours, minutes = divmod(round(abs(offset_hours) * 60), 60)
         return f"{sign}{hours:0>2}:{minutes:0>2}"
 
 
-- 
2.43.0


From 709ef55372d69ee7eeee4f1094f465107f1a2b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:58 +0000
Subject: [PATCH 20/94] fix: times of a netCDF file with a -07:00 style offset
 were shifted to UTC

---
 gridded/time.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gridded/time.py b/gridded/time.py
index 8c5bcee..bce5f47 100644
--- a/gridded/time.py
+++ b/gridded/time.py
@@ -1,6 +1,7 @@
 #!/usr/binenv python
 
 import logging
+import re
 from datetime import datetime, timedelta
 from textwrap import dedent
 
@@ -268,7 +269,10 @@ class Time:
         if tz_offset_name is None:
             tz_offset_name = name
 
-        tdata = nc4.num2date(tvar[:], units=tvar.units, only_use_cftime_datetimes=False, only_use_python_datetimes=True)
+        # num2date applies some forms of offsets (-07:00), but not others (-7:00):
+        # strip it, as the data are to be in the time zone given by tz_offset
+        units = re.sub(r"(\d:\d\d(:\d\d(\.\d*)?)?)\s*[+-]\d{1,2}(:?\d\d)?\s*$", r"\1", tvar.units)
+        tdata = nc4.num2date(tvar[:], units=units, only_use_cftime_datetimes=False, only_use_python_datetimes=True)
         # Fixme: use the name and pass it through?
         time = cls(
             data=tdata,
-- 
2.43.0


From 2e241a9d1ecd8682e4991ab4c1bdb2057520e911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:17 +0000
Subject: [PATCH 21/94] fix: remembered results were returned for queries with
 other options or point shapes

---
 gridded/variable.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index 06b4443..ab2ae4c 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -602,8 +602,19 @@ class Variable:
         if _hash is None:
             _hash = self._get_hash(pts, time)
 
+        # the same points and time give other results with other options
+        memo_hash = (
+            _hash,
+            pts.shape,
+            extrapolate,
+            unmask,
+            self.surface_boundary_condition,
+            self.bottom_boundary_condition,
+            repr(sorted(kwargs.items())),
+        )
+
         if _mem:
-            res = self._get_memoed(pts, time, self._result_memo, _hash=_hash)
+            res = self._get_memoed(pts, time, self._result_memo, _hash=memo_hash)
             if res is not None:
                 return res
 
@@ -623,7 +634,7 @@ class Variable:
             value = np.ma.filled(value)
 
         if _mem:
-            self._memoize_result(pts, time, value, self._result_memo, _hash=_hash)
+            self._memoize_result(pts, time, value, self._result_memo, _hash=memo_hash)
         return value
 
     interpolate = at  # common request
@@ -1268,8 +1279,11 @@ class VectorVariable:
         if _hash is None:
             _hash = self._get_hash(pts, time)
 
+        # the same points and time give other results with other options
+        memo_hash = (_hash, pts.shape, extrapolate, unmask, repr(sorted(kwargs.items())))
+
         if _mem:
-            res = self._get_memoed(pts, time, self._result_memo, _hash=_hash)
+            res = self._get_memoed(pts, time, self._result_memo, _hash=memo_hash)
             if res is not None:
                 return res
 
@@ -1290,7 +1304,7 @@ class VectorVariable:
         )
 
         if _mem:
-            self._memoize_result(pts, time, value, self._result_memo, _hash=_hash)
+            self._memoize_result(pts, time, value, self._result_memo, _hash=memo_hash)
 
         return value
 
-- 
2.43.0


From f3a0bddfcebc6295817271fdb519b5295bb792d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:34 +0000
Subject: [PATCH 22/94] fix: results for the old data or times were returned
 after assigning new ones

---
 gridded/variable.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index ab2ae4c..a486ad1 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -359,6 +359,7 @@ class Variable:
     @time.setter
     def time(self, t):
         Time_class = self.__class__._default_component_types["time"]
+        self._forget_results()
         if t is None:
             self._time = None
             return
@@ -391,6 +392,7 @@ class Variable:
                     f"Grid shape is {self.grid.node_lon.shape}"
                 )
         self._data = d
+        self._forget_results()
 
     @property
     def units(self):
@@ -429,6 +431,11 @@ class Variable:
         """
         return (hashlib.sha1(points.tobytes()).hexdigest(), hashlib.sha1(str(time).encode("utf-8")).hexdigest())
 
+    def _forget_results(self):
+        # the data or the times changed
+        self._result_memo = collections.OrderedDict()
+        self._version = getattr(self, "_version", 0) + 1
+
     def _memoize_result(self, points, time, result, D, _copy=False, _hash=None):
         if _copy:
             result = result.copy()
@@ -1280,7 +1287,8 @@ class VectorVariable:
             _hash = self._get_hash(pts, time)
 
         # the same points and time give other results with other options
-        memo_hash = (_hash, pts.shape, extrapolate, unmask, repr(sorted(kwargs.items())))
+        versions = tuple(getattr(var, "_version", None) for var in self.variables)
+        memo_hash = (_hash, pts.shape, extrapolate, unmask, repr(sorted(kwargs.items())), versions)
 
         if _mem:
             res = self._get_memoed(pts, time, self._result_memo, _hash=memo_hash)
-- 
2.43.0


From 014b8f073bf6b5f3c6b9edec6c4c624623a727bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:53 +0000
Subject: [PATCH 23/94] fix: masking elements of a returned result also masked
 them in later results

---
 gridded/variable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index a486ad1..37569ef 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -436,7 +436,7 @@ class Variable:
         self._result_memo = collections.OrderedDict()
         self._version = getattr(self, "_version", 0) + 1
 
-    def _memoize_result(self, points, time, result, D, _copy=False, _hash=None):
+    def _memoize_result(self, points, time, result, D, _copy=True, _hash=None):
         if _copy:
             result = result.copy()
         result.setflags(write=False)
@@ -447,7 +447,7 @@ class Variable:
         D[_hash] = result
         D[_hash].setflags(write=False)
 
-    def _get_memoed(self, points, time, D, _copy=False, _hash=None):
+    def _get_memoed(self, points, time, D, _copy=True, _hash=None):
         if _hash is None:
             _hash = self._get_hash(points, time)
         if D is not None and _hash in D:
-- 
2.43.0


From 21167be9946ae7699d55675d229c32a053daa5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:24 +0000
Subject: [PATCH 24/94] fix: setting the time of a VectorVariable, and making
 one without variables

---
 gridded/variable.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index 37569ef..cece7a1 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -1,4 +1,5 @@
 import collections
+import collections.abc
 import hashlib
 import logging
 from functools import wraps
@@ -875,6 +876,8 @@ class VectorVariable:
 
         self.name = name
 
+        if variables is None or len(variables) < 2:
+            raise ValueError("Variables must be an array-like of 2 or more Variable objects")
         if all([isinstance(v, Variable) for v in variables]):
             if time is not None and not isinstance(time, Time):
                 time = Time(time)
@@ -884,8 +887,6 @@ class VectorVariable:
         if units is None:
             units = variables[0].units
         self._units = units
-        if variables is None or len(variables) < 2:
-            raise ValueError("Variables must be an array-like of 2 or more Variable objects")
         self.variables = variables
         unused_args = kwargs.keys() if kwargs is not None else None
         if len(unused_args) > 0:
@@ -1149,7 +1150,7 @@ class VectorVariable:
                     Original error: {str(e)}""")
         if isinstance(t, Time_class):
             self._time = t
-        elif isinstance(t, collections.Iterable) or isinstance(t, nc4.Variable):
+        elif isinstance(t, collections.abc.Iterable) or isinstance(t, nc4.Variable):
             self._time = Time_class(t)
         else:
             raise ValueError("Time must be set with an iterable container or netCDF variable")
-- 
2.43.0


From 12c97ba334b608e6915a08f756aa993891bf3bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:45 +0000
Subject: [PATCH 25/94] fix: 1-based face indexes were decremented in the
 caller's array

---
 gridded/pyugrid/ugrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index fb0232c..f5506a3 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -312,7 +312,7 @@ class UGrid:
                 # faces index maximum equal to number of nodes, so we need to decrement by 1
                 # but only if the minimum is also gte 1
                 if faces_indexes.min() >= 1:
-                    faces_indexes[faces_indexes > 0] -= 1
+                    faces_indexes = faces_indexes - (faces_indexes > 0)
                     warnings.warn("faces index maximum equal to number of nodes, automatic decrement by 1 applied")
                 else:
                     raise ValueError(
-- 
2.43.0


From 9d2002407dc5bb033b35e6ee3030bc8f507f29d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:10 +0000
Subject: [PATCH 26/94] fix: points were located in the old mesh after
 assigning new nodes or faces

---
 gridded/pyugrid/ugrid.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index f5506a3..989450f 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -148,13 +148,16 @@ class UGrid:
         #     for dataset in data.values():
         #         self.add_data(dataset)
 
+        self._forget_locations()
+        super().__init__(*args, **kwargs)
+
+    def _forget_locations(self):
         # A kdtree is used to locate nodes.
         # It will be created if/when it is needed.
         self._kdtree = None
         self._cell_tree = None
         self._ind_memo_dict = OrderedDict()
         self._alpha_memo_dict = OrderedDict()
-        super().__init__(*args, **kwargs)
 
     @classmethod
     def from_ncfile(klass, filename=None, dataset=None, mesh_name=None):  # , load_data=False):
@@ -279,6 +282,7 @@ class UGrid:
     def nodes(self, nodes_coords):
         # Room here to do consistency checking, etc.
         # For now -- simply make sure it's a numpy array.
+        self._forget_locations()
         if nodes_coords is None:
             self.nodes = np.zeros((0, 2), dtype=NODE_DT)
         else:
@@ -299,6 +303,7 @@ class UGrid:
     @faces.setter
     def faces(self, faces_indexes):
         # Room here to do consistency checking, etc.
+        self._forget_locations()
         if self._nodes is None:
             raise ValueError("Nodes must be defined before faces")
         if faces_indexes is not None:
-- 
2.43.0


From 205b5d3236c4c9c13909ed920a07a24648092648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:16 +0000
Subject: [PATCH 27/94] fix: NaN or masked values of the last face got to
 points outside of the mesh

---
 gridded/pyugrid/ugrid.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 989450f..7b7bf35 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -710,7 +710,7 @@ class UGrid:
         alpha2s = (reflons - lon1) * (lat3 - lat1) - (reflats - lat1) * (lon3 - lon1)
         alpha3s = (reflats - lat1) * (lon2 - lon1) - (reflons - lon1) * (lat2 - lat1)
         alphas = np.column_stack((alpha1s / denoms, alpha2s / denoms, alpha3s / denoms))
-        alphas[indices == -1] *= 0
+        alphas[indices == -1] = 0
 
         if _memo:
             self._add_memo(points, alphas, self._alpha_memo_dict, _copy, _hash)
@@ -790,7 +790,7 @@ class UGrid:
         inds = self.locate_faces(points, "celltree", _copy, _memo, _hash)
         if location == "face":
             vals = variable[inds]
-            vals[inds == -1] = vals[inds == -1] * 0
+            vals[inds == -1] = 0
             return vals
         #             raise NotImplementedError("Currently does not support interpolation of a "
         #                                       "variable defined on the faces")
@@ -799,7 +799,7 @@ class UGrid:
             vals = variable.take(self.faces[inds], axis=0)
             if len(vals.shape) == (len(pos_alphas.shape) + 1):
                 pos_alphas = pos_alphas[:, :, np.newaxis]
-            vals[inds == -1] = vals[inds == -1] * 0
+            vals[inds == -1] = 0
             return np.sum(vals * pos_alphas, axis=1)
         return None
 
-- 
2.43.0


From 955f373982e9360846ddb80d524c36691d3ccdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:29 +0000
Subject: [PATCH 28/94] fix: UGRID files of meshes with three faces were loaded
 transposed

---
 gridded/pyugrid/read_netcdf.py | 10 ++++++++--
 gridded/pyugrid/ugrid.py       |  1 +
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/gridded/pyugrid/read_netcdf.py b/gridded/pyugrid/read_netcdf.py
index 27dbe0c..5fb0651 100755
--- a/gridded/pyugrid/read_netcdf.py
+++ b/gridded/pyugrid/read_netcdf.py
@@ -214,8 +214,14 @@ def load_grid_from_nc_dataset(nc, grid, mesh_name=None):  # , load_data=True):
                 continue
             array = var[:, :]
             # Fortran order, instead of C order, transpose the array
-            # logic below will fail for 3 node or two edge grids.
-            if array.shape[0] == defs["num_ind"]:
+            # the face_dimension attribute tells which is which, if it is there.
+            # If not, a square array is taken to be in C order (the UGRID default).
+            face_dim = getattr(mesh_var, "face_dimension", None)
+            if defs["num_ind"] == 3 and face_dim in var.dimensions:
+                fortran_order = var.dimensions[0] != face_dim
+            else:
+                fortran_order = array.shape[0] == defs["num_ind"] != array.shape[1]
+            if fortran_order:
                 array = array.T
             try:
                 start_index = int(var.start_index)
diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 7b7bf35..8ce1fa3 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -1046,6 +1046,7 @@ class UGrid:
                 mesh.edge_coordinates = coord(mesh_name)
         if self._faces is not None:
             mesh.face_node_connectivity = mesh_name + "_face_nodes"
+            mesh.face_dimension = mesh_name + "_num_face"
             if self.face_coordinates is not None:
                 # Optional attribute.
                 coord = "{0}_face_lon {0}_face_lat".format
-- 
2.43.0


From 3e90316e295afccb8460990157921426a3ef97fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:55 +0000
Subject: [PATCH 29/94] fix: segfault locating points on a flexible mesh loaded
 from a file

---
 gridded/pyugrid/ugrid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 8ce1fa3..0668cb7 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -670,7 +670,8 @@ class UGrid:
 
         if self.nodes is None or self.faces is None:
             raise ValueError("Nodes and faces must be defined in order to create and use CellTree")
-        self._cell_tree = CellTree(self.nodes, self.faces)
+        # the CellTree expects the smaller faces of a flexible mesh to be padded with -1
+        self._cell_tree = CellTree(self.nodes, np.ma.filled(self.faces, -1))
 
     def interpolation_alphas(self, points, indices=None, _copy=False, _memo=True, _hash=None):
         """
-- 
2.43.0


From a548bc60d30f64518c635a74fec07193b9a49508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:36 +0000
Subject: [PATCH 30/94] fix: saved UGRID files referred to connectivity
 variables that were not in the file, and not to the boundary coordinates

---
 gridded/pyugrid/ugrid.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 0668cb7..53a9e38 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -1060,6 +1060,10 @@ class UGrid:
             mesh.face_face_connectivity = mesh_name + "_face_links"
         if self._boundaries is not None:
             mesh.boundary_node_connectivity = mesh_name + "_boundary_nodes"
+            if self.boundary_coordinates is not None:
+                # Optional attribute (requires boundary_node_connectivity).
+                coord = "{0}_boundary_lon {0}_boundary_lat".format
+                mesh.boundary_coordinates = coord(mesh_name)
 
         # FIXME: This could be re-factored to be more generic, rather than
         # separate for each type of data see the coordinates example below.
@@ -1102,6 +1106,19 @@ class UGrid:
             boundary_nodes.long_name = "Maps every boundary segment to the two nodes that it connects."
             boundary_nodes.start_index = IND_DT(0)
 
+        # Optional connectivity of the faces.
+        for role, name in [("face_edge_connectivity", "_face_edges"), ("face_face_connectivity", "_face_links")]:
+            connectivity = getattr(self, role)
+            if connectivity is not None:
+                var = nclocal.createVariable(
+                    mesh_name + name,
+                    IND_DT,
+                    (mesh_name + "_num_face", mesh_name + "_num_vertices"),
+                )
+                var[:] = connectivity
+                var.cf_role = role
+                var.start_index = IND_DT(0)
+
         # Optional "coordinate variables."
         for location in ["face", "edge", "boundary"]:
             loc = f"{location}_coordinates"
-- 
2.43.0


From 54bdc7bfb76d957514d43acea34edad770cf79d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:22 +0000
Subject: [PATCH 31/94] fix: variables loaded from a file were saved with their
 long name as the name

---
 gridded/pyugrid/ugrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 53a9e38..1270d97 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -1201,11 +1201,11 @@ class UGrid:
             else:
                 raise ValueError(f"I don't know how to save a variable located on: {var.location}")
             print("Saving:", var)
-            print("name is:", var.name)
+            print("name is:", name)
             print("var data is:", var.data)
             print("var data shape is:", var.data.shape)
             data_var = nclocal.createVariable(
-                var.name,
+                name,
                 var.data.dtype,
                 shape,
                 chunksizes=chunksizes,
-- 
2.43.0


From 97ad4bc2b286d1943ed2fa1aa76078e1368d0b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:41 +0000
Subject: [PATCH 32/94] fix: saving variables loaded from a file that have a
 fill value or are packed

---
 gridded/pyugrid/ugrid.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 1270d97..5080106 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -1211,9 +1211,9 @@ class UGrid:
                 chunksizes=chunksizes,
                 # zlib=False,
                 # complevel=0,
+                fill_value=var.attributes.get("_FillValue"),
             )
             print("new dat var shape:", shape)
-            data_var[:] = var.data[:]
             # Add the standard attributes:
             data_var.location = var.location
             data_var.mesh = mesh_name
@@ -1221,4 +1221,7 @@ class UGrid:
                 data_var.coordinates = coordinates
             # Add the extra attributes.
             for att_name, att_value in var.attributes.items():
-                setattr(data_var, att_name, att_value)
+                if att_name != "_FillValue":  # can only be set when the variable is created
+                    setattr(data_var, att_name, att_value)
+            # after the attributes, as they may define how the data are packed
+            data_var[:] = var.data[:]
-- 
2.43.0


From 7ee94315bfbdb95466f8b55d6d7e308521a5b11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:48 +0000
Subject: [PATCH 33/94] fix: global attributes of a Dataset were not saved

---
 gridded/gridded.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gridded/gridded.py b/gridded/gridded.py
index a7735a1..fe327f7 100644
--- a/gridded/gridded.py
+++ b/gridded/gridded.py
@@ -217,6 +217,8 @@ class Dataset:
         # create an ncdataset
         ncds = get_writable_dataset(filename)
 
+        ncds.setncatts(self.attributes)
+
         # Save the grid and variables
         self.grid.save(ncds, format="netcdf4", variables=self.variables)
 
-- 
2.43.0


From affe6a588fa07fceaef3c522bb4fe00296f858df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:33 +0000
Subject: [PATCH 34/94] fix: grid_topology with mixed case variable names, or a
 single variable for the nodes

---
 gridded/grids.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/gridded/grids.py b/gridded/grids.py
index 8c36d60..38df8ab 100644
--- a/gridded/grids.py
+++ b/gridded/grids.py
@@ -78,9 +78,9 @@ class GridBase:
         else:
             for n, v in grid_topology.items():
                 if n in node_attrs:
-                    init_args[n] = gf_vars[v][:]
+                    init_args[n] = gf_vars[v.lower()][:]
                 if n in composite_node_names:
-                    v = gf_vars[n][:].reshape(-1, 2)
+                    v = gf_vars[v.lower()][:].reshape(-1, 2)
                     init_args[node_attrs[0]] = v[:, 0]
                     init_args[node_attrs[1]] = v[:, 1]
             gt = grid_topology
@@ -136,7 +136,7 @@ class Grid_U(GridBase, UGrid):
         else:
             for n, v in grid_topology.items():
                 if n in face_attrs:
-                    init_args[n] = gf_vars[v][:]
+                    init_args[n] = gf_vars[v.lower()][:]
                     break
             gt = grid_topology
         # fixme: This is assuming that the array will be in Fortran order and index
@@ -224,11 +224,11 @@ class Grid_S(GridBase, SGrid):
 
         else:
             for n, v in grid_topology.items():
-                if n in center_attrs + edge1_attrs + edge2_attrs and v in gf_vars:
-                    init_args[n] = gf_vars[v][:]
-                if n in mask_attrs and v in gf_vars:
+                if n in center_attrs + edge1_attrs + edge2_attrs and v.lower() in gf_vars:
+                    init_args[n] = gf_vars[v.lower()][:]
+                if n in mask_attrs and v.lower() in gf_vars:
                     # masks are not dereferenced
-                    init_args[n] = gf_vars[v]
+                    init_args[n] = gf_vars[v.lower()]
             gt = grid_topology
         return init_args, gt
 
-- 
2.43.0


From fe4c37f0906c028c882e2a3b49bcdc0f929f2d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:52 +0000
Subject: [PATCH 35/94] fix: detected grids with capital letters in the names
 of their coordinates did not fit their variables

---
 gridded/grids.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/gridded/grids.py b/gridded/grids.py
index 38df8ab..39878f4 100644
--- a/gridded/grids.py
+++ b/gridded/grids.py
@@ -62,8 +62,8 @@ class GridBase:
                 if n1 in gf_vars and n2 in gf_vars:
                     init_args[node_attrs[0]] = gf_vars[n1][:]
                     init_args[node_attrs[1]] = gf_vars[n2][:]
-                    gt[node_attrs[0]] = n1
-                    gt[node_attrs[1]] = n2
+                    gt[node_attrs[0]] = gf_vars[n1].name
+                    gt[node_attrs[1]] = gf_vars[n2].name
                     break
             if node_attrs[0] not in init_args:
                 for n in composite_node_names:
@@ -71,7 +71,7 @@ class GridBase:
                         v = gf_vars[n][:].reshape(-1, 2)
                         init_args[node_attrs[0]] = v[:, 0]
                         init_args[node_attrs[1]] = v[:, 1]
-                        gt["node_coordinates"] = n
+                        gt["node_coordinates"] = gf_vars[n].name
                         break
             if node_attrs[0] not in init_args:
                 raise ValueError("Unable to find node coordinates.")
@@ -128,7 +128,7 @@ class Grid_U(GridBase, UGrid):
             for n in face_var_names:
                 if n in gf_vars:
                     init_args[face_attrs[0]] = gf_vars[n][:]
-                    gt[face_attrs[0]] = n
+                    gt[face_attrs[0]] = gf_vars[n].name
                     break
             if face_attrs[0] not in init_args:
                 raise ValueError("Unable to find face connectivity array.")
@@ -211,9 +211,9 @@ class Grid_S(GridBase, SGrid):
                         init_args[attr[1]] = a2
                         if maskname[0] in gf_vars:
                             init_args[maskattr] = gf_vars[maskname[0]]
-                            gt[maskattr] = maskname[0]
-                        gt[attr[0]] = n1
-                        gt[attr[1]] = n2
+                            gt[maskattr] = gf_vars[maskname[0]].name
+                        gt[attr[0]] = gf_vars[n1].name
+                        gt[attr[1]] = gf_vars[n2].name
                         break
             if "node_lon" in init_args and "node_lat" in init_args:
                 mask = False  # fixme -- is mask used??
-- 
2.43.0


From 0bb572dc4150f6692de5fe529005bd985180bb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:59 +0000
Subject: [PATCH 36/94] fix: grid_type attributes of rectangular grids, or in
 upper case, were ignored

---
 gridded/grids.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gridded/grids.py b/gridded/grids.py
index 39878f4..e0a3d33 100644
--- a/gridded/grids.py
+++ b/gridded/grids.py
@@ -603,7 +603,8 @@ class Grid:
                 return Grid_S
         else:
             # no topology, so search dataset for grid_type variable
-            if hasattr(dataset, "grid_type") and dataset.grid_type in sgrid_names + ugrid_names:
+            all_names = sgrid_names + ugrid_names + rgrid_names
+            if hasattr(dataset, "grid_type") and dataset.grid_type.lower() in all_names:
                 if dataset.grid_type.lower() in ugrid_names:
                     return Grid_U
                 elif dataset.grid_type.lower() in rgrid_names:
-- 
2.43.0


From 6263568dbfbbafe48eef27454ae377661a32b266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:25 +0000
Subject: [PATCH 37/94] fix: ordering boundary segments that meet head to head
 raised TypeError

---
 gridded/io/verdat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/io/verdat.py b/gridded/io/verdat.py
index e215f17..b598fd1 100644
--- a/gridded/io/verdat.py
+++ b/gridded/io/verdat.py
@@ -175,7 +175,7 @@ def order_boundary_segments(bound_segs):
                     bound.append(p0)
                     bound_segs.pop(i)
                 elif p0 == bound[0]:
-                    bound.insert(p1)
+                    bound.insert(0, p1)
                     bound_segs.pop(i)
                 elif p1 == bound[0]:
                     bound.insert(0, p0)
-- 
2.43.0


From 615951f780331a4aff54160755cee0968d037615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:03 +0000
Subject: [PATCH 38/94] fix: unmask was ignored when none of the points is on a
 curvilinear grid

---
 gridded/pysgrid/sgrid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 69448f5..1640128 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -1124,7 +1124,8 @@ class SGrid:
             # ind has to be writable
             ind = self.locate_faces(points, _memo, _copy, _hash)
             if (ind.mask).all():
-                return np.ma.masked_all((points.shape[0], 1))
+                result = np.ma.masked_all((points.shape[0], 1))
+                return result.filled(fill_value) if unmask else result
 
         if self._l_coeffs is None:
             self._compute_transform_coeffs()
-- 
2.43.0


From 8a2e6d7e85ff9c76c4a2d10ec2c35e061305527e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:05 +0000
Subject: [PATCH 39/94] fix: some points in a cell were not located

---
 gridded/pysgrid/sgrid.py | 3 ++-
 gridded/pyugrid/ugrid.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 1640128..cd7e0b9 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -917,7 +917,8 @@ class SGrid:
             lin_nodes = np.ascontiguousarray(np.stack((lon, lat), axis=-1).reshape(-1, 2).astype(np.float64))
 
         # CellTree can not be built without any cells, as on a grid that is all land
-        tree = CellTree(lin_nodes, lin_faces) if len(lin_faces) > 0 else None
+        # With more than two buckets it may fail to find points that are in a cell
+        tree = CellTree(lin_nodes, lin_faces, 2) if len(lin_faces) > 0 else None
         self._cell_tree = (tree, lin_nodes, lin_faces)
 
     def nearest_var_to_points(
diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 5080106..9b6272e 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -671,7 +671,8 @@ class UGrid:
         if self.nodes is None or self.faces is None:
             raise ValueError("Nodes and faces must be defined in order to create and use CellTree")
         # the CellTree expects the smaller faces of a flexible mesh to be padded with -1
-        self._cell_tree = CellTree(self.nodes, np.ma.filled(self.faces, -1))
+        # With more than two buckets it may fail to find points that are in a face
+        self._cell_tree = CellTree(self.nodes, np.ma.filled(self.faces, -1), 2)
 
     def interpolation_alphas(self, points, indices=None, _copy=False, _memo=True, _hash=None):
         """
-- 
2.43.0


From 6385749c9cf52769142a1742796757cff043217e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:04 +0000
Subject: [PATCH 40/94] fix: masked values were used by Grid_R interpolation
 without slices

---
 gridded/grids.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/gridded/grids.py b/gridded/grids.py
index e0a3d33..7975c52 100644
--- a/gridded/grids.py
+++ b/gridded/grids.py
@@ -405,10 +405,9 @@ class Grid_R(GridBase):
         points_x = points[:, 0]  # lon
         y, x = self.lonlat_to_yx(variable)
 
-        if slices is not None:
-            variable = variable[slices]
-            if np.ma.isMA(variable):
-                variable = variable.filled(0)  # eventually should use Variable fill value
+        variable = variable[:] if slices is None else variable[slices]
+        if np.ma.isMA(variable):
+            variable = variable.filled(0)  # eventually should use Variable fill value
 
         # idx_y = np.digitize(points_y, y) - 1
         # idx_x = np.digitize(points_x, x) - 1
-- 
2.43.0


From 750feeae032339808827a3731c0150cc622bd1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:03 +0000
Subject: [PATCH 41/94] fix: depth interpolation of center data gave all points
 of a layer the value of the first

---
 gridded/variable.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index cece7a1..d0e018c 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -672,7 +672,8 @@ class Variable:
             slices=slices,
             _memo=True,
         )
-        return value
+        # one value per point: some grids return a column
+        return value.reshape(-1)
 
     def _time_interp(self, points, time, extrapolate, slices=(), **kwargs):
         """
-- 
2.43.0


From 6f65e08d6f3ff9ff7058fcf25cda4a98e58ceaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:15 +0000
Subject: [PATCH 42/94] fix: depth interpolation on sigma layers failed for
 bathymetry and zeta of plain arrays

---
 gridded/depth.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gridded/depth.py b/gridded/depth.py
index 7ce430d..6980b4d 100644
--- a/gridded/depth.py
+++ b/gridded/depth.py
@@ -707,8 +707,10 @@ class S_Depth(DepthBase):
 
         # depth_profile mask is True where the point is outside the grid horizontally
         # so it must be reapplied
-        indices = np.ma.array(indices, mask=depth_profiles.mask[:, 0].copy())
-        alphas.mask = depth_profiles.mask[:, 0].copy()
+        # (the profiles are not masked at all if neither bathymetry nor zeta are)
+        off_grid = np.ma.getmaskarray(depth_profiles)[:, 0]
+        indices = np.ma.array(indices, mask=off_grid.copy())
+        alphas.mask = off_grid.copy()
         indices, alphas, oob_mask = self._apply_boundary_conditions(
             indices, alphas, surface_index, bottom_index, surface_boundary_condition, bottom_boundary_condition
         )
-- 
2.43.0


From 4333b19c72b775f616fe7cf0f070c47cb90b72e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:33 +0000
Subject: [PATCH 43/94] fix: SGRID files without vertical dimensions, or
 coordinates of the faces, could not be loaded

---
 gridded/pysgrid/sgrid.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index cd7e0b9..f3692d7 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -269,7 +269,7 @@ class SGrid:
 
     def all_padding(self):
         all_padding = self.get_all_face_padding() + self.get_all_edge_padding()
-        if self.vertical_padding is not None:
+        if self._vertical_padding is not None:
             all_padding += self._vertical_padding
         return all_padding
 
@@ -1429,6 +1429,9 @@ class SGridAttributes:
         if not angles:
             # FIXME: Get rid of pair_arrays.
             center_lon, center_lat = self.get_cell_center_lat_lon()
+            if center_lon is None:
+                # the coordinates of the faces are optional
+                return None
             cell_centers = pair_arrays(center_lon, center_lat)
             centers_start = cell_centers[..., :-1, :]
             centers_end = cell_centers[..., 1:, :]
-- 
2.43.0


From ef89287313ec45012619703f06e47ff6ab90d6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:33 +0000
Subject: [PATCH 44/94] fix: depth dimension of data without a time was taken
 to be time

---
 gridded/variable.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index d0e018c..2b6ad54 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -513,7 +513,9 @@ class Variable:
             if diff == 0:
                 return order
             elif diff == 1:
-                if self.time is not None:
+                # a single (constant) time may be without a dimension of its own
+                no_time_dim = self.depth is not None and self.time is not None and len(self.time) != self.data.shape[0]
+                if self.time is not None and not no_time_dim:
                     del order[1]
                 elif self.depth is not None:
                     del order[0]
-- 
2.43.0


From 1d12fda6040c8d1eb7462f689c51075686881e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:57 +0000
Subject: [PATCH 45/94] fix: digits in the names of the axes of SGRID variables
 were dropped

---
 gridded/pysgrid/read_netcdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/pysgrid/read_netcdf.py b/gridded/pysgrid/read_netcdf.py
index 03d5869..95d253d 100644
--- a/gridded/pysgrid/read_netcdf.py
+++ b/gridded/pysgrid/read_netcdf.py
@@ -86,7 +86,7 @@ def parse_padding(padding_str, mesh_topology_var):
 
 
 def parse_axes(axes_attr):
-    p = re.compile("([a-zA-Z]: [a-zA-Z_]+)")
+    p = re.compile("([a-zA-Z]: [a-zA-Z0-9_]+)")
     matches = p.findall(axes_attr)
     x_axis = None
     y_axis = None
-- 
2.43.0


From 2ecafa64c15a7167e802f162b2c36aa46ae41a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:57 +0000
Subject: [PATCH 46/94] fix: different paddings of the two dimensions of the
 faces of SGRID files were swapped

---
 gridded/pysgrid/sgrid.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index f3692d7..748652b 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -199,6 +199,11 @@ class SGrid:
         edge1_lon, edge1_lat = sa.get_cell_edge1_lat_lon()
         edge2_lon, edge2_lat = sa.get_cell_edge2_lat_lon()
         face_dimensions, face_padding = sa.get_attr_dimension("face_dimensions")  # noqa
+        if face_padding is not None and node_coordinates is not None:
+            # the dimensions may be listed in any order: put them in the order of the arrays
+            node_dims = nc[node_coordinates[0]].dimensions
+            if all(padding.node_dim in node_dims for padding in face_padding):
+                face_padding.sort(key=lambda padding: node_dims.index(padding.node_dim))
         face_coordinates = sa.get_attr_coordinates("face_coordinates")
         node_mask, center_mask, edge1_mask, edge2_mask = sa.get_masks(node_lon, center_lon, edge1_lon, edge2_lon)
         sgrid = cls(
-- 
2.43.0


From 2c6cf8e2bbc04e26384730475999385000ab932f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:45 +0000
Subject: [PATCH 47/94] fix: SGRID files with variables named as attributes of
 the grid (e.g. node_lon) could not be used

---
 gridded/pysgrid/sgrid.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 748652b..f578c6a 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -149,6 +149,7 @@ class SGrid:
         self._log_ind_memo_dict = OrderedDict()
         self._cell_ind_memo_dict = OrderedDict()
         self._cell_tree_mask = None
+        self._file_variables = {}  # of the file the grid was loaded from
         self.grid_topology = grid_topology
         self.masked_interpolant_behavior = masked_interpolant_behavior
         super().__init__(*args, **kwargs)
@@ -424,8 +425,8 @@ class SGrid:
             nc_file.createDimension(dim_name, dim_size)
         # Create variables.
         center_lon, center_lat = self.face_coordinates
-        center_lon_obj = getattr(self, center_lon)
-        center_lat_obj = getattr(self, center_lat)
+        center_lon_obj = self._file_variables[center_lon]
+        center_lat_obj = self._file_variables[center_lat]
         center_lon = nc_file.createVariable(center_lon_obj.variable, center_lon_obj.dtype, center_lon_obj.dimensions)
         center_lat = nc_file.createVariable(center_lat_obj.variable, center_lat_obj.dtype, center_lat_obj.dimensions)
         center_lon[:] = self.center_lon[:]
@@ -435,13 +436,13 @@ class SGrid:
         except TypeError:
             pass
         else:
-            node_lon_obj = getattr(self, node_lon)
+            node_lon_obj = self._file_variables[node_lon]
             grid_node_lon = nc_file.createVariable(node_lon_obj.variable, node_lon_obj.dtype, node_lon_obj.dimensions)
-            node_lat_obj = getattr(self, node_lat)
+            node_lat_obj = self._file_variables[node_lat]
             grid_node_lat = nc_file.createVariable(node_lat_obj.variable, node_lat_obj.dtype, node_lat_obj.dimensions)
             grid_node_lon[:] = self.node_lon[:]
             grid_node_lat[:] = self.node_lat[:]
-        grid_var_obj = getattr(self, grid_var)
+        grid_var_obj = self._file_variables[grid_var]
         grid_vars = nc_file.createVariable(grid_var_obj.variable, grid_var_obj.dtype)
         grid_vars.cf_role = "grid_topology"
         grid_vars.topology_dimension = self.topology_dimension
@@ -456,13 +457,13 @@ class SGrid:
             grid_vars.edge1_coordinates = " ".join(self.edge1_coordinates)
         if self.edge2_coordinates is not None:
             grid_vars.edge2_coordinates = " ".join(self.edge2_coordinates)
-        if hasattr(self, "angle"):
-            angle_obj = getattr(self, "angle", None)
+        if "angle" in self._file_variables:
+            angle_obj = self._file_variables["angle"]
             grid_angle = nc_file.createVariable(angle_obj.variable, angle_obj.dtype, angle_obj.dimensions)
             if self.angles is not None:
                 grid_angle[:] = self.angles[:]
         for dataset_variable in self.variables:
-            dataset_var_obj = getattr(self, dataset_variable)
+            dataset_var_obj = self._file_variables[dataset_variable]
             try:
                 dataset_grid_var = nc_file.createVariable(
                     dataset_var_obj.variable, dataset_var_obj.dtype, dataset_var_obj.dimensions
@@ -1422,7 +1423,10 @@ class SGridAttributes:
         for nc_variable in nc_variables:
             nc_var = nc_variables[nc_variable]
             sgrid_var = SGridVariable.create_variable(nc_var, sgrid)
-            setattr(sgrid, sgrid_var.variable, sgrid_var)
+            sgrid._file_variables[sgrid_var.variable] = sgrid_var
+            # an attribute as well, unless the grid itself has one of that name
+            if not hasattr(sgrid, sgrid_var.variable):
+                setattr(sgrid, sgrid_var.variable, sgrid_var)
             dataset_variables.append(nc_var.name)
             if hasattr(nc_var, "grid"):
                 grid_variables.append(nc_var.name)
-- 
2.43.0


From 51783365a4f2430db315eab9f064ccf24f42d1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:45 +0000
Subject: [PATCH 48/94] fix: SGRID grids without coordinates of the faces could
 not be saved

---
 gridded/pysgrid/sgrid.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index f578c6a..f217ce5 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -424,13 +424,21 @@ class SGrid:
             dim_name, dim_size = grid_dim
             nc_file.createDimension(dim_name, dim_size)
         # Create variables.
-        center_lon, center_lat = self.face_coordinates
-        center_lon_obj = self._file_variables[center_lon]
-        center_lat_obj = self._file_variables[center_lat]
-        center_lon = nc_file.createVariable(center_lon_obj.variable, center_lon_obj.dtype, center_lon_obj.dimensions)
-        center_lat = nc_file.createVariable(center_lat_obj.variable, center_lat_obj.dtype, center_lat_obj.dimensions)
-        center_lon[:] = self.center_lon[:]
-        center_lat[:] = self.center_lat[:]
+        try:
+            center_lon, center_lat = self.face_coordinates
+        except TypeError:
+            pass
+        else:
+            center_lon_obj = self._file_variables[center_lon]
+            center_lat_obj = self._file_variables[center_lat]
+            center_lon = nc_file.createVariable(
+                center_lon_obj.variable, center_lon_obj.dtype, center_lon_obj.dimensions
+            )
+            center_lat = nc_file.createVariable(
+                center_lat_obj.variable, center_lat_obj.dtype, center_lat_obj.dimensions
+            )
+            center_lon[:] = self.center_lon[:]
+            center_lat[:] = self.center_lat[:]
         try:
             node_lon, node_lat = self.node_coordinates
         except TypeError:
-- 
2.43.0


From 7153bee798f18fa192d14b5caa80f3dedf2af33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:14 +0000
Subject: [PATCH 49/94] fix: coordinates of the edges of an SGRID grid were
 missing in the saved file

---
 gridded/pysgrid/sgrid.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index f217ce5..739195e 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -470,6 +470,13 @@ class SGrid:
             grid_angle = nc_file.createVariable(angle_obj.variable, angle_obj.dtype, angle_obj.dimensions)
             if self.angles is not None:
                 grid_angle[:] = self.angles[:]
+        edges = {}
+        for names, arrays in (
+            (self.edge1_coordinates, (self.edge1_lon, self.edge1_lat)),
+            (self.edge2_coordinates, (self.edge2_lon, self.edge2_lat)),
+        ):
+            if names is not None:
+                edges.update(zip(names, arrays))
         for dataset_variable in self.variables:
             dataset_var_obj = self._file_variables[dataset_variable]
             try:
@@ -497,6 +504,8 @@ class SGrid:
                     axes.append(z_axis)
                 if axes:
                     dataset_grid_var.axes = " ".join(axes)
+                if edges.get(dataset_variable) is not None:
+                    dataset_grid_var[:] = edges[dataset_variable][:]
         return grid_vars
 
     def _get_geo_mask(self, name):
-- 
2.43.0


From b4f82f269b2370dfd985d3c16483712993f3b9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:23 +0000
Subject: [PATCH 50/94] fix: land masks of an SGRID grid were missing in the
 saved file

---
 gridded/pysgrid/sgrid.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 739195e..046374e 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -477,6 +477,8 @@ class SGrid:
         ):
             if names is not None:
                 edges.update(zip(names, arrays))
+        masks = (self.node_mask, self.center_mask, self.edge1_mask, self.edge2_mask)
+        masks = {mask.name: mask for mask in masks if hasattr(mask, "ncattrs")}
         for dataset_variable in self.variables:
             dataset_var_obj = self._file_variables[dataset_variable]
             try:
@@ -506,6 +508,12 @@ class SGrid:
                     dataset_grid_var.axes = " ".join(axes)
                 if edges.get(dataset_variable) is not None:
                     dataset_grid_var[:] = edges[dataset_variable][:]
+                if dataset_variable in masks:
+                    # what is land depends on the flags
+                    mask = masks[dataset_variable]
+                    attrs = {att: mask.getncattr(att) for att in mask.ncattrs() if att != "_FillValue"}
+                    dataset_grid_var.setncatts(attrs)
+                    dataset_grid_var[:] = mask[:]
         return grid_vars
 
     def _get_geo_mask(self, name):
-- 
2.43.0


From 85031976ee27d65f4d543034259d3f818401f880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:32 +0000
Subject: [PATCH 51/94] fix: velocities on the faces of an SGRID file were
 taken to be the coordinates of the faces

---
 gridded/pysgrid/read_netcdf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gridded/pysgrid/read_netcdf.py b/gridded/pysgrid/read_netcdf.py
index 95d253d..b545e8e 100644
--- a/gridded/pysgrid/read_netcdf.py
+++ b/gridded/pysgrid/read_netcdf.py
@@ -212,6 +212,8 @@ class NetCDFDataset:
                         nc_var_dim_set.issubset(location_var_dims)
                         and nc_var != var_with_location
                         and len(nc_var_dim_set) > 0
+                        # data on the grid, such as a sea_water_x_velocity
+                        and not (hasattr(nc_var_obj, "location") or hasattr(nc_var_obj, "grid"))
                     ):
                         potential_coordinates.append(nc_var_obj)
                 for potential_coordinate in potential_coordinates:
-- 
2.43.0


From 95354fb09b6570c9ba101aed5b736a9b725180a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:05 +0000
Subject: [PATCH 52/94] fix: a UGRID topology given by the caller makes an
 unstructured grid

---
 gridded/grids.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gridded/grids.py b/gridded/grids.py
index 7975c52..3e781fb 100644
--- a/gridded/grids.py
+++ b/gridded/grids.py
@@ -594,7 +594,11 @@ class Grid:
             else:
                 raise ValueError("Specified grid_type not recognized/supported")
         if grid_topology is not None:
-            if "faces" in grid_topology.keys() or grid_topology.get("grid_type", "notype").lower() in ugrid_names:
+            if (
+                "faces" in grid_topology.keys()
+                or grid_topology.get("cf_role") == "mesh_topology"
+                or grid_topology.get("grid_type", "notype").lower() in ugrid_names
+            ):
                 return Grid_U
             elif grid_topology.get("grid_type", "notype").lower() in rgrid_names:
                 return Grid_R
-- 
2.43.0


From 79bcec213cca130da42177404b755e411db044d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:06 +0000
Subject: [PATCH 53/94] fix: flags of rivers in a mask count as water, as
 documented

---
 gridded/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/utilities.py b/gridded/utilities.py
index ab5dafc..a6a42f0 100644
--- a/gridded/utilities.py
+++ b/gridded/utilities.py
@@ -52,7 +52,7 @@ def convert_mask_to_numpy_mask(mask_var):
         # CF Conventions 3.5 places no case requirement on flag_meanings, so
         # "Land Water" is valid metadata. Lowercase before the substring test
         # so capitalized words are recognized as water/lake.
-        meaning_mask = [False if ("water" in s.lower() or "lake" in s.lower()) else True for s in fm]
+        meaning_mask = [not any(name in s.lower() for name in ("water", "lake", "river")) for s in fm]
         tfmap = dict(zip(fv, meaning_mask))
         for k, v in tfmap.items():
             ret_mask[mask_data == k] = v
-- 
2.43.0


From a08d3a25bff2cf9554c757c3ad09b6ad4768ffb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:35 +0000
Subject: [PATCH 54/94] fix: a variable of an SGRID file could answer with the
 values of another index

---
 gridded/pysgrid/variables.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/gridded/pysgrid/variables.py b/gridded/pysgrid/variables.py
index 202793e..072f8dd 100644
--- a/gridded/pysgrid/variables.py
+++ b/gridded/pysgrid/variables.py
@@ -4,6 +4,7 @@ Created on Apr 15, 2015
 @author: ayan
 """
 
+import pickle
 from collections import OrderedDict
 
 import numpy as np
@@ -170,15 +171,17 @@ class SGridVariable:
 
         if not hasattr(self, "_cache"):
             self._cache = OrderedDict()
-        rv = None
-        if str(item) in self._cache:
-            rv = self._cache[str(item)]
+        # str() of an index is not enough: that of a long array has only its ends
+        key = pickle.dumps(item)
+        if key in self._cache:
+            rv = self._cache[key]
         else:
             rv = self._data.__getitem__(item)
-            self._cache[str(item)] = rv
+            self._cache[key] = rv
             if len(self._cache) > 3:
                 self._cache.popitem(last=False)
-        return rv
+        # a copy, as the caller may change what it gets
+        return rv.copy() if hasattr(rv, "copy") else rv
 
     def __str__(self):
         return f"SGridVariable object: {self.standard_name:s}, on the {self.location:s}s"
-- 
2.43.0


From e6672cf8202f4f84d06b8fd664e42493bf8afd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:25 +0000
Subject: [PATCH 55/94] fix: the location of variables that are not on a
 rectangular grid

One with a single dimension was compared with both dimensions of the grid,
and the shape of edges, which a Grid_R does not have, raised AttributeError.
---
 gridded/grids.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/gridded/grids.py b/gridded/grids.py
index 3e781fb..a9707e7 100644
--- a/gridded/grids.py
+++ b/gridded/grids.py
@@ -450,6 +450,8 @@ class Grid_R(GridBase):
         if hasattr(variable, "location"):
             return variable.location
 
+        if len(variable.shape) < 2:
+            return None
         x_len = len(self.node_lon)
         y_len = len(self.node_lat)
         node_shape = np.array((y_len, x_len))
@@ -457,10 +459,6 @@ class Grid_R(GridBase):
         difference = (var_shape - node_shape).tolist()
         if (difference == [1, 1] or difference == [-1, -1]) and self.center_lon is not None:
             return "center"
-        elif difference == [1, 0] and self.edge1_lon is not None:
-            return "edge1"
-        elif difference == [0, 1] and self.edge2_lon is not None:
-            return "edge2"
         elif difference == [0, 0] and self.node_lon is not None:
             return "node"
         else:
-- 
2.43.0


From 65aad4b23df1d1873cf9e375f809fbaf27b9fc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:25 +0000
Subject: [PATCH 56/94] fix: filename has the lowest priority, as documented

It was used instead of the open dataset, grid_file or data_file given with it.
---
 gridded/grids.py     |  6 +++++-
 gridded/utilities.py |  5 +++--
 gridded/variable.py  | 14 ++++++--------
 3 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/gridded/grids.py b/gridded/grids.py
index a9707e7..ca53878 100644
--- a/gridded/grids.py
+++ b/gridded/grids.py
@@ -490,7 +490,11 @@ class Grid:
         Redirect to grid-specific loading routine.
         """
         if issubclass(grid_type, UGrid):
-            return grid_type.from_ncfile(filename=filename, dataset=dataset)
+            if dataset is None:
+                return grid_type.from_ncfile(filename=filename)
+            g = grid_type.from_nc_dataset(dataset)
+            g.filename = filename
+            return g
         elif issubclass(grid_type, SGrid):
             ds = get_dataset(filename, dataset)
             g = grid_type.load_grid(ds)
diff --git a/gridded/utilities.py b/gridded/utilities.py
index a6a42f0..4aa113e 100644
--- a/gridded/utilities.py
+++ b/gridded/utilities.py
@@ -411,12 +411,13 @@ def parse_filename_dataset_args(
     """
     ds = None
     dg = None
-    if filename is not None:
+    if filename is not None and dataset is None:
         try:
             filename = os.fspath(filename)
         except TypeError:
             pass
-        data_file = grid_file = filename
+        data_file = filename if data_file is None else data_file
+        grid_file = filename if grid_file is None else grid_file
     if dataset is None:
         if grid_file == data_file:
             ds = dg = get_dataset(grid_file)
diff --git a/gridded/variable.py b/gridded/variable.py
index 2b6ad54..5414429 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -220,13 +220,12 @@ class Variable:
         Grid = cls._default_component_types["grid"]
         Time = cls._default_component_types["time"]
         Depth = cls._default_component_types["depth"]
-        if filename is not None:
-            data_file = filename
-            grid_file = filename
-
         ds, dg = parse_filename_dataset_args(
             filename=filename, dataset=dataset, grid_file=grid_file, data_file=data_file
         )
+        if filename is not None:
+            data_file = filename if data_file is None else data_file
+            grid_file = filename if grid_file is None else grid_file
 
         if grid is None:
             grid = Grid.from_netCDF(grid_file, dataset=dg, grid_topology=grid_topology)
@@ -975,13 +974,12 @@ class VectorVariable:
         Time = cls._default_component_types["time"]
         Variable = cls._default_component_types["variable"]
         Depth = cls._default_component_types["depth"]
-        if filename is not None:
-            data_file = filename
-            grid_file = filename
-
         ds, dg = parse_filename_dataset_args(
             filename=filename, dataset=dataset, grid_file=grid_file, data_file=data_file
         )
+        if filename is not None:
+            data_file = filename if data_file is None else data_file
+            grid_file = filename if grid_file is None else grid_file
 
         if grid is None:
             grid = Grid.from_netCDF(grid_file, dataset=dg, grid_topology=grid_topology)
-- 
2.43.0


From 651ebb5d0be3ecbe0c5729f5f7f78c0d25a4beee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:25 +0000
Subject: [PATCH 57/94] fix: variables named like a word in the description of
 the mesh were not loaded

---
 gridded/gridded.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gridded/gridded.py b/gridded/gridded.py
index fe327f7..541eb8a 100644
--- a/gridded/gridded.py
+++ b/gridded/gridded.py
@@ -151,9 +151,14 @@ class Dataset:
         #        It *should* have already gotten the grid and depth and time,
         #        and then the variables can be loaded directly.
         variables = {}
+        topology = self.grid.grid_topology
+        if "cf_role" in topology:
+            # the attributes of a topology variable: not all of them name parts of the grid
+            suffixes = ("coordinates", "connectivity", "dimension", "dimensions")
+            topology = {k: v for k, v in topology.items() if k.endswith(suffixes)}
         for k in ds.variables.keys():
             # find which netcdf variables are used to define the grid
-            is_not_grid_attr = all([k not in str(v).split() for v in self.grid.grid_topology.values()])
+            is_not_grid_attr = all([k not in str(v).split() for v in topology.values()])
             if is_not_grid_attr:
                 ncvar = ds[k]
                 # find the location of the variable
-- 
2.43.0


From a7971edc75d9881c2d5069d0b7ba5121eceacdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:25 +0000
Subject: [PATCH 58/94] fix: several files could not be loaded as one Dataset

---
 gridded/gridded.py   | 7 ++++++-
 gridded/utilities.py | 2 ++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/gridded/gridded.py b/gridded/gridded.py
index 541eb8a..a14d772 100644
--- a/gridded/gridded.py
+++ b/gridded/gridded.py
@@ -10,6 +10,8 @@ The core class that encapsulates the gridded data model
 
 import warnings
 
+import netCDF4 as nc4
+
 from gridded.grids import Grid
 from gridded.utilities import (
     get_dataset,
@@ -94,7 +96,10 @@ class Dataset:
             raise NotImplementedError("Loading from separate netcdf files is not yet supported")
 
         self.nc_dataset = get_dataset(filename)
-        self.filename = self.nc_dataset.filepath()
+        if isinstance(self.nc_dataset, nc4.MFDataset):
+            self.filename = filename  # there is no single path
+        else:
+            self.filename = self.nc_dataset.filepath()
         self.grid = Grid.from_netCDF(filename=self.filename,
                                      dataset=self.nc_dataset,
                                      grid_topology=grid_topology)
diff --git a/gridded/utilities.py b/gridded/utilities.py
index 4aa113e..a552555 100644
--- a/gridded/utilities.py
+++ b/gridded/utilities.py
@@ -458,6 +458,8 @@ def get_dataset_attrs(ds):
 
     :param ds: an open netCDF4.Dataset
     """
+    if isinstance(ds, nc4.MFDataset):  # has no getncattr of its own
+        return {name: getattr(ds, name) for name in ds.ncattrs()}
     return {name: ds.getncattr(name) for name in ds.ncattrs()}
 
 
-- 
2.43.0


From 6b17b2ed103ea129fe4720ea1b8d25d0f9196299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:25 +0000
Subject: [PATCH 59/94] fix: Dataset.info of a dataset on a rectangular grid

---
 gridded/grids.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gridded/grids.py b/gridded/grids.py
index ca53878..449464c 100644
--- a/gridded/grids.py
+++ b/gridded/grids.py
@@ -289,6 +289,13 @@ class Grid_R(GridBase):
             raise ValueError(f"Too many dimensions in node_lat. Must be 1D, was {len(node_lat.shape)}D")
         return init_args, gt
 
+    @property
+    def info(self):
+        """
+        summary of information about the grid
+        """
+        return f"Grid_R object:\nNumber of latitudes: {len(self.node_lat)}\nNumber of longitudes: {len(self.node_lon)}"
+
     @property
     def nodes(self):
         return np.stack((np.meshgrid(self.node_lon, self.node_lat)), axis=-1)
-- 
2.43.0


From f8b696a4214aecee35aa3fced69bc2668ef11f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:15 +0000
Subject: [PATCH 60/94] fix: variables of several files lost their attributes

---
 gridded/variable.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index 5414429..d451af2 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -125,7 +125,10 @@ class Variable:
         # if the data is a netcdf variable, pull the attributes from there
         try:
             for attr in self.data.ncattrs():
-                self.attributes[attr] = data.getncattr(attr)
+                try:
+                    self.attributes[attr] = data.getncattr(attr)
+                except AttributeError:  # a variable of several files has no getncattr
+                    self.attributes[attr] = getattr(data, attr)
         except AttributeError:  # must not be a netcdf variable
             pass  # so just use what was passed in.
         self.surface_boundary_condition = surface_boundary_condition
-- 
2.43.0


From d9fb42f4d8db5d29b8f13a87cc3087b54717a5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:01 +0000
Subject: [PATCH 61/94] fix: an SGRID grid could not be loaded from several
 files

---
 gridded/pysgrid/read_netcdf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gridded/pysgrid/read_netcdf.py b/gridded/pysgrid/read_netcdf.py
index b545e8e..7b83e64 100644
--- a/gridded/pysgrid/read_netcdf.py
+++ b/gridded/pysgrid/read_netcdf.py
@@ -120,9 +120,10 @@ class NetCDFDataset:
     def __init__(self, nc):
         self.nc = nc
         # in case a user as a version netcdf C library < 4.1.2
+        # or several files, which have no single path
         try:
             self._filepath = nc.filepath()
-        except ValueError:
+        except (ValueError, RuntimeError):
             self._filepath = None
         self.sgrid_compliant_file()
 
-- 
2.43.0


From 113ca64fdfb842361890151c4610408ed4934741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:30 +0000
Subject: [PATCH 62/94] fix: variables with a long name of one letter were
 taken for the depth levels

and those called 'depth' by their standard name were not found.
---
 gridded/depth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/depth.py b/gridded/depth.py
index 6980b4d..048512e 100644
--- a/gridded/depth.py
+++ b/gridded/depth.py
@@ -151,7 +151,7 @@ class DepthBase:
 class L_Depth(DepthBase):
     default_terms = [("depth_levels")]
     default_names = {"depth_levels": ["depth", "depth_levels", "Depth"]}
-    cf_names = {"depth_levels": "depth"}
+    cf_names = {"depth_levels": ["depth"]}
 
     def __init__(self, terms=None, **kwargs):
         super().__init__(**kwargs)
-- 
2.43.0


From 4c0e490ab5b531a4b5cdc65c7b877c0eca6c7093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:30 +0000
Subject: [PATCH 63/94] fix: the levels of FVCOM files with standard names were
 those of its layers

---
 gridded/utilities.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gridded/utilities.py b/gridded/utilities.py
index a552555..f75a2f7 100644
--- a/gridded/utilities.py
+++ b/gridded/utilities.py
@@ -471,11 +471,12 @@ def search_netcdf_vars(cls=None, ds=None, dg=None):
     """
     vn_search = search_dataset_for_variables_by_varname(ds, cls.default_names)
     ds_search = search_dataset_for_variables_by_longname(ds, cls.cf_names)
-    found_vars = merge_var_search_dicts(ds_search, vn_search)
+    # names first: several variables may share a standard name, as the siglay and siglev of FVCOM do
+    found_vars = merge_var_search_dicts(vn_search, ds_search)
     if ds != dg:
         dg_vn_search = search_dataset_for_variables_by_varname(dg, cls.default_names)
         dg_ln_search = search_dataset_for_variables_by_longname(dg, cls.cf_names)
-        dg_search = merge_var_search_dicts(dg_ln_search, dg_vn_search)
+        dg_search = merge_var_search_dicts(dg_vn_search, dg_ln_search)
         found_vars = merge_var_search_dicts(found_vars, dg_search)
     return found_vars
 
-- 
2.43.0


From f95d8ca71ba05959c7ba785af12536eb9d7fe292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:36 +0000
Subject: [PATCH 64/94] fix: plot_ugrid of a mesh with exactly three triangles
 drew other triangles

---
 gridded/plotting/mpl_plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/plotting/mpl_plotting.py b/gridded/plotting/mpl_plotting.py
index ef09bc4..d3f5748 100644
--- a/gridded/plotting/mpl_plotting.py
+++ b/gridded/plotting/mpl_plotting.py
@@ -49,7 +49,7 @@ def plot_ugrid(axes, grid, nodes=False, node_numbers=False, face_numbers=False):
     nodes_lon, nodes_lat = grid.node_lon, grid.node_lat
     faces = grid.faces
 
-    if faces.shape[0] == 3:
+    if faces.shape[0] == 3 and faces.shape[1] != 3:
         # swap order for mpl triangulation
         faces = faces.T
 
-- 
2.43.0


From b91a7f75e3d88503bcafabc53fadb45cbe80f018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:36 +0000
Subject: [PATCH 65/94] fix: plot_sgrid drew masked nodes at their fill values

---
 gridded/plotting/mpl_plotting.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gridded/plotting/mpl_plotting.py b/gridded/plotting/mpl_plotting.py
index d3f5748..b0aaae7 100644
--- a/gridded/plotting/mpl_plotting.py
+++ b/gridded/plotting/mpl_plotting.py
@@ -128,11 +128,13 @@ def plot_sgrid(axes, grid, nodes=False, rho_points=False, edge_points=False):
                               (where U and V are in ROMS)
     """
 
-    nodes_lon, nodes_lat = np.asarray(grid.node_lon), np.asarray(grid.node_lat)
+    # masked nodes are not drawn
+    nodes_lon = np.ma.filled(np.ma.asarray(grid.node_lon, dtype=float), np.nan)
+    nodes_lat = np.ma.filled(np.ma.asarray(grid.node_lat, dtype=float), np.nan)
 
     # need to set the limits for linecollection
-    axes.set_xlim(nodes_lon.min(), nodes_lon.max())
-    axes.set_ylim(nodes_lat.min(), nodes_lat.max())
+    axes.set_xlim(np.nanmin(nodes_lon), np.nanmax(nodes_lon))
+    axes.set_ylim(np.nanmin(nodes_lat), np.nanmax(nodes_lat))
 
     # plot the grid
     lines = []
-- 
2.43.0


From 0c49612bcb4bb99cb808f189103225f88caf15aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:36 +0000
Subject: [PATCH 66/94] fix: plot_sgrid ignored rho_points and edge_points

---
 gridded/plotting/mpl_plotting.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/gridded/plotting/mpl_plotting.py b/gridded/plotting/mpl_plotting.py
index b0aaae7..03296be 100644
--- a/gridded/plotting/mpl_plotting.py
+++ b/gridded/plotting/mpl_plotting.py
@@ -129,8 +129,8 @@ def plot_sgrid(axes, grid, nodes=False, rho_points=False, edge_points=False):
     """
 
     # masked nodes are not drawn
-    nodes_lon = np.ma.filled(np.ma.asarray(grid.node_lon, dtype=float), np.nan)
-    nodes_lat = np.ma.filled(np.ma.asarray(grid.node_lat, dtype=float), np.nan)
+    nodes_lon = np.ma.filled(np.ma.asarray(grid.node_lon[:], dtype=float), np.nan)
+    nodes_lat = np.ma.filled(np.ma.asarray(grid.node_lat[:], dtype=float), np.nan)
 
     # need to set the limits for linecollection
     axes.set_xlim(np.nanmin(nodes_lon), np.nanmax(nodes_lon))
@@ -151,6 +151,17 @@ def plot_sgrid(axes, grid, nodes=False, rho_points=False, edge_points=False):
     if nodes:
         axes.plot(nodes_lon, nodes_lat, "ok")
 
+    # plot the centers of the cells
+    if rho_points and grid.center_lon is not None:
+        axes.plot(grid.center_lon[:], grid.center_lat[:], ".k")
+
+    # plot the centers of the edges
+    if edge_points:
+        if grid.edge1_lon is not None:
+            axes.plot(grid.edge1_lon[:], grid.edge1_lat[:], "xk")
+        if grid.edge2_lon is not None:
+            axes.plot(grid.edge2_lon[:], grid.edge2_lat[:], "+k")
+
     # from ugrid -- needs changes -- maybe (i, j)?
     # if face_numbers:
     #     try:
-- 
2.43.0


From f92c05d28b066f384caeecdc6dd0b330c8cbe048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:13 +0000
Subject: [PATCH 67/94] fix: start_index was ignored in files that are not
 UGRID

---
 gridded/grids.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gridded/grids.py b/gridded/grids.py
index 449464c..910b960 100644
--- a/gridded/grids.py
+++ b/gridded/grids.py
@@ -142,10 +142,13 @@ class Grid_U(GridBase, UGrid):
         # fixme: This is assuming that the array will be in Fortran order and index
         #        from 1, or in C order and index from 0
         #        Those are actually independent concepts!
+        start_index = getattr(gf_vars[gt["faces"].lower()], "start_index", None)
         if init_args["faces"].shape[0] == 3:
             # fortran order faces need to be transposed
             init_args["faces"] = np.ascontiguousarray(np.array(init_args["faces"]).T)
-        if init_args["faces"].max() == init_args["node_lon"].shape[0]:
+        if start_index is not None:
+            init_args["faces"] = init_args["faces"] - int(start_index)
+        elif init_args["faces"].max() == init_args["node_lon"].shape[0]:
             # if faces contains 1-based indices, convert to 0-based
             init_args["faces"] -= 1
 
-- 
2.43.0


From 8679309ec7347047c0caf9a075510a21c12a76f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:56 +0000
Subject: [PATCH 68/94] fix: the default bottom boundary condition of depth
 levels could not be given by its name

---
 gridded/depth.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gridded/depth.py b/gridded/depth.py
index 048512e..60e9acf 100644
--- a/gridded/depth.py
+++ b/gridded/depth.py
@@ -24,7 +24,7 @@ class DepthBase:
         surface_index=-1,
         bottom_index=0,
         default_surface_boundary_condition="extrapolate",
-        default_bottom_boundary_conditon="mask",
+        default_bottom_boundary_condition="mask",
         **kwargs,
     ):
         """
@@ -36,7 +36,7 @@ class DepthBase:
         self._surface_index = surface_index
         self._bottom_index = bottom_index
         self.default_surface_boundary_condition = default_surface_boundary_condition
-        self.default_bottom_boundary_condition = default_bottom_boundary_conditon
+        self.default_bottom_boundary_condition = default_bottom_boundary_condition
 
     @classmethod
     def _can_create_from_netCDF(
-- 
2.43.0


From c0447b6ea6e4e494280fa568805fe50d87b09a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:56 +0000
Subject: [PATCH 69/94] fix: S_Depth.from_netCDF failed with a given bathymetry
 and the zeta of the file

---
 gridded/depth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/depth.py b/gridded/depth.py
index 60e9acf..21ebd5b 100644
--- a/gridded/depth.py
+++ b/gridded/depth.py
@@ -544,7 +544,7 @@ class S_Depth(DepthBase):
                 warnings.warn(warn)
                 zeta = Zeta.constant(0)
             else:
-                if 'node' in grid.infer_location(bathy_var):
+                if 'node' in grid.infer_location(zeta_var):
                     zeta = Zeta(data=zeta_var, grid=grid, time=time, name="zeta")
                 else:
                     #zeta data is on cell centers, but needs to be averaged to the nodes in order
-- 
2.43.0


From 1a74a4b0e6afd5b725afe4b1e31d96e757ccecc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:56 +0000
Subject: [PATCH 70/94] fix: terms of S_Depth.from_netCDF could not be given by
 the names of their variables

---
 gridded/depth.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/gridded/depth.py b/gridded/depth.py
index 21ebd5b..4f26117 100644
--- a/gridded/depth.py
+++ b/gridded/depth.py
@@ -484,6 +484,11 @@ class S_Depth(DepthBase):
 
         # Do a comprehensive search for netCDF4 Variables all at once
         nc_vars = search_netcdf_vars(cls, ds, dg)
+        # terms given by the names of their variables
+        terms = {} if terms is None else dict(terms)
+        for term in [k for k, v in terms.items() if isinstance(v, str)]:
+            tname = terms.pop(term)
+            nc_vars[term] = ds.variables[tname] if tname in ds.variables else dg.variables[tname]
 
         if time is None:
             if zeta is None:
@@ -553,16 +558,14 @@ class S_Depth(DepthBase):
                     psi_z = (z[:,:,0:-1] + z[:,:,1:]) /2
                     zeta = Zeta(data=psi_z, grid=grid, time=time, name="zeta")
 
-        if terms is None:
-            terms = {}
-            for term, tvar in nc_vars.items():
-                if term in ["bathymetry", "zeta"]:
-                    # skip these because they're done separately...
-                    continue
-                if tvar is not None:
-                    terms[term] = tvar[:]
-                else:
-                    warnings.warn('term not found in netCDF dataset: ' + term)
+        for term, tvar in nc_vars.items():
+            if term in ["bathymetry", "zeta"] or term in terms:
+                # skip these because they're done separately...
+                continue
+            if tvar is not None:
+                terms[term] = tvar[:]
+            else:
+                warnings.warn('term not found in netCDF dataset: ' + term)
         if vtransform is None:
             vtransform = 2  # default for ROMS
             #  messing about trying to detect this.
-- 
2.43.0


From 845ccb6aac35879433ed663c97387bf3aa476aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:56 +0000
Subject: [PATCH 71/94] fix: L_Depth.from_netCDF changed the levels it was
 given

---
 gridded/depth.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gridded/depth.py b/gridded/depth.py
index 4f26117..478ec9e 100644
--- a/gridded/depth.py
+++ b/gridded/depth.py
@@ -191,6 +191,9 @@ class L_Depth(DepthBase):
             terms = {}
             for term, tvar in nc_vars.items():
                 terms[term] = tvar[:]
+        else:
+            # the arrays of the caller are not changed
+            terms = {k: np.array(v) for k, v in terms.items()}
         # 2023-02-21 set the depth of the top layer to zero
         surface_index = np.argmin(terms["depth_levels"])
         terms["depth_levels"][surface_index] = 0.0
-- 
2.43.0


From 91f2a28b8f3cddbd02349e33b308c2a84e2645d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:22 +0000
Subject: [PATCH 72/94] fix: from_netCDF with a constant time did not find the
 depth of data without a time dimension

---
 gridded/variable.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index d451af2..3ae9082 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -261,8 +261,11 @@ class Variable:
                     origin=time_origin,
                     displacement=displacement,
                 )
+        elif len(time) > 1 or len(data.shape) == (3 if isinstance(grid, Grid_U) else 4):
+            timevarname = 1
         else:
-            timevarname = 1 if len(time) > 1 else 0
+            # with a single (constant) time, the data need not have a dimension for it
+            timevarname = Time.locate_time_var_from_var(data)
 
         if depth is None:
             istimevar = 0 if timevarname is None else 1
@@ -1010,8 +1013,11 @@ class VectorVariable:
                     origin=time_origin,
                     displacement=displacement,
                 )
+        elif len(time) > 1 or len(data.shape) == (3 if isinstance(grid, Grid_U) else 4):
+            timevarname = 1
         else:
-            timevarname = 1 if len(time) > 1 else 0
+            # with a single (constant) time, the data need not have a dimension for it
+            timevarname = Time.locate_time_var_from_var(data)
 
         if depth is None:
             istimevar = 0 if timevarname is None else 1
-- 
2.43.0


From 42099ff55c249ac6e9351743aa91a3013a694b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:41 +0000
Subject: [PATCH 73/94] fix: a Variable given another grid or depth answered
 from what it remembered

---
 gridded/variable.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index 3ae9082..c8bf0d9 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -1,6 +1,7 @@
 import collections
 import collections.abc
 import hashlib
+import itertools
 import logging
 from functools import wraps
 from textwrap import dedent
@@ -22,6 +23,10 @@ from gridded.utilities import (
 log = logging.getLogger(__name__)
 
 
+# what was remembered for one version of a Variable is not for any other
+_versions = itertools.count()
+
+
 class Variable:
     """
     Variable object: represents a field of values associated with the grid.
@@ -42,6 +47,18 @@ class Variable:
 
     _default_component_types = {"time": Time, "grid": Grid, "depth": Depth}
 
+    # assigning any of these makes the results remembered so far invalid
+    # (data and time see to it themselves)
+    _affects_results = {
+        "grid",
+        "depth",
+        "location",
+        "fill_value",
+        "dimension_ordering",
+        "surface_boundary_condition",
+        "bottom_boundary_condition",
+    }
+
     def __init__(
         self,
         name=None,
@@ -437,10 +454,15 @@ class Variable:
         """
         return (hashlib.sha1(points.tobytes()).hexdigest(), hashlib.sha1(str(time).encode("utf-8")).hexdigest())
 
+    def __setattr__(self, name, value):
+        super().__setattr__(name, value)
+        if name in self._affects_results:
+            self._forget_results()
+
     def _forget_results(self):
-        # the data or the times changed
+        # something that the values depend on changed
         self._result_memo = collections.OrderedDict()
-        self._version = getattr(self, "_version", 0) + 1
+        self._version = next(_versions)
 
     def _memoize_result(self, points, time, result, D, _copy=True, _hash=None):
         if _copy:
-- 
2.43.0


From 77a4a4e6685bd41affa077ee7e5689d38b7f1cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:13 +0000
Subject: [PATCH 74/94] fix: S_Depth.from_netCDF failed with a given zeta that
 does not change with time

---
 gridded/depth.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gridded/depth.py b/gridded/depth.py
index 478ec9e..e182e02 100644
--- a/gridded/depth.py
+++ b/gridded/depth.py
@@ -516,7 +516,8 @@ class S_Depth(DepthBase):
             elif isinstance(zeta, Variable) and zeta.time is not None:
                 time = zeta.time
             else:
-                time = Time.from_netCDF(dataset=ds, origin=time_origin, displacement=displacement, tz_offset=tz_offset)
+                # a surface that does not change
+                time = Time.constant_time()
 
         if bathymetry is None:
             bathy_var = nc_vars.get("bathymetry", None)
-- 
2.43.0


From 32db4c009b9333482399d2f491a32fe6cc88641e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:41 +0000
Subject: [PATCH 75/94] fix: tz_offset of a Variable or Depth from a file could
 not be a timedelta as documented

---
 gridded/time.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gridded/time.py b/gridded/time.py
index bce5f47..faeecf0 100644
--- a/gridded/time.py
+++ b/gridded/time.py
@@ -224,7 +224,7 @@ class Time:
                                If no offset is specified in the file, UTC (tz_offset=0)
                                will be assumed.
                                If 'Naive', then no offset will be assigned.
-        :type tz_offset: Number in hours.
+        :type tz_offset: Number in hours, or timedelta
 
         :param new_tz_offset=None: New Timezone offset from UTC desired in hours.
                                    Data will be shifted to the new offset.
@@ -254,6 +254,8 @@ class Time:
             tvar = dataset.variables[varname]
 
         # figure out the timezone_offset
+        if isinstance(tz_offset, timedelta):
+            tz_offset = tz_offset / timedelta(hours=1)
         if isinstance(tz_offset, str) and tz_offset.lower() == "naive":
             tz_offset = None
             name = "No Timezone Specified"
-- 
2.43.0


From d99ab7c20194a6a9b0dc787c3d93fc08b8078d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:31 +0000
Subject: [PATCH 76/94] fix: the format given to save was ignored

---
 gridded/gridded.py       | 2 +-
 gridded/pyugrid/ugrid.py | 2 +-
 gridded/utilities.py     | 5 ++++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/gridded/gridded.py b/gridded/gridded.py
index a14d772..cd716e4 100644
--- a/gridded/gridded.py
+++ b/gridded/gridded.py
@@ -225,7 +225,7 @@ class Dataset:
             raise ValueError(f"format: {format} not supported. Options are: {format_options}")
 
         # create an ncdataset
-        ncds = get_writable_dataset(filename)
+        ncds = get_writable_dataset(filename, format)
 
         ncds.setncatts(self.attributes)
 
diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 9b6272e..02c4c8e 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -1016,7 +1016,7 @@ class UGrid:
 
         mesh_name = self.mesh_name
 
-        nclocal = get_writable_dataset(filepath)
+        nclocal = get_writable_dataset(filepath, format)
 
         nclocal.createDimension(mesh_name + "_num_node", len(self.nodes))
         if self._edges is not None:
diff --git a/gridded/utilities.py b/gridded/utilities.py
index f75a2f7..06e2687 100644
--- a/gridded/utilities.py
+++ b/gridded/utilities.py
@@ -441,13 +441,16 @@ def get_writable_dataset(ncfile, format="netcdf4"):
 
     if dataset is not None, it should be a valid netCDF4 Dataset object,
     and it will simply be returned
+
+    :param format: 'netcdf3' or 'netcdf4' -- the format of a new file
     """
     if isinstance(ncfile, nc4.Dataset):
         # fixme: check for writable
         return ncfile
     elif isstring(ncfile):  # Fixme: should be pathlike...
         print("filename is:", ncfile)
-        return nc4.Dataset(ncfile, mode="w", clobber=True, format="NETCDF4")
+        nc_format = {"netcdf3": "NETCDF3_64BIT_OFFSET", "netcdf4": "NETCDF4"}[format]
+        return nc4.Dataset(ncfile, mode="w", clobber=True, format=nc_format)
     else:
         raise ValueError("Must be a string path or a netcdf4 Dataset")
 
-- 
2.43.0


From cf89931ff7b1cca38d2018742048f5ed9b7bb495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:53 +0000
Subject: [PATCH 77/94] fix: a vector that refused a time axis had changed some
 of its components

---
 gridded/variable.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index c8bf0d9..9cf2c75 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -1173,14 +1173,20 @@ class VectorVariable:
     def time(self, t):
         Time_class = self.__class__._default_component_types["time"]
         if self.variables is not None:
-            for v in self.variables:
+            previous = [v.time for v in self.variables]
+            for i, v in enumerate(self.variables):
                 try:
                     v.time = t
                 except ValueError as e:
+                    # the ones before it were changed already
+                    for changed, old in zip(self.variables[:i], previous):
+                        changed.time = old
                     raise ValueError(f"""Time was not compatible with variables.
                     Set variables attribute to None to allow changing other attributes
                     Original error: {str(e)}""")
-        if isinstance(t, Time_class):
+        if t is None:
+            self._time = None
+        elif isinstance(t, Time_class):
             self._time = t
         elif isinstance(t, collections.abc.Iterable) or isinstance(t, nc4.Variable):
             self._time = Time_class(t)
-- 
2.43.0


From 1b8ce121b4d62ddaf10f0be63730a51514b3592a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:08 +0000
Subject: [PATCH 78/94] fix: UGrid.save_as_netcdf ignored the format it was
 given

---
 gridded/pyugrid/ugrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 02c4c8e..40c26e2 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -992,7 +992,7 @@ class UGrid:
         :param format: format to save -- 'netcdf3' or 'netcdf4'
                        are the only options at this point.
         """
-        self.save(filename, format="netcdf4")
+        self.save(filename, format=format)
 
     def save(self, filepath, format="netcdf4", variables={}):
         """
-- 
2.43.0


From 3463dc2f6aa3e4bc09b92e2efaf27214ad7b44d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:08 +0000
Subject: [PATCH 79/94] fix: UGrid.locate_faces accepted unknown methods for
 points it had located before

---
 gridded/pyugrid/ugrid.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 40c26e2..fed5c6c 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -613,6 +613,8 @@ class UGrid:
         This version utilizes the CellTree data structure.
 
         """
+        if method not in ("celltree", "simple"):
+            raise ValueError('"method" must be one of: "celltree", "simple"')
         points = np.asarray(points, dtype=np.float64)
         just_one = points.ndim == 1
         # reshape() rather than setting the shape: points may be the caller's own array
@@ -636,7 +638,7 @@ class UGrid:
             if self._cell_tree is None:
                 self.build_celltree()
             indices = self._cell_tree.locate(points)
-        elif method == "simple":
+        else:
             indices = np.zeros((points.shape[0]), dtype=IND_DT)
             for n, point in enumerate(points):
                 for i, face in enumerate(self._faces):
@@ -646,8 +648,6 @@ class UGrid:
                         break
                     else:
                         indices[n] = -1
-        else:
-            raise ValueError('"method" must be one of: "celltree", "simple"')
 
         if _memo:
             self._add_memo(points, indices, self._ind_memo_dict, _copy, _hash)
-- 
2.43.0


From 5a196456d1b8bcb09a72eb32956cabdc68ac9fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:44 +0000
Subject: [PATCH 80/94] fix: points were still located in nodes and faces that
 had been deleted

---
 gridded/pyugrid/ugrid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index fed5c6c..5ad80ae 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -291,6 +291,7 @@ class UGrid:
     @nodes.deleter
     def nodes(self):
         # If there are no nodes, there can't be anything else.
+        self._forget_locations()
         self._nodes = np.zeros((0, 2), dtype=NODE_DT)
         self._edges = None
         self._faces = None
@@ -336,7 +337,7 @@ class UGrid:
 
     @faces.deleter
     def faces(self):
-        self._faces = None
+        self._forget_locations()
         self._faces = None
         # Other things are no longer valid.
         self._face_face_connectivity = None
-- 
2.43.0


From 10f5e89d735321ec91dff7350e201fcb2b58c426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:01 +0000
Subject: [PATCH 81/94] fix: averages and sums of vectors of small integers
 overflowed

---
 gridded/pysgrid/processing_2d.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gridded/pysgrid/processing_2d.py b/gridded/pysgrid/processing_2d.py
index b538b15..9a9295b 100644
--- a/gridded/pysgrid/processing_2d.py
+++ b/gridded/pysgrid/processing_2d.py
@@ -21,7 +21,8 @@ def vector_sum(x_arr, y_arr):
     :rtype: numpy.array
 
     """
-    return ma.sqrt(x_arr**2 + y_arr**2)
+    # floats: small integers do not hold their squares
+    return ma.sqrt(x_arr**2.0 + y_arr**2.0)
 
 
 def rotate_vectors(x_arr, y_arr, angle_arr):
@@ -67,7 +68,8 @@ def avg_to_cell_center(data_array, avg_dim):
         da = data_array
     da_trim_low = da[:, 1:]
     da_trim_high = da[:, :-1]
-    da_avg_raw = 0.5 * (da_trim_low + da_trim_high)
+    # not the sum first: small integers do not hold it
+    da_avg_raw = 0.5 * da_trim_low + 0.5 * da_trim_high
     if avg_dim == 0:
         da_avg = np.transpose(da_avg_raw)
     else:
-- 
2.43.0


From 65911a0d7172cfa3f68358f36dc8f7ee2596f066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:01 +0000
Subject: [PATCH 82/94] fix: the location of the data that the caller gives was
 ignored if the file names another

---
 gridded/pyugrid/ugrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 5ad80ae..4aeb523 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -773,8 +773,8 @@ class UGrid:
         - alphas = # precomputed alphas (useful if interpolating to the same points frequently)
         """
         points = np.asarray(points, dtype=np.float64).reshape(-1, 2)
-        # location should be already known by the variable
-        if hasattr(variable, "location"):
+        # if it is not given, the location may be known by the variable
+        if location is None and hasattr(variable, "location"):
             location = variable.location
         # But if it's not, then it can be inferred
         # (for compatibility with old code)
-- 
2.43.0


From 6e2badcf51559e720b60944e3e2a2f3912d0bda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:01 +0000
Subject: [PATCH 83/94] fix: interpolating changed the fill value of masked
 data

---
 gridded/variable.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index 9cf2c75..b32ce63 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -666,7 +666,8 @@ class Variable:
         value = value.reshape(-1, 1)
 
         if isinstance(value, np.ma.MaskedArray):
-            np.ma.set_fill_value(value, self.fill_value)
+            # not set_fill_value, the fill value is shared with the data
+            value = np.ma.masked_array(value, fill_value=self.fill_value)
         if unmask:
             value = np.ma.filled(value)
 
-- 
2.43.0


From b5d58328a010831f50bfcf1f9b905bc9a1aa6eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:03 +0000
Subject: [PATCH 84/94] fix: one point gives one cell on a curvilinear grid
 when its cell is remembered, too

---
 gridded/pysgrid/sgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 046374e..29873cd 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -676,7 +676,7 @@ class SGrid:
                 _hash = self._hash_of_pts(points)
             result = self._get_memoed(points, self._cell_ind_memo_dict, _copy, _hash)
             if result is not None:
-                return result
+                return np.ma.getdata(result)[0] if just_one else result
 
         if self._cell_tree is None:
             self.build_celltree(use_mask=use_mask)
-- 
2.43.0


From 7ccfe8675c59fb324cefad43a1d759134416262d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:25 +0000
Subject: [PATCH 85/94] fix: interpolate data on the nodes of a mesh from any
 array-like, like netCDF variables

---
 gridded/pyugrid/ugrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 4aeb523..7853098 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -799,7 +799,7 @@ class UGrid:
         #                                       "variable defined on the faces")
         if location == "node":
             pos_alphas = self.interpolation_alphas(points, inds, _copy, _memo, _hash)
-            vals = variable.take(self.faces[inds], axis=0)
+            vals = np.asanyarray(variable[:]).take(self.faces[inds], axis=0)
             if len(vals.shape) == (len(pos_alphas.shape) + 1):
                 pos_alphas = pos_alphas[:, :, np.newaxis]
             vals[inds == -1] = 0
-- 
2.43.0


From ee02b1c799a8d04287bcf3f4c5be36c20bea8f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:42 +0000
Subject: [PATCH 86/94] fix: slices given as a list select the same data as a
 tuple, as documented

---
 gridded/grids.py         | 2 ++
 gridded/pysgrid/sgrid.py | 2 ++
 gridded/pyugrid/ugrid.py | 5 ++---
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/gridded/grids.py b/gridded/grids.py
index 910b960..bd22f55 100644
--- a/gridded/grids.py
+++ b/gridded/grids.py
@@ -415,6 +415,8 @@ class Grid_R(GridBase):
         points_x = points[:, 0]  # lon
         y, x = self.lonlat_to_yx(variable)
 
+        if isinstance(slices, list):  # a list would be taken as indexes of the first dimension
+            slices = tuple(slices)
         variable = variable[:] if slices is None else variable[slices]
         if np.ma.isMA(variable):
             variable = variable.filled(0)  # eventually should use Variable fill value
diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 29873cd..869fef4 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -1183,6 +1183,8 @@ class SGrid:
         # else:
         #     slices = (xslice, yslice)
         zero_aligned_idxs = idxs#.copy() - [xslice.start, yslice.start]
+        if isinstance(slices, list):  # a list would be taken as indexes of the first dimension
+            slices = tuple(slices)
         var = variable[:] if slices is None else variable[slices]
         if len(var.shape) > 2:
             raise ValueError(
diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 7853098..86a3491 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -784,9 +784,8 @@ class UGrid:
             raise ValueError("Data is incompatible with grid nodes or faces")
 
         if slices is not None:
-            if len(slices) == 1:
-                slices = slices[0]
-            variable = variable[slices]
+            # as a list they would be taken as indexes of the first dimension
+            variable = variable[tuple(slices)]
 
         _hash = self._hash_of_pts(points)
 
-- 
2.43.0


From ad488698108a30ea62f0f5ca9fedfea80ba6559f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:47 +0000
Subject: [PATCH 87/94] fix: VectorVariable.units gave only the first letter of
 units set as a string

---
 gridded/variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index b32ce63..1239ee1 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -1201,7 +1201,7 @@ class VectorVariable:
 
         :rtype: string
         """
-        if hasattr(self._units, "__iter__"):
+        if hasattr(self._units, "__iter__") and not isinstance(self._units, str):
             if len(set(self._units)) > 1:
                 return self._units
             else:
-- 
2.43.0


From 7dc62eb206f49cd0a6fb30309b4b12d6d1b90f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:47 +0000
Subject: [PATCH 88/94] fix: Variable.constant was masked at the poles and at
 longitudes of +-360

---
 gridded/variable.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index 1239ee1..7c2655f 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -334,8 +334,9 @@ class Variable:
         # will return a constant value for all times and places.
         Grid = Grid_S
         _data = np.full((3, 3), value)
-        _node_lon = np.array(([-360, 0, 360], [-360, 0, 360], [-360, 0, 360]))
-        _node_lat = np.array(([-89.95, -89.95, -89.95], [0, 0, 0], [89.95, 89.95, 89.95]))
+        # a little more than everywhere, as points on the boundary of a grid are not inside
+        _node_lon = np.array(([-361, 0, 361], [-361, 0, 361], [-361, 0, 361]))
+        _node_lat = np.array(([-91, -91, -91], [0, 0, 0], [91, 91, 91]))
         _grid = Grid(node_lon=_node_lon, node_lat=_node_lat)
         return cls(grid=_grid, data=_data, fill_value=value)
 
-- 
2.43.0


From 29ec46dbaa5e1bfd604903af44d8e1304336dd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:47 +0000
Subject: [PATCH 89/94] fix: UGrid.info failed for a mesh without faces

---
 gridded/pyugrid/ugrid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 86a3491..963458e 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -213,7 +213,8 @@ class UGrid:
         """
         msg = [f"UGrid object: {self.mesh_name}"]
         msg.append("Number of nodes: %i" % len(self.nodes))
-        msg.append("Number of faces: %i with %i vertices per face" % (len(self.faces), self.num_vertices))
+        if self.faces is not None:
+            msg.append("Number of faces: %i with %i vertices per face" % (len(self.faces), self.num_vertices))
         if self.boundaries is not None:
             msg.append("Number of boundaries: %i" % len(self.boundaries))
 
-- 
2.43.0


From e594f6469e5df71a1231fa75ea0e9dd54341d6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:38 +0000
Subject: [PATCH 90/94] fix: grids with the same values compared unequal for
 what is behind a mask, or equal with other masks

---
 gridded/pysgrid/sgrid.py |  4 ++--
 gridded/pyugrid/ugrid.py |  8 ++++----
 gridded/utilities.py     | 14 ++++++++++++++
 3 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/gridded/pysgrid/sgrid.py b/gridded/pysgrid/sgrid.py
index 869fef4..9f6bb2c 100644
--- a/gridded/pysgrid/sgrid.py
+++ b/gridded/pysgrid/sgrid.py
@@ -14,7 +14,7 @@ from netCDF4 import Dataset
 from gridded.pysgrid.read_netcdf import NetCDFDataset, find_grid_topology_var, parse_padding
 from gridded.pysgrid.utils import GridPadding, calculate_angle_from_true_east, pair_arrays
 from gridded.pysgrid.variables import SGridVariable
-from gridded.utilities import convert_mask_to_numpy_mask, gen_celltree_mask_from_center_mask
+from gridded.utilities import convert_mask_to_numpy_mask, gen_celltree_mask_from_center_mask, same_values
 
 node_alternate_names = ["node", "nodes", "psi", "vertex", "vertices", "point", "points"]
 center_alternate_names = ["center", "centers", "face", "faces", "cell", "cells"]
@@ -174,7 +174,7 @@ class SGrid:
             "faces",
             "face_padding",
         ):
-            if not np.array_equal(getattr(self, attr), getattr(other, attr)):
+            if not same_values(getattr(self, attr), getattr(other, attr)):
                 return False
         return True
 
diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 963458e..3f657ce 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -24,7 +24,7 @@ import numpy as np
 
 import gridded.pyugrid.read_netcdf as read_netcdf
 from gridded.pyugrid.util import point_in_tri
-from gridded.utilities import get_writable_dataset
+from gridded.utilities import get_writable_dataset, same_values
 
 # from gridded.pyugrid.uvar import UVar
 
@@ -229,9 +229,9 @@ class UGrid:
         if self.__class__ is not other.__class__:
             return False
         if (
-            np.array_equal(self.nodes, other.nodes)
-            and np.array_equal(self.faces, other.faces)
-            and np.array_equal(self.boundaries, other.boundaries)
+            same_values(self.nodes, other.nodes)
+            and same_values(self.faces, other.faces)
+            and same_values(self.boundaries, other.boundaries)
         ):
             return True
         return False
diff --git a/gridded/utilities.py b/gridded/utilities.py
index 06e2687..ece3be0 100644
--- a/gridded/utilities.py
+++ b/gridded/utilities.py
@@ -356,6 +356,20 @@ def asarraylike(obj):
     return obj if isarraylike(obj) else np.array(obj)
 
 
+def same_values(a, b):
+    """
+    Whether two arrays (or None) have the same values, and these are missing (masked) in the same places
+    """
+    if a is None or b is None:
+        return a is b
+    # netCDF variables are to be read first
+    a, b = (np.ma.asarray(x[...] if isinstance(x, nc4.Variable) else x) for x in (a, b))
+    mask = np.ma.getmaskarray(a)
+    if not np.array_equal(mask, np.ma.getmaskarray(b)):  # False for different shapes, too
+        return False
+    return np.array_equal(a.data[~mask], b.data[~mask])
+
+
 def isstring(obj):
     """
     py2/3 compatble way to test for a string
-- 
2.43.0


From 98f2f0e59da86242472e6895d2057e924d70626a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:45 +0000
Subject: [PATCH 91/94] fix: face_face_connectivity without start_index was
 taken to count from one if its largest index was the number of nodes

---
 gridded/pyugrid/read_netcdf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gridded/pyugrid/read_netcdf.py b/gridded/pyugrid/read_netcdf.py
index 5fb0651..1ef987c 100755
--- a/gridded/pyugrid/read_netcdf.py
+++ b/gridded/pyugrid/read_netcdf.py
@@ -226,7 +226,9 @@ def load_grid_from_nc_dataset(nc, grid, mesh_name=None):  # , load_data=True):
             try:
                 start_index = int(var.start_index)
             except AttributeError:
-                if array.max() == grid.nodes.shape[0]:
+                # of the nodes, or of the faces for their neighbors
+                links = defs["grid_attr"] == "face_face_connectivity"
+                if array.max() == (array.shape[0] if links else grid.nodes.shape[0]):
                     start_index = 1
                 else:
                     start_index = 0
-- 
2.43.0


From e7b47dece6233bf7ea3006f3f92d8832fbea928f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:01 +0000
Subject: [PATCH 92/94] fix: values missing at a time step or level without
 weight do not hide values

---
 gridded/variable.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index 7c2655f..181d47b 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -738,9 +738,12 @@ class Variable:
             ind = self.time.index_of(time)
             s1 = slices + (ind,)
             s0 = slices + (ind - 1,)
-            v0 = val_func(points, time, extrapolate, slices=s0, **kwargs)
             v1 = val_func(points, time, extrapolate, slices=s1, **kwargs)
             alphas = self.time.interp_alpha(time, extrapolate)
+            if alphas == 1:
+                # exactly at a step: what is missing at the one before does not matter
+                return v1
+            v0 = val_func(points, time, extrapolate, slices=s0, **kwargs)
 
             return v0 + (v1 - v0) * alphas
 
@@ -815,7 +818,13 @@ class Variable:
                         values.put(lay_idxs, v1)
                         continue
                 v0 = val_func(points[lay_idxs], time, extrapolate, slices=slices + (idx,), **kwargs)
-                sub_vals = v0 if np.all(alphas == 0) else v0 + (v1 - v0) * alphas
+                if np.all(alphas == 0):
+                    sub_vals = v0
+                else:
+                    sub_vals = v0 + (v1 - v0) * alphas
+                    # exactly at a level: what is missing at the next one does not matter
+                    on_level = np.ma.filled(alphas == 0, False)
+                    sub_vals[on_level] = v0[on_level]
                 # partially fill the values array for this layer
                 values.put(lay_idxs, sub_vals)
         return values
-- 
2.43.0


From a433f8f344db627d44c90b915f8897ff88d6681b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:08 +0000
Subject: [PATCH 93/94] fix: results are not remembered when a part of the
 variable changes

---
 gridded/depth.py         |  5 +++++
 gridded/pyugrid/ugrid.py |  2 ++
 gridded/time.py          |  4 ++++
 gridded/variable.py      | 17 +++++++++++++++--
 4 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/gridded/depth.py b/gridded/depth.py
index e182e02..1b1d3e2 100644
--- a/gridded/depth.py
+++ b/gridded/depth.py
@@ -38,6 +38,11 @@ class DepthBase:
         self.default_surface_boundary_condition = default_surface_boundary_condition
         self.default_bottom_boundary_condition = default_bottom_boundary_condition
 
+    def __setattr__(self, name, value):
+        super().__setattr__(name, value)
+        # what was remembered for one version is not for any other
+        self.__dict__["_version"] = self.__dict__.get("_version", 0) + 1
+
     @classmethod
     def _can_create_from_netCDF(
         cls,
diff --git a/gridded/pyugrid/ugrid.py b/gridded/pyugrid/ugrid.py
index 3f657ce..93ff03d 100644
--- a/gridded/pyugrid/ugrid.py
+++ b/gridded/pyugrid/ugrid.py
@@ -158,6 +158,8 @@ class UGrid:
         self._cell_tree = None
         self._ind_memo_dict = OrderedDict()
         self._alpha_memo_dict = OrderedDict()
+        # what was remembered elsewhere for one version is not for any other
+        self._version = getattr(self, "_version", 0) + 1
 
     @classmethod
     def from_ncfile(klass, filename=None, dataset=None, mesh_name=None):  # , load_data=False):
diff --git a/gridded/time.py b/gridded/time.py
index faeecf0..8be618d 100644
--- a/gridded/time.py
+++ b/gridded/time.py
@@ -88,6 +88,9 @@ class Time:
     #  question: why not a ContantTime Class?
     _const_time = None
 
+    # what was remembered for one version of the data is not for any other
+    _version = 0
+
     def __init__(
         self,
         data=None,
@@ -315,6 +318,7 @@ class Time:
         # add check for valid datetime list?
         # a copy, as changing the offset or displacement shifts it in place
         self._data = np.array(data)
+        self._version += 1
 
     @property
     def info(self):
diff --git a/gridded/variable.py b/gridded/variable.py
index 181d47b..e67938a 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -465,6 +465,18 @@ class Variable:
         self._result_memo = collections.OrderedDict()
         self._version = next(_versions)
 
+    @property
+    def _state(self):
+        """
+        Something that is different after the data, or any part that the values depend on, changed
+        """
+        depth = self.depth
+        parts = (self, self.grid, self.time, depth, getattr(depth, "grid", None))
+        profile = (getattr(depth, name, None) for name in ("bathymetry", "zeta"))
+        return tuple(getattr(part, "_version", None) for part in parts) + tuple(
+            var._state for var in profile if isinstance(var, Variable)
+        )
+
     def _memoize_result(self, points, time, result, D, _copy=True, _hash=None):
         if _copy:
             result = result.copy()
@@ -649,6 +661,7 @@ class Variable:
             self.surface_boundary_condition,
             self.bottom_boundary_condition,
             repr(sorted(kwargs.items())),
+            self._state,
         )
 
         if _mem:
@@ -1337,8 +1350,8 @@ class VectorVariable:
             _hash = self._get_hash(pts, time)
 
         # the same points and time give other results with other options
-        versions = tuple(getattr(var, "_version", None) for var in self.variables)
-        memo_hash = (_hash, pts.shape, extrapolate, unmask, repr(sorted(kwargs.items())), versions)
+        states = tuple(getattr(var, "_state", None) for var in self.variables)
+        memo_hash = (_hash, pts.shape, extrapolate, unmask, repr(sorted(kwargs.items())), states)
 
         if _mem:
             res = self._get_memoed(pts, time, self._result_memo, _hash=memo_hash)
-- 
2.43.0


From b7c5ae2869481839b7af0d18b742e9c2f110febb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:09 +0000
Subject: [PATCH 94/94] fix: variables made with the same attributes do not
 share those of their data

---
 gridded/variable.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gridded/variable.py b/gridded/variable.py
index e67938a..092eba1 100644
--- a/gridded/variable.py
+++ b/gridded/variable.py
@@ -138,7 +138,8 @@ class Variable:
         self._result_memo = collections.OrderedDict()
         self.fill_value = fill_value
 
-        self.attributes = {} if attributes is None else attributes
+        # a copy, as those of a netcdf variable are added
+        self.attributes = {} if attributes is None else dict(attributes)
         # if the data is a netcdf variable, pull the attributes from there
         try:
             for attr in self.data.ncattrs():
-- 
2.43.0

