From c9a66e20d51fd74dfdc7344921dc5683d5f0d968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:58 +0000
Subject: [PATCH 01/49] fix: collinear segments that do not overlap, and single
 points, do not intersect

---
 nonasymptotic/util.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/nonasymptotic/util.py b/nonasymptotic/util.py
index 5aefcd2..46a7d7d 100644
--- a/nonasymptotic/util.py
+++ b/nonasymptotic/util.py
@@ -37,7 +37,12 @@ def detect_intersect(s1e1, s1e2, s2e1, s2e2):
     # then do some vectorized casework (we're really going to rely on some numpy ufunc stuff)
 
     # first, check for collinearity (avoid some bad numerical cases we'd miss)
-    is_collinear = np.equal(cross_dir, 0.0) & np.equal(intersect_coeff_unnormed2, 0.0)
+    # (both coefficients vanish only if all four endpoints are on one line, also when a segment is a single point.)
+    # collinear segments meet iff their bounding boxes do.
+    is_collinear = (np.equal(cross_dir, 0.0) & np.equal(intersect_coeff_unnormed1, 0.0)
+                    & np.equal(intersect_coeff_unnormed2, 0.0))
+    is_overlapping = np.all((np.minimum(s1e1, s1e2) <= np.maximum(s2e1, s2e2))
+                            & (np.minimum(s2e1, s2e2) <= np.maximum(s1e1, s1e2)), axis=1)
 
     # next, check parallel  (avoid some bad numerics)
     # not actually necessary because of nice numpy numerics handling
@@ -51,4 +56,4 @@ def detect_intersect(s1e1, s1e2, s2e1, s2e2):
             (0 <= intersect_coeff2) & (intersect_coeff2 <= 1)
     )
 
-    return np.logical_or(is_cleanly_intersecting, is_collinear)
+    return np.logical_or(is_cleanly_intersecting, is_collinear & is_overlapping)
-- 
2.43.0


From f01290c3262e2124b2243e7d538262ade06c9a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:58 +0000
Subject: [PATCH 02/49] fix: narrow passage motions inside a wall or outside
 the environment are not valid

---
 nonasymptotic/envs.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/nonasymptotic/envs.py b/nonasymptotic/envs.py
index ae0cf4e..6a4c413 100644
--- a/nonasymptotic/envs.py
+++ b/nonasymptotic/envs.py
@@ -444,7 +444,8 @@ class NarrowPassage(Environment):
         #   check three edges:
         #       [-0.5, -clearance -> -0.5], [-0.5 -> 0.5, -clearance], [0.5, -clearance -> -0.5]
 
-        is_colliding = np.zeros((start.shape[0])).astype(bool)
+        # crossing none of these edges only means collision-free if both ends are in free space to begin with
+        is_colliding = np.logical_not(self._is_in_free_space(start) & self._is_in_free_space(goal))
         for i_d in range(1, self.dim):
             start_proj = start[:, [0, i_d]]
             goal_proj = goal[:, [0, i_d]]
@@ -455,6 +456,13 @@ class NarrowPassage(Environment):
 
         return np.logical_not(is_colliding)
 
+    def _is_in_free_space(self, points):
+        in_bounds = np.all((points >= self.left_lb) & (points <= self.right_ub), axis=1)
+        # touching a wall counts as a collision, as it does for motions
+        in_walls = ((np.abs(points[:, 0]) <= self.hallway_ub[0])
+                    & np.any(np.abs(points[:, 1:]) >= self.hallway_ub[1:], axis=1))
+        return in_bounds & np.logical_not(in_walls)
+
     def is_prm_epsilon_delta_complete(self, prm, tol):
         raise NotImplementedError
 
-- 
2.43.0


From 0518590a74c6e7318a975cc592c691bf7f84d210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:58 +0000
Subject: [PATCH 03/49] fix: narrow passage reference curve has dim coordinates
 and distances are to that curve

---
 nonasymptotic/envs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nonasymptotic/envs.py b/nonasymptotic/envs.py
index 6a4c413..5fac726 100644
--- a/nonasymptotic/envs.py
+++ b/nonasymptotic/envs.py
@@ -402,7 +402,7 @@ class NarrowPassage(Environment):
         ]
 
         self.dim = dim
-        self.line_dir = np.array([1.0] + [0.0] * self.dim)
+        self.line_dir = np.array([1.0] + [0.0] * (self.dim - 1))
 
         # (see is motion valid for definition of lines)
         self.coll_lines = [
@@ -423,7 +423,7 @@ class NarrowPassage(Environment):
 
     def arclength_to_curve_point(self, t_normed):
         t = np.clip(t_normed, 0.0, 1.0)
-        point_on_curve = np.array([-0.5] + [0.0] * self.dim)
+        point_on_curve = np.array([-0.5] + [0.0] * (self.dim - 1))
         point_on_curve[0] += t
         return point_on_curve
 
@@ -467,7 +467,7 @@ class NarrowPassage(Environment):
         raise NotImplementedError
 
     def distance_to_path(self, points):
-        proj_points_clipped = np.clip(points[:, 0], 0.0, 1.0).reshape(-1, 1)
+        proj_points_clipped = np.clip(points[:, 0], -0.5, 0.5).reshape(-1, 1)  # the hallway's axis
         return np.linalg.norm(points - proj_points_clipped * self.line_dir, axis=1)
 
     @property
-- 
2.43.0


From 1f74d8688b8dfa49028447e765a8c93771da1036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:58 +0000
Subject: [PATCH 04/49] fix: gray code walls motions are checked against the
 opening to the next cube

---
 nonasymptotic/envs.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/nonasymptotic/envs.py b/nonasymptotic/envs.py
index 5fac726..c6cf9be 100644
--- a/nonasymptotic/envs.py
+++ b/nonasymptotic/envs.py
@@ -681,14 +681,15 @@ class GrayCodeWalls(Environment):
 
             # compute shared opening on path:
             start_cube_center = start_cube + np.ones(self.dim) * 0.5
-            next_cube_center = goal_cube + np.ones(self.dim) * 0.5
+            next_cube_center = next_cube + np.ones(self.dim) * 0.5
             between_cubes_point = (start_cube_center + next_cube_center) / 2
 
             # solve for point at cube opening.
             t = (between_cubes_point[next_cube_dir_ind] - start[next_cube_dir_ind]) / dir_vec[next_cube_dir_ind]
-            if t <= 0.0 or np.any(np.isnan(t)):
-                # we are only in while loop if we are spanning multiple blocks. so if t = 0 or nan, then line does
+            if t < 0.0 or np.any(np.isnan(t)):
+                # we are only in while loop if we are spanning multiple blocks. so if t < 0 or nan, then line does
                 # not travel through the exit of this block on the path, so it must have collided somewhere else
+                # (t = 0 is a line that starts right at the exit)
                 return False
             motion_point_at_opening = dir_vec * t + start
 
@@ -703,7 +704,8 @@ class GrayCodeWalls(Environment):
             start_cube = next_cube  # this needs to be done so we don't get trapped in the same cube
 
         # if start and goal are in the same cube, then return true because cubes are convex
-        return self.distance_to_wall(start) >= 0.0 and self.distance_to_wall(goal) >= 0.0
+        # (start may be on the face we came in by, so it must be checked in the cube that we are in.)
+        return self._distance_to_wall_in_cube(goal_cube, start) >= 0.0 and self.distance_to_wall(goal) >= 0.0
 
     def is_prm_epsilon_delta_complete(self, prm, tol):
         raise NotImplementedError('Not done yet!')
-- 
2.43.0


From a344da69ae9d5314dc5fe7c5acf717111e0ba208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:58 +0000
Subject: [PATCH 05/49] fix: gray code walls reference curve enters the last
 cube through its entrance

---
 nonasymptotic/envs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonasymptotic/envs.py b/nonasymptotic/envs.py
index c6cf9be..cf98aea 100644
--- a/nonasymptotic/envs.py
+++ b/nonasymptotic/envs.py
@@ -630,7 +630,7 @@ class GrayCodeWalls(Environment):
             cube_coords = np.array(self.no_walls_linear_list[-1])
             t_backup = 0.5 - (t - (t_leg - 1) * 0.5)
             t_point = cube_coords + np.ones(self.dim) * 0.5
-            t_point[-1] += t_backup
+            t_point += t_backup * (np.array(self.no_walls_linear_list[-2]) - cube_coords)  # back to its entrance
 
         else:
             cube = self.no_walls_linear_list[int(t_leg / 2)]
-- 
2.43.0


From d223e63338a58bcd84430e11fba753d61a91ab1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:58 +0000
Subject: [PATCH 06/49] fix: mark every part of a hole that an island divides

---
 nonasymptotic/sampler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nonasymptotic/sampler.py b/nonasymptotic/sampler.py
index c1b3573..fafd084 100644
--- a/nonasymptotic/sampler.py
+++ b/nonasymptotic/sampler.py
@@ -2,7 +2,7 @@ import numpy as np
 import triangle as tr
 from matplotlib import pyplot as plt
 from shapely import MultiPolygon, get_exterior_ring, get_num_interior_rings, get_interior_ring, covers, difference, \
-    get_coordinates, point_on_surface, Polygon, get_num_points, Point
+    get_coordinates, point_on_surface, Polygon, get_num_points, get_parts, Point
 from shapely.affinity import affine_transform
 from shapely.plotting import plot_polygon
 
@@ -44,6 +44,9 @@ def random_point_in_mpolygon(mpolygon, rng=None, vis=False):
         for i_inpoly, i_expoly in _cover_inds:
             interior_polys[i_inpoly] = difference(interior_polys[i_inpoly], exterior_polys[i_expoly])
 
+        # an island that touches its hole's border can cut the hole into several parts, each needs its own point
+        interior_polys = get_parts(interior_polys)
+
         # compute correct representative points
         interior_points = get_coordinates(point_on_surface(interior_polys))
 
-- 
2.43.0


From 874c45af76c6ddc8898f86ef037fd41894db626f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:40 +0000
Subject: [PATCH 07/49] fix: roadmaps do not connect samples to themselves

---
 nonasymptotic/prm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nonasymptotic/prm.py b/nonasymptotic/prm.py
index 9a6bc40..60adf18 100644
--- a/nonasymptotic/prm.py
+++ b/nonasymptotic/prm.py
@@ -131,7 +131,8 @@ class SimplePRM(ABC):
         goals = _edge_arr[include_starting:, :].flatten(order='C')
         dists = _dist_arr[include_starting:, :].flatten(order='C')
 
-        within_conn_r = dists <= threshold_rad
+        # (some ANNs list a point as a neighbor of itself, which is not a connection.)
+        within_conn_r = (dists <= threshold_rad) & (starts != goals)
 
         starts_within_conn_r, goals_within_conn_r, dists_within_conn_r = (starts[within_conn_r],
                                                                           goals[within_conn_r],
@@ -242,7 +243,7 @@ class SimpleFullConnRadiusPRM(SimplePRM):
 
         # compute distances appropriately.
         dists = np.linalg.norm(inner_loop_elts - outer_loop_elts, axis=1)
-        within_conn_r = dists <= self.conn_r
+        within_conn_r = (dists <= self.conn_r) & (outer_loop_args != inner_loop_args)
 
         starts_in_range, goals_in_range = outer_loop_args[within_conn_r], inner_loop_args[within_conn_r]
         dists_in_range = dists[within_conn_r]
-- 
2.43.0


From 855410460e5b55f3442944f2795d5073f4b29910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:40 +0000
Subject: [PATCH 08/49] fix: lowering the number of neighbors keeps edges that
 the other end still needs

---
 nonasymptotic/prm.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/nonasymptotic/prm.py b/nonasymptotic/prm.py
index 60adf18..d6a548c 100644
--- a/nonasymptotic/prm.py
+++ b/nonasymptotic/prm.py
@@ -433,12 +433,15 @@ class SimpleNearestNeighborRadiusPRM(SimplePRM):
         if new_k_nearest_neighbors > self.k_neighbors:
             self._g_prm = nk.readGraph(self.tmp_graph_cache_path, nk.Format.NetworkitBinary)
 
-        # next, throw away edges we don't need.
-        throw_away_edge_list = self.master_edges[:, new_k_nearest_neighbors:]
-        for u, vs in enumerate(throw_away_edge_list):
+        # next, throw away edges we don't need. (an edge is needed if either end is a neighbor of the other.)
+        needed_edges = set()
+        for u, vs in enumerate(self.master_edges[:, :new_k_nearest_neighbors]):
             for v in vs:
-                if self._g_prm.hasEdge(u, v):
-                    self._g_prm.removeEdge(u, v)
+                needed_edges.update([(u, v), (v, u)])
+
+        for u, v in list(self._g_prm.iterEdges()):  # a list, since we can't remove edges while iterating over them
+            if (u, v) not in needed_edges:
+                self._g_prm.removeEdge(u, v)
 
         self.k_neighbors = new_k_nearest_neighbors
 
-- 
2.43.0


From 4630bf31a8dc07b72e345e39c3f64bcad60058c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:40 +0000
Subject: [PATCH 09/49] fix: do not skip edges when removing those above the
 connection radius

---
 nonasymptotic/prm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonasymptotic/prm.py b/nonasymptotic/prm.py
index d6a548c..9d508ec 100644
--- a/nonasymptotic/prm.py
+++ b/nonasymptotic/prm.py
@@ -463,7 +463,7 @@ class SimpleNearestNeighborRadiusPRM(SimplePRM):
             self._g_prm = nk.readGraph(self.tmp_graph_cache_path, nk.Format.NetworkitBinary)
 
         # then iterate over and remove the edges that are too large
-        for u, v, w in self._g_prm.iterEdgesWeights():
+        for u, v, w in list(self._g_prm.iterEdgesWeights()):  # a list, since iterating while removing skips edges
             if w >= new_conn_r:
                 self._g_prm.removeEdge(u, v)
 
-- 
2.43.0


From 0b1b73db9dfacac873cf69c4aa28d0a78e16400f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:40 +0000
Subject: [PATCH 10/49] fix: reloading the master graph keeps the other
 truncation (radius or neighbors)

---
 nonasymptotic/prm.py | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/nonasymptotic/prm.py b/nonasymptotic/prm.py
index 9d508ec..09dc846 100644
--- a/nonasymptotic/prm.py
+++ b/nonasymptotic/prm.py
@@ -425,6 +425,22 @@ class SimpleNearestNeighborRadiusPRM(SimplePRM):
             # (could make gigabytes of a difference)
             return self.certified_max_conn_r, np.unique(self.master_dists, axis=None)
 
+    def _remove_far_neighbor_edges(self, k_neighbors):
+        # an edge is needed if either end is a neighbor of the other.
+        needed_edges = set()
+        for u, vs in enumerate(self.master_edges[:, :k_neighbors]):
+            for v in vs:
+                needed_edges.update([(u, v), (v, u)])
+
+        for u, v in list(self._g_prm.iterEdges()):  # a list, since we can't remove edges while iterating over them
+            if (u, v) not in needed_edges:
+                self._g_prm.removeEdge(u, v)
+
+    def _remove_long_edges(self, conn_r):
+        for u, v, w in list(self._g_prm.iterEdgesWeights()):  # a list, since iterating while removing skips edges
+            if w >= conn_r:
+                self._g_prm.removeEdge(u, v)
+
     def set_nearest_neighbors(self, new_k_nearest_neighbors):
         if new_k_nearest_neighbors > self.max_k_neighbors:
             raise ArithmeticError('Cannot grow KNN PRM past the original set number of neighbors.')
@@ -433,15 +449,12 @@ class SimpleNearestNeighborRadiusPRM(SimplePRM):
         if new_k_nearest_neighbors > self.k_neighbors:
             self._g_prm = nk.readGraph(self.tmp_graph_cache_path, nk.Format.NetworkitBinary)
 
-        # next, throw away edges we don't need. (an edge is needed if either end is a neighbor of the other.)
-        needed_edges = set()
-        for u, vs in enumerate(self.master_edges[:, :new_k_nearest_neighbors]):
-            for v in vs:
-                needed_edges.update([(u, v), (v, u)])
+            # the master graph is not truncated to the connection radius, if there is one
+            if self.conn_r is not None:
+                self._remove_long_edges(self.conn_r)
 
-        for u, v in list(self._g_prm.iterEdges()):  # a list, since we can't remove edges while iterating over them
-            if (u, v) not in needed_edges:
-                self._g_prm.removeEdge(u, v)
+        # next, throw away edges we don't need.
+        self._remove_far_neighbor_edges(new_k_nearest_neighbors)
 
         self.k_neighbors = new_k_nearest_neighbors
 
@@ -461,11 +474,11 @@ class SimpleNearestNeighborRadiusPRM(SimplePRM):
         # if we are growing the radius, we need to reload the master graph
         if self.conn_r is not None and new_conn_r > self.conn_r:
             self._g_prm = nk.readGraph(self.tmp_graph_cache_path, nk.Format.NetworkitBinary)
+            # the master graph has all neighbors, also if we were asked to use fewer since
+            self._remove_far_neighbor_edges(self.k_neighbors)
 
         # then iterate over and remove the edges that are too large
-        for u, v, w in list(self._g_prm.iterEdgesWeights()):  # a list, since iterating while removing skips edges
-            if w >= new_conn_r:
-                self._g_prm.removeEdge(u, v)
+        self._remove_long_edges(new_conn_r)
 
         self.conn_r = new_conn_r
 
-- 
2.43.0


From b8bb126de971d10702306b64495c32e5e1800f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:40 +0000
Subject: [PATCH 11/49] fix: a refused growth does not clear the connection
 radius

---
 nonasymptotic/prm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonasymptotic/prm.py b/nonasymptotic/prm.py
index 09dc846..26707ba 100644
--- a/nonasymptotic/prm.py
+++ b/nonasymptotic/prm.py
@@ -364,8 +364,6 @@ class SimpleNearestNeighborRadiusPRM(SimplePRM):
 
     def grow_to_n_samples(self, n_samples):
 
-        self.conn_r = None  # clear the connection radius
-
         if self._samples is None:  # if new, initialize everything
             self._samples = np.zeros((n_samples, self.d))
 
@@ -387,6 +385,8 @@ class SimpleNearestNeighborRadiusPRM(SimplePRM):
 
             self._samples = np.concatenate([self._samples, new_samples])
 
+        self.conn_r = None  # clear the connection radius
+
         # build the index
         # if we are growing the graph, it means that a previous check with a larger radius worked.
         # so know the PRM is complete for a larger radius, so we can lose NNs losslessly.
-- 
2.43.0


From e11b352f0de66a698ac6b6de30fe194f5e4072c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:40 +0000
Subject: [PATCH 12/49] fix: distance lookup without a connection radius, and
 raise instead of returning the error

---
 nonasymptotic/prm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nonasymptotic/prm.py b/nonasymptotic/prm.py
index 26707ba..d3daffe 100644
--- a/nonasymptotic/prm.py
+++ b/nonasymptotic/prm.py
@@ -309,7 +309,7 @@ class SimpleFullConnRadiusPRM(SimplePRM):
         return ids_within_conn_r[valid_motions], dists_from_query[within_conn_r][valid_motions]
 
     def _distance_in_graph(self, starts, goals):
-        return NotImplementedError('Cannot compute graph distance efficiently with this version.')
+        raise NotImplementedError('Cannot compute graph distance efficiently with this version.')
 
     @property
     def prm_graph(self) -> nk.Graph:
@@ -462,7 +462,8 @@ class SimpleNearestNeighborRadiusPRM(SimplePRM):
             # recompute shortest paths over new graph and store their distances
             n_samples = self._samples.shape[0]
             dist_samples_to_line = self.dist_points_to_path(self._samples)
-            samples_within_conn_r = np.arange(n_samples)[dist_samples_to_line <= self.conn_r]
+            conn_r = self.conn_r if self.conn_r is not None else self.certified_max_conn_r
+            samples_within_conn_r = np.arange(n_samples)[dist_samples_to_line <= conn_r]
             self.g_sp_lookup, self.sample_to_lookup_ind = self._compute_spsp(samples_within_conn_r)
 
     def set_connection_radius(self, new_conn_r):
-- 
2.43.0


From b0271042f51ce625c6e87a045cc4f10d1a306639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:40 +0000
Subject: [PATCH 13/49] fix: first growth of the threshold radius PRM respects
 the connection radius

---
 nonasymptotic/prm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nonasymptotic/prm.py b/nonasymptotic/prm.py
index d3daffe..0007eb0 100644
--- a/nonasymptotic/prm.py
+++ b/nonasymptotic/prm.py
@@ -580,7 +580,8 @@ class SimpleRadiusPRM(SimplePRM):
 
             # apply a doubling scheme for connection neighbors to obtain the threshold graph
             adj_arr, dists_arr, self.ann = _build_threshold_index(self._samples)
-            self._g_prm = self._nn_edge_list_and_dist_list_to_nk_prm_graph(adj_arr, dists_arr)
+            self._g_prm = self._nn_edge_list_and_dist_list_to_nk_prm_graph(adj_arr, dists_arr,
+                                                                           threshold_rad=self.conn_r)
 
         else:  # otherwise, we (try to) reuse past computation
             past_n_samples = self._samples.shape[0]
-- 
2.43.0


From 159fa35410834f51cd79d2f286a4ce862da87d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:40 +0000
Subject: [PATCH 14/49] fix: growing the threshold radius PRM after a query
 keeps node ids in step with samples

---
 nonasymptotic/prm.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nonasymptotic/prm.py b/nonasymptotic/prm.py
index 0007eb0..05eec92 100644
--- a/nonasymptotic/prm.py
+++ b/nonasymptotic/prm.py
@@ -597,11 +597,14 @@ class SimpleRadiusPRM(SimplePRM):
             # check to make sure we are still within threshold. if not, we need to build a new graph with
             # new neighbors
             if np.all(dists_arr[:, -1] > self.conn_r) or self.k_neighbors >= self.max_k_neighbors:
-                self.prm_graph.addNodes(m_new_samples)
                 g_new_conns = self._nn_edge_list_and_dist_list_to_nk_prm_graph(adj_arr, dists_arr,
                                                                                include_starting=past_n_samples,
                                                                                threshold_rad=self.conn_r)
-                self.GT.merge(self._g_prm, g_new_conns)
+                # bring in the past connections (we can't extend the past graph by the new nodes, since their ids
+                # may have been used up by the start and goal nodes of queries.)
+                for u, v, w in self._g_prm.iterEdgesWeights():
+                    g_new_conns.addEdge(u, v, w=w, checkMultiEdge=True)
+                self._g_prm = g_new_conns
 
             else:
                 self.k_neighbors *= 2  # a bit hacky, but a way to make sure we don't recompute the graph at the same K
-- 
2.43.0


From b13c56a97e4fb6477bdb52e7346949c69133a9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:40 +0000
Subject: [PATCH 15/49] fix: growing the threshold radius PRM doubles neighbors
 until the radius is covered

---
 nonasymptotic/prm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonasymptotic/prm.py b/nonasymptotic/prm.py
index 05eec92..8cd76b3 100644
--- a/nonasymptotic/prm.py
+++ b/nonasymptotic/prm.py
@@ -608,7 +608,7 @@ class SimpleRadiusPRM(SimplePRM):
 
             else:
                 self.k_neighbors *= 2  # a bit hacky, but a way to make sure we don't recompute the graph at the same K
-                adj_arr, dists_arr = self.ann.new_graph_from_data(self.prm_samples, self.k_neighbors)
+                adj_arr, dists_arr, self.ann = _build_threshold_index(self._samples)
                 self._g_prm = self._nn_edge_list_and_dist_list_to_nk_prm_graph(adj_arr, dists_arr,
                                                                                threshold_rad=self.conn_r)
 
-- 
2.43.0


From acf6527220ab55f1d4fb1457899ab193b2f0f20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:26 +0000
Subject: [PATCH 16/49] fix: sample search terminates for counts past 2 ** 53

---
 nonasymptotic/bound.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonasymptotic/bound.py b/nonasymptotic/bound.py
index 101c9f0..3265683 100644
--- a/nonasymptotic/bound.py
+++ b/nonasymptotic/bound.py
@@ -118,7 +118,7 @@ def doubling_sample_search_over_log2_prob_bound(samples_to_log2_prob, success_pr
         elif m_samples_ub <= m_samples_lb:
             raise ArithmeticError('Something wrong happened.')
 
-        test_samples = int((m_samples_lb + m_samples_ub) / 2)
+        test_samples = (m_samples_lb + m_samples_ub) // 2  # in integers, floats are inexact past 2 ** 53
         # test if the tester is the sample count we're looking for
         cand_gamma = samples_to_log2_prob(test_samples)
         next_gamma = samples_to_log2_prob(test_samples + 1)
-- 
2.43.0


From 2b64a814df802f0f8745cd26b77019efb5e0ac00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:26 +0000
Subject: [PATCH 17/49] fix: net radius accounts for the factor of two in the
 net bound

---
 nonasymptotic/bound.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonasymptotic/bound.py b/nonasymptotic/bound.py
index 3265683..4b539ca 100644
--- a/nonasymptotic/bound.py
+++ b/nonasymptotic/bound.py
@@ -72,7 +72,7 @@ def compute_net_radius_from_prob(dim, n_samples, failure_prob, vol_env, ad_hoc_m
 
     return (
             (2 / n_samples / measure_unit_sphere)
-            * (math.log2(ss_comb_sum) - math.log2(failure_prob))
+            * (math.log2(ss_comb_sum) + 1 - math.log2(failure_prob))
     ) ** (1 / dim)
 
 
-- 
2.43.0


From 206f8568a5ee6ef4e2b4022acee7b2be304b75ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:26 +0000
Subject: [PATCH 18/49] fix: mean variant of the hoeffding bound scales the
 relative tail by the mean

---
 nonasymptotic/bound.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonasymptotic/bound.py b/nonasymptotic/bound.py
index 4b539ca..5bd43f2 100644
--- a/nonasymptotic/bound.py
+++ b/nonasymptotic/bound.py
@@ -212,7 +212,7 @@ def compute_tail_knn_radius_log_prob_hoeffding_mean_variant(m_samples, k_neighbo
     # all points will land in it and mess everything up)
     # but preserving some monotonicity properties of the prob bound
     tail_val = np.maximum(tail_val, 0.0)
-    log_p_fail = np.log(m_samples) - 2 * (m_samples - 1) * tail_val ** 2 / (p_r_ball ** 2)
+    log_p_fail = np.log(m_samples) - 2 * (m_samples - 1) * tail_val ** 2 * (p_r_ball ** 2)
     return log_p_fail
 
 
-- 
2.43.0


From 7ef5aa00b47ccaaf439cb59a7fc293db1f592654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:26 +0000
Subject: [PATCH 19/49] fix: generic chernoff bound is trivial when the mean
 exceeds the number of neighbors

---
 nonasymptotic/bound.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nonasymptotic/bound.py b/nonasymptotic/bound.py
index 5bd43f2..4701eee 100644
--- a/nonasymptotic/bound.py
+++ b/nonasymptotic/bound.py
@@ -231,6 +231,9 @@ def compute_tail_knn_radius_log_prob_chernoff_generic(m_samples, k_neighbors, co
     mu = (m_samples - 1) * p_r_ball
     tail_val = k_neighbors
 
+    # the bound only holds above the mean, and is trivial below it (preserves monotonicity, too)
+    mu = np.minimum(mu, tail_val)
+
     log_p_fail = np.log(m_samples) - mu + tail_val * (1 + np.log(mu) - np.log(tail_val))
     return log_p_fail
 
-- 
2.43.0


From 897bd5078b102e774a237b26d39b20d1a28c1118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:26 +0000
Subject: [PATCH 20/49] fix: effective radius bound does not clip the measure
 of the unit sphere

---
 nonasymptotic/bound.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonasymptotic/bound.py b/nonasymptotic/bound.py
index 4701eee..32d121f 100644
--- a/nonasymptotic/bound.py
+++ b/nonasymptotic/bound.py
@@ -296,7 +296,7 @@ def compute_eff_conn_rad_bound(m_samples, k_neighbors, dim, vol_env, failure_pro
     """
     Computes the expression provided in Corollary 1.
     """
-    measure_unit_sphere = np.minimum(compute_vol_unit_sphere(dim) / vol_env, 1.0)
+    measure_unit_sphere = compute_vol_unit_sphere(dim) / vol_env
     numer = k_neighbors - np.sqrt(2 * k_neighbors * (np.log(m_samples) - np.log(failure_prob)))
     denom = (m_samples - 1) * measure_unit_sphere
     return math.pow(numer / denom, 1 / dim)
-- 
2.43.0


From 8a6742534733929dab8cff38bf34a33dfc841549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:26 +0000
Subject: [PATCH 21/49] fix: linear radius search advances

---
 nonasymptotic/bound.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nonasymptotic/bound.py b/nonasymptotic/bound.py
index 32d121f..e0a4961 100644
--- a/nonasymptotic/bound.py
+++ b/nonasymptotic/bound.py
@@ -316,6 +316,8 @@ def linear_radius_search_over_prob_bound(radius_to_prob, rad_lb, rad_ub, success
         if test_gamma > failure_prob:
             return rad
 
+        rad += tol
+
 
 
 ## ZOMBIE CODE
-- 
2.43.0


From bca27fa1a2c5e5dbf20b829417dc6d1a9af68fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:26 +0000
Subject: [PATCH 22/49] fix: box corners scale each axis by its own half extent

---
 exps/tamp_environment/kuka_carry/separating_axis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exps/tamp_environment/kuka_carry/separating_axis.py b/exps/tamp_environment/kuka_carry/separating_axis.py
index e1563d5..eeb9117 100644
--- a/exps/tamp_environment/kuka_carry/separating_axis.py
+++ b/exps/tamp_environment/kuka_carry/separating_axis.py
@@ -46,7 +46,7 @@ def compute_vertices_vectorized(centers, half_extents, orientations):
     signs = np.array([[-1, -1, -1], [-1, -1, 1], [-1, 1, -1], [-1, 1, 1],
                       [1, -1, -1], [1, -1, 1], [1, 1, -1], [1, 1, 1]])
     vertices = centers[:, np.newaxis, :] + np.sum(
-        half_extents[:, np.newaxis, :, np.newaxis] * signs[np.newaxis, :, np.newaxis, :] * orientations[:, np.newaxis, :, :],
+        half_extents[:, np.newaxis, np.newaxis, :] * signs[np.newaxis, :, np.newaxis, :] * orientations[:, np.newaxis, :, :],
         axis=-1
     )
     return vertices
-- 
2.43.0


From c1a9a46a5148a20c790ed9f4c31058bb0420fe16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:13 +0000
Subject: [PATCH 23/49] fix: polygon sampler merges vertices where rings touch

---
 nonasymptotic/sampler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nonasymptotic/sampler.py b/nonasymptotic/sampler.py
index fafd084..072631b 100644
--- a/nonasymptotic/sampler.py
+++ b/nonasymptotic/sampler.py
@@ -92,6 +92,10 @@ def random_point_in_mpolygon(mpolygon, rng=None, vis=False):
     )
     segments = np.hstack([conn_from_arr.reshape(-1, 1), conn_to_arr.reshape(-1, 1)])
 
+    # rings that touch in a point repeat that vertex, which triangle cannot handle
+    vertices, vertex_inds = np.unique(vertices, axis=0, return_inverse=True)
+    segments = vertex_inds.reshape(-1)[segments]
+
     # compute triangulation
     data = {
         'vertices': vertices,
-- 
2.43.0


From f233f107eba02b2e4b08bb08e5bea1650e2e90d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:40 +0000
Subject: [PATCH 24/49] fix: polygon sampler finds every gap between polygons
 and islands

---
 nonasymptotic/sampler.py | 26 +++++++-------------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/nonasymptotic/sampler.py b/nonasymptotic/sampler.py
index 072631b..5739cc5 100644
--- a/nonasymptotic/sampler.py
+++ b/nonasymptotic/sampler.py
@@ -1,8 +1,8 @@
 import numpy as np
 import triangle as tr
 from matplotlib import pyplot as plt
-from shapely import MultiPolygon, get_exterior_ring, get_num_interior_rings, get_interior_ring, covers, difference, \
-    get_coordinates, point_on_surface, Polygon, get_num_points, get_parts, Point
+from shapely import MultiPolygon, get_exterior_ring, get_num_interior_rings, get_interior_ring, covers, \
+    get_coordinates, point_on_surface, Polygon, get_num_points, get_parts, Point, polygonize, unary_union
 from shapely.affinity import affine_transform
 from shapely.plotting import plot_polygon
 
@@ -21,7 +21,6 @@ def random_point_in_mpolygon(mpolygon, rng=None, vis=False):
         polys = np.array(mpolygon.geoms)
 
         mpoly_exterior_rings = get_exterior_ring(polys)
-        exterior_polys = np.array(MultiPolygon(zip(mpoly_exterior_rings, [[]] * mpoly_exterior_rings.size)).geoms)
 
         # gather all the interior rings
         num_mpoly_holes = get_num_interior_rings(polys)
@@ -30,22 +29,11 @@ def random_point_in_mpolygon(mpolygon, rng=None, vis=False):
             [get_interior_ring(polys, i) for i in range(max_num_holes)]
         ) if max_num_holes > 0 else np.array([])
         mpoly_interior_rings = mpoly_interior_rings[mpoly_interior_rings != np.array(None)]
-        interior_polys = np.array(MultiPolygon(zip(mpoly_interior_rings, [[]] * mpoly_interior_rings.size)).geoms)
-
-        # check nestedness (numpy vectorized brute force)
-        _inpolys, _expolys = np.meshgrid(interior_polys, exterior_polys, indexing="ij")
-        _covers = covers(_inpolys, _expolys)
-        _cover_inds = np.moveaxis(
-            np.mgrid[0:interior_polys.size, 0:exterior_polys.size],
-            0, 2
-        )[_covers]
-
-        # we're not expecting many intersections, so for loop is okay
-        for i_inpoly, i_expoly in _cover_inds:
-            interior_polys[i_inpoly] = difference(interior_polys[i_inpoly], exterior_polys[i_expoly])
-
-        # an island that touches its hole's border can cut the hole into several parts, each needs its own point
-        interior_polys = get_parts(interior_polys)
+
+        # the bounded faces between the rings which are not in the polygon have to be cut out. (a hole can have islands,
+        # which can divide it into several faces, and polygons that touch can enclose a face that is no hole of theirs)
+        faces = get_parts(polygonize([unary_union(mpolygon.boundary)]))
+        interior_polys = faces[np.logical_not(covers(mpolygon, point_on_surface(faces)))]
 
         # compute correct representative points
         interior_points = get_coordinates(point_on_surface(interior_polys))
-- 
2.43.0


From 9acb3ace697bca441aba4a2a84f47c81f86236ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:34 +0000
Subject: [PATCH 25/49] fix: kgraph neighbor lists do not leave their text file
 in the temp directory

---
 nonasymptotic/ann.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nonasymptotic/ann.py b/nonasymptotic/ann.py
index e93e176..ec99944 100644
--- a/nonasymptotic/ann.py
+++ b/nonasymptotic/ann.py
@@ -60,7 +60,9 @@ class KGraphANN(ApproximateNearestNeighbor):
         nn_index.save_text(self.save_txt_path)
 
         # parse the text file and return
-        lines = open(self.save_txt_path, 'r').readlines()
+        with open(self.save_txt_path, 'r') as f:
+            lines = f.readlines()
+        os.remove(self.save_txt_path)
 
         # line 0 has the number of nodes. so skip that.
         # line i corresponds to row i-1 in the input data.
-- 
2.43.0


From 7c9b9b60a44ab010e70f11bb2db1e13234d7c14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:55 +0000
Subject: [PATCH 26/49] fix: sample search tells rising from falling also where
 one sample is below rounding

---
 nonasymptotic/bound.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/nonasymptotic/bound.py b/nonasymptotic/bound.py
index e0a4961..a7d2813 100644
--- a/nonasymptotic/bound.py
+++ b/nonasymptotic/bound.py
@@ -96,11 +96,15 @@ def doubling_sample_search_over_log2_prob_bound(samples_to_log2_prob, success_pr
     # the probability bound.
     log_failure_prob = math.log2(1 - success_prob)
 
+    def next_count(m_samples):
+        # for large counts, one more sample changes the bound by less than its rounding error
+        return m_samples + max(1, m_samples // 2 ** 40)
+
     m_samples_lb = 1
     m_samples_ub = 2
     while True:
         cand_gamma = samples_to_log2_prob(m_samples_ub)
-        next_gamma = samples_to_log2_prob(m_samples_ub + 1)
+        next_gamma = samples_to_log2_prob(next_count(m_samples_ub))
 
         # move past the desired probability and ensure we are 'downhill'
         if log_failure_prob >= cand_gamma >= next_gamma:
@@ -121,7 +125,7 @@ def doubling_sample_search_over_log2_prob_bound(samples_to_log2_prob, success_pr
         test_samples = (m_samples_lb + m_samples_ub) // 2  # in integers, floats are inexact past 2 ** 53
         # test if the tester is the sample count we're looking for
         cand_gamma = samples_to_log2_prob(test_samples)
-        next_gamma = samples_to_log2_prob(test_samples + 1)
+        next_gamma = samples_to_log2_prob(next_count(test_samples))
 
         # if the candidate failure probability is still too high, or
         # if we're not going 'downhill' yet, then move up the lower bound.
-- 
2.43.0


From cfd01cb3ad892c0424dc721398f0579b156d671f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:34 +0000
Subject: [PATCH 27/49] fix: checking an empty batch of motions in the planning
 domains is not an error

---
 exps/tamp_environment/kuka_carry/run.py         | 3 +++
 exps/tamp_environment/turtlebot_move/streams.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/exps/tamp_environment/kuka_carry/run.py b/exps/tamp_environment/kuka_carry/run.py
index b16cee2..91ec632 100644
--- a/exps/tamp_environment/kuka_carry/run.py
+++ b/exps/tamp_environment/kuka_carry/run.py
@@ -75,6 +75,9 @@ class BagOfBoundingBoxes(Environment):
         return "{}, {}".format(pose[0], pbu.euler_from_quat(pose[1]))
     
     def is_motion_valid(self, start, goal):
+        if start.shape[0] == 0:  # nothing to check, e.g. no samples are close to a query
+            return np.zeros(0, dtype=bool)
+
         valids = np.ones(start.shape[0]).astype(bool)
         obb_interps = []
         # print(start.shape[0])
diff --git a/exps/tamp_environment/turtlebot_move/streams.py b/exps/tamp_environment/turtlebot_move/streams.py
index 790ae18..00583d9 100644
--- a/exps/tamp_environment/turtlebot_move/streams.py
+++ b/exps/tamp_environment/turtlebot_move/streams.py
@@ -88,6 +88,9 @@ class BagOfBoundingBoxes(Environment):
 
     def is_motion_valid(self, start, goal):
 
+        if start.shape[0] == 0:  # nothing to check, e.g. no samples are close to a query
+            return np.zeros(0, dtype=bool)
+
         valids = np.ones(start.shape[0]).astype(bool)
         start_exp  = np.tile(np.expand_dims(start, axis=1), (1, self.robot_verts.shape[0], 1))
         goal_exp  = np.tile(np.expand_dims(goal, axis=1), (1, self.robot_verts.shape[0], 1))
-- 
2.43.0


From 3c482b72e56d9080215cbc67f7924ab8ce616873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:34 +0000
Subject: [PATCH 28/49] fix: anytime motion planning always grows the roadmap
 by at least one sample

---
 exps/tamp_environment/kuka_carry/run.py         | 2 +-
 exps/tamp_environment/turtlebot_move/streams.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/exps/tamp_environment/kuka_carry/run.py b/exps/tamp_environment/kuka_carry/run.py
index 91ec632..b98297e 100644
--- a/exps/tamp_environment/kuka_carry/run.py
+++ b/exps/tamp_environment/kuka_carry/run.py
@@ -196,7 +196,7 @@ def get_insert_motion_gen(robot,
 
             if(len(path)>0):
                 break
-            num_samples = num_samples*factor
+            num_samples = max(num_samples*factor, int(num_samples)+1)  # always grow by a sample
         
         
         print("Path: "+str(path))
diff --git a/exps/tamp_environment/turtlebot_move/streams.py b/exps/tamp_environment/turtlebot_move/streams.py
index 00583d9..9b284dc 100644
--- a/exps/tamp_environment/turtlebot_move/streams.py
+++ b/exps/tamp_environment/turtlebot_move/streams.py
@@ -178,7 +178,7 @@ def get_anytime_motion_fn(problem,
             _, path = prm.query_best_solution(start, goal)
             if(len(path)>0):
                 break
-            num_samples = num_samples*factor
+            num_samples = max(num_samples*factor, int(num_samples)+1)  # always grow by a sample
 
 
         print("Path: "+str(path))
-- 
2.43.0


From ea2dcb69ed4ae093bdcf90360309888124d75ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:24 +0000
Subject: [PATCH 29/49] fix: knn radius trial seeds its environment instead of
 stretching it by the seed

---
 exps/run_knn_radius_trial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exps/run_knn_radius_trial.py b/exps/run_knn_radius_trial.py
index c2c712d..5b947ec 100644
--- a/exps/run_knn_radius_trial.py
+++ b/exps/run_knn_radius_trial.py
@@ -13,7 +13,7 @@ from nonasymptotic.ann import get_ann
 
 
 def knn_radius_trial(delta_clear, dim, sample_schedule, neighbor_schedule, rng_seed):
-    env = StraightLine(dim, delta_clear, rng_seed)
+    env = StraightLine(dim, delta_clear, seed=rng_seed)
     knn_builder = get_ann("kgraph")
     record = []
 
-- 
2.43.0


From 623dcae3fdb8debfbfc0d75d6579a5d479c6756d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:24 +0000
Subject: [PATCH 30/49] fix: knn radius trial records exactly the neighbor
 counts that the samples have

---
 exps/run_knn_radius_trial.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/exps/run_knn_radius_trial.py b/exps/run_knn_radius_trial.py
index 5b947ec..49e8bba 100644
--- a/exps/run_knn_radius_trial.py
+++ b/exps/run_knn_radius_trial.py
@@ -22,7 +22,11 @@ def knn_radius_trial(delta_clear, dim, sample_schedule, neighbor_schedule, rng_s
         for i_s in range(s):
             data[i_s, :] = env.sample_from_env()
 
-        k_neighbors = np.max([_nn for _nn in neighbor_schedule if _nn < s])
+        # a sample only has s - 1 neighbors
+        neighbors_to_record = [_nn for _nn in neighbor_schedule if _nn < s]
+        if not neighbors_to_record:
+            continue
+        k_neighbors = np.max(neighbors_to_record)
 
         graph_build_st = time.time()
         _, dist_list = knn_builder.new_graph_from_data(data, k_neighbors)
@@ -30,19 +34,17 @@ def knn_radius_trial(delta_clear, dim, sample_schedule, neighbor_schedule, rng_s
 
         build_time = graph_build_et - graph_build_st
 
-        for nn in neighbor_schedule:
-            if nn > s:
-                break
+        for nn in neighbors_to_record:
             effective_rad = np.min(dist_list[:, nn - 1])
             record.append(
                 (dim, s, nn, effective_rad, build_time, delta_clear, rng_seed)
             )
 
-        df_record = pd.DataFrame(record, columns=[
-            "dim", "n_samples", "n_neighbors",
-            "eff_rad", "build_time",
-            "delta_clearance", "seed"
-        ])
+    df_record = pd.DataFrame(record, columns=[
+        "dim", "n_samples", "n_neighbors",
+        "eff_rad", "build_time",
+        "delta_clearance", "seed"
+    ])
 
     return df_record
 
-- 
2.43.0


From d781b4b94feb87fec004e3abd355f2abbef72a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:24 +0000
Subject: [PATCH 31/49] fix: straight line trial imports the package as it is
 laid out

---
 exps/run_straight_line_optimality_trial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/exps/run_straight_line_optimality_trial.py b/exps/run_straight_line_optimality_trial.py
index 3d3442c..5a08f7c 100644
--- a/exps/run_straight_line_optimality_trial.py
+++ b/exps/run_straight_line_optimality_trial.py
@@ -36,8 +36,8 @@ import json
 import sys
 import os
 
-from envs import StraightLine
-from prm import SimpleNearestNeighborRadiusPRM
+from nonasymptotic.envs import StraightLine
+from nonasymptotic.prm import SimpleNearestNeighborRadiusPRM
 
 
 def straight_line_trial(delta_clear, dim, rng_seed,
-- 
2.43.0


From fb900fefed5b0952703cde2ff1c469ffdf061b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:24 +0000
Subject: [PATCH 32/49] fix: resumed experiments continue with the seeds of the
 remaining trials

---
 exps/run_knn_radius_trial.py               | 6 ++++--
 exps/run_narrow_passage_clearance_trial.py | 6 ++++--
 exps/run_straight_line_optimality_trial.py | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/exps/run_knn_radius_trial.py b/exps/run_knn_radius_trial.py
index 49e8bba..3145c34 100644
--- a/exps/run_knn_radius_trial.py
+++ b/exps/run_knn_radius_trial.py
@@ -72,6 +72,8 @@ tasks = exp_combos[task_id:len(exp_combos):num_tasks]
 
 # trying to obtain reproducible randomness
 rng = np.random.default_rng(seed=task_id)
+# (all seeds are drawn before skipping ahead, so that a resumed task has the same ones)
+tasks = [(*task, rng.integers(0, 2 ** 32)) for task in tasks]
 
 # run the experiments! check to see if an out file already exists and the experiment is resuming.
 df_save_path = os.path.join(exp_save_path, 'out%i.csv' % task_id)
@@ -81,12 +83,12 @@ if os.path.exists(df_save_path):
 else:
     all_tasks_record_df = None
 
-for _dim, _trial in tasks:
+for _dim, _trial, _seed in tasks:
     print('initiating knn trial dim: %f, trial%f' % (_dim, _trial))
     trial_record_df = knn_radius_trial(
         delta_clear=config['delta'],
         dim=_dim,
-        rng_seed=rng.integers(0, 2 ** 32),
+        rng_seed=_seed,
         sample_schedule=config['sample_schedule'],
         neighbor_schedule=config['neighbor_schedule'],
     )
diff --git a/exps/run_narrow_passage_clearance_trial.py b/exps/run_narrow_passage_clearance_trial.py
index f0578ec..360d2f4 100644
--- a/exps/run_narrow_passage_clearance_trial.py
+++ b/exps/run_narrow_passage_clearance_trial.py
@@ -252,6 +252,8 @@ if __name__ == '__main__':
 
     # trying to obtain reproducible randomness
     rng = np.random.default_rng(seed=task_id)
+    # (all seeds are drawn before skipping ahead, so that a resumed task has the same ones)
+    tasks = [(*task, rng.integers(0, 2 ** 32)) for task in tasks]
 
     # run the experiments! check to see if an out file already exists and the experiment is resuming.
     df_save_path = os.path.join(exp_save_path, 'out%i.csv' % task_id)
@@ -265,14 +267,14 @@ if __name__ == '__main__':
     else:
         all_tasks_record_df = None
 
-    for _prm_type, _clearance, _dim, _trial in tasks:
+    for _prm_type, _clearance, _dim, _trial, _seed in tasks:
         print('initiating line trial dim: %f, trial%f' % (_dim, _trial))
         _sample_schedule = config['radius_sample_schedule'] if _prm_type == 'radius' else config['knn_sample_schedule']
         _max_conn = config['radius_prm_max_radius'] if _prm_type == 'radius' else config['knn_prm_max_neighbors']
         trial_record_df = narrow_passage_clearance(
             _clearance,
             _dim,
-            rng_seed=rng.integers(0, 2 ** 32),
+            rng_seed=_seed,
             sample_schedule=_sample_schedule,
             prm_type=_prm_type,
             max_connections=_max_conn,
diff --git a/exps/run_straight_line_optimality_trial.py b/exps/run_straight_line_optimality_trial.py
index 5a08f7c..29881c4 100644
--- a/exps/run_straight_line_optimality_trial.py
+++ b/exps/run_straight_line_optimality_trial.py
@@ -167,6 +167,8 @@ tasks = exp_combos[task_id:len(exp_combos):num_tasks]
 
 # trying to obtain reproducible randomness
 rng = np.random.default_rng(seed=task_id)
+# (all seeds are drawn before skipping ahead, so that a resumed task has the same ones)
+tasks = [(*task, rng.integers(0, 2 ** 32)) for task in tasks]
 
 # run the experiments! check to see if an out file already exists and the experiment is resuming.
 df_save_path = os.path.join(exp_save_path, 'out%i.csv' % task_id)
@@ -176,11 +178,11 @@ if os.path.exists(df_save_path):
 else:
     all_tasks_record_df = None
 
-for _dim, _trial in tasks:
+for _dim, _trial, _seed in tasks:
     print('initiating line trial dim: %f, trial%f' % (_dim, _trial))
     trial_record_df = straight_line_trial(
         config['delta'], _dim,
-        rng_seed=rng.integers(0, 2 ** 32),
+        rng_seed=_seed,
         sample_schedule=config['sample_schedule'],
         n_samples_per_ed_check_round=config['n_samples_per_check_round'],
         ed_check_timeout=config['ed_check_timeout'],
-- 
2.43.0


From 29f956fb511b8461fccb6c2b49ac056fe00149b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:24 +0000
Subject: [PATCH 33/49] fix: resuming skips completed trials, not as many
 trials as there are rows

---
 exps/run_knn_radius_trial.py               | 4 +++-
 exps/run_straight_line_optimality_trial.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/exps/run_knn_radius_trial.py b/exps/run_knn_radius_trial.py
index 3145c34..629d4d2 100644
--- a/exps/run_knn_radius_trial.py
+++ b/exps/run_knn_radius_trial.py
@@ -79,7 +79,9 @@ tasks = [(*task, rng.integers(0, 2 ** 32)) for task in tasks]
 df_save_path = os.path.join(exp_save_path, 'out%i.csv' % task_id)
 if os.path.exists(df_save_path):
     all_tasks_record_df = pd.read_csv(df_save_path, index_col=0)
-    tasks = tasks[all_tasks_record_df.shape[0]:]  # skip ahead if we have completed entries
+    # a trial has several rows, but one seed (the last entry of a task), so skip those with completed entries.
+    completed_seeds = set(all_tasks_record_df['seed'])
+    tasks = [task for task in tasks if task[-1] not in completed_seeds]
 else:
     all_tasks_record_df = None
 
diff --git a/exps/run_straight_line_optimality_trial.py b/exps/run_straight_line_optimality_trial.py
index 29881c4..e83edd3 100644
--- a/exps/run_straight_line_optimality_trial.py
+++ b/exps/run_straight_line_optimality_trial.py
@@ -174,7 +174,9 @@ tasks = [(*task, rng.integers(0, 2 ** 32)) for task in tasks]
 df_save_path = os.path.join(exp_save_path, 'out%i.csv' % task_id)
 if os.path.exists(df_save_path):
     all_tasks_record_df = pd.read_csv(df_save_path, index_col=0)
-    tasks = tasks[all_tasks_record_df.shape[0]:]  # skip ahead if we have completed entries
+    # a trial has several rows, but one seed (the last entry of a task), so skip those with completed entries.
+    completed_seeds = set(all_tasks_record_df['seed'])
+    tasks = [task for task in tasks if task[-1] not in completed_seeds]
 else:
     all_tasks_record_df = None
 
-- 
2.43.0


From 255efb01a1acce9d2830feb47f45199aa77e8887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:24 +0000
Subject: [PATCH 34/49] fix: intermediate results are replaced at once, so that
 they survive a kill while saving

---
 exps/run_knn_radius_trial.py               | 4 +++-
 exps/run_narrow_passage_clearance_trial.py | 4 +++-
 exps/run_straight_line_optimality_trial.py | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/exps/run_knn_radius_trial.py b/exps/run_knn_radius_trial.py
index 629d4d2..a8b0cbc 100644
--- a/exps/run_knn_radius_trial.py
+++ b/exps/run_knn_radius_trial.py
@@ -103,4 +103,6 @@ for _dim, _trial, _seed in tasks:
         all_tasks_record_df = pd.concat([all_tasks_record_df, trial_record_df])
 
     # we output intermediate results just to see progress.
-    all_tasks_record_df.to_csv(df_save_path)
+    # (written aside first, so that a job killed while saving does not lose the results so far.)
+    all_tasks_record_df.to_csv(df_save_path + '.tmp')
+    os.replace(df_save_path + '.tmp', df_save_path)
diff --git a/exps/run_narrow_passage_clearance_trial.py b/exps/run_narrow_passage_clearance_trial.py
index 360d2f4..c8fe068 100644
--- a/exps/run_narrow_passage_clearance_trial.py
+++ b/exps/run_narrow_passage_clearance_trial.py
@@ -288,4 +288,6 @@ if __name__ == '__main__':
             all_tasks_record_df = pd.concat([all_tasks_record_df, trial_record_df])
 
         # we output intermediate results just to see progress.
-        all_tasks_record_df.to_csv(df_save_path)
+        # (written aside first, so that a job killed while saving does not lose the results so far.)
+        all_tasks_record_df.to_csv(df_save_path + '.tmp')
+        os.replace(df_save_path + '.tmp', df_save_path)
diff --git a/exps/run_straight_line_optimality_trial.py b/exps/run_straight_line_optimality_trial.py
index e83edd3..f880e2a 100644
--- a/exps/run_straight_line_optimality_trial.py
+++ b/exps/run_straight_line_optimality_trial.py
@@ -200,4 +200,6 @@ for _dim, _trial, _seed in tasks:
         all_tasks_record_df = pd.concat([all_tasks_record_df, trial_record_df])
 
     # we output intermediate results just to see progress.
-    all_tasks_record_df.to_csv(df_save_path)
+    # (written aside first, so that a job killed while saving does not lose the results so far.)
+    all_tasks_record_df.to_csv(df_save_path + '.tmp')
+    os.replace(df_save_path + '.tmp', df_save_path)
-- 
2.43.0


From afbe006ee72533ceabc6e855ab1af0ef671662bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:24 +0000
Subject: [PATCH 35/49] fix: narrow passage record without connections has all
 columns

---
 exps/run_narrow_passage_clearance_trial.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/exps/run_narrow_passage_clearance_trial.py b/exps/run_narrow_passage_clearance_trial.py
index c8fe068..18f397a 100644
--- a/exps/run_narrow_passage_clearance_trial.py
+++ b/exps/run_narrow_passage_clearance_trial.py
@@ -74,6 +74,8 @@ def narrow_passage_clearance(delta_clear, dim, rng_seed,
                  n_samples,
                  np.nan,
                  np.nan,
+                 np.nan,
+                 np.nan,
                  build_runtime,
                  0,
                  'no connections made',
-- 
2.43.0


From c39361e2a1ea2b2a1d51e03e323e921dd0bacfc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:03 +0000
Subject: [PATCH 36/49] fix: an experiment without its config file is not
 submitted

---
 exps/submit_and_run_experiment_job.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/exps/submit_and_run_experiment_job.py b/exps/submit_and_run_experiment_job.py
index 4e3b488..d95c336 100644
--- a/exps/submit_and_run_experiment_job.py
+++ b/exps/submit_and_run_experiment_job.py
@@ -70,6 +70,7 @@ if __name__ == "__main__":
 
         except FileNotFoundError:
             print("Could not find the config file '%s'." % args.config_path)
+            sys.exit(1)
 
         # generate the submission script (and store in experiment directory)
         script_name = 'run_straight_line_trial.py' if args.type == 'line' else 'run_knn_radius_trial.py'
-- 
2.43.0


From 4b13287e41d90f7a63f4f96ecd84ed131be09abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:03 +0000
Subject: [PATCH 37/49] fix: resuming launches the latest experiment of exactly
 the given name

---
 exps/submit_and_run_experiment_job.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/exps/submit_and_run_experiment_job.py b/exps/submit_and_run_experiment_job.py
index d95c336..02471ae 100644
--- a/exps/submit_and_run_experiment_job.py
+++ b/exps/submit_and_run_experiment_job.py
@@ -91,8 +91,10 @@ if __name__ == "__main__":
 
     else:  # for resuming, we just launch the corresponding script
         try:
-            dirs_with_exp_name = glob.glob('./results/%s*' % args.name)
-            dirs_with_exp_name.sort(key=os.path.getmtime)
+            # only the start time follows the name. (other experiments may have a name that begins with this one)
+            timestamp_pattern = '[0-9]' * 8 + '-' + '[0-9]' * 6
+            dirs_with_exp_name = glob.glob('./results/%s_%s' % (glob.escape(args.name), timestamp_pattern))
+            dirs_with_exp_name.sort()  # by start time
             latest_exp_path = dirs_with_exp_name[-1]
             submit_script_path = os.path.join(latest_exp_path, 'submit_job.sh')
 
-- 
2.43.0


From e8f655194389e12be143b8a9baa3b67249a973ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:37 +0000
Subject: [PATCH 38/49] fix: insertion motions leave no way point out when it
 has no configuration

---
 exps/tamp_environment/kuka_carry/run.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/exps/tamp_environment/kuka_carry/run.py b/exps/tamp_environment/kuka_carry/run.py
index b98297e..95a3541 100644
--- a/exps/tamp_environment/kuka_carry/run.py
+++ b/exps/tamp_environment/kuka_carry/run.py
@@ -235,10 +235,13 @@ def get_insert_motion_gen(robot,
             pbu.set_pose(body, pose)
             body_pose = BodyPose(body, pose)
             conf = get_ik_fn(robot, body, body_pose, grasp, randomize=False, teleport=teleport)
-            if(conf is not None):
-                conf_path.append(conf.values)
-                conf_joints = conf.joints
-                grasp.assign()
+            if(conf is None):
+                # leaving the way point out would join its neighbors by a motion that was not checked
+                print("No configuration for a way point. Cannot complete planning.")
+                raise SubplanFailed
+            conf_path.append(conf.values)
+            conf_joints = conf.joints
+            grasp.assign()
 
         command = Command(
             [BodyPath(robot, conf_path, joints=conf_joints, attachments=[grasp])]
-- 
2.43.0


From 15687f249ada37ae793fc6bda9a99c2e86bff70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:55 +0000
Subject: [PATCH 39/49] fix: insertion motions follow the checked path between
 the given configurations

---
 exps/tamp_environment/kuka_carry/run.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/exps/tamp_environment/kuka_carry/run.py b/exps/tamp_environment/kuka_carry/run.py
index 95a3541..db963f0 100644
--- a/exps/tamp_environment/kuka_carry/run.py
+++ b/exps/tamp_environment/kuka_carry/run.py
@@ -6,7 +6,7 @@ sys.path.extend(["./pddlstream"])
 
 import time
 import pybullet_tools.utils as pbu
-from kuka_primitives import TOOL_FRAMES, BodyPose, BodyConf, get_grasp_gen, \
+from kuka_primitives import TOOL_FRAMES, BodyPose, BodyConf, BodyGrasp, get_grasp_gen, \
     get_stable_gen, get_ik_fn, get_free_motion_gen, \
     get_holding_motion_gen, Command, get_fixed_stable_gen, BodyPath
 from pddlstream.algorithms.meta import solve
@@ -229,22 +229,26 @@ def get_insert_motion_gen(robot,
         # plt.show()
         
 
-        conf_path = []
-        for el in whole_path:
+        # the hand has to follow the checked path itself (the approach pose of the grasp would lift the body off it),
+        # between the two given configurations
+        path_grasp = BodyGrasp(body, grasp.grasp_pose, pbu.unit_pose(), robot, grasp.link)
+        conf1.assign()
+        conf_path = [conf1.values]
+        for el in path.tolist():
             pose = pbu.Pose(pbu.Point(*el[:3]), pbu.Euler(*el[3:]))
             pbu.set_pose(body, pose)
             body_pose = BodyPose(body, pose)
-            conf = get_ik_fn(robot, body, body_pose, grasp, randomize=False, teleport=teleport)
+            conf = get_ik_fn(robot, body, body_pose, path_grasp, randomize=False, teleport=teleport)
             if(conf is None):
                 # leaving the way point out would join its neighbors by a motion that was not checked
                 print("No configuration for a way point. Cannot complete planning.")
                 raise SubplanFailed
             conf_path.append(conf.values)
-            conf_joints = conf.joints
             grasp.assign()
+        conf_path.append(conf2.values)
 
         command = Command(
-            [BodyPath(robot, conf_path, joints=conf_joints, attachments=[grasp])]
+            [BodyPath(robot, conf_path, joints=conf2.joints, attachments=[grasp])]
         )
         return (command,)
 
-- 
2.43.0


From 31ba94acdab4162f67a0bbc33e0e72a3a06fd65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:43 +0000
Subject: [PATCH 40/49] fix: the growth factor is a number, not a whole number

---
 exps/tamp_environment/kuka_carry/run.py     | 2 +-
 exps/tamp_environment/turtlebot_move/run.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/exps/tamp_environment/kuka_carry/run.py b/exps/tamp_environment/kuka_carry/run.py
index db963f0..176a9ab 100644
--- a/exps/tamp_environment/kuka_carry/run.py
+++ b/exps/tamp_environment/kuka_carry/run.py
@@ -618,7 +618,7 @@ def main():
     parser = argparse.ArgumentParser()
     parser.add_argument('--min-samples', default=500, type=int, help='Max num samples for motion planning')
     parser.add_argument('--max-samples', default=30000, type=int, help='Max num samples for motion planning')
-    parser.add_argument('--factor', default=1.1, type=int, help='The rate at which we geometrically expand from min-samples to max-samples')
+    parser.add_argument('--factor', default=1.1, type=float, help='The rate at which we geometrically expand from min-samples to max-samples')
     parser.add_argument('--delta', default=0.04, type=float, help='Difference between the hallway width and the largest object that needs to fit thorugh the hallway')
     parser.add_argument('--theta-margin', default=np.pi/12.0, type=float, help='')
     parser.add_argument('--collision-buffer', default=0.02, type=float, help='')
diff --git a/exps/tamp_environment/turtlebot_move/run.py b/exps/tamp_environment/turtlebot_move/run.py
index e84d587..9a67a24 100644
--- a/exps/tamp_environment/turtlebot_move/run.py
+++ b/exps/tamp_environment/turtlebot_move/run.py
@@ -170,7 +170,7 @@ def main():
     parser.add_argument('--optimal', action='store_true', help='Runs in an anytime mode')
     parser.add_argument('--min-samples', default=10, type=int, help='Max num samples for motion planning')
     parser.add_argument('--max-samples', default=2000, type=int, help='Max num samples for motion planning')
-    parser.add_argument('--factor', default=1.1, type=int, help='The rate at which we geometrically expand from min-samples to max-samples')
+    parser.add_argument('--factor', default=1.1, type=float, help='The rate at which we geometrically expand from min-samples to max-samples')
     parser.add_argument('--delta', default=0.05, type=float, help='Difference between the hallway width and the largest object that needs to fit thorugh the hallway')
     parser.add_argument('--seed', default=-1, type=int, help='Seed for selection of robot size and collision placement')
     parser.add_argument('--save-dir', default="./logs/debug", type=str, help='Directory to save planning results')
-- 
2.43.0


From 4c15be373f1be43cbb4ab2a7da43e31bafc02f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:43 +0000
Subject: [PATCH 41/49] fix: the arm domain honours --teleport

---
 exps/tamp_environment/kuka_carry/run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exps/tamp_environment/kuka_carry/run.py b/exps/tamp_environment/kuka_carry/run.py
index 176a9ab..5cff1e6 100644
--- a/exps/tamp_environment/kuka_carry/run.py
+++ b/exps/tamp_environment/kuka_carry/run.py
@@ -646,7 +646,7 @@ def main():
     
 
     while(True):
-        teleport = False
+        teleport = args.teleport
         robot, names, movable, sink_obstacle_oobbs, fixed, placement_links = load_world(min_gap=args.delta)
         print('Objects:', names)
 
-- 
2.43.0


From a7b6a828d46fa54c390a6c19bf0b347e6975ae94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:51 +0000
Subject: [PATCH 42/49] fix: adaptive sampling plans with as many samples as
 the bound asks for

---
 exps/tamp_environment/kuka_carry/run.py         | 2 +-
 exps/tamp_environment/turtlebot_move/streams.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/exps/tamp_environment/kuka_carry/run.py b/exps/tamp_environment/kuka_carry/run.py
index 5cff1e6..f47ff60 100644
--- a/exps/tamp_environment/kuka_carry/run.py
+++ b/exps/tamp_environment/kuka_carry/run.py
@@ -161,7 +161,7 @@ def get_insert_motion_gen(robot,
         print("Bound prediction: "+str(bound))
         if(adaptive_n):
             max_samples, _ = bound
-            min_samples = max_samples-1
+            min_samples = max_samples
         else:
             min_samples=start_samples
             max_samples=end_samples
diff --git a/exps/tamp_environment/turtlebot_move/streams.py b/exps/tamp_environment/turtlebot_move/streams.py
index 9b284dc..55af8f2 100644
--- a/exps/tamp_environment/turtlebot_move/streams.py
+++ b/exps/tamp_environment/turtlebot_move/streams.py
@@ -153,7 +153,7 @@ def get_anytime_motion_fn(problem,
             delta = problem.hallway_gap - (robot_shape.upper[0] - robot_shape.lower[0]) + collision_buffer
             print("[Inside MP] delta: "+str(delta))
             max_samples, _ = compute_numerical_bound(delta, 0.99, 16, 2, None)
-            min_samples = max_samples-1
+            min_samples = max_samples
         else:
             min_samples=start_samples
             max_samples=end_samples
-- 
2.43.0


From 12108bba4cf056a144fecba7304146871fcda5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:37 +0000
Subject: [PATCH 43/49] fix: aggregating again does not count an earlier
 aggregate

---
 exps/aggregate_runtimes_for_tuning.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/exps/aggregate_runtimes_for_tuning.py b/exps/aggregate_runtimes_for_tuning.py
index a262b52..4810d20 100644
--- a/exps/aggregate_runtimes_for_tuning.py
+++ b/exps/aggregate_runtimes_for_tuning.py
@@ -18,6 +18,7 @@ if __name__ == '__main__':
     latest_exp_dir = exp_dirs[-1]
 
     mini_out_csvs = glob.glob(latest_exp_dir + '/out*.csv')
+    mini_out_csvs = [p for p in mini_out_csvs if not p.endswith('_agg_out.csv')]  # not an earlier aggregate
     mini_out_dfs = list(map(lambda p: pd.read_csv(p, index_col=0), mini_out_csvs))
     big_out = pd.concat(mini_out_dfs)
 
-- 
2.43.0


From 1ca331d3b3c985a2044ddb524651654bfb33fd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:37 +0000
Subject: [PATCH 44/49] fix: tables of neighbor-radius trials can be aggregated

---
 exps/aggregate_runtimes_for_tuning.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/exps/aggregate_runtimes_for_tuning.py b/exps/aggregate_runtimes_for_tuning.py
index 4810d20..6cc86b5 100644
--- a/exps/aggregate_runtimes_for_tuning.py
+++ b/exps/aggregate_runtimes_for_tuning.py
@@ -33,8 +33,10 @@ if __name__ == '__main__':
     build_mean = cut_big_out['build_time'].mean()
     build_std = cut_big_out['build_time'].std()
 
-    check_mean = cut_big_out['check_time'].mean()
-    check_std = cut_big_out['check_time'].std()
-
     print('Trial build time mean: %f +/- %f' % (build_mean, build_std))
-    print('Trial check time mean: %f +/- %f' % (check_mean, check_std))
+
+    if 'check_time' in cut_big_out.columns:  # the neighbor-radius trials have no check
+        check_mean = cut_big_out['check_time'].mean()
+        check_std = cut_big_out['check_time'].std()
+
+        print('Trial check time mean: %f +/- %f' % (check_mean, check_std))
-- 
2.43.0


From cb7bec9110e535e945345557a211a4768d1b4580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:37 +0000
Subject: [PATCH 45/49] fix: a failing queue query does not count as an empty
 queue

---
 exps/tamp_environment/deploy_tamp_experiments.py      | 2 +-
 exps/tamp_environment/deploy_tamp_experiments_kuka.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/exps/tamp_environment/deploy_tamp_experiments.py b/exps/tamp_environment/deploy_tamp_experiments.py
index 487b373..3993b6d 100644
--- a/exps/tamp_environment/deploy_tamp_experiments.py
+++ b/exps/tamp_environment/deploy_tamp_experiments.py
@@ -27,7 +27,7 @@ def count_lines_of_command_output():
     
     except subprocess.CalledProcessError as e:
         print(f"Error executing command: {e}")
-        return 0
+        return MAX_TOTAL  # unknown, so wait: an empty queue would be overfilled
     
 def deploy_with_args(min_samples, max_samples, adaptive, debug=False):
     command_str = f"sbatch --array=1-{NUM_RUNS_PER} deploy_experiments.sh {min_samples} {max_samples} {adaptive}"
diff --git a/exps/tamp_environment/deploy_tamp_experiments_kuka.py b/exps/tamp_environment/deploy_tamp_experiments_kuka.py
index 9179b55..10b3ebb 100644
--- a/exps/tamp_environment/deploy_tamp_experiments_kuka.py
+++ b/exps/tamp_environment/deploy_tamp_experiments_kuka.py
@@ -27,7 +27,7 @@ def count_lines_of_command_output():
     
     except subprocess.CalledProcessError as e:
         print(f"Error executing command: {e}")
-        return 0
+        return MAX_TOTAL  # unknown, so wait: an empty queue would be overfilled
     
 def deploy_with_args(min_samples, max_samples, adaptive, debug=False):
     command_str = f"sbatch --array=1-1 deploy_experiments_kuka.sh {min_samples} {max_samples} {adaptive}"
-- 
2.43.0


From e76025ec214b23518ab43f13256f06ad91ee8724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:10 +0000
Subject: [PATCH 46/49] fix: a configuration record without given values holds
 the robot's current ones

---
 exps/tamp_environment/turtlebot_move/problems.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exps/tamp_environment/turtlebot_move/problems.py b/exps/tamp_environment/turtlebot_move/problems.py
index 007de12..2f2cb5c 100644
--- a/exps/tamp_environment/turtlebot_move/problems.py
+++ b/exps/tamp_environment/turtlebot_move/problems.py
@@ -30,7 +30,7 @@ class Conf:
     
     def __post_init__(self):
         if(self.values is None):
-            get_joint_positions(self.body, self.joints)
+            self.values = get_joint_positions(self.body, self.joints)
 
     @property
     def bodies(self):  # TODO: misnomer
-- 
2.43.0


From 511cb74efbca17c3715874049fd21f91600f9934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:02 +0000
Subject: [PATCH 47/49] fix: result plots read the logs the planner writes

---
 exps/tamp_environment/turtlebot_move/bound_plot.py  |  6 +++---
 .../turtlebot_move/time_success_plot.py             | 13 ++++++-------
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/exps/tamp_environment/turtlebot_move/bound_plot.py b/exps/tamp_environment/turtlebot_move/bound_plot.py
index 63fb471..7c2a48c 100644
--- a/exps/tamp_environment/turtlebot_move/bound_plot.py
+++ b/exps/tamp_environment/turtlebot_move/bound_plot.py
@@ -1,4 +1,4 @@
-from nonasymptotic.util import compute_numerical_bound
+from nonasymptotic.bound import compute_numerical_bound
 import numpy as np
 import matplotlib.pyplot as plt
 import os
@@ -21,8 +21,8 @@ for root, dirs, files in os.walk(parent_directory):
             with open(file_path, 'r') as f:
                 lines = f.readlines()
                 for i, line in enumerate(lines):
-                    if "Delta:" in line and i+1 < len(lines):
-                        numbers[file] = float(lines[i+1].strip())
+                    if line.startswith("Delta:"):
+                        numbers[file] = float(line.strip().replace("Delta: ", ""))
 
                     if "Found solution in" in line and i+1 < len(lines):
                         samples[file] = float(lines[i+1].strip())
diff --git a/exps/tamp_environment/turtlebot_move/time_success_plot.py b/exps/tamp_environment/turtlebot_move/time_success_plot.py
index 949af72..ab6e242 100644
--- a/exps/tamp_environment/turtlebot_move/time_success_plot.py
+++ b/exps/tamp_environment/turtlebot_move/time_success_plot.py
@@ -2,6 +2,7 @@ import numpy as np
 import matplotlib.pyplot as plt
 import os
 import re
+import ast
 from collections import defaultdict
 
 # Set the path to the directory containing the subfolders
@@ -25,13 +26,11 @@ for root, dirs, files in os.walk(parent_directory):
             with open(file_path, 'r') as f:
                 lines = f.readlines()
                 for i, line in enumerate(lines):
-                    if("Namespace" in line):
-                        match = re.search(r"adaptive_n=([^ ,]+),", line)
-                        adaptive_n[file] = int(bool(match.group(1)=="True"))
-                        match = re.search(r"min_samples=([^ ,]+),", line)
-                        min_samples[file] = int(match.group(1))
-                        match = re.search(r"max_samples=([^ ,]+),", line)
-                        max_samples[file] = int(match.group(1))
+                    if("Experiment arguments:" in line and i+1 < len(lines)):
+                        args = ast.literal_eval(lines[i+1].strip())  # the options of the run, logged as a dictionary
+                        adaptive_n[file] = int(args["adaptive_n"])
+                        min_samples[file] = args["min_samples"]
+                        max_samples[file] = args["max_samples"]
                     if line.startswith("Solved:"):
                         successes[file] = int(("True" in lines[i].strip()))
                     if(line.startswith("Time:")):
-- 
2.43.0


From f570ca2f00e2a36b8b10ecb3a3db65941c7d444b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:08 +0000
Subject: [PATCH 48/49] fix: scatter notebooks skip runs that were cut off
 before logging their options

---
 exps/tamp_environment/kuka_carry/time_success_scatter.ipynb     | 2 ++
 .../kuka_carry/time_success_scatter_adaptive.ipynb              | 2 ++
 exps/tamp_environment/turtlebot_move/time_success_scatter.ipynb | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/exps/tamp_environment/kuka_carry/time_success_scatter.ipynb b/exps/tamp_environment/kuka_carry/time_success_scatter.ipynb
index d0fa422..c9cc28f 100644
--- a/exps/tamp_environment/kuka_carry/time_success_scatter.ipynb
+++ b/exps/tamp_environment/kuka_carry/time_success_scatter.ipynb
@@ -96,6 +96,8 @@
     "            file_path = os.path.join(root, file)\n",
     "            with open(file_path, 'r') as f:\n",
     "                lines = f.readlines()\n",
+    "                if len(lines) < 2:\n",
+    "                    continue  # the run was cut off before it logged its options\n",
     "                args[file] = ast.literal_eval(lines[1])\n",
     "                # print(float(file_path.split(\"--\")[1].split(\"/\")[0].replace(\"-\", \".\")))\n",
     "                time = float(file_path.split(\"--\")[1].split(\"/\")[0].replace(\"-\", \".\"))\n",
diff --git a/exps/tamp_environment/kuka_carry/time_success_scatter_adaptive.ipynb b/exps/tamp_environment/kuka_carry/time_success_scatter_adaptive.ipynb
index 39e1df4..84fc9ba 100644
--- a/exps/tamp_environment/kuka_carry/time_success_scatter_adaptive.ipynb
+++ b/exps/tamp_environment/kuka_carry/time_success_scatter_adaptive.ipynb
@@ -200,6 +200,8 @@
     "            file_path = os.path.join(root, file)\n",
     "            with open(file_path, 'r') as f:\n",
     "                lines = f.readlines()\n",
+    "                if len(lines) < 2:\n",
+    "                    continue  # the run was cut off before it logged its options\n",
     "                args[file] = ast.literal_eval(lines[1])\n",
     "                # print(float(file_path.split(\"--\")[1].split(\"/\")[0].replace(\"-\", \".\")))\n",
     "                time = float(file_path.split(\"--\")[1].split(\"/\")[0].replace(\"-\", \".\"))\n",
diff --git a/exps/tamp_environment/turtlebot_move/time_success_scatter.ipynb b/exps/tamp_environment/turtlebot_move/time_success_scatter.ipynb
index 9b133df..5094446 100644
--- a/exps/tamp_environment/turtlebot_move/time_success_scatter.ipynb
+++ b/exps/tamp_environment/turtlebot_move/time_success_scatter.ipynb
@@ -45,6 +45,8 @@
     "            file_path = os.path.join(root, file)\n",
     "            with open(file_path, 'r') as f:\n",
     "                lines = f.readlines()\n",
+    "                if len(lines) < 2:\n",
+    "                    continue  # the run was cut off before it logged its options\n",
     "                args[file] = ast.literal_eval(lines[1])\n",
     "                # print(float(file_path.split(\"--\")[1].split(\"/\")[0].replace(\"-\", \".\")))\n",
     "                time = float(file_path.split(\"--\")[1].split(\"/\")[0].replace(\"-\", \".\"))\n",
-- 
2.43.0


From 802453c61f756f8513e2caaa78aa40cb56b30186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:05 +0000
Subject: [PATCH 49/49] fix: the clutter world hands its obstacles to the
 planner

---
 exps/tamp_environment/turtlebot_move/problems.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/exps/tamp_environment/turtlebot_move/problems.py b/exps/tamp_environment/turtlebot_move/problems.py
index 2f2cb5c..a721ea1 100644
--- a/exps/tamp_environment/turtlebot_move/problems.py
+++ b/exps/tamp_environment/turtlebot_move/problems.py
@@ -480,4 +480,5 @@ def random_obstacles(n_obstacles=50, robot_scale=1):
 
     sample_placements(initial_surfaces, obstacles=[rover, rover2])
     remove_body(rover2)
-    return RoversProblem(rover, limits=base_limits, init_conf=init_conf, goal_conf=goal_conf)
+    obstacles = [wall1, wall2, wall3, wall4] + list(initial_surfaces)
+    return RoversProblem(rover, limits=base_limits, init_conf=init_conf, goal_conf=goal_conf, obstacles=obstacles)
-- 
2.43.0

