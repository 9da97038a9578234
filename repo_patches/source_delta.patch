From bc37a16b8f02f7411002f81eb1b52ee3f03ad65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:06 +0000
Subject: [PATCH 01/40] fix: check each wall opening against the next cube on
 the path in GrayCodeWalls motion checks

---
 nonasymptotic/envs.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nonasymptotic/envs.py b/nonasymptotic/envs.py
index ae0cf4e..2885f0f 100644
--- a/nonasymptotic/envs.py
+++ b/nonasymptotic/envs.py
@@ -673,7 +673,7 @@ class GrayCodeWalls(Environment):
 
             # compute shared opening on path:
             start_cube_center = start_cube + np.ones(self.dim) * 0.5
-            next_cube_center = goal_cube + np.ones(self.dim) * 0.5
+            next_cube_center = next_cube + np.ones(self.dim) * 0.5
             between_cubes_point = (start_cube_center + next_cube_center) / 2
 
             # solve for point at cube opening.
@@ -695,7 +695,9 @@ class GrayCodeWalls(Environment):
             start_cube = next_cube  # this needs to be done so we don't get trapped in the same cube
 
         # if start and goal are in the same cube, then return true because cubes are convex
-        return self.distance_to_wall(start) >= 0.0 and self.distance_to_wall(goal) >= 0.0
+        # (an opening point lies on the cube's face, so we say which cube we mean instead of rounding)
+        return (self._distance_to_wall_in_cube(start_cube, start) >= 0.0
+                and self._distance_to_wall_in_cube(goal_cube, goal) >= 0.0)
 
     def is_prm_epsilon_delta_complete(self, prm, tol):
         raise NotImplementedError('Not done yet!')
-- 
2.43.0


From f577c8d5e3871933923e6d79746425785b784c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:06 +0000
Subject: [PATCH 02/40] fix: follow the real entrance on the last leg of the
 GrayCodeWalls solution curve

---
 nonasymptotic/envs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nonasymptotic/envs.py b/nonasymptotic/envs.py
index 2885f0f..572da37 100644
--- a/nonasymptotic/envs.py
+++ b/nonasymptotic/envs.py
@@ -622,7 +622,9 @@ class GrayCodeWalls(Environment):
             cube_coords = np.array(self.no_walls_linear_list[-1])
             t_backup = 0.5 - (t - (t_leg - 1) * 0.5)
             t_point = cube_coords + np.ones(self.dim) * 0.5
-            t_point[-1] += t_backup
+            pred_cube = self.no_walls_graph.predecessors(tuple(cube_coords)).__next__()
+            dir_to_entrance = np.array(pred_cube) - cube_coords
+            t_point += t_backup * dir_to_entrance
 
         else:
             cube = self.no_walls_linear_list[int(t_leg / 2)]
-- 
2.43.0


From eef73475757f65b15ac6d23ef7772533b216a167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:44 +0000
Subject: [PATCH 03/40] fix: NarrowPassage curve points and path distances have
 the environment's dimension and extent

---
 nonasymptotic/envs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nonasymptotic/envs.py b/nonasymptotic/envs.py
index 572da37..e18b2bb 100644
--- a/nonasymptotic/envs.py
+++ b/nonasymptotic/envs.py
@@ -402,7 +402,7 @@ class NarrowPassage(Environment):
         ]
 
         self.dim = dim
-        self.line_dir = np.array([1.0] + [0.0] * self.dim)
+        self.line_dir = np.array([1.0] + [0.0] * (self.dim - 1))
 
         # (see is motion valid for definition of lines)
         self.coll_lines = [
@@ -423,7 +423,7 @@ class NarrowPassage(Environment):
 
     def arclength_to_curve_point(self, t_normed):
         t = np.clip(t_normed, 0.0, 1.0)
-        point_on_curve = np.array([-0.5] + [0.0] * self.dim)
+        point_on_curve = np.array([-0.5] + [0.0] * (self.dim - 1))
         point_on_curve[0] += t
         return point_on_curve
 
@@ -459,7 +459,7 @@ class NarrowPassage(Environment):
         raise NotImplementedError
 
     def distance_to_path(self, points):
-        proj_points_clipped = np.clip(points[:, 0], 0.0, 1.0).reshape(-1, 1)
+        proj_points_clipped = np.clip(points[:, 0], -0.5, 0.5).reshape(-1, 1)
         return np.linalg.norm(points - proj_points_clipped * self.line_dir, axis=1)
 
     @property
-- 
2.43.0


From f6c43584f39eb7704720cdb4bafca49d9b97dd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:44 +0000
Subject: [PATCH 04/40] fix: net radius inversion keeps the factor two of the
 Sauer-Shelah bound

---
 nonasymptotic/bound.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonasymptotic/bound.py b/nonasymptotic/bound.py
index 101c9f0..19b208b 100644
--- a/nonasymptotic/bound.py
+++ b/nonasymptotic/bound.py
@@ -72,7 +72,7 @@ def compute_net_radius_from_prob(dim, n_samples, failure_prob, vol_env, ad_hoc_m
 
     return (
             (2 / n_samples / measure_unit_sphere)
-            * (math.log2(ss_comb_sum) - math.log2(failure_prob))
+            * (math.log2(ss_comb_sum) + 1 - math.log2(failure_prob))
     ) ** (1 / dim)
 
 
-- 
2.43.0


From 48ee62e74892a72311be67282c1edec7bb4fc698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:44 +0000
Subject: [PATCH 05/40] fix: mean variant of the Hoeffding bound multiplies by
 the squared mean

---
 nonasymptotic/bound.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonasymptotic/bound.py b/nonasymptotic/bound.py
index 19b208b..bbf412b 100644
--- a/nonasymptotic/bound.py
+++ b/nonasymptotic/bound.py
@@ -212,7 +212,7 @@ def compute_tail_knn_radius_log_prob_hoeffding_mean_variant(m_samples, k_neighbo
     # all points will land in it and mess everything up)
     # but preserving some monotonicity properties of the prob bound
     tail_val = np.maximum(tail_val, 0.0)
-    log_p_fail = np.log(m_samples) - 2 * (m_samples - 1) * tail_val ** 2 / (p_r_ball ** 2)
+    log_p_fail = np.log(m_samples) - 2 * (m_samples - 1) * tail_val ** 2 * (p_r_ball ** 2)
     return log_p_fail
 
 
-- 
2.43.0


From 6df15299d6ac2139804ba648376019170058d37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:44 +0000
Subject: [PATCH 06/40] fix: effective connection radius uses the unit ball's
 measure unclipped

---
 nonasymptotic/bound.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonasymptotic/bound.py b/nonasymptotic/bound.py
index bbf412b..93c8865 100644
--- a/nonasymptotic/bound.py
+++ b/nonasymptotic/bound.py
@@ -293,7 +293,7 @@ def compute_eff_conn_rad_bound(m_samples, k_neighbors, dim, vol_env, failure_pro
     """
     Computes the expression provided in Corollary 1.
     """
-    measure_unit_sphere = np.minimum(compute_vol_unit_sphere(dim) / vol_env, 1.0)
+    measure_unit_sphere = compute_vol_unit_sphere(dim) / vol_env
     numer = k_neighbors - np.sqrt(2 * k_neighbors * (np.log(m_samples) - np.log(failure_prob)))
     denom = (m_samples - 1) * measure_unit_sphere
     return math.pow(numer / denom, 1 / dim)
-- 
2.43.0


From 537852ce532ecc15df9d0a4784eaf8e768075b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:19 +0000
Subject: [PATCH 07/40] fix: list edges before removing them when truncating a
 KNN PRM to a radius

---
 nonasymptotic/prm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nonasymptotic/prm.py b/nonasymptotic/prm.py
index 9a6bc40..2376959 100644
--- a/nonasymptotic/prm.py
+++ b/nonasymptotic/prm.py
@@ -459,7 +459,8 @@ class SimpleNearestNeighborRadiusPRM(SimplePRM):
             self._g_prm = nk.readGraph(self.tmp_graph_cache_path, nk.Format.NetworkitBinary)
 
         # then iterate over and remove the edges that are too large
-        for u, v, w in self._g_prm.iterEdgesWeights():
+        # (listed up front, since removing an edge disturbs the iteration)
+        for u, v, w in list(self._g_prm.iterEdgesWeights()):
             if w >= new_conn_r:
                 self._g_prm.removeEdge(u, v)
 
-- 
2.43.0


From 39f52d84504bc912c5b2752571dbb468825767ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:47 +0000
Subject: [PATCH 08/40] fix: lowering k keeps the edges that one endpoint still
 lists as a nearest neighbor

---
 nonasymptotic/prm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nonasymptotic/prm.py b/nonasymptotic/prm.py
index 2376959..3ded518 100644
--- a/nonasymptotic/prm.py
+++ b/nonasymptotic/prm.py
@@ -433,10 +433,12 @@ class SimpleNearestNeighborRadiusPRM(SimplePRM):
             self._g_prm = nk.readGraph(self.tmp_graph_cache_path, nk.Format.NetworkitBinary)
 
         # next, throw away edges we don't need.
+        # (an edge stays if either of its ends still counts the other as a nearest neighbor)
+        keep_edge_list = self.master_edges[:, :new_k_nearest_neighbors]
         throw_away_edge_list = self.master_edges[:, new_k_nearest_neighbors:]
         for u, vs in enumerate(throw_away_edge_list):
             for v in vs:
-                if self._g_prm.hasEdge(u, v):
+                if self._g_prm.hasEdge(u, v) and u not in keep_edge_list[v]:
                     self._g_prm.removeEdge(u, v)
 
         self.k_neighbors = new_k_nearest_neighbors
-- 
2.43.0


From c9b6b5d8643712fcae1a39ef94a43e35484f7afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:47 +0000
Subject: [PATCH 09/40] fix: lowering k in experiment mode works when no
 connection radius is set

---
 nonasymptotic/prm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nonasymptotic/prm.py b/nonasymptotic/prm.py
index 3ded518..a114d5e 100644
--- a/nonasymptotic/prm.py
+++ b/nonasymptotic/prm.py
@@ -447,7 +447,8 @@ class SimpleNearestNeighborRadiusPRM(SimplePRM):
             # recompute shortest paths over new graph and store their distances
             n_samples = self._samples.shape[0]
             dist_samples_to_line = self.dist_points_to_path(self._samples)
-            samples_within_conn_r = np.arange(n_samples)[dist_samples_to_line <= self.conn_r]
+            conn_r = self.conn_r if self.conn_r is not None else self.certified_max_conn_r
+            samples_within_conn_r = np.arange(n_samples)[dist_samples_to_line <= conn_r]
             self.g_sp_lookup, self.sample_to_lookup_ind = self._compute_spsp(samples_within_conn_r)
 
     def set_connection_radius(self, new_conn_r):
-- 
2.43.0


From 2e6aa0e06dfd8a2fad0337d990a8850afd8071d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:22 +0000
Subject: [PATCH 10/40] fix: the first radius PRM roadmap keeps to the
 connection radius

---
 nonasymptotic/prm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nonasymptotic/prm.py b/nonasymptotic/prm.py
index a114d5e..8f66076 100644
--- a/nonasymptotic/prm.py
+++ b/nonasymptotic/prm.py
@@ -566,7 +566,8 @@ class SimpleRadiusPRM(SimplePRM):
 
             # apply a doubling scheme for connection neighbors to obtain the threshold graph
             adj_arr, dists_arr, self.ann = _build_threshold_index(self._samples)
-            self._g_prm = self._nn_edge_list_and_dist_list_to_nk_prm_graph(adj_arr, dists_arr)
+            self._g_prm = self._nn_edge_list_and_dist_list_to_nk_prm_graph(adj_arr, dists_arr,
+                                                                           threshold_rad=self.conn_r)
 
         else:  # otherwise, we (try to) reuse past computation
             past_n_samples = self._samples.shape[0]
-- 
2.43.0


From 801f2f2c2d3e54a958fbc03369b8d6a309807333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:22 +0000
Subject: [PATCH 11/40] fix: growing a radius PRM doubles k until the
 connection radius is covered

---
 nonasymptotic/prm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonasymptotic/prm.py b/nonasymptotic/prm.py
index 8f66076..97084c4 100644
--- a/nonasymptotic/prm.py
+++ b/nonasymptotic/prm.py
@@ -591,7 +591,7 @@ class SimpleRadiusPRM(SimplePRM):
 
             else:
                 self.k_neighbors *= 2  # a bit hacky, but a way to make sure we don't recompute the graph at the same K
-                adj_arr, dists_arr = self.ann.new_graph_from_data(self.prm_samples, self.k_neighbors)
+                adj_arr, dists_arr, self.ann = _build_threshold_index(self._samples)
                 self._g_prm = self._nn_edge_list_and_dist_list_to_nk_prm_graph(adj_arr, dists_arr,
                                                                                threshold_rad=self.conn_r)
 
-- 
2.43.0


From a4202aaf9d7ecb5a36e4e6c0ed4effe4dd00b640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:22 +0000
Subject: [PATCH 12/40] fix: growing a radius PRM after queries keeps node ids
 aligned with samples

---
 nonasymptotic/prm.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nonasymptotic/prm.py b/nonasymptotic/prm.py
index 97084c4..79cc63b 100644
--- a/nonasymptotic/prm.py
+++ b/nonasymptotic/prm.py
@@ -583,11 +583,14 @@ class SimpleRadiusPRM(SimplePRM):
             # check to make sure we are still within threshold. if not, we need to build a new graph with
             # new neighbors
             if np.all(dists_arr[:, -1] > self.conn_r) or self.k_neighbors >= self.max_k_neighbors:
-                self.prm_graph.addNodes(m_new_samples)
                 g_new_conns = self._nn_edge_list_and_dist_list_to_nk_prm_graph(adj_arr, dists_arr,
                                                                                include_starting=past_n_samples,
                                                                                threshold_rad=self.conn_r)
-                self.GT.merge(self._g_prm, g_new_conns)
+                # add the old edges to the new graph (past queries leave removed nodes behind in the old one,
+                # and networkit does not reuse their ids for the new samples)
+                for u, v, w in self._g_prm.iterEdgesWeights():
+                    g_new_conns.addEdge(u, v, w=w, checkMultiEdge=True)
+                self._g_prm = g_new_conns
 
             else:
                 self.k_neighbors *= 2  # a bit hacky, but a way to make sure we don't recompute the graph at the same K
-- 
2.43.0


From bca1deb136e8f7ad7ecc7003de866e76e713922b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:26 +0000
Subject: [PATCH 13/40] fix: collinear and degenerate segments only intersect
 where they overlap

---
 exps/run_narrow_passage_clearance_trial.py |  1 +
 nonasymptotic/util.py                      | 12 ++++++++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/exps/run_narrow_passage_clearance_trial.py b/exps/run_narrow_passage_clearance_trial.py
index f0578ec..0fd138b 100644
--- a/exps/run_narrow_passage_clearance_trial.py
+++ b/exps/run_narrow_passage_clearance_trial.py
@@ -60,6 +60,7 @@ def narrow_passage_clearance(delta_clear, dim, rng_seed,
             prm.conn_r = prm.max_conn_r  # reset the conn setting from whatever it was from bin search
             nn_rads = prm.grow_to_n_samples(n_samples)  # nn_rads is ordered ascending
             nn_rads = np.unique(nn_rads)
+            nn_rads = nn_rads[nn_rads > 0]  # a sample's connection to itself is not a connection
             i_conn_lb = 0
             i_conn_ub = nn_rads.size - 1  # we're sticking to integers so we can maximize code sharing
 
diff --git a/nonasymptotic/util.py b/nonasymptotic/util.py
index 5aefcd2..a15f390 100644
--- a/nonasymptotic/util.py
+++ b/nonasymptotic/util.py
@@ -37,7 +37,15 @@ def detect_intersect(s1e1, s1e2, s2e1, s2e2):
     # then do some vectorized casework (we're really going to rely on some numpy ufunc stuff)
 
     # first, check for collinearity (avoid some bad numerical cases we'd miss)
-    is_collinear = np.equal(cross_dir, 0.0) & np.equal(intersect_coeff_unnormed2, 0.0)
+    is_collinear = (np.equal(cross_dir, 0.0)
+                    & np.equal(intersect_coeff_unnormed1, 0.0)
+                    & np.equal(intersect_coeff_unnormed2, 0.0))
+
+    # collinear segments (and segments that are just points) only meet where they overlap
+    is_overlapping = np.all(
+        (np.minimum(s1e1, s1e2) <= np.maximum(s2e1, s2e2)) &
+        (np.minimum(s2e1, s2e2) <= np.maximum(s1e1, s1e2)), axis=1
+    )
 
     # next, check parallel  (avoid some bad numerics)
     # not actually necessary because of nice numpy numerics handling
@@ -51,4 +59,4 @@ def detect_intersect(s1e1, s1e2, s2e1, s2e2):
             (0 <= intersect_coeff2) & (intersect_coeff2 <= 1)
     )
 
-    return np.logical_or(is_cleanly_intersecting, is_collinear)
+    return np.logical_or(is_cleanly_intersecting, is_collinear & is_overlapping)
-- 
2.43.0


From caf2bb2ee8cadc67038e8b68ab2d4fec6a00e21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:01 +0000
Subject: [PATCH 14/40] fix: the record of a roadmap without connections has
 every column

---
 exps/run_narrow_passage_clearance_trial.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/exps/run_narrow_passage_clearance_trial.py b/exps/run_narrow_passage_clearance_trial.py
index 0fd138b..021d617 100644
--- a/exps/run_narrow_passage_clearance_trial.py
+++ b/exps/run_narrow_passage_clearance_trial.py
@@ -75,6 +75,8 @@ def narrow_passage_clearance(delta_clear, dim, rng_seed,
                  n_samples,
                  np.nan,
                  np.nan,
+                 np.nan,
+                 np.nan,
                  build_runtime,
                  0,
                  'no connections made',
-- 
2.43.0


From 7628942d1ea3432ec6aac0c342e7984f3e6ad033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:01 +0000
Subject: [PATCH 15/40] fix: the straight line experiment imports the package
 like the other experiments

---
 exps/run_straight_line_optimality_trial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/exps/run_straight_line_optimality_trial.py b/exps/run_straight_line_optimality_trial.py
index 3d3442c..5a08f7c 100644
--- a/exps/run_straight_line_optimality_trial.py
+++ b/exps/run_straight_line_optimality_trial.py
@@ -36,8 +36,8 @@ import json
 import sys
 import os
 
-from envs import StraightLine
-from prm import SimpleNearestNeighborRadiusPRM
+from nonasymptotic.envs import StraightLine
+from nonasymptotic.prm import SimpleNearestNeighborRadiusPRM
 
 
 def straight_line_trial(delta_clear, dim, rng_seed,
-- 
2.43.0


From 31b4694f230ad3fc7d7de352d98ec252759c36e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:01 +0000
Subject: [PATCH 16/40] fix: the knn trial seeds its environment and only
 records radii it computed

---
 exps/run_knn_radius_trial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/exps/run_knn_radius_trial.py b/exps/run_knn_radius_trial.py
index c2c712d..4962115 100644
--- a/exps/run_knn_radius_trial.py
+++ b/exps/run_knn_radius_trial.py
@@ -13,7 +13,7 @@ from nonasymptotic.ann import get_ann
 
 
 def knn_radius_trial(delta_clear, dim, sample_schedule, neighbor_schedule, rng_seed):
-    env = StraightLine(dim, delta_clear, rng_seed)
+    env = StraightLine(dim, delta_clear, seed=rng_seed)
     knn_builder = get_ann("kgraph")
     record = []
 
@@ -31,7 +31,7 @@ def knn_radius_trial(delta_clear, dim, sample_schedule, neighbor_schedule, rng_s
         build_time = graph_build_et - graph_build_st
 
         for nn in neighbor_schedule:
-            if nn > s:
+            if nn >= s:
                 break
             effective_rad = np.min(dist_list[:, nn - 1])
             record.append(
-- 
2.43.0


From 28da748c5565b53b38bea52c70ab0002776e0df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:01 +0000
Subject: [PATCH 17/40] fix: bound_plot imports the numerical bound from where
 it is defined

---
 exps/tamp_environment/turtlebot_move/bound_plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exps/tamp_environment/turtlebot_move/bound_plot.py b/exps/tamp_environment/turtlebot_move/bound_plot.py
index 63fb471..a44be54 100644
--- a/exps/tamp_environment/turtlebot_move/bound_plot.py
+++ b/exps/tamp_environment/turtlebot_move/bound_plot.py
@@ -1,4 +1,4 @@
-from nonasymptotic.util import compute_numerical_bound
+from nonasymptotic.bound import compute_numerical_bound
 import numpy as np
 import matplotlib.pyplot as plt
 import os
-- 
2.43.0


From ab23acb67dae754e2e09c0f9b439150682c72211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:23 +0000
Subject: [PATCH 18/40] fix: a resumed experiment continues with the tasks and
 seeds that are left

---
 exps/run_knn_radius_trial.py               | 15 ++++++++++-----
 exps/run_narrow_passage_clearance_trial.py | 13 ++++++++-----
 exps/run_straight_line_optimality_trial.py | 15 ++++++++++-----
 3 files changed, 28 insertions(+), 15 deletions(-)

diff --git a/exps/run_knn_radius_trial.py b/exps/run_knn_radius_trial.py
index 4962115..cd43b87 100644
--- a/exps/run_knn_radius_trial.py
+++ b/exps/run_knn_radius_trial.py
@@ -68,23 +68,26 @@ exp_combos = list(product(
 # assign tasks to this process
 tasks = exp_combos[task_id:len(exp_combos):num_tasks]
 
-# trying to obtain reproducible randomness
+# trying to obtain reproducible randomness (each task keeps its seed, also when we resume)
 rng = np.random.default_rng(seed=task_id)
+task_seeds = [rng.integers(0, 2 ** 32) for _ in tasks]
 
 # run the experiments! check to see if an out file already exists and the experiment is resuming.
 df_save_path = os.path.join(exp_save_path, 'out%i.csv' % task_id)
 if os.path.exists(df_save_path):
     all_tasks_record_df = pd.read_csv(df_save_path, index_col=0)
-    tasks = tasks[all_tasks_record_df.shape[0]:]  # skip ahead if we have completed entries
+    # a task can have many entries, but they all share its seed.
+    n_done = all_tasks_record_df['seed'].unique().shape[0]
+    tasks, task_seeds = tasks[n_done:], task_seeds[n_done:]  # skip ahead if we have completed entries
 else:
     all_tasks_record_df = None
 
-for _dim, _trial in tasks:
+for (_dim, _trial), _seed in zip(tasks, task_seeds):
     print('initiating knn trial dim: %f, trial%f' % (_dim, _trial))
     trial_record_df = knn_radius_trial(
         delta_clear=config['delta'],
         dim=_dim,
-        rng_seed=rng.integers(0, 2 ** 32),
+        rng_seed=_seed,
         sample_schedule=config['sample_schedule'],
         neighbor_schedule=config['neighbor_schedule'],
     )
@@ -97,4 +100,6 @@ for _dim, _trial in tasks:
         all_tasks_record_df = pd.concat([all_tasks_record_df, trial_record_df])
 
     # we output intermediate results just to see progress.
-    all_tasks_record_df.to_csv(df_save_path)
+    # (replaced in one step, so that stopping in the middle of writing keeps what is already there)
+    all_tasks_record_df.to_csv(df_save_path + '.tmp')
+    os.replace(df_save_path + '.tmp', df_save_path)
diff --git a/exps/run_narrow_passage_clearance_trial.py b/exps/run_narrow_passage_clearance_trial.py
index 021d617..2e553a6 100644
--- a/exps/run_narrow_passage_clearance_trial.py
+++ b/exps/run_narrow_passage_clearance_trial.py
@@ -253,8 +253,9 @@ if __name__ == '__main__':
     # assign tasks to this process
     tasks = exp_combos[task_id:len(exp_combos):num_tasks]
 
-    # trying to obtain reproducible randomness
+    # trying to obtain reproducible randomness (each task keeps its seed, also when we resume)
     rng = np.random.default_rng(seed=task_id)
+    task_seeds = [rng.integers(0, 2 ** 32) for _ in tasks]
 
     # run the experiments! check to see if an out file already exists and the experiment is resuming.
     df_save_path = os.path.join(exp_save_path, 'out%i.csv' % task_id)
@@ -264,18 +265,18 @@ if __name__ == '__main__':
         # there is one seed per 'master' task, so we can count unique seeds to
         # see by how many we need to skip ahead.
         n_seeds = all_tasks_record_df['seed'].unique().shape[0]
-        tasks = tasks[n_seeds:]  # skip ahead if we have completed entries
+        tasks, task_seeds = tasks[n_seeds:], task_seeds[n_seeds:]  # skip ahead if we have completed entries
     else:
         all_tasks_record_df = None
 
-    for _prm_type, _clearance, _dim, _trial in tasks:
+    for (_prm_type, _clearance, _dim, _trial), _seed in zip(tasks, task_seeds):
         print('initiating line trial dim: %f, trial%f' % (_dim, _trial))
         _sample_schedule = config['radius_sample_schedule'] if _prm_type == 'radius' else config['knn_sample_schedule']
         _max_conn = config['radius_prm_max_radius'] if _prm_type == 'radius' else config['knn_prm_max_neighbors']
         trial_record_df = narrow_passage_clearance(
             _clearance,
             _dim,
-            rng_seed=rng.integers(0, 2 ** 32),
+            rng_seed=_seed,
             sample_schedule=_sample_schedule,
             prm_type=_prm_type,
             max_connections=_max_conn,
@@ -289,4 +290,6 @@ if __name__ == '__main__':
             all_tasks_record_df = pd.concat([all_tasks_record_df, trial_record_df])
 
         # we output intermediate results just to see progress.
-        all_tasks_record_df.to_csv(df_save_path)
+        # (replaced in one step, so that stopping in the middle of writing keeps what is already there)
+        all_tasks_record_df.to_csv(df_save_path + '.tmp')
+        os.replace(df_save_path + '.tmp', df_save_path)
diff --git a/exps/run_straight_line_optimality_trial.py b/exps/run_straight_line_optimality_trial.py
index 5a08f7c..e845061 100644
--- a/exps/run_straight_line_optimality_trial.py
+++ b/exps/run_straight_line_optimality_trial.py
@@ -165,22 +165,25 @@ exp_combos = list(product(
 # assign tasks to this process
 tasks = exp_combos[task_id:len(exp_combos):num_tasks]
 
-# trying to obtain reproducible randomness
+# trying to obtain reproducible randomness (each task keeps its seed, also when we resume)
 rng = np.random.default_rng(seed=task_id)
+task_seeds = [rng.integers(0, 2 ** 32) for _ in tasks]
 
 # run the experiments! check to see if an out file already exists and the experiment is resuming.
 df_save_path = os.path.join(exp_save_path, 'out%i.csv' % task_id)
 if os.path.exists(df_save_path):
     all_tasks_record_df = pd.read_csv(df_save_path, index_col=0)
-    tasks = tasks[all_tasks_record_df.shape[0]:]  # skip ahead if we have completed entries
+    # a task can have many entries, but they all share its seed.
+    n_done = all_tasks_record_df['seed'].unique().shape[0]
+    tasks, task_seeds = tasks[n_done:], task_seeds[n_done:]  # skip ahead if we have completed entries
 else:
     all_tasks_record_df = None
 
-for _dim, _trial in tasks:
+for (_dim, _trial), _seed in zip(tasks, task_seeds):
     print('initiating line trial dim: %f, trial%f' % (_dim, _trial))
     trial_record_df = straight_line_trial(
         config['delta'], _dim,
-        rng_seed=rng.integers(0, 2 ** 32),
+        rng_seed=_seed,
         sample_schedule=config['sample_schedule'],
         n_samples_per_ed_check_round=config['n_samples_per_check_round'],
         ed_check_timeout=config['ed_check_timeout'],
@@ -196,4 +199,6 @@ for _dim, _trial in tasks:
         all_tasks_record_df = pd.concat([all_tasks_record_df, trial_record_df])
 
     # we output intermediate results just to see progress.
-    all_tasks_record_df.to_csv(df_save_path)
+    # (replaced in one step, so that stopping in the middle of writing keeps what is already there)
+    all_tasks_record_df.to_csv(df_save_path + '.tmp')
+    os.replace(df_save_path + '.tmp', df_save_path)
-- 
2.43.0


From fb312471eb4e0561419572de1b4d9d96bf787100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:23 +0000
Subject: [PATCH 19/40] fix: submitting stops without a config, and resuming
 only looks at experiments of exactly this name

---
 exps/submit_and_run_experiment_job.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/exps/submit_and_run_experiment_job.py b/exps/submit_and_run_experiment_job.py
index 4e3b488..91036b6 100644
--- a/exps/submit_and_run_experiment_job.py
+++ b/exps/submit_and_run_experiment_job.py
@@ -70,6 +70,8 @@ if __name__ == "__main__":
 
         except FileNotFoundError:
             print("Could not find the config file '%s'." % args.config_path)
+            os.rmdir(save_path)
+            sys.exit(1)
 
         # generate the submission script (and store in experiment directory)
         script_name = 'run_straight_line_trial.py' if args.type == 'line' else 'run_knn_radius_trial.py'
@@ -90,7 +92,8 @@ if __name__ == "__main__":
 
     else:  # for resuming, we just launch the corresponding script
         try:
-            dirs_with_exp_name = glob.glob('./results/%s*' % args.name)
+            # the name is followed by the date and time, and by nothing else (other names may start with this one)
+            dirs_with_exp_name = glob.glob('./results/%s_%s-%s' % (glob.escape(args.name), '[0-9]' * 8, '[0-9]' * 6))
             dirs_with_exp_name.sort(key=os.path.getmtime)
             latest_exp_path = dirs_with_exp_name[-1]
             submit_script_path = os.path.join(latest_exp_path, 'submit_job.sh')
-- 
2.43.0


From 340a7f9e755316948f96c15d8dbb63f7c1872c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:17 +0000
Subject: [PATCH 20/40] fix: a box's half extents scale its own axes

---
 exps/tamp_environment/kuka_carry/separating_axis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exps/tamp_environment/kuka_carry/separating_axis.py b/exps/tamp_environment/kuka_carry/separating_axis.py
index e1563d5..eeb9117 100644
--- a/exps/tamp_environment/kuka_carry/separating_axis.py
+++ b/exps/tamp_environment/kuka_carry/separating_axis.py
@@ -46,7 +46,7 @@ def compute_vertices_vectorized(centers, half_extents, orientations):
     signs = np.array([[-1, -1, -1], [-1, -1, 1], [-1, 1, -1], [-1, 1, 1],
                       [1, -1, -1], [1, -1, 1], [1, 1, -1], [1, 1, 1]])
     vertices = centers[:, np.newaxis, :] + np.sum(
-        half_extents[:, np.newaxis, :, np.newaxis] * signs[np.newaxis, :, np.newaxis, :] * orientations[:, np.newaxis, :, :],
+        half_extents[:, np.newaxis, np.newaxis, :] * signs[np.newaxis, :, np.newaxis, :] * orientations[:, np.newaxis, :, :],
         axis=-1
     )
     return vertices
-- 
2.43.0


From f0592dba93aac175bd58a2bacd7fbbcb03b36613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:10 +0000
Subject: [PATCH 21/40] fix: checking no motions at all returns no verdicts

---
 exps/tamp_environment/kuka_carry/run.py         | 2 ++
 exps/tamp_environment/turtlebot_move/streams.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/exps/tamp_environment/kuka_carry/run.py b/exps/tamp_environment/kuka_carry/run.py
index b16cee2..0cb60ac 100644
--- a/exps/tamp_environment/kuka_carry/run.py
+++ b/exps/tamp_environment/kuka_carry/run.py
@@ -76,6 +76,8 @@ class BagOfBoundingBoxes(Environment):
     
     def is_motion_valid(self, start, goal):
         valids = np.ones(start.shape[0]).astype(bool)
+        if start.shape[0] == 0:
+            return valids  # e.g. a query without any sample nearby
         obb_interps = []
         # print(start.shape[0])
         num_steps = int(np.max(np.linalg.norm(start-goal, axis=1))/0.03)
diff --git a/exps/tamp_environment/turtlebot_move/streams.py b/exps/tamp_environment/turtlebot_move/streams.py
index 790ae18..adb15e6 100644
--- a/exps/tamp_environment/turtlebot_move/streams.py
+++ b/exps/tamp_environment/turtlebot_move/streams.py
@@ -89,6 +89,8 @@ class BagOfBoundingBoxes(Environment):
     def is_motion_valid(self, start, goal):
 
         valids = np.ones(start.shape[0]).astype(bool)
+        if start.shape[0] == 0:
+            return valids  # e.g. a query without any sample nearby
         start_exp  = np.tile(np.expand_dims(start, axis=1), (1, self.robot_verts.shape[0], 1))
         goal_exp  = np.tile(np.expand_dims(goal, axis=1), (1, self.robot_verts.shape[0], 1))
         robot_start_verts = np.tile(np.expand_dims(self.robot_verts, axis=0), (start.shape[0], 1, 1)) + start_exp
-- 
2.43.0


From a077ae9854e5155aaf615d678c5c42a258786001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:10 +0000
Subject: [PATCH 22/40] fix: the full-connection PRM raises for graph distances
 it does not support

---
 nonasymptotic/prm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonasymptotic/prm.py b/nonasymptotic/prm.py
index 79cc63b..639b150 100644
--- a/nonasymptotic/prm.py
+++ b/nonasymptotic/prm.py
@@ -308,7 +308,7 @@ class SimpleFullConnRadiusPRM(SimplePRM):
         return ids_within_conn_r[valid_motions], dists_from_query[within_conn_r][valid_motions]
 
     def _distance_in_graph(self, starts, goals):
-        return NotImplementedError('Cannot compute graph distance efficiently with this version.')
+        raise NotImplementedError('Cannot compute graph distance efficiently with this version.')
 
     @property
     def prm_graph(self) -> nk.Graph:
-- 
2.43.0


From 9bbe615eed15d4d4652b2b5500fa4adb996dd456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:44 +0000
Subject: [PATCH 23/40] fix: bisect sample counts in integers, so that large
 bounds terminate

---
 nonasymptotic/bound.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonasymptotic/bound.py b/nonasymptotic/bound.py
index 93c8865..4c1cc55 100644
--- a/nonasymptotic/bound.py
+++ b/nonasymptotic/bound.py
@@ -118,7 +118,7 @@ def doubling_sample_search_over_log2_prob_bound(samples_to_log2_prob, success_pr
         elif m_samples_ub <= m_samples_lb:
             raise ArithmeticError('Something wrong happened.')
 
-        test_samples = int((m_samples_lb + m_samples_ub) / 2)
+        test_samples = (m_samples_lb + m_samples_ub) // 2
         # test if the tester is the sample count we're looking for
         cand_gamma = samples_to_log2_prob(test_samples)
         next_gamma = samples_to_log2_prob(test_samples + 1)
-- 
2.43.0


From 5e47c269aa82d4170fbaf5bbbf289ce0af7d434b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:27 +0000
Subject: [PATCH 24/40] fix: the kgraph wrapper removes its temporary text file
 after parsing it

---
 nonasymptotic/ann.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nonasymptotic/ann.py b/nonasymptotic/ann.py
index e93e176..ec99944 100644
--- a/nonasymptotic/ann.py
+++ b/nonasymptotic/ann.py
@@ -60,7 +60,9 @@ class KGraphANN(ApproximateNearestNeighbor):
         nn_index.save_text(self.save_txt_path)
 
         # parse the text file and return
-        lines = open(self.save_txt_path, 'r').readlines()
+        with open(self.save_txt_path, 'r') as f:
+            lines = f.readlines()
+        os.remove(self.save_txt_path)
 
         # line 0 has the number of nodes. so skip that.
         # line i corresponds to row i-1 in the input data.
-- 
2.43.0


From f4a1533d0ee9e60ca6bf78b1fd9ac5c5bae89019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:57 +0000
Subject: [PATCH 25/40] fix: a refused growth leaves the connection radius of a
 KNN PRM alone

---
 nonasymptotic/prm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonasymptotic/prm.py b/nonasymptotic/prm.py
index 639b150..8c411ca 100644
--- a/nonasymptotic/prm.py
+++ b/nonasymptotic/prm.py
@@ -363,8 +363,6 @@ class SimpleNearestNeighborRadiusPRM(SimplePRM):
 
     def grow_to_n_samples(self, n_samples):
 
-        self.conn_r = None  # clear the connection radius
-
         if self._samples is None:  # if new, initialize everything
             self._samples = np.zeros((n_samples, self.d))
 
@@ -386,6 +384,8 @@ class SimpleNearestNeighborRadiusPRM(SimplePRM):
 
             self._samples = np.concatenate([self._samples, new_samples])
 
+        self.conn_r = None  # clear the connection radius (only now that growing is not refused)
+
         # build the index
         # if we are growing the graph, it means that a previous check with a larger radius worked.
         # so know the PRM is complete for a larger radius, so we can lose NNs losslessly.
-- 
2.43.0


From 8cd57117c179d658b400cd0c703f46843c81b3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:32 +0000
Subject: [PATCH 26/40] fix: submitting with a malformed config stops and
 leaves no experiment behind

---
 exps/submit_and_run_experiment_job.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/exps/submit_and_run_experiment_job.py b/exps/submit_and_run_experiment_job.py
index 91036b6..eb86551 100644
--- a/exps/submit_and_run_experiment_job.py
+++ b/exps/submit_and_run_experiment_job.py
@@ -68,8 +68,8 @@ if __name__ == "__main__":
             with open(config_path, 'w') as handle:
                 json.dump(config, handle, indent=2)
 
-        except FileNotFoundError:
-            print("Could not find the config file '%s'." % args.config_path)
+        except (FileNotFoundError, json.JSONDecodeError):
+            print("Could not find or parse the config file '%s'." % args.config_path)
             os.rmdir(save_path)
             sys.exit(1)
 
-- 
2.43.0


From 84516a9c0cd59cdd59bfe577ee5e94a7a72235a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:54 +0000
Subject: [PATCH 27/40] fix: relaxing one setting of a KNN PRM keeps to the
 other one

---
 nonasymptotic/prm.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nonasymptotic/prm.py b/nonasymptotic/prm.py
index 8c411ca..c62743c 100644
--- a/nonasymptotic/prm.py
+++ b/nonasymptotic/prm.py
@@ -431,6 +431,10 @@ class SimpleNearestNeighborRadiusPRM(SimplePRM):
         # if we need to grow the graph, then reload the master graph.
         if new_k_nearest_neighbors > self.k_neighbors:
             self._g_prm = nk.readGraph(self.tmp_graph_cache_path, nk.Format.NetworkitBinary)
+            if self.conn_r is not None:  # the master graph also has the edges that are too large
+                for u, v, w in list(self._g_prm.iterEdgesWeights()):
+                    if w >= self.conn_r:
+                        self._g_prm.removeEdge(u, v)
 
         # next, throw away edges we don't need.
         # (an edge stays if either of its ends still counts the other as a nearest neighbor)
@@ -460,6 +464,7 @@ class SimpleNearestNeighborRadiusPRM(SimplePRM):
         # if we are growing the radius, we need to reload the master graph
         if self.conn_r is not None and new_conn_r > self.conn_r:
             self._g_prm = nk.readGraph(self.tmp_graph_cache_path, nk.Format.NetworkitBinary)
+            self.set_nearest_neighbors(self.k_neighbors)  # the master graph also has the neighbors beyond k
 
         # then iterate over and remove the edges that are too large
         # (listed up front, since removing an edge disturbs the iteration)
-- 
2.43.0


From 4d6fe778eee6e87fe891fd2256924abd5af186c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:59 +0000
Subject: [PATCH 28/40] fix: batched planar overlap test uses every edge of
 both polygons

---
 .../turtlebot_move/separating_axis.py             | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/exps/tamp_environment/turtlebot_move/separating_axis.py b/exps/tamp_environment/turtlebot_move/separating_axis.py
index 3352aa6..2e7731f 100644
--- a/exps/tamp_environment/turtlebot_move/separating_axis.py
+++ b/exps/tamp_environment/turtlebot_move/separating_axis.py
@@ -119,21 +119,16 @@ def vec_overlap(projection1, projection2):
     return (projection1[:, 0, :] <= projection2[:, 1, :]) & (projection2[:, 0, :] <= projection1[:, 1, :])
 
 def vec_separating_axis_theorem(polygons_a, polygons_b):
-    batch_size = polygons_a.shape[0]
     edges_a = vec_vertices_to_edges(polygons_a)
     edges_b = vec_vertices_to_edges(polygons_b)
     axes_a = vec_normalize(vec_orthogonal(edges_a))
     axes_b = vec_normalize(vec_orthogonal(edges_b))
-    results = np.ones(batch_size, dtype=bool)
 
-    for i in range(polygons_a.shape[1]):  
-        axis = np.concatenate([axes_a[:, [i], :], axes_b[:, [i], :]], axis=1)
-        projection_a = vec_project(polygons_a, axis)
-        projection_b = vec_project(polygons_b, axis)
-        overlapping = vec_overlap(projection_a, projection_b)
-        results &= overlapping.all(axis=1)
-
-    return results
+    # every edge of either polygon, the two may have different numbers of them
+    axes = np.concatenate([axes_a, axes_b], axis=1)
+    projection_a = vec_project(polygons_a, axes)
+    projection_b = vec_project(polygons_b, axes)
+    return vec_overlap(projection_a, projection_b).all(axis=1)
 
 def main():
     a_vertices = np.array([[0, 0], [70, 0], [0, 70]])
-- 
2.43.0


From a18c05b46d839b9e8d7d100285f929a41731ff08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:05 +0000
Subject: [PATCH 29/40] fix: motion generators draw at least one new sample per
 growth step

---
 exps/tamp_environment/kuka_carry/run.py         | 2 +-
 exps/tamp_environment/turtlebot_move/streams.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/exps/tamp_environment/kuka_carry/run.py b/exps/tamp_environment/kuka_carry/run.py
index 0cb60ac..4e4cfcb 100644
--- a/exps/tamp_environment/kuka_carry/run.py
+++ b/exps/tamp_environment/kuka_carry/run.py
@@ -195,7 +195,7 @@ def get_insert_motion_gen(robot,
 
             if(len(path)>0):
                 break
-            num_samples = num_samples*factor
+            num_samples = max(num_samples*factor, int(num_samples)+1)  # at least one new sample
         
         
         print("Path: "+str(path))
diff --git a/exps/tamp_environment/turtlebot_move/streams.py b/exps/tamp_environment/turtlebot_move/streams.py
index adb15e6..b9f4179 100644
--- a/exps/tamp_environment/turtlebot_move/streams.py
+++ b/exps/tamp_environment/turtlebot_move/streams.py
@@ -177,7 +177,7 @@ def get_anytime_motion_fn(problem,
             _, path = prm.query_best_solution(start, goal)
             if(len(path)>0):
                 break
-            num_samples = num_samples*factor
+            num_samples = max(num_samples*factor, int(num_samples)+1)  # at least one new sample
 
 
         print("Path: "+str(path))
-- 
2.43.0


From ed54de19e16bb8e5297a5d5a0c3f595ab9035585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:14 +0000
Subject: [PATCH 30/40] fix: the random-obstacle world lists its obstacles

---
 exps/tamp_environment/turtlebot_move/problems.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/exps/tamp_environment/turtlebot_move/problems.py b/exps/tamp_environment/turtlebot_move/problems.py
index 007de12..512397d 100644
--- a/exps/tamp_environment/turtlebot_move/problems.py
+++ b/exps/tamp_environment/turtlebot_move/problems.py
@@ -480,4 +480,5 @@ def random_obstacles(n_obstacles=50, robot_scale=1):
 
     sample_placements(initial_surfaces, obstacles=[rover, rover2])
     remove_body(rover2)
-    return RoversProblem(rover, limits=base_limits, init_conf=init_conf, goal_conf=goal_conf)
+    obstacles = [wall1, wall2, wall3, wall4] + list(initial_surfaces)
+    return RoversProblem(rover, limits=base_limits, init_conf=init_conf, goal_conf=goal_conf, obstacles=obstacles)
-- 
2.43.0


From 96565c8dd658b41111665243030a38853cb0af50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:48 +0000
Subject: [PATCH 31/40] fix: an insertion the arm cannot follow is not planned
 rather than cut short

---
 exps/tamp_environment/kuka_carry/run.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/exps/tamp_environment/kuka_carry/run.py b/exps/tamp_environment/kuka_carry/run.py
index 4e4cfcb..cb2b80d 100644
--- a/exps/tamp_environment/kuka_carry/run.py
+++ b/exps/tamp_environment/kuka_carry/run.py
@@ -234,10 +234,12 @@ def get_insert_motion_gen(robot,
             pbu.set_pose(body, pose)
             body_pose = BodyPose(body, pose)
             conf = get_ik_fn(robot, body, body_pose, grasp, randomize=False, teleport=teleport)
-            if(conf is not None):
-                conf_path.append(conf.values)
-                conf_joints = conf.joints
-                grasp.assign()
+            if(conf is None):
+                print("The arm cannot follow the path.")
+                raise SubplanFailed  # skipping the pose would cut a corner or miss an end
+            conf_path.append(conf.values)
+            conf_joints = conf.joints
+            grasp.assign()
 
         command = Command(
             [BodyPath(robot, conf_path, joints=conf_joints, attachments=[grasp])]
-- 
2.43.0


From b16b1210e3dc861bc764c1f0d102b0362388966b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:28 +0000
Subject: [PATCH 32/40] fix: the growth factor of planning runs is a real
 number

--factor was parsed as an integer, so its own default of 1.1 and every factor below 2 was refused.
---
 exps/tamp_environment/kuka_carry/run.py     | 2 +-
 exps/tamp_environment/turtlebot_move/run.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/exps/tamp_environment/kuka_carry/run.py b/exps/tamp_environment/kuka_carry/run.py
index cb2b80d..8229ae3 100644
--- a/exps/tamp_environment/kuka_carry/run.py
+++ b/exps/tamp_environment/kuka_carry/run.py
@@ -612,7 +612,7 @@ def main():
     parser = argparse.ArgumentParser()
     parser.add_argument('--min-samples', default=500, type=int, help='Max num samples for motion planning')
     parser.add_argument('--max-samples', default=30000, type=int, help='Max num samples for motion planning')
-    parser.add_argument('--factor', default=1.1, type=int, help='The rate at which we geometrically expand from min-samples to max-samples')
+    parser.add_argument('--factor', default=1.1, type=float, help='The rate at which we geometrically expand from min-samples to max-samples')
     parser.add_argument('--delta', default=0.04, type=float, help='Difference between the hallway width and the largest object that needs to fit thorugh the hallway')
     parser.add_argument('--theta-margin', default=np.pi/12.0, type=float, help='')
     parser.add_argument('--collision-buffer', default=0.02, type=float, help='')
diff --git a/exps/tamp_environment/turtlebot_move/run.py b/exps/tamp_environment/turtlebot_move/run.py
index e84d587..9a67a24 100644
--- a/exps/tamp_environment/turtlebot_move/run.py
+++ b/exps/tamp_environment/turtlebot_move/run.py
@@ -170,7 +170,7 @@ def main():
     parser.add_argument('--optimal', action='store_true', help='Runs in an anytime mode')
     parser.add_argument('--min-samples', default=10, type=int, help='Max num samples for motion planning')
     parser.add_argument('--max-samples', default=2000, type=int, help='Max num samples for motion planning')
-    parser.add_argument('--factor', default=1.1, type=int, help='The rate at which we geometrically expand from min-samples to max-samples')
+    parser.add_argument('--factor', default=1.1, type=float, help='The rate at which we geometrically expand from min-samples to max-samples')
     parser.add_argument('--delta', default=0.05, type=float, help='Difference between the hallway width and the largest object that needs to fit thorugh the hallway')
     parser.add_argument('--seed', default=-1, type=int, help='Seed for selection of robot size and collision placement')
     parser.add_argument('--save-dir', default="./logs/debug", type=str, help='Directory to save planning results')
-- 
2.43.0


From 59e139dd6868956c41a129630740ca754430ed0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:28 +0000
Subject: [PATCH 33/40] fix: --cfree disables collisions in the turtlebot's
 motion generators

The option was passed on as collisions=False and then ignored.
---
 exps/tamp_environment/turtlebot_move/streams.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/exps/tamp_environment/turtlebot_move/streams.py b/exps/tamp_environment/turtlebot_move/streams.py
index b9f4179..500dee0 100644
--- a/exps/tamp_environment/turtlebot_move/streams.py
+++ b/exps/tamp_environment/turtlebot_move/streams.py
@@ -122,6 +122,7 @@ def get_ik(problem):
 
 def get_anytime_motion_fn(problem,
                           custom_limits={},
+                          collisions=True,
                           teleport=False,
                           start_samples=10,
                           end_samples=100,
@@ -161,14 +162,17 @@ def get_anytime_motion_fn(problem,
         print("[Inside MP] max_samples: "+str(max_samples))
 
         prm_env_2d = BagOfBoundingBoxes(seed=seed, robot_shape=(robot_shape), obstacle_oobbs=obstacle_oobbs, custom_limits=custom_limits)
+        is_motion_valid = prm_env_2d.is_motion_valid
+        if(not collisions):
+            is_motion_valid = lambda start, goal: np.ones(start.shape[0], dtype=bool)
         prm = SimpleNearestNeighborRadiusPRM(32,
-                                     prm_env_2d.is_motion_valid,
+                                     is_motion_valid,
                                      prm_env_2d.sample_from_env,
                                      prm_env_2d.distance_to_path,
                                      seed=seed, truncate_to_eff_rad=False, verbose=False)
 
-        assert prm_env_2d.is_motion_valid(np.expand_dims(start, axis=0), np.expand_dims(start, axis=0)), "Start in collision"
-        assert prm_env_2d.is_motion_valid(np.expand_dims(goal, axis=0), np.expand_dims(goal, axis=0)), "Goal in collision"
+        assert is_motion_valid(np.expand_dims(start, axis=0), np.expand_dims(start, axis=0)), "Start in collision"
+        assert is_motion_valid(np.expand_dims(goal, axis=0), np.expand_dims(goal, axis=0)), "Goal in collision"
 
         num_samples = min_samples
         while(num_samples<max_samples+1):
-- 
2.43.0


From a3b2b5a8eff9645f6b0fe30d0a8c8ddb334a9254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:12 +0000
Subject: [PATCH 34/40] fix: aggregating KNN trials, which record no check time

---
 exps/aggregate_runtimes_for_tuning.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/exps/aggregate_runtimes_for_tuning.py b/exps/aggregate_runtimes_for_tuning.py
index a262b52..e98520f 100644
--- a/exps/aggregate_runtimes_for_tuning.py
+++ b/exps/aggregate_runtimes_for_tuning.py
@@ -31,9 +31,9 @@ if __name__ == '__main__':
     cut_big_out = pd.concat(mini_out_dfs_cut)
     build_mean = cut_big_out['build_time'].mean()
     build_std = cut_big_out['build_time'].std()
-
-    check_mean = cut_big_out['check_time'].mean()
-    check_std = cut_big_out['check_time'].std()
-
     print('Trial build time mean: %f +/- %f' % (build_mean, build_std))
-    print('Trial check time mean: %f +/- %f' % (check_mean, check_std))
+
+    if 'check_time' in cut_big_out.columns:  # KNN trials have nothing to check
+        check_mean = cut_big_out['check_time'].mean()
+        check_std = cut_big_out['check_time'].std()
+        print('Trial check time mean: %f +/- %f' % (check_mean, check_std))
-- 
2.43.0


From 038a8f917616aab280d8caac9c55b3d93059e417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:29 +0000
Subject: [PATCH 35/40] fix: an aggregate whose name begins with out is not
 aggregated again

---
 exps/aggregate_runtimes_for_tuning.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/exps/aggregate_runtimes_for_tuning.py b/exps/aggregate_runtimes_for_tuning.py
index e98520f..b7745a6 100644
--- a/exps/aggregate_runtimes_for_tuning.py
+++ b/exps/aggregate_runtimes_for_tuning.py
@@ -17,7 +17,8 @@ if __name__ == '__main__':
     exp_dirs.sort(key=os.path.getmtime)
     latest_exp_dir = exp_dirs[-1]
 
-    mini_out_csvs = glob.glob(latest_exp_dir + '/out*.csv')
+    # one file per task (an earlier aggregate may also begin with 'out')
+    mini_out_csvs = [p for p in glob.glob(latest_exp_dir + '/out*.csv') if not p.endswith('_agg_out.csv')]
     mini_out_dfs = list(map(lambda p: pd.read_csv(p, index_col=0), mini_out_csvs))
     big_out = pd.concat(mini_out_dfs)
 
-- 
2.43.0


From 94aaaea522c629cdd7a0ccb5a70bcc3948d8f6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:11 +0000
Subject: [PATCH 36/40] fix: the knn trial keeps neighbour counts listed after
 one that is too large

---
 exps/run_knn_radius_trial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exps/run_knn_radius_trial.py b/exps/run_knn_radius_trial.py
index cd43b87..ea1609b 100644
--- a/exps/run_knn_radius_trial.py
+++ b/exps/run_knn_radius_trial.py
@@ -32,7 +32,7 @@ def knn_radius_trial(delta_clear, dim, sample_schedule, neighbor_schedule, rng_s
 
         for nn in neighbor_schedule:
             if nn >= s:
-                break
+                continue
             effective_rad = np.min(dist_list[:, nn - 1])
             record.append(
                 (dim, s, nn, effective_rad, build_time, delta_clear, rng_seed)
-- 
2.43.0


From c49844fcffe366adf51f250a07a422cc42099752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:35 +0000
Subject: [PATCH 37/40] fix: read the arguments of a planning run in the format
 its log has

---
 exps/tamp_environment/turtlebot_move/time_success_plot.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/exps/tamp_environment/turtlebot_move/time_success_plot.py b/exps/tamp_environment/turtlebot_move/time_success_plot.py
index 949af72..9129c3f 100644
--- a/exps/tamp_environment/turtlebot_move/time_success_plot.py
+++ b/exps/tamp_environment/turtlebot_move/time_success_plot.py
@@ -1,5 +1,6 @@
 import numpy as np
 import matplotlib.pyplot as plt
+import ast
 import os
 import re
 from collections import defaultdict
@@ -25,6 +26,11 @@ for root, dirs, files in os.walk(parent_directory):
             with open(file_path, 'r') as f:
                 lines = f.readlines()
                 for i, line in enumerate(lines):
+                    if line.startswith("Experiment arguments:"):  # followed by the arguments as a dictionary
+                        run_args = ast.literal_eval(lines[i+1])
+                        adaptive_n[file] = int(run_args["adaptive_n"])
+                        min_samples[file] = run_args["min_samples"]
+                        max_samples[file] = run_args["max_samples"]
                     if("Namespace" in line):
                         match = re.search(r"adaptive_n=([^ ,]+),", line)
                         adaptive_n[file] = int(bool(match.group(1)=="True"))
-- 
2.43.0


From 133c09d2536992c082bb79d8ad648f053fda5cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:58 +0000
Subject: [PATCH 38/40] fix: read the gap of a planning run from the line of
 its log that states it

---
 exps/tamp_environment/turtlebot_move/bound_plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/exps/tamp_environment/turtlebot_move/bound_plot.py b/exps/tamp_environment/turtlebot_move/bound_plot.py
index a44be54..ad62db4 100644
--- a/exps/tamp_environment/turtlebot_move/bound_plot.py
+++ b/exps/tamp_environment/turtlebot_move/bound_plot.py
@@ -21,8 +21,8 @@ for root, dirs, files in os.walk(parent_directory):
             with open(file_path, 'r') as f:
                 lines = f.readlines()
                 for i, line in enumerate(lines):
-                    if "Delta:" in line and i+1 < len(lines):
-                        numbers[file] = float(lines[i+1].strip())
+                    if line.startswith("Delta:"):
+                        numbers[file] = float(line.replace("Delta:", "").strip())
 
                     if "Found solution in" in line and i+1 < len(lines):
                         samples[file] = float(lines[i+1].strip())
-- 
2.43.0


From b07e8ac2a4a47d79d1fc1e7f511b201bcff5c39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:17 +0000
Subject: [PATCH 39/40] fix: quote the experiment's path in its submission
 script

---
 exps/submit_and_run_experiment_job.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/exps/submit_and_run_experiment_job.py b/exps/submit_and_run_experiment_job.py
index eb86551..f97a778 100644
--- a/exps/submit_and_run_experiment_job.py
+++ b/exps/submit_and_run_experiment_job.py
@@ -7,6 +7,7 @@ from datetime import datetime
 import argparse
 import json
 import glob
+import shlex
 import sys
 import os
 import subprocess
@@ -82,7 +83,8 @@ if __name__ == "__main__":
         else:
             script_name = 'run_narrow_passage_clearance_trial.py'
         submit_script_text = submit_sh_script_prototype_text.format(script_name=script_name,
-                                                                    arg0=config_path, arg1=save_path)
+                                                                    arg0=shlex.quote(config_path),
+                                                                    arg1=shlex.quote(save_path))
         submit_script_path = os.path.join(save_path, 'submit_job.sh')
         with open(submit_script_path, 'w') as submit_script_file:
             submit_script_file.write(submit_script_text)
-- 
2.43.0


From 07c3a9693c83d881419ebb5c1fd177c0834089d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:22 +0000
Subject: [PATCH 40/40] fix: let GrayCodeWalls motions start in a wall opening

---
 nonasymptotic/envs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nonasymptotic/envs.py b/nonasymptotic/envs.py
index e18b2bb..0e00a88 100644
--- a/nonasymptotic/envs.py
+++ b/nonasymptotic/envs.py
@@ -680,9 +680,10 @@ class GrayCodeWalls(Environment):
 
             # solve for point at cube opening.
             t = (between_cubes_point[next_cube_dir_ind] - start[next_cube_dir_ind]) / dir_vec[next_cube_dir_ind]
-            if t <= 0.0 or np.any(np.isnan(t)):
-                # we are only in while loop if we are spanning multiple blocks. so if t = 0 or nan, then line does
+            if t < 0.0 or np.any(np.isnan(t)):
+                # we are only in while loop if we are spanning multiple blocks. so if t < 0 or nan, then line does
                 # not travel through the exit of this block on the path, so it must have collided somewhere else
+                # (t = 0 is a line that starts in the opening itself)
                 return False
             motion_point_at_opening = dir_vec * t + start
 
-- 
2.43.0

