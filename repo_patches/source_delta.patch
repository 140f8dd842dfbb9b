From 40855836db4f4abcffdc12c6cf24d67ab6886b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:47 +0000
Subject: [PATCH 01/51] fix: PointPattern.unique() passes the window on, not
 its setter

---
 pointpats/pointpattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointpats/pointpattern.py b/pointpats/pointpattern.py
index 4eb6832..536c8a3 100644
--- a/pointpats/pointpattern.py
+++ b/pointpats/pointpattern.py
@@ -471,7 +471,7 @@ class PointPattern:
         """
         names = self.df.columns.values.tolist()
         coord_names = self.coord_names
-        window = self.set_window
+        window = self.window
         unique_df = self.df.drop_duplicates()
         return PointPattern(
             unique_df, names=names, coord_names=coord_names, window=window
-- 
2.43.0


From 9cef0151200e15974c1adb4f7b787436337e0fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:47 +0000
Subject: [PATCH 02/51] fix: PointPattern no longer extends the caller's
 coord_names list

---
 pointpats/pointpattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointpats/pointpattern.py b/pointpats/pointpattern.py
index 536c8a3..14d130b 100644
--- a/pointpats/pointpattern.py
+++ b/pointpats/pointpattern.py
@@ -72,7 +72,7 @@ class PointPattern:
         if coord_names is None:
             coord_names = names[:2] if names is not None else ["x", "y"]
         if names is None:
-            col_names = coord_names
+            col_names = list(coord_names)
             if p > 2:
                 for m in range(2, p):
                     col_names.append(f"mark_{m - 2}")
-- 
2.43.0


From 2d794bab9587d3cd37fb6e00531e12bdbdf0ba56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:47 +0000
Subject: [PATCH 03/51] fix: PointPattern membership compares the coordinate
 columns

---
 pointpats/pointpattern.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pointpats/pointpattern.py b/pointpats/pointpattern.py
index 14d130b..1e0450b 100644
--- a/pointpats/pointpattern.py
+++ b/pointpats/pointpattern.py
@@ -123,8 +123,8 @@ class PointPattern:
         >>> [1, 3] in pp
         True
         """
-        name = self.df.columns.values.tolist()
-        return ((self.df[name[0]] == n[0]) & (self.df[name[1]] == n[1])).any()
+        x, y = self.coord_names
+        return ((self.df[x] == n[0]) & (self.df[y] == n[1])).any()
 
     def set_window(self, window):
         try:
-- 
2.43.0


From eaab355bc0d48cbdf492f1db23537d4bcd3c2138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:47 +0000
Subject: [PATCH 04/51] fix: PointPattern.knn never returns a point as its own
 neighbor

---
 pointpats/pointpattern.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pointpats/pointpattern.py b/pointpats/pointpattern.py
index 1e0450b..e6a0b1e 100644
--- a/pointpats/pointpattern.py
+++ b/pointpats/pointpattern.py
@@ -11,6 +11,7 @@ from matplotlib.collections import PatchCollection
 from matplotlib.patches import Polygon
 
 from .centrography import hull
+from .geometry import k_neighbors
 from .util import cached_property
 from .window import as_window, poly_from_bbox
 
@@ -339,8 +340,8 @@ class PointPattern:
         """
         if k < 1:
             raise ValueError("k must be at least 1")
-        nn = self.tree.query(self.tree.data, k=k + 1)
-        return nn[1][:, 1:], nn[0][:, 1:]
+        nnd, nn = k_neighbors(self.tree, self.tree.data, k)
+        return nn, nnd
 
     def _nn_sum(self):
         """
-- 
2.43.0


From 14ae8a037e4163cd6d0b1939af106109a7475f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:47 +0000
Subject: [PATCH 05/51] fix: lambda_window follows changes of the window

---
 pointpats/pointpattern.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pointpats/pointpattern.py b/pointpats/pointpattern.py
index e6a0b1e..7e21f67 100644
--- a/pointpats/pointpattern.py
+++ b/pointpats/pointpattern.py
@@ -292,7 +292,8 @@ class PointPattern:
         """
         return self.n / self.window.area
 
-    lambda_window = cached_property(_lambda_window)
+    # not cached: it must follow changes of the window
+    lambda_window = property(_lambda_window)
 
     def _hull_area(self):
         """
-- 
2.43.0


From 5ca366eed01b7357bcbfc2c83feaf369a084c8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:39 +0000
Subject: [PATCH 06/51] fix: random samplers keep the (n, 2) shape when asked
 for a single point

---
 pointpats/random.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pointpats/random.py b/pointpats/random.py
index 7ff0105..920a695 100644
--- a/pointpats/random.py
+++ b/pointpats/random.py
@@ -185,7 +185,7 @@ def poisson(hull, intensity=None, size=None, rng=None):
             if _contains(hull, x, y):
                 result[i_replication, i_observation] = (x, y)
                 i_observation += 1
-    return result.squeeze()
+    return result[0] if n_simulations == 1 else result
 
 
 def normal(hull, center=None, cov=None, size=None, rng=None):
@@ -281,7 +281,7 @@ def normal(hull, center=None, cov=None, size=None, rng=None):
             if _contains(hull, x, y):
                 result[i_replication, i_observation] = (x, y)
                 i_observation += 1
-    return result.squeeze()
+    return result[0] if n_simulations == 1 else result
 
 
 def cluster_poisson(
@@ -384,7 +384,7 @@ def cluster_poisson(
             )
             clusters[i_cluster] = numpy.vstack((seed, candidates))
         result[i_replication] = numpy.vstack(clusters)
-    return result.squeeze()
+    return result[0] if n_simulations == 1 else result
 
 
 def cluster_normal(hull, cov=None, size=None, n_seeds=2, rng=None):
@@ -465,7 +465,7 @@ def cluster_normal(hull, cov=None, size=None, n_seeds=2, rng=None):
             )
             clusters[i_cluster] = numpy.vstack((center, candidates))
         result[i_replication] = numpy.vstack(clusters)
-    return result.squeeze()
+    return result[0] if n_simulations == 1 else result
 
 
 def _uniform_circle(
@@ -699,4 +699,4 @@ def strauss(
                 "`gamma`, `radius`, or `max_iter`."
             )
 
-    return result.squeeze()
+    return result[0] if n_simulations == 1 else result
-- 
2.43.0


From b47167cfbb44bceb32512b736ac7ab5cdd5a83bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:39 +0000
Subject: [PATCH 07/51] fix: strauss proposes numbers of points, not
 intensities

---
 pointpats/random.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pointpats/random.py b/pointpats/random.py
index 920a695..8c8a531 100644
--- a/pointpats/random.py
+++ b/pointpats/random.py
@@ -655,11 +655,11 @@ def strauss(
         while not found and gen_iter < max_iter:
             # Over-sample initially to improve convergence
             initial_n = int(n_observations * 1.5)
-            points = poisson(hull, intensity=initial_n, rng=rng)
+            points = poisson(hull, size=initial_n, rng=rng)
 
             for _ in range(n_iter):
                 if len(points) < n_observations or rng.random() < 0.5:
-                    new_point = poisson(hull, 1, rng=rng)
+                    new_point = poisson(hull, size=1, rng=rng)
                     trial_points = numpy.vstack([points, new_point])
                     k_old = _pairwise_count_kdtree(points, r)
                     k_new = _pairwise_count_kdtree(trial_points, r)
-- 
2.43.0


From 110325f3596ffa92461b1dedb7d132d50ca1651b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:39 +0000
Subject: [PATCH 08/51] fix: cluster_poisson accepts any iterable of radii, as
 documented

---
 pointpats/random.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pointpats/random.py b/pointpats/random.py
index 8c8a531..56bd33f 100644
--- a/pointpats/random.py
+++ b/pointpats/random.py
@@ -338,15 +338,15 @@ def cluster_poisson(
     if isinstance(hull, numpy.ndarray):
         hull = hull if hull.shape == (4,) else _prepare_hull(hull)
 
-    if isinstance(cluster_radius, numpy.ndarray):
-        cluster_radii = cluster_radius.flatten()
+    if isinstance(cluster_radius, (int, float)):
+        cluster_radii = [cluster_radius] * n_seeds
+    elif cluster_radius is not None:
+        cluster_radii = numpy.asarray(cluster_radius).flatten()
         assert len(cluster_radii) == n_seeds, (
             f"number of radii provided ({len(cluster_radii)})"
             f"does not match number of clusters requested"
             f" ({n_seeds})."
         )
-    elif isinstance(cluster_radius, (int, float)):
-        cluster_radii = [cluster_radius] * n_seeds
 
     n_observations, n_simulations, intensity = parse_size_and_intensity(
         hull, intensity=intensity, size=size
-- 
2.43.0


From 800ab6f1452f826424a946e8eb9875269dedddbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:39 +0000
Subject: [PATCH 09/51] fix: an intensity of n / area yields n points despite
 rounding

---
 pointpats/random.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pointpats/random.py b/pointpats/random.py
index 56bd33f..8c6f36d 100644
--- a/pointpats/random.py
+++ b/pointpats/random.py
@@ -38,6 +38,18 @@ from .geometry import spatial
 # ------------------------------------------------------------ #
 
 
+def _count_from_intensity(hull, intensity):
+    """
+    The whole number of points at some intensity. A product that only misses a
+    whole number by floating point error (as in ``n / area * area``) is that number.
+    """
+    expected = intensity * _area(hull)
+    nearest = round(expected)
+    if numpy.isclose(expected, nearest, rtol=1e-12, atol=0):
+        return int(nearest)
+    return int(expected)
+
+
 def parse_size_and_intensity(hull, intensity=None, size=None):
     """
     Given a hull, an intensity, and a size int/tuple, correctly
@@ -72,7 +84,7 @@ def parse_size_and_intensity(hull, intensity=None, size=None):
         if intensity is not None:
             # if intensity is provided, assume
             # n_observations
-            n_observations = int(_area(hull) * intensity)
+            n_observations = _count_from_intensity(hull, intensity)
         else:
             # default to 100 points
             n_observations = 100
@@ -103,7 +115,7 @@ def parse_size_and_intensity(hull, intensity=None, size=None):
     elif isinstance(size, int):
         # assume int size with specified intensity means n_simulations at x intensity
         if intensity is not None:
-            n_observations = int(intensity * _area(hull))
+            n_observations = _count_from_intensity(hull, intensity)
             n_simulations = size
         else:  # assume we have one replication at the specified number of points
             n_simulations = 1
-- 
2.43.0


From e015b6addde1029e7de57696d0ee4f8eea8c47c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:39 +0000
Subject: [PATCH 10/51] fix: cluster_normal's default covariance follows each
 replication's seeds

---
 pointpats/random.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pointpats/random.py b/pointpats/random.py
index 8c6f36d..867d399 100644
--- a/pointpats/random.py
+++ b/pointpats/random.py
@@ -452,8 +452,9 @@ def cluster_normal(hull, cov=None, size=None, n_seeds=2, rng=None):
     seeds = rng.integers(100_000, size=n_simulations)
     for i_replication in range(n_simulations):
         centers = poisson(hull, size=n_seeds, rng=seeds[i_replication])
+        replication_cov = cov
         if cov is None:
-            cov = spatial.distance.pdist(centers).mean() ** 2
+            replication_cov = spatial.distance.pdist(centers).mean() ** 2
         clusters = numpy.array_split(result[i_replication], n_seeds)
         candidate_seeds = rng.integers(100_000, size=n_seeds)
         for i_cluster, center in enumerate(centers):
@@ -471,7 +472,7 @@ def cluster_normal(hull, cov=None, size=None, n_seeds=2, rng=None):
             candidates = normal(
                 hull,
                 center=center,
-                cov=cov,
+                cov=replication_cov,
                 size=n_in_cluster - 1,
                 rng=candidate_seeds[i_cluster],
             )
-- 
2.43.0


From 647996fd38f51e401bc7202a99f6266ce908787d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:31 +0000
Subject: [PATCH 11/51] fix: PoissonClusterPointProcess can draw its
 realizations

---
 pointpats/process.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pointpats/process.py b/pointpats/process.py
index 5a65363..bfb67e2 100644
--- a/pointpats/process.py
+++ b/pointpats/process.py
@@ -144,7 +144,7 @@ class PointProcess:
         n = parameter["n"]
         while c < n:
             pnts = self.realize(n)
-            pnts = [ps.cg.shapes.Point((x[0], y[0])) for x, y in pnts]
+            pnts = [ps.cg.shapes.Point((x, y)) for x, y in pnts]
             pins = self.window.filter_contained(pnts)
             sample.extend(pins)
             c = len(sample)
@@ -291,7 +291,7 @@ class PoissonPointProcess(PointProcess):
         _l, b, r, t = self.window.bbox
         xs = np.random.uniform(_l, r, (n, 1))
         ys = np.random.uniform(b, t, (n, 1))
-        return zip(xs, ys, strict=True)
+        return np.hstack((xs, ys))
 
 
 class PoissonClusterPointProcess(PointProcess):
-- 
2.43.0


From fc077949bed060bfab002995725f1d85b980fdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:31 +0000
Subject: [PATCH 12/51] fix: a realization of zero points is an empty (0, 2)
 array

---
 pointpats/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointpats/process.py b/pointpats/process.py
index bfb67e2..08b2d3a 100644
--- a/pointpats/process.py
+++ b/pointpats/process.py
@@ -148,7 +148,7 @@ class PointProcess:
             pins = self.window.filter_contained(pnts)
             sample.extend(pins)
             c = len(sample)
-        return np.array([np.asarray(p) for p in sample[:n]])
+        return np.array([np.asarray(p) for p in sample[:n]]).reshape(-1, 2)
 
     def realize(self):
         pass
-- 
2.43.0


From 2b73a3a43e661942953b2d4b026b7ee8534ea769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:58 +0000
Subject: [PATCH 13/51] fix: QStatistic accepts a single CSR realization

---
 pointpats/quadrat_statistics.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pointpats/quadrat_statistics.py b/pointpats/quadrat_statistics.py
index 44f4ff3..aa207fd 100644
--- a/pointpats/quadrat_statistics.py
+++ b/pointpats/quadrat_statistics.py
@@ -656,6 +656,9 @@ class QStatistic:
             intensity = n / float(self.window.area)
 
             reals = poisson(self.window, intensity, realizations, rng=self.rng)
+            if isinstance(reals, np.ndarray):
+                # a single realization comes without its leading axis
+                reals = reals.reshape(realizations, -1, 2)
 
             chi2_realizations = []
             for i in range(realizations):
-- 
2.43.0


From 9c3f5bd652d0133b832f40288e1de32943d17021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:58 +0000
Subject: [PATCH 14/51] fix: HexagonM.num is the number of cells in the grid

---
 pointpats/quadrat_statistics.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pointpats/quadrat_statistics.py b/pointpats/quadrat_statistics.py
index aa207fd..ad72ccb 100644
--- a/pointpats/quadrat_statistics.py
+++ b/pointpats/quadrat_statistics.py
@@ -330,9 +330,10 @@ class HexagonM:
 
         self.count_row_odd = int(math.ceil(range_y / (2.0 * self.semi_height)))
 
-        self.num = self.count_row_odd * (
+        # columns are numbered from zero, so the even ones come first
+        self.num = self.count_row_even * (
             (self.count_column // 2) + (self.count_column % 2)
-        ) + self.count_row_even * (self.count_column // 2)
+        ) + self.count_row_odd * (self.count_column // 2)
 
     def point_location_sta(self):
         semi_cell_length = self.h_length / 2.0
-- 
2.43.0


From d1c96bafb0f2fde18c9b692fe04ed8d351eba495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:58 +0000
Subject: [PATCH 15/51] fix: HexagonM counts points on the outer edge of its
 grid in that grid

---
 pointpats/quadrat_statistics.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/pointpats/quadrat_statistics.py b/pointpats/quadrat_statistics.py
index ad72ccb..12288a9 100644
--- a/pointpats/quadrat_statistics.py
+++ b/pointpats/quadrat_statistics.py
@@ -328,7 +328,8 @@ class HexagonM:
             temp = math.ceil((range_y - self.semi_height) / (2.0 * self.semi_height))
             self.count_row_even += int(temp)
 
-        self.count_row_odd = int(math.ceil(range_y / (2.0 * self.semi_height)))
+        # a flat pattern still lies on the lower edge of one odd row
+        self.count_row_odd = max(1, int(math.ceil(range_y / (2.0 * self.semi_height))))
 
         # columns are numbered from zero, so the even ones come first
         self.num = self.count_row_even * (
@@ -365,7 +366,8 @@ class HexagonM:
                 center_index_y = possible_y_index_odd
                 if center_index_x % 2 == 0:
                     center_index_y = possible_y_index_even
-                dict_id_count[center_index_x + center_index_y * self.count_column] += 1
+                cell_id = self._cell_id(center_index_x, center_index_y)
+                dict_id_count[cell_id] += 1
             else:
                 center_index_x = int(intercept_degree_x // 3)
                 center_x = center_index_x * semi_cell_length * 3.0 + x_min
@@ -395,16 +397,23 @@ class HexagonM:
                         + (x0 * y1 - x1 * y0) / (x0 - x1)
                     )
 
-                if indicator <= 0:
+                # the right edge of the last column belongs to that column
+                if indicator <= 0 and center_index_x + 1 < self.count_column:
                     center_index_x += 1
                     center_index_y = possible_y_index_odd
                     if center_index_x % 2 == 0:
                         center_index_y = possible_y_index_even
 
-                dict_id_count[center_index_x + center_index_y * self.count_column] += 1
+                cell_id = self._cell_id(center_index_x, center_index_y)
+                dict_id_count[cell_id] += 1
 
         return dict_id_count
 
+    def _cell_id(self, ix, iy):
+        # the top edge of the last row belongs to that row
+        n_rows = self.count_row_even if ix % 2 == 0 else self.count_row_odd
+        return ix + min(iy, n_rows - 1) * self.count_column
+
     def _hex_vertices(self, cx, cy):
         sh = self.semi_height
         lh = self.h_length
-- 
2.43.0


From 822e8715231337c73601d501f7d452ffc3fa0331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:37 +0000
Subject: [PATCH 16/51] fix: SpaceTimeEvents reads the .dbf that belongs to the
 given shapefile

---
 pointpats/spacetime.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pointpats/spacetime.py b/pointpats/spacetime.py
index 69fb576..ad76033 100644
--- a/pointpats/spacetime.py
+++ b/pointpats/spacetime.py
@@ -140,9 +140,7 @@ class SpaceTimeEvents:
 
     def __init__(self, path, time_col, infer_timestamp=False):
         shp = lps.io.open(path)
-        head, tail = os.path.split(path)
-        dbf_tail = tail.split(".")[0] + ".dbf"
-        dbf = lps.io.open(lps.examples.get_path(dbf_tail))
+        dbf = lps.io.open(os.path.splitext(path)[0] + ".dbf")
 
         # extract the spatial coordinates from the shapefile
         x = [coords[0] for coords in shp]
-- 
2.43.0


From 5dcad6ae175bc63083e0b49b1973d5f4a22d4589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:37 +0000
Subject: [PATCH 17/51] fix: knox does not shuffle the caller's time
 coordinates

---
 pointpats/spacetime.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pointpats/spacetime.py b/pointpats/spacetime.py
index ad76033..62e0b9f 100644
--- a/pointpats/spacetime.py
+++ b/pointpats/spacetime.py
@@ -267,6 +267,8 @@ def knox(s_coords, t_coords, delta, tau, permutations=99, debug=False):  # noqa:
     knox_result = {"stat": n_st[0]}
 
     if permutations:
+        # the caller's events keep their times
+        t_coords = t_coords.copy()
         joint = np.zeros((permutations, 1), int)
         for p in range(permutations):
             np.random.shuffle(t_coords)
-- 
2.43.0


From 4370eeb77a223d0c3a687f1876325a608413d046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:37 +0000
Subject: [PATCH 18/51] fix: knox reports zero when no events are close in
 space

---
 pointpats/spacetime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pointpats/spacetime.py b/pointpats/spacetime.py
index 62e0b9f..1353cf6 100644
--- a/pointpats/spacetime.py
+++ b/pointpats/spacetime.py
@@ -256,13 +256,13 @@ def knox(s_coords, t_coords, delta, tau, permutations=99, debug=False):  # noqa:
     kd_s = cg.KDTree(s_coords)
     neigh_s = kd_s.query_pairs(delta)
     tau2 = tau * tau
-    ids = np.array(list(neigh_s))
+    ids = np.array(list(neigh_s), dtype=int).reshape(-1, 2)
 
     # For the neighboring pairs in space, determine which are also time
     # neighbors
 
     d_t = (t_coords[ids[:, 0]] - t_coords[ids[:, 1]]) ** 2
-    n_st = sum(d_t <= tau2)
+    n_st = np.sum(d_t <= tau2, axis=0)
 
     knox_result = {"stat": n_st[0]}
 
-- 
2.43.0


From 7a6a14db80a34916d9013744e0d9c8b87f55257b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:37 +0000
Subject: [PATCH 19/51] fix: KnoxLocal.sim holds the global permutation
 statistics it documents

---
 pointpats/spacetime.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pointpats/spacetime.py b/pointpats/spacetime.py
index 1353cf6..da1f1e3 100644
--- a/pointpats/spacetime.py
+++ b/pointpats/spacetime.py
@@ -1022,7 +1022,9 @@ def _knox_local(s_coords, t_coords, delta, tau, permutations=99, keep=False):
     """
     # think about passing in the global object
     # as an option to avoid recomputing the trees
-    res = _knox(s_coords, t_coords, delta, tau, permutations=permutations)
+    res = _knox(
+        s_coords, t_coords, delta, tau, permutations=permutations, keep=keep
+    )
     sneighbors = {i: tuple(ns) for i, ns in enumerate(res["sneighbors"])}
     tneighbors = {i: tuple(nt) for i, nt in enumerate(res["tneighbors"])}
 
@@ -1269,7 +1271,7 @@ class KnoxLocal:
         if permutations > 0:
             self.p_sim = results["p_value_sim"]
             if keep:
-                self.sim = results["sti_perm"]
+                self.sim = results["st_perm"]
 
         self.p_poisson = results["p_value_poisson"]
         self.observed = results["observed"]
-- 
2.43.0


From 0bd9db535d85741c4d4e096e9f6f6dedeec18e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:29 +0000
Subject: [PATCH 20/51] fix: hotspots labels connected observations as one
 cluster

---
 pointpats/spacetime.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pointpats/spacetime.py b/pointpats/spacetime.py
index da1f1e3..f091669 100644
--- a/pointpats/spacetime.py
+++ b/pointpats/spacetime.py
@@ -1421,8 +1421,17 @@ class KnoxLocal:
         ).reset_index(drop=True)
         # significant focals can be neighbors of others (dupes)
         pdf_sig = pdf_sig.groupby("focal").first().reset_index()
-        graph = Graph.from_adjacency(pdf_sig.assign(weight=1))
-        pdf_sig["cluster"] = graph.component_labels.values
+        # clusters are the components of all edges, not only of the first per focal;
+        # a significant observation without neighbors is a cluster of its own
+        isolates = pdf_sig.loc[pdf_sig.neighbor.isna(), "focal"]
+        edges = pd.concat(
+            [
+                temp_neighbors[["focal", "neighbor"]].assign(weight=1),
+                pd.DataFrame({"focal": isolates, "neighbor": isolates, "weight": 0}),
+            ]
+        )
+        graph = Graph.from_adjacency(edges)
+        pdf_sig["cluster"] = pdf_sig["focal"].map(graph.component_labels)
         if not keep_neighbors:
             pdf_sig = pdf_sig[pdf_sig.pvalue <= crit]
 
-- 
2.43.0


From f3a133fa26688179522d8b4dc85ac90f8fe78e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:24 +0000
Subject: [PATCH 21/51] fix: j_test returns its result when there is nothing to
 truncate

---
 pointpats/distance_statistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointpats/distance_statistics.py b/pointpats/distance_statistics.py
index fde0cd6..3d4fdf9 100644
--- a/pointpats/distance_statistics.py
+++ b/pointpats/distance_statistics.py
@@ -869,7 +869,7 @@ def j_test(
                 f" {len(result[0])} bins will be used to characterize the J function.",
                 stacklevel=2,
             )
-            return result_trunc
+        return result_trunc
 
     else:
         return result
-- 
2.43.0


From c95eca3fef6a8e4d629c0741450cd2cb9f3a3a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:24 +0000
Subject: [PATCH 22/51] fix: j_test truncates simulations along the support,
 not the replications

---
 pointpats/distance_statistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointpats/distance_statistics.py b/pointpats/distance_statistics.py
index 3d4fdf9..81d7a7c 100644
--- a/pointpats/distance_statistics.py
+++ b/pointpats/distance_statistics.py
@@ -1075,5 +1075,5 @@ def _truncate(support, realizations, *rest):
         return (
             support[:first_inv],
             realizations[:first_inv],
-            *[r[:first_inv] if r is not None else None for r in rest],
+            *[r[..., :first_inv] if r is not None else None for r in rest],
         )
-- 
2.43.0


From 03345b8896354092324fce7631e8dcab3c4f858e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:24 +0000
Subject: [PATCH 23/51] fix: f_test and j_test measure empty space within the
 hull, to the nearest point

---
 pointpats/distance_statistics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pointpats/distance_statistics.py b/pointpats/distance_statistics.py
index 81d7a7c..60147ea 100644
--- a/pointpats/distance_statistics.py
+++ b/pointpats/distance_statistics.py
@@ -562,12 +562,12 @@ def _ripley_test(
     if calltype in ("F", "J"):  # these require simulations
         core_kwargs["hull"] = hull
         # amortize to avoid doing this every time
-        empty_space_points = poisson(coordinates, size=(1000, 1))
+        empty_space_points = poisson(hull, size=(1000, 1))
 
         if distances is None:
             # Note: We now use the original coordinates' tree to calculate the observed
             # distance for the first time, as per the original logic flow.
-            empty_space_distances, _ = _k_neighbors(tree, empty_space_points, k=1)
+            empty_space_distances, _ = tree.query(empty_space_points, k=1)
 
             if calltype == "F":
                 distances = empty_space_distances.squeeze()
-- 
2.43.0


From f99603b7a0cd87fa65364dcf65a541c62037aec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:24 +0000
Subject: [PATCH 24/51] fix: g ignores the diagonal of a full distance matrix

---
 pointpats/distance_statistics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pointpats/distance_statistics.py b/pointpats/distance_statistics.py
index 60147ea..ae4616c 100644
--- a/pointpats/distance_statistics.py
+++ b/pointpats/distance_statistics.py
@@ -245,7 +245,9 @@ def g(
                     " Computing this and discarding the rest.",
                     stacklevel=2,
                 )
-                distances = distances.min(axis=1)
+                # a point is not its own nearest neighbor
+                self_pairs = numpy.eye(distances.shape[0], dtype=bool)
+                distances = numpy.where(self_pairs, numpy.inf, distances).min(axis=1)
             else:
                 k, p = distances.shape
                 n = coordinates.shape[0]
-- 
2.43.0


From 05f61c33fdf1cdebed8daebca4e58ffcb0b94fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:04 +0000
Subject: [PATCH 25/51] fix: f and g are distribution functions over all
 distances, also those off the support

---
 pointpats/distance_statistics.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/pointpats/distance_statistics.py b/pointpats/distance_statistics.py
index ae4616c..7c59820 100644
--- a/pointpats/distance_statistics.py
+++ b/pointpats/distance_statistics.py
@@ -111,6 +111,16 @@ def _prepare(coordinates, support, distances, metric, hull, edge_correction):
     return coordinates, support, distances, metric, hull, edge_correction
 
 
+def _empirical_cdf(distances, support):
+    """
+    The fraction of all distances below each value of the support, including the
+    distances that fall outside of the support.
+    """
+    counts, bins = numpy.histogram(distances, bins=support)
+    n_below = (distances < bins[0]).sum()
+    return bins, (n_below + numpy.asarray([0, *numpy.cumsum(counts)])) / distances.size
+
+
 # ------------------------------------------------------------#
 # Statistical Functions                                       #
 # ------------------------------------------------------------#
@@ -194,10 +204,7 @@ def f(
             distances, _ = tree.query(randoms, k=1)
             distances = distances.squeeze()
 
-    counts, bins = numpy.histogram(distances, bins=support)
-    fracs = numpy.cumsum(counts) / counts.sum()
-
-    return bins, numpy.asarray([0, *fracs])
+    return _empirical_cdf(distances, support)
 
 
 def g(
@@ -283,10 +290,7 @@ def g(
         finally:
             distances, indices = _k_neighbors(tree, coordinates, k=1)
 
-    counts, bins = numpy.histogram(distances.squeeze(), bins=support)
-    fracs = numpy.cumsum(counts) / counts.sum()
-
-    return bins, numpy.asarray([0, *fracs])
+    return _empirical_cdf(distances.squeeze(), support)
 
 
 def j(
-- 
2.43.0


From 753295ad353a797cda9b54afccf46d366a8d8cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:02 +0000
Subject: [PATCH 26/51] fix: minimum bounding circle breaks ties of radii
 despite rounding

---
 pointpats/centrography.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pointpats/centrography.py b/pointpats/centrography.py
index 89d6f09..1c755af 100644
--- a/pointpats/centrography.py
+++ b/pointpats/centrography.py
@@ -1034,8 +1034,9 @@ def _skyum_lists(points):
             for p in points
         ]
         radii = [c[0] for c in circles]
-        lexord = np.lexsort((angles, radii))
-        lexmax = lexord[-1]
+        # radii that only differ by floating point error are ties
+        ties = np.asarray(radii) >= max(radii) * (1 - 1e-10)
+        lexmax = (angles * ties).argmax()
         candidate = (
             _prec(points[lexmax], points),
             points[lexmax],
@@ -1084,7 +1085,8 @@ try:
         radius_argmax = radii.argmax()
         radius_max = radii[radius_argmax]
         # the maximum angle for the largest radius
-        lexmax = (angles * (radii == radius_max)).argmax()
+        # (radii that only differ by floating point error are ties)
+        lexmax = (angles * (radii >= radius_max * (1 - 1e-10))).argmax()
 
         if angles[lexmax] <= (np.pi / 2.0):
             return True, points, lexmax, circles[lexmax]
@@ -1109,7 +1111,8 @@ def _angle(p, q, r):
     pq = p - q
     rq = r - q
     magnitudes = np.linalg.norm(pq) * np.linalg.norm(rq)
-    return np.abs(np.arccos(np.dot(pq, rq) / magnitudes))
+    cosine = min(1.0, max(-1.0, np.dot(pq, rq) / magnitudes))
+    return np.abs(np.arccos(cosine))
 
 
 def _prec(p, _l):
-- 
2.43.0


From b6b0295c686938536b9d6d801ba5d292e1886d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:02 +0000
Subject: [PATCH 27/51] fix: std_distance does not cancel out far from the
 origin

---
 pointpats/centrography.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointpats/centrography.py b/pointpats/centrography.py
index 1c755af..5634e71 100644
--- a/pointpats/centrography.py
+++ b/pointpats/centrography.py
@@ -582,7 +582,7 @@ def std_distance(points) -> np.float64:
 def _(points: np.ndarray) -> np.float64:
     n, _ = points.shape
     m = points.mean(axis=0)
-    return np.sqrt(((points * points).sum(axis=0) / n - m * m).sum())
+    return np.sqrt((((points - m) ** 2).sum(axis=0) / n).sum())
 
 
 @std_distance.register
-- 
2.43.0


From b656fd0442e492ed221b42f7815528c0be6a2b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:41 +0000
Subject: [PATCH 28/51] fix: euclidean_median does not stall where the distance
 sum is not smooth

---
 pointpats/centrography.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pointpats/centrography.py b/pointpats/centrography.py
index 5634e71..16185fa 100644
--- a/pointpats/centrography.py
+++ b/pointpats/centrography.py
@@ -907,6 +907,14 @@ def euclidean_median(points):
 def _(points: np.ndarray) -> NDArray[np.float64]:
     start = mean_center(points)
     res = minimize(dtot, start, args=(points,))
+    # the objective is not smooth at the points, where a gradient search can stall
+    res = minimize(
+        dtot,
+        res["x"],
+        args=(points,),
+        method="Nelder-Mead",
+        options={"xatol": 1e-8, "fatol": 1e-8},
+    )
     return res["x"]
 
 
-- 
2.43.0


From 4a4b4ad5f7cca512d4d63da1547978a27378aec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:11 +0000
Subject: [PATCH 29/51] fix: plot_density accepts a resolution per dimension
 with KDEpy

---
 pointpats/kde.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointpats/kde.py b/pointpats/kde.py
index 5657375..e617ca6 100644
--- a/pointpats/kde.py
+++ b/pointpats/kde.py
@@ -158,7 +158,7 @@ def plot_density(
         kde = FFTKDE(bw=bandwidth, kernel=kernel)
         grid, points = kde.fit(data).evaluate(resolution)
         x_mesh, y_mesh = np.unique(grid[:, 0]), np.unique(grid[:, 1])
-        z = points.reshape(resolution, resolution).T
+        z = points.reshape(len(x_mesh), len(y_mesh)).T
 
     if fill:
         cs = ax.contourf(x_mesh, y_mesh, z, levels=levels, **kwargs)
-- 
2.43.0


From 58eb2ec0326ff5e6bc2faa65b9a8881b250ccf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:54 +0000
Subject: [PATCH 30/51] fix: RectangleM counts points of a pattern without
 extent in x or y

---
 pointpats/quadrat_statistics.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pointpats/quadrat_statistics.py b/pointpats/quadrat_statistics.py
index 12288a9..0b25fcd 100644
--- a/pointpats/quadrat_statistics.py
+++ b/pointpats/quadrat_statistics.py
@@ -192,8 +192,8 @@ class RectangleM:
         if rectangle_width and rectangle_height:
             self.rectangle_width = float(rectangle_width)
             self.rectangle_height = float(rectangle_height)
-            self.count_column = int(math.ceil(x_range / self.rectangle_width))
-            self.count_row = int(math.ceil(y_range / self.rectangle_height))
+            self.count_column = max(1, int(math.ceil(x_range / self.rectangle_width)))
+            self.count_row = max(1, int(math.ceil(y_range / self.rectangle_height)))
         else:
             self.count_column = int(count_column)
             self.count_row = int(count_row)
@@ -211,8 +211,12 @@ class RectangleM:
 
         x_min, y_min = self.mbb[0], self.mbb[1]
         for point in self.points:
-            index_x = (point[0] - x_min) // self.rectangle_width
-            index_y = (point[1] - y_min) // self.rectangle_height
+            # without extent in a direction, all cells coincide along it
+            index_x = index_y = 0
+            if self.rectangle_width:
+                index_x = (point[0] - x_min) // self.rectangle_width
+            if self.rectangle_height:
+                index_y = (point[1] - y_min) // self.rectangle_height
 
             if index_x == self.count_column:
                 index_x -= 1
-- 
2.43.0


From a688d2ac0beb04205f882ae1a4e623303743e7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:12 +0000
Subject: [PATCH 31/51] fix: j truncated at the first support value

---
 pointpats/distance_statistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointpats/distance_statistics.py b/pointpats/distance_statistics.py
index 7c59820..0155668 100644
--- a/pointpats/distance_statistics.py
+++ b/pointpats/distance_statistics.py
@@ -375,7 +375,7 @@ def j(
         if len(result[1]) != len(hazard_ratio):
             warnings.warn(
                 f"requested {support} bins to evaluate the J function, but"
-                f" it reaches infinity at d={result[0][-1]:.4f}, meaning only"
+                f" it reaches infinity at d={gsupport[len(result[0])]:.4f}, meaning only"
                 f" {len(result[0])} bins will be used to characterize the J function.",
                 stacklevel=2,
             )
-- 
2.43.0


From 16ac6622bcc98b794812cf9ef4cb57060e06e2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:17 +0000
Subject: [PATCH 32/51] fix: a cluster process realization needs no more than
 the requested parents

With a size that is not a multiple of the children per parent, too few
parents were drawn at first, and as many again to make up for it.
---
 pointpats/process.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pointpats/process.py b/pointpats/process.py
index 08b2d3a..294d6a3 100644
--- a/pointpats/process.py
+++ b/pointpats/process.py
@@ -467,8 +467,9 @@ class PoissonClusterPointProcess(PointProcess):
         _l, b, r, t = self.window.bbox
         d = self.radius
         # get parent points
-        pxs = np.random.uniform(_l, r, (int(n / self.children), 1))
-        pys = np.random.uniform(b, t, (int(n / self.children), 1))
+        n_parents = int(np.ceil(n / self.children))
+        pxs = np.random.uniform(_l, r, (n_parents, 1))
+        pys = np.random.uniform(b, t, (n_parents, 1))
         cents = np.hstack((pxs, pys))
         # generate children points
         pnts = [runif_in_circle(self.children, d, center) for center in cents]
-- 
2.43.0


From ff5de8ce455057cff9b19f4a961dcf8f1837d86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:37 +0000
Subject: [PATCH 33/51] fix: explore colours nonsignificant events as requested

The colour given for them was accepted and ignored.
---
 pointpats/spacetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointpats/spacetime.py b/pointpats/spacetime.py
index f091669..ce81eb0 100644
--- a/pointpats/spacetime.py
+++ b/pointpats/spacetime.py
@@ -1607,7 +1607,7 @@ class KnoxLocal:
         g = g.reset_index().merge(nbs, left_on="index", right_index=True, how="left")
 
         m = g[g.color == colors["nonsig"]].explore(
-            color="grey", style_kwds=style_kwds, tiles=tiles
+            color=colors["nonsig"], style_kwds=style_kwds, tiles=tiles
         )
         blues = g[g.color == colors["neighbor"]]
         if blues.shape[0] == 0:
-- 
2.43.0


From a252ff949e87d8e2817f00dd951c87f3239cd265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:14 +0000
Subject: [PATCH 34/51] fix: area() of an array of four points is not a box
 area

---
 pointpats/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointpats/geometry.py b/pointpats/geometry.py
index 154441a..a938f1b 100644
--- a/pointpats/geometry.py
+++ b/pointpats/geometry.py
@@ -60,7 +60,7 @@ def _(shape: numpy.ndarray):
     """
     If a shape describes a bounding box, compute length times width
     """
-    assert len(shape) == 4, "shape is not a bounding box!"
+    assert shape.shape == (4,), "shape is not a bounding box!"
     width, height = shape[2] - shape[0], shape[3] - shape[1]
     return numpy.abs(width * height)
 
-- 
2.43.0


From e8f5387d38ac9eb33aa94f789ddc83b48e921ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:58 +0000
Subject: [PATCH 35/51] fix: PointPattern.plot did not draw the holes of the
 window

---
 pointpats/pointpattern.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pointpats/pointpattern.py b/pointpats/pointpattern.py
index 7e21f67..90cefd5 100644
--- a/pointpats/pointpattern.py
+++ b/pointpats/pointpattern.py
@@ -195,8 +195,9 @@ class PointPattern:
         plt.title(title)
         if window:
             patches = []
-            for part in self.window.parts:
-                p = Polygon(np.asarray(part))
+            holes = [hole for hole in self.window.holes if hole]
+            for ring in self.window.parts + holes:
+                p = Polygon(np.asarray(ring))
                 patches.append(p)
             ax.add_collection(
                 PatchCollection(patches, facecolor="none", edgecolor="k", alpha=0.3)
-- 
2.43.0


From 1e503e65e0e11f0f9f3b060075505c56106fa909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:04 +0000
Subject: [PATCH 36/51] fix: minimum bounding circle of patterns far from the
 origin

---
 pointpats/centrography.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pointpats/centrography.py b/pointpats/centrography.py
index 16185fa..9cde405 100644
--- a/pointpats/centrography.py
+++ b/pointpats/centrography.py
@@ -1000,7 +1000,11 @@ def _(points: np.ndarray, **buffer_kw) -> tuple[tuple[float, float], float]:
         has_numba = True
     except ImportError:
         has_numba = False
-    points = hull(points)
+    # work relative to a corner of the pattern: far from the origin, the squares of
+    # the coordinates in the circumcenters would leave no digits for the pattern
+    points = points.astype(float)
+    origin = points.min(axis=0)
+    points = hull(points - origin)
     if not_clockwise(points):
         points = points[::-1]
         if not_clockwise(points):
@@ -1010,7 +1014,7 @@ def _(points: np.ndarray, **buffer_kw) -> tuple[tuple[float, float], float]:
         circ = _skyum_numba(_points)[0]
     else:
         circ = _skyum_lists(_points)[0]
-    return (circ[1], circ[2]), circ[0]
+    return (circ[1] + origin[0], circ[2] + origin[1]), circ[0]
 
 
 @minimum_bounding_circle.register
-- 
2.43.0


From 1f82887b7f9ebbb20a411b4414ed6b37729ef4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:10 +0000
Subject: [PATCH 37/51] fix: minimum bounding circle ignores hull points
 between their neighbours

---
 pointpats/centrography.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pointpats/centrography.py b/pointpats/centrography.py
index 9cde405..2593af0 100644
--- a/pointpats/centrography.py
+++ b/pointpats/centrography.py
@@ -1167,7 +1167,8 @@ def _circle(p, q, r, dmetric=_euclidean_distance):  # noqa: ARG001 - Unused `dme
     rx, ry = r
     angle = np.abs(_angle(p, q, r))
     if np.abs(angle - np.pi) < 1e-5:  # angle is pi
-        radius = _euclidean_distance(px, py, rx, ry) / 2.0
+        # q lies between p and r: their circle is a line
+        radius = np.inf
         center_x = (px + rx) / 2.0
         center_y = (py + ry) / 2.0
     elif np.abs(angle) < 1e-5:  # angle is zero
-- 
2.43.0


From c0abe43d62bff2652ea785c0b85b704e3eb168e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:26 +0000
Subject: [PATCH 38/51] fix: minimum rotated rectangle of patterns far from the
 origin

---
 pointpats/centrography.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pointpats/centrography.py b/pointpats/centrography.py
index 2593af0..e897af3 100644
--- a/pointpats/centrography.py
+++ b/pointpats/centrography.py
@@ -196,6 +196,16 @@ def minimum_rotated_rectangle(points, return_angle=False):
         raise NotImplementedError from e
 
 
+def _mrr(points):
+    # work relative to a corner of the pattern: far from the origin, the corners of
+    # the rectangle would have few digits left
+    origin = shapely.bounds(points)[:2]
+    rectangle = shapely.minimum_rotated_rectangle(
+        shapely.transform(points, lambda coords: coords - origin)
+    )
+    return shapely.transform(rectangle, lambda coords: coords + origin)
+
+
 def _get_mrr_angle(out_points):
     angle = (
         math.degrees(
@@ -213,9 +223,7 @@ def _get_mrr_angle(out_points):
 def _(
     points: np.ndarray, return_angle: bool = False
 ) -> NDArray[np.float64] | tuple[NDArray[np.float64], float]:
-    out_points = shapely.get_coordinates(
-        shapely.minimum_rotated_rectangle(shapely.multipoints(points))
-    )[:-1]
+    out_points = shapely.get_coordinates(_mrr(shapely.multipoints(points)))[:-1]
     if return_angle:
         return (out_points[::-1], _get_mrr_angle(out_points))
     return out_points[::-1]
@@ -225,7 +233,7 @@ def _(
 def _(
     points: GeoPandasBase, return_angle: bool = False
 ) -> shapely.Polygon | tuple[shapely.Polygon, float]:
-    rectangle = shapely.minimum_rotated_rectangle(shapely.multipoints(points.geometry))
+    rectangle = _mrr(shapely.multipoints(points.geometry))
 
     if return_angle:
         out_points = shapely.get_coordinates(rectangle)[:-1]
-- 
2.43.0


From 0e93c1f5fe3456092c0be78604f70caec8345045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:26 +0000
Subject: [PATCH 39/51] fix: area() of a box of small integers overflowed

---
 pointpats/geometry.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pointpats/geometry.py b/pointpats/geometry.py
index a938f1b..b647ab6 100644
--- a/pointpats/geometry.py
+++ b/pointpats/geometry.py
@@ -61,6 +61,7 @@ def _(shape: numpy.ndarray):
     If a shape describes a bounding box, compute length times width
     """
     assert shape.shape == (4,), "shape is not a bounding box!"
+    shape = shape.astype(float)  # the product need not fit the type of the box
     width, height = shape[2] - shape[0], shape[3] - shape[1]
     return numpy.abs(width * height)
 
-- 
2.43.0


From ec469914d08e54ae6f1a72c770f4efde7a573656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:26 +0000
Subject: [PATCH 40/51] fix: areas of patterns of small integers or far from
 the origin

---
 pointpats/pointpattern.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pointpats/pointpattern.py b/pointpats/pointpattern.py
index 90cefd5..2ce2794 100644
--- a/pointpats/pointpattern.py
+++ b/pointpats/pointpattern.py
@@ -221,7 +221,8 @@ class PointPattern:
         """
         mins = self.points.min(axis=0)
         maxs = self.points.max(axis=0)
-        return np.hstack((mins, maxs))
+        # differences and areas need not fit the type of the coordinates
+        return np.hstack((mins, maxs)).astype(float)
 
     mbb = cached_property(_mbb)
 
@@ -300,7 +301,10 @@ class PointPattern:
         """
         Area of convex hull
         """
-        h = self.hull
+        # relative to a vertex, in floating point: the products of the coordinates
+        # need not fit their type, nor leave any digits to the area
+        h = self.hull.astype(float)
+        h -= h[0]
         if not np.all(h[0] == h[-1]):
             # not in closed cartographic form
             h = np.vstack((h, h[0]))
-- 
2.43.0


From c9ba80f6b14e4b8f804b71d2cfa701b507b5bc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:26 +0000
Subject: [PATCH 41/51] fix: euclidean median of single precision coordinates

---
 pointpats/centrography.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pointpats/centrography.py b/pointpats/centrography.py
index e897af3..bb6628b 100644
--- a/pointpats/centrography.py
+++ b/pointpats/centrography.py
@@ -913,6 +913,7 @@ def euclidean_median(points):
 
 @euclidean_median.register
 def _(points: np.ndarray) -> NDArray[np.float64]:
+    points = points.astype(float)  # the search needs the precision
     start = mean_center(points)
     res = minimize(dtot, start, args=(points,))
     # the objective is not smooth at the points, where a gradient search can stall
-- 
2.43.0


From b817abe1461626edfa487a4e460af795f14eac11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:43 +0000
Subject: [PATCH 42/51] fix: normal() samples over an array of single precision
 points

---
 pointpats/random.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pointpats/random.py b/pointpats/random.py
index 867d399..799859c 100644
--- a/pointpats/random.py
+++ b/pointpats/random.py
@@ -250,8 +250,8 @@ def normal(hull, center=None, cov=None, size=None, rng=None):
     )
     if cov is None:
         bbox = _bbox(hull)
-        width = bbox[2] - bbox[0]
-        height = bbox[3] - bbox[1]
+        width = float(bbox[2]) - float(bbox[0])
+        height = float(bbox[3]) - float(bbox[1])
         cov = numpy.maximum(width / 2, height / 2) ** 2
 
     if isinstance(cov, (int, float)):
-- 
2.43.0


From 545b43fd43c90ab450dd74fb4451fc77a0e2cf01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:43 +0000
Subject: [PATCH 43/51] fix: dtot() of small integer coordinates

---
 pointpats/centrography.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pointpats/centrography.py b/pointpats/centrography.py
index bb6628b..f7ec591 100644
--- a/pointpats/centrography.py
+++ b/pointpats/centrography.py
@@ -841,6 +841,7 @@ def dtot(coord, points) -> float:
 
 @dtot.register
 def _(coord: np.ndarray, points: np.ndarray) -> float:
+    points = points.astype(float)  # squares need not fit small integers
     xd = points[:, 0] - coord[0]
     yd = points[:, 1] - coord[1]
     d = np.sqrt(xd * xd + yd * yd).sum()
-- 
2.43.0


From c9d9b157f01bbc8f958566de8392602f967df03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:06 +0000
Subject: [PATCH 44/51] fix: knox() of events with times in small integers

---
 pointpats/spacetime.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pointpats/spacetime.py b/pointpats/spacetime.py
index ce81eb0..e356be9 100644
--- a/pointpats/spacetime.py
+++ b/pointpats/spacetime.py
@@ -259,8 +259,9 @@ def knox(s_coords, t_coords, delta, tau, permutations=99, debug=False):  # noqa:
     ids = np.array(list(neigh_s), dtype=int).reshape(-1, 2)
 
     # For the neighboring pairs in space, determine which are also time
-    # neighbors
+    # neighbors (squares of time lags need not fit small integers)
 
+    t_coords = np.asarray(t_coords, dtype=float)
     d_t = (t_coords[ids[:, 0]] - t_coords[ids[:, 1]]) ** 2
     n_st = np.sum(d_t <= tau2, axis=0)
 
-- 
2.43.0


From 78afab3df08c7cfed233041e9af5564476356eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:16 +0000
Subject: [PATCH 45/51] fix: KnoxLocal hotspots of events identified by dates

---
 pointpats/spacetime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pointpats/spacetime.py b/pointpats/spacetime.py
index e356be9..38c0c4d 100644
--- a/pointpats/spacetime.py
+++ b/pointpats/spacetime.py
@@ -1287,8 +1287,8 @@ class KnoxLocal:
         self._crs = crs
         self.statistic_ = self.nsti
         self._id_map = dict(zip(rangeids, self._ids, strict=True))
-        self.adjlist["focal"] = self.adjlist["focal"].replace(self._id_map)
-        self.adjlist["neighbor"] = self.adjlist["neighbor"].replace(self._id_map)
+        self.adjlist["focal"] = self.adjlist["focal"].map(self._id_map)
+        self.adjlist["neighbor"] = self.adjlist["neighbor"].map(self._id_map)
         # reconstruct df
         geom = gpd.points_from_xy(self.s_coords[:, 0], self.s_coords[:, 1])
         _gdf = gpd.GeoDataFrame(geometry=geom, crs=self._crs, index=self._ids)
-- 
2.43.0


From 6df3032ee6bbb54715881b54ca333f7bfeb82008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:16 +0000
Subject: [PATCH 46/51] fix: KnoxLocal.explore() of events with a named index

---
 pointpats/spacetime.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pointpats/spacetime.py b/pointpats/spacetime.py
index 38c0c4d..4887e59 100644
--- a/pointpats/spacetime.py
+++ b/pointpats/spacetime.py
@@ -1605,7 +1605,8 @@ class KnoxLocal:
         g.loc[neighbors, "color"] = colors["neighbor"]
         g.loc[g.pvalue <= crit, "color"] = colors["focal"]
         nbs = self.adjlist.groupby("focal").agg(list)["neighbor"]
-        g = g.reset_index().merge(nbs, left_on="index", right_index=True, how="left")
+        g = g.rename_axis("index").reset_index()
+        g = g.merge(nbs, left_on="index", right_index=True, how="left")
 
         m = g[g.color == colors["nonsig"]].explore(
             color=colors["nonsig"], style_kwds=style_kwds, tiles=tiles
-- 
2.43.0


From 83d881c563cfd3451c980ca5cd18734585ffde40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:06 +0000
Subject: [PATCH 47/51] fix: KnoxLocal.explore leaves the caller's style_kwds
 alone

---
 pointpats/spacetime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pointpats/spacetime.py b/pointpats/spacetime.py
index 4887e59..7ce7ab4 100644
--- a/pointpats/spacetime.py
+++ b/pointpats/spacetime.py
@@ -1575,8 +1575,8 @@ class KnoxLocal:
         folium.Map
             an interactive map showing locally-significant spacetime hotspots
         """
-        if style_kwds is None:
-            style_kwds = {"radius": radius}
+        # geopandas adds its own defaults to the dictionary it is given
+        style_kwds = {"radius": radius} if style_kwds is None else dict(style_kwds)
         g = self._gdf.copy()
 
         g["color"] = colors["nonsig"]
-- 
2.43.0


From 6b07968af012364221153c20571d27ea8b879e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:39 +0000
Subject: [PATCH 48/51] fix: count permuted Mantel and modified Knox statistics
 that tie with the observed one

---
 pointpats/spacetime.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pointpats/spacetime.py b/pointpats/spacetime.py
index 7ce7ab4..46d6b3c 100644
--- a/pointpats/spacetime.py
+++ b/pointpats/spacetime.py
@@ -390,8 +390,7 @@ def mantel(
 
     # establish the pseudo significance of the observed statistic
     distribution = np.array(dist)
-    greater = np.ma.masked_greater_equal(distribution, stat)
-    count = np.ma.count_masked(greater)
+    count = _count_at_least(distribution, stat)
     pvalue = (count + 1.0) / (permutations + 1.0)
 
     # report the results
@@ -636,8 +635,7 @@ def modified_knox(s_coords, t_coords, delta, tau, permutations=99):
 
     # establish the pseudo significance of the observed statistic
     distribution = np.array(distribution)
-    greater = np.ma.masked_greater_equal(distribution, stat)
-    count = np.ma.count_masked(greater)
+    count = _count_at_least(distribution, stat)
     pvalue = (count + 1.0) / (permutations + 1.0)
 
     # return results
@@ -665,6 +663,15 @@ def _shuffle_matrix(x, ids):
     return x[ids, :][:, ids]
 
 
+def _count_at_least(distribution, stat):
+    """
+    The number of permuted statistics at least as large as the observed one.
+    Statistics that only differ by floating point error are equal.
+    """
+    tied = np.isclose(distribution, stat, rtol=1e-10, atol=1e-12)
+    return ((distribution > stat) | tied).sum()
+
+
 def _knox(s_coords, t_coords, delta, tau, permutations=99, keep=False):
     """
     Parameters
-- 
2.43.0


From 4680ec4b77a61122bfb86e58153eaa37b88b0496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:39 +0000
Subject: [PATCH 49/51] fix: count simulated chi-square statistics that tie
 with the observed one

---
 pointpats/quadrat_statistics.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pointpats/quadrat_statistics.py b/pointpats/quadrat_statistics.py
index 0b25fcd..2cf2603 100644
--- a/pointpats/quadrat_statistics.py
+++ b/pointpats/quadrat_statistics.py
@@ -697,9 +697,11 @@ class QStatistic:
                 chi2_realizations.append(chi2_sim)
 
             self.chi2_realizations = np.asarray(chi2_realizations, dtype=float)
-            self.chi2_r_pvalue = (np.sum(self.chi2_realizations >= self.chi2) + 1.0) / (
-                realizations + 1.0
+            # statistics that only differ by floating point error are ties
+            at_least = (self.chi2_realizations >= self.chi2) | np.isclose(
+                self.chi2_realizations, self.chi2, rtol=1e-9, atol=0
             )
+            self.chi2_r_pvalue = (np.sum(at_least) + 1.0) / (realizations + 1.0)
 
     def plot(self, title="Quadrat Count", show="counts"):
         if show == "counts":
-- 
2.43.0


From 08ef9eece21358490b7a0a5affe624016ebf232a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:39 +0000
Subject: [PATCH 50/51] fix: treat values of Ripley functions equal up to
 rounding as ties in their tests

---
 pointpats/distance_statistics.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pointpats/distance_statistics.py b/pointpats/distance_statistics.py
index 0155668..bae972b 100644
--- a/pointpats/distance_statistics.py
+++ b/pointpats/distance_statistics.py
@@ -623,7 +623,11 @@ def _ripley_test(
         pvalues = numpy.nan * numpy.ones_like(observed_support)
     else:
         # Calculate how many simulations are as extreme as the observed statistic
-        pvalues_count = (simulations_array >= observed_statistic).sum(axis=0)
+        # (values that only differ by floating point error are ties)
+        extreme = (simulations_array >= observed_statistic) | numpy.isclose(
+            simulations_array, observed_statistic, rtol=1e-12, atol=0
+        )
+        pvalues_count = extreme.sum(axis=0)
 
         # Conservative p-value calculation
         pvalues = (pvalues_count + 1) / (n_simulations + 1)
-- 
2.43.0


From 516b2d9f39041084879055abcecd7d495be90d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:57 +0000
Subject: [PATCH 51/51] fix: compare points with the slanted edges of hexagons
 relative to a corner of the edge

---
 pointpats/quadrat_statistics.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/pointpats/quadrat_statistics.py b/pointpats/quadrat_statistics.py
index 2cf2603..0ee6526 100644
--- a/pointpats/quadrat_statistics.py
+++ b/pointpats/quadrat_statistics.py
@@ -387,18 +387,13 @@ class HexagonM:
                     x0, y0 = center_x + self.h_length, center_y
                     x1, y1 = center_x + semi_cell_length, center_y + self.semi_height
                     indicator = -(
-                        point[1]
-                        - (
-                            (y0 - y1) / (x0 - x1) * point[0]
-                            + (x0 * y1 - x1 * y0) / (x0 - x1)
-                        )
+                        point[1] - (y0 + (y0 - y1) / (x0 - x1) * (point[0] - x0))
                     )
                 else:
                     x0, y0 = center_x + semi_cell_length, center_y - self.semi_height
                     x1, y1 = center_x + self.h_length, center_y
                     indicator = point[1] - (
-                        (y0 - y1) / (x0 - x1) * point[0]
-                        + (x0 * y1 - x1 * y0) / (x0 - x1)
+                        y0 + (y0 - y1) / (x0 - x1) * (point[0] - x0)
                     )
 
                 # the right edge of the last column belongs to that column
-- 
2.43.0

