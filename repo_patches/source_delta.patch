From 65df7876013c53072de0771fe66dc31d77a1c435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:24 +0000
Subject: [PATCH 001/105] fix: accept a depth for each point in
 Camera.uv_to_xyz

---
 src/glimpse/camera.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/camera.py b/src/glimpse/camera.py
index 9234bf4..74851f2 100644
--- a/src/glimpse/camera.py
+++ b/src/glimpse/camera.py
@@ -1468,7 +1468,7 @@ class Camera:
             xyz = np.dot(xy, self.R[0:2, :])
         # Simulate z = 1 by adding 3rd column of rotation matrix
         xyz += self.R.T[:, 2]
-        if depth != 1:
+        if np.any(np.atleast_1d(depth) != 1):
             xyz *= np.atleast_1d(depth).reshape(-1, 1)
         if not directions:
             xyz += self.xyz
-- 
2.43.0


From 349f86520a72340dec705770e2f43da5107c5ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:31 +0000
Subject: [PATCH 002/105] fix: undistort points on the vertical axis of the
 image (k1 only)

---
 src/glimpse/camera.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/camera.py b/src/glimpse/camera.py
index 74851f2..5a95232 100644
--- a/src/glimpse/camera.py
+++ b/src/glimpse/camera.py
@@ -1223,8 +1223,8 @@ class Camera:
         # r^3 + r / k1 - r'/k1 = 0
         phi = np.arctan2(xy[:, 1], xy[:, 0])
         Q = -1 / (3 * self.k[0])
-        # r' = y / cos(phi)
-        R = -xy[:, 0] / (2 * self.k[0] * np.cos(phi))
+        # r' = hypot(x, y) (x / cos(phi) is undefined for x = 0)
+        R = -np.hypot(xy[:, 0], xy[:, 1]) / (2 * self.k[0])
         has_three_roots = R ** 2 < Q ** 3
         r = np.full(len(xy), np.nan)
         if np.any(has_three_roots):
-- 
2.43.0


From 127b4664ad68805518024458bda5517cb8ffa06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:24 +0000
Subject: [PATCH 003/105] fix: do not modify lists passed to format_list

---
 src/glimpse/helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index 756db74..6774697 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -70,12 +70,12 @@ def format_list(
             x = x[0:length]
         elif nx < length:
             if default is not None:
-                x += [default] * (length - nx)
+                x = x + [default] * (length - nx)
             elif nx > 0:
                 # Repeat list
                 if length % nx != 0:
                     raise ValueError("Output length is not multiple of input length")
-                x *= length // nx
+                x = x * (length // nx)
     if dtype:
         x = [dtype(i) for i in x]
     return x
-- 
2.43.0


From b8666482265554ab77e852e75297dffb3d6f3b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:44 +0000
Subject: [PATCH 004/105] fix: rasterize points on the right and bottom edges
 of the image frame

---
 src/glimpse/camera.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/glimpse/camera.py b/src/glimpse/camera.py
index 5a95232..c0286ae 100644
--- a/src/glimpse/camera.py
+++ b/src/glimpse/camera.py
@@ -855,9 +855,9 @@ class Camera:
         """
         mask = self.inframe(uv)
         a = np.full((self.imgsz[1], self.imgsz[0]), np.nan)
-        helpers.rasterize_points(
-            uv[mask, 1].astype(int), uv[mask, 0].astype(int), values[mask], a=a
-        )
+        # Points on the right or bottom edge belong to the last column or row
+        cr = np.minimum(uv[mask].astype(int), self.imgsz - 1)
+        helpers.rasterize_points(cr[:, 1], cr[:, 0], values[mask], a=a)
         return a
 
     def spherical_to_xyz(self, angles: np.ndarray) -> np.ndarray:
@@ -1077,7 +1077,8 @@ class Camera:
             if not np.count_nonzero(is_in):
                 # No cells in image
                 return None
-            rc = uv[is_in, ::-1].astype(int)
+            # Points on the right or bottom edge belong to the last column or row
+            rc = np.minimum(uv[is_in].astype(int), self.imgsz - 1)[:, ::-1]
             # Compile values
             if has_values:
                 tile_values = tile_values[tile_mask][is_in]
-- 
2.43.0


From 9e01011533a97a3daaf91c21009c29450a73e47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:51 +0000
Subject: [PATCH 005/105] fix: rescale tiles in Camera.project_dem

---
 src/glimpse/camera.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/glimpse/camera.py b/src/glimpse/camera.py
index c0286ae..81eb355 100644
--- a/src/glimpse/camera.py
+++ b/src/glimpse/camera.py
@@ -1058,12 +1058,15 @@ class Camera:
                 tile_mask = scipy.ndimage.zoom(
                     tile_mask, zoom=float(tile_scale), order=0
                 )
-                tile_values = np.dstack(
-                    scipy.ndimage.zoom(
-                        tile_values[:, :, i], zoom=float(tile_scale), order=1
+                if has_values:
+                    tile_values = np.dstack(
+                        [
+                            scipy.ndimage.zoom(
+                                tile_values[:, :, i], zoom=float(tile_scale), order=1
+                            )
+                            for i in range(tile_values.shape[2])
+                        ]
                     )
-                    for i in range(tile_values.shape[2])
-                )
             # Project tile
             xyz = helpers.grid_to_points(
                 (tile.X[tile_mask], tile.Y[tile_mask], tile.array[tile_mask])
-- 
2.43.0


From e53145a9405daef15ba8df870a00173b39d49d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:39 +0000
Subject: [PATCH 006/105] fix: find where an edge starting on a box boundary
 leaves the box

---
 src/glimpse/helpers.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index 6774697..84ca5ae 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -769,9 +769,11 @@ def intersect_edge_box(
         0.5
     """
     distance = np.asarray(distance).reshape(1, -1)
-    t = np.nanmin(intersect_rays_box(origin, distance, box, t=True))
-    if t > 0 and t < 1:
-        return t
+    t = np.hstack(intersect_rays_box(origin, distance, box, t=True))
+    # Ignore intersections at (or beyond) the end points
+    t = t[(t > 0) & (t < 1)]
+    if t.size:
+        return t.min()
     return None
 
 
-- 
2.43.0


From 825824d3a5bf5599f3655577b29791af8f1cfd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:47 +0000
Subject: [PATCH 007/105] fix: intersect rays parallel to and on an x-axis
 bound of a box

---
 src/glimpse/helpers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index 84ca5ae..dab4814 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -827,6 +827,10 @@ def intersect_rays_box(
     tmin = (fbounds[idx] - origin[0]) * invdir[:, 0]
     idx = np.ravel_multi_index((all_rays, (1 - sign[:, 0]) * ndims), bounds.shape)
     tmax = (fbounds[idx] - origin[0]) * invdir[:, 0]
+    # Rays parallel to and on an x-axis bound are never limited by it (0 * inf = nan)
+    parallel = directions[:, 0] == 0
+    tmin[parallel & np.isnan(tmin)] = -np.inf
+    tmax[parallel & np.isnan(tmax)] = np.inf
     # Apply y-axis intersections
     idx = np.ravel_multi_index((all_rays, 1 + sign[:, 1] * ndims), bounds.shape)
     tymin = (fbounds[idx] - origin[1]) * invdir[:, 1]
-- 
2.43.0


From c80521c940b0936c8f87fc4a03800e9c9f67404e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:39 +0000
Subject: [PATCH 008/105] fix: apply fill values of interpolate_line in the
 order of the line

---
 src/glimpse/helpers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index dab4814..be6651d 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -1151,7 +1151,9 @@ def interpolate_line(
         error = False
         fill = "endpoints"
     # x must be increasing
-    if len(x) > 1 and x[1] < x[0]:
+    x = np.asarray(x)
+    reverse = len(x) > 1 and x[1] < x[0]
+    if reverse:
         sort_index = np.argsort(x)
         x = x[sort_index]
         vertices = vertices[sort_index, :]
@@ -1167,7 +1169,7 @@ def interpolate_line(
         fill = (fill, fill)
     left = np.less(xi, x[0])
     right = np.greater(xi, x[-1])
-    if x[0] > x[-1]:
+    if reverse:
         right, left = left, right
     if error and (left.any() or right.any()):
         raise ValueError("Requested distance outside range")
-- 
2.43.0


From 4c9d0bd92df9f8f8ef6dc2009578d48b6a4f49d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:48 +0000
Subject: [PATCH 009/105] fix: keep every cell of the circles of
 bresenham_circle

---
 src/glimpse/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index be6651d..f04eae0 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -1022,7 +1022,7 @@ def bresenham_circle(center: Iterable, radius: float) -> np.ndarray:
         # 8th octant
         xy[6 * octant_size - i, :] = [x0 - y, y0 - x]
     # Remove duplicate points
-    unique = [True] + (np.diff(xy, axis=0).sum(axis=1) != 0).tolist()
+    unique = [True] + (np.diff(xy, axis=0) != 0).any(axis=1).tolist()
     return xy[unique]
 
 
-- 
2.43.0


From 7b053c37ecf0eb6fa5ab21219f70b9122c2a60b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:37 +0000
Subject: [PATCH 010/105] fix: find the nearest neighbor in a list of one value

---
 src/glimpse/helpers.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index f04eae0..c780834 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -168,13 +168,9 @@ def _sorted_neighbors(x: Iterable, y: Iterable) -> np.ndarray:
     Returns:
         Index (in `x`) of left and right neighbors for each value in `y` (n, 2).
     """
-    index = np.searchsorted(x, y)
-    # index = 0 snap to 0
-    # 0 < index < len(x) snap to index - 1
-    index[(index > 0) & (index < len(x))] -= 1
-    # index = len(x) snap to index - 2
-    index[index == len(x)] -= 2
-    return np.column_stack((index, index + 1))
+    # Left neighbor is one of the first len(x) - 1 values (or the only value)
+    index = np.clip(np.searchsorted(x, y) - 1, 0, max(len(x) - 2, 0))
+    return np.column_stack((index, np.minimum(index + 1, len(x) - 1)))
 
 
 def sorted_nearest(x: Iterable, y: Iterable) -> np.ndarray:
-- 
2.43.0


From 1a95ac7129b61159c899fc42b0950f6eda4d4f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:39 +0000
Subject: [PATCH 011/105] fix: compute distances between datetimes
 independently of local time

---
 src/glimpse/helpers.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index c780834..7e2a5c4 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -1576,9 +1576,12 @@ def pairwise_distance_datetimes(
                [2., 3.],
                [1., 2.]])
     """
-    # Convert datetimes to POSIX timestamps (seconds since 1970-01-01 00:00:00 UTC)
-    x = [xi.timestamp() for xi in x]
-    y = [yi.timestamp() for yi in y]
+    # Convert datetimes to seconds since a common origin
+    # NOTE: Timestamps of naive datetimes depend on the local time zone
+    x, y = list(x), list(y)
+    origin = next(iter(x + y), None)
+    x = [(xi - origin).total_seconds() for xi in x]
+    y = [(yi - origin).total_seconds() for yi in y]
     return pairwise_distance(x, y, metric="minkowski", p=1)
 
 
-- 
2.43.0


From 24e4dc375d26a9be624971887e0ed670b7a9d090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:19 +0000
Subject: [PATCH 012/105] fix: round instead of truncate snapped array indices

---
 src/glimpse/raster.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 65b00ae..7ca646a 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -495,7 +495,8 @@ class Grid:
         origin = np.append(self.xlim[0], self.ylim[0])
         colrow = (xy - origin) / self.d - 0.5
         if snap:
-            colrow = colrow.astype(int)
+            # Round, since cell centers are subject to floating-point error
+            colrow = np.round(colrow).astype(int)
         return colrow[:, ::-1]
 
     def rowcol_to_idx(self, rowcol: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 99d886b97a8e84ba4339752e12f1efdf84057ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:27 +0000
Subject: [PATCH 013/105] fix: shape of grid samples of rasters with singleton
 dimensions

---
 src/glimpse/raster.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 7ca646a..c1c1df3 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -987,11 +987,11 @@ class Raster(Grid):
                 z = self._sample_1d(xy[dim], dim=dim, kind=methods[order])
                 samples = np.tile(
                     z.reshape(-1 if dim else 1, 1 if dim else -1),
-                    reps=(1 if dim else len(z), len(z) if dim else 1),
+                    reps=(1 if dim else len(xy[1]), len(xy[0]) if dim else 1),
                 )
             else:
                 # 0D: Return constant
-                samples = np.full((len(xy[0]), len(xy[1])), self.array.flat[0])
+                samples = np.full((len(xy[1]), len(xy[0])), self.array.flat[0])
             if has_fill:
                 # Fill out of bounds with value
                 samples[yout, :] = fill_value
-- 
2.43.0


From 06a32d33c91901acffe372c16d8e6ec41d91a36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:35 +0000
Subject: [PATCH 014/105] fix: only discard grid samples influenced by missing
 cells

---
 src/glimpse/raster.py | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index c1c1df3..4799005 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1048,24 +1048,28 @@ class Raster(Grid):
         """Sample raster values on regular grid."""
         x, y = xy
         signs = np.sign(self.d).astype(int)
-        # HACK: scipy.interpolate.RectBivariateSpline does not support NAN
-        Zmin = np.nanmin(self.array)
-        is_nan = np.isnan(self.array)
-        self.array[is_nan] = helpers.numpy_dtype_minmax(self.array.dtype)[0]
-        fun = scipy.interpolate.RectBivariateSpline(
-            self.y[:: signs[1]],
-            self.x[:: signs[0]],
-            self.array[:: signs[1], :: signs[0]],
-            bbox=(min(self.ylim), max(self.ylim), min(self.xlim), max(self.xlim)),
-            kx=kx,
-            ky=ky,
-            s=s,
-        )
         xdir = 1 if (len(x) < 2) or x[1] > x[0] else -1
         ydir = 1 if (len(y) < 2) or y[1] > y[0] else -1
-        samples = fun(y[::ydir], x[::xdir], grid=True)[::ydir, ::xdir]
-        samples[samples < Zmin] = np.nan
-        self.array[is_nan] = np.nan
+
+        def sample(array: np.ndarray) -> np.ndarray:
+            fun = scipy.interpolate.RectBivariateSpline(
+                self.y[:: signs[1]],
+                self.x[:: signs[0]],
+                array[:: signs[1], :: signs[0]],
+                bbox=(min(self.ylim), max(self.ylim), min(self.xlim), max(self.xlim)),
+                kx=kx,
+                ky=ky,
+                s=s,
+            )
+            return fun(y[::ydir], x[::xdir], grid=True)[::ydir, ::xdir]
+
+        is_nan = np.isnan(self.array)
+        if not is_nan.any():
+            return sample(self.array)
+        # scipy.interpolate.RectBivariateSpline does not support NAN
+        samples = sample(np.where(is_nan, 0, self.array))
+        # Discard samples influenced by NAN (ignoring rounding errors)
+        samples[np.abs(sample(is_nan.astype(float))) > 1e-9] = np.nan
         return samples
 
     def resample(self, grid: Grid, **kwargs: Any) -> None:
-- 
2.43.0


From 177e1e761c4c90cd37ed3ed0cf2a81c36ae29530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:50 +0000
Subject: [PATCH 015/105] fix: store grid size as an array so grids can be
 copied and resized

---
 src/glimpse/raster.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 4799005..1d3903a 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -51,7 +51,7 @@ class Grid:
         y: Iterable[Union[Number, Iterable[Number]]] = None,
         crs: Union[int, str] = None,
     ) -> None:
-        self._size = size
+        self.size = size
         self.xlim, self._x, self._X = self._parse_xy(x, dim=0)
         self.ylim, self._y, self._Y = self._parse_xy(y, dim=1)
         self.crs = crs
@@ -216,7 +216,7 @@ class Grid:
             buf_xsize = win_xsize
             buf_ysize = win_ysize
         grid.xlim, grid.ylim = xlim, ylim
-        grid.n = (buf_xsize, buf_ysize)
+        grid.size = (buf_xsize, buf_ysize)
         return grid
 
     # ---- Methods (private) ----
@@ -871,7 +871,9 @@ class Raster(Grid):
         """Grid dimensions (nx, ny)."""
         if self._array is None:
             # HACK: Use gdal.ReadAsArray arguments
-            return self._gdal_kwargs["buf_xsize"], self._gdal_kwargs["buf_ysize"]
+            return np.array(
+                (self._gdal_kwargs["buf_xsize"], self._gdal_kwargs["buf_ysize"])
+            )
         return np.array(self._array.shape[0:2][::-1]).astype(int)
 
     @property
-- 
2.43.0


From 401ad3963d65b737f3729cd67198201cf7889b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:57 +0000
Subject: [PATCH 016/105] fix: clear cached coordinates when the size of a grid
 is set

---
 src/glimpse/raster.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 1d3903a..7eff43b 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -83,6 +83,7 @@ class Grid:
         if (value <= 0).any():
             raise ValueError("Grid dimensions must be positive")
         self._size = value
+        self._clear_cache()
 
     @property
     def xlim(self) -> np.ndarray:
-- 
2.43.0


From c3186847ea3eb6b148180134e77565306682566b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:04 +0000
Subject: [PATCH 017/105] fix: keep coordinate reference system of grid and
 raster copies and subsets

---
 src/glimpse/raster.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 7eff43b..2db2add 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -286,7 +286,9 @@ class Grid:
 
     def copy(self) -> "Grid":
         """Copy grid."""
-        return Grid(self.size.copy(), x=self.xlim.copy(), y=self.ylim.copy())
+        return Grid(
+            self.size.copy(), x=self.xlim.copy(), y=self.ylim.copy(), crs=self.crs
+        )
 
     def resize(self, scale: Number) -> None:
         """
@@ -691,7 +693,9 @@ class Raster(Grid):
             x = x[[0, -1]] + (-0.5, 0.5) * d[0:1]
         if len(y) < 3:
             y = y[[0, -1]] + (-0.5, 0.5) * d[1:2]
-        return self.__class__(self.array[i, j], x=x, y=y, datetime=self.datetime)
+        return self.__class__(
+            self.array[i, j], x=x, y=y, datetime=self.datetime, crs=self.crs
+        )
 
     @classmethod
     def open(
@@ -886,7 +890,7 @@ class Raster(Grid):
     @property
     def grid(self) -> "Grid":
         """Raster grid."""
-        return Grid(self.size, x=self.xlim, y=self.ylim)
+        return Grid(self.size, x=self.xlim, y=self.ylim, crs=self.crs)
 
     # ---- Properties (cached) ----
 
@@ -910,6 +914,7 @@ class Raster(Grid):
             x=self.xlim.copy(),
             y=self.ylim.copy(),
             datetime=copy.copy(self.datetime),
+            crs=self.crs,
         )
 
     def sample(
-- 
2.43.0


From 92c05268160996eeef82f850a853f09e230b9d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:12 +0000
Subject: [PATCH 018/105] fix: shift grids and rasters without modifying shared
 arrays or stale interpolants

---
 src/glimpse/raster.py | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 2db2add..b1d31cb 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -270,17 +270,18 @@ class Grid:
     def _shift_xy(self, dx: Number = None, dy: Number = None) -> None:
         """Shift grid position."""
         if dx is not None:
-            self._xlim += dx
+            # Not in place, since arrays may be integer or shared with other grids
+            self._xlim = self._xlim + dx
             if self._x is not None:
-                self._x += dx
+                self._x = self._x + dx
             if self._X is not None:
-                self._X += dx
+                self._X = self._X + dx
         if dy is not None:
-            self._ylim += dy
+            self._ylim = self._ylim + dy
             if self._y is not None:
-                self._y += dy
+                self._y = self._y + dy
             if self._Y is not None:
-                self._Y += dy
+                self._Y = self._Y + dy
 
     # ---- Methods ---- #
 
@@ -1218,16 +1219,10 @@ class Raster(Grid):
         """
         self._shift_xy(dx=dx, dy=dy)
         if dz is not None:
-            # Prevent reset of cached interpolants
-            self._array += dz
-        if self._Zf is not None:
-            # Shift cached interpolants
-            if dx is not None:
-                self._Zf.grid[0][:] += dx
-            if dy is not None:
-                self._Zf.grid[1][:] += dy
-            if dy is not None:
-                self._Zf.values += dz
+            # Not in place, since array may be integer or shared with other rasters
+            self._array = self.array + dz
+        # Reset cached interpolants
+        self._clear_cache(["Zf"])
 
     def fill_circle(
         self, center: Iterable[Number], radius: Number, value: Any = np.nan
-- 
2.43.0


From 08fe9cf9c34dd399b766abcb1b7d9fce3105fa0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:33 +0000
Subject: [PATCH 019/105] fix: clear cached interpolants when the limits of a
 raster are set

---
 src/glimpse/raster.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index b1d31cb..7eedbb0 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -906,6 +906,12 @@ class Raster(Grid):
             )
         return self._Zf
 
+    # ---- Methods (private) ----
+
+    def _clear_cache(self, attributes: Iterable[str] = ["x", "X", "y", "Y"]) -> None:
+        """Clear cached attributes and the interpolator, which depends on them."""
+        super()._clear_cache([*attributes, "Zf"])
+
     # ---- Methods (public) ----
 
     def copy(self) -> "Raster":
-- 
2.43.0


From 6fc2ecbf382e07f8bacf4d6a0ef6abf765607be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:43 +0000
Subject: [PATCH 020/105] fix: clear cached interpolants when filling a circle
 of raster cells

---
 src/glimpse/raster.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 7eedbb0..41ee11f 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1257,6 +1257,8 @@ class Raster(Grid):
                 ind.extend(self.rowcol_to_idx(rowcols))
         # Apply
         self.array.flat[ind] = value
+        # Cached interpolants may hold a copy of the array
+        self._clear_cache(["Zf"])
 
     def hillshade(
         self, azimuth: Number = 315, altitude: Number = 45, **kwargs: Any
-- 
2.43.0


From a257e821a11fc3dc929d9d3e8853d7397a43fd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:21 +0000
Subject: [PATCH 021/105] fix: crop integer rasters to z limits that hold all
 values

---
 src/glimpse/raster.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 41ee11f..8a0063f 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1186,12 +1186,11 @@ class Raster(Grid):
             self.ylim = ylim
         if zlim is not None:
             outbounds = (self.array < min(zlim)) | (self.array > max(zlim))
-            if np.count_nonzero(outbounds) and not issubclass(
-                self.array.dtype.type, np.floating
-            ):
-                warnings.warn("array cast to float to accommodate NaN")
-                self.array = self.array.astype(float)
-            self.array[outbounds] = np.nan
+            if np.count_nonzero(outbounds):
+                if not issubclass(self.array.dtype.type, np.floating):
+                    warnings.warn("array cast to float to accommodate NaN")
+                    self.array = self.array.astype(float)
+                self.array[outbounds] = np.nan
 
     def resize(self, scale: Number, order: int = 1) -> None:
         """
-- 
2.43.0


From 8bb6c26e897a8f3f298249c9dd0e7f98cb3db31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:44 +0000
Subject: [PATCH 022/105] fix: cache the entire raster when reading and caching
 a box

---
 src/glimpse/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 8a0063f..f395d4e 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -813,7 +813,7 @@ class Raster(Grid):
             raster = osgeo.gdal.Open(self.path, osgeo.gdal.GA_ReadOnly)
             band = raster.GetRasterBand(self._band)
             kwargs = self._gdal_kwargs
-            if box is not None:
+            if box is not None and not cache:
                 # Convert box coordinates to source coordinates
                 scale = np.array((kwargs["win_xsize"], kwargs["win_ysize"])) / np.array(
                     (kwargs["buf_xsize"], kwargs["buf_ysize"])
-- 
2.43.0


From a9de694dd5046c6150e23aeab208192cf85e2980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:52 +0000
Subject: [PATCH 023/105] fix: replace no-data values of zero when opening a
 raster

---
 src/glimpse/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index f395d4e..7a5011c 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -747,7 +747,7 @@ class Raster(Grid):
         dtype = osgeo.gdal_array.GDALTypeCodeToNumericTypeCode(raster_band.DataType)
         is_float = np.issubdtype(dtype, np.floating)
         default_nan = raster_band.GetNoDataValue()
-        if nan is None and (is_float and default_nan):
+        if nan is None and is_float and default_nan is not None:
             nan = default_nan
         crs = raster.GetProjection()
         obj = cls(None, x=xlim, y=ylim, datetime=datetime, crs=crs if crs else None)
-- 
2.43.0


From 2f0ca65b036c076a9696ac35ca835b3251dd9113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:46 +0000
Subject: [PATCH 024/105] fix: negative indices and steps of raster subsets

---
 src/glimpse/raster.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 7a5011c..b9ac761 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -681,13 +681,13 @@ class Raster(Grid):
             raise IndexError("Only integers and slices are valid indices")
         i, j = indices[0], indices[1]
         if not isinstance(i, slice):
-            i = slice(i, i + 1)
+            i = slice(i, i + 1 or None)
         if not isinstance(j, slice):
-            j = slice(j, j + 1)
+            j = slice(j, j + 1 or None)
         d = self.d
-        if i.step and i.step > 1:
+        if i.step:
             d[1] *= i.step
-        if j.step and j.step > 1:
+        if j.step:
             d[0] *= j.step
         x, y = self.x[j], self.y[i]
         if len(x) < 3:
-- 
2.43.0


From c4278cbe0650427778bb6db4e38abdb9136c7932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:56 +0000
Subject: [PATCH 025/105] fix: keep overlapping tiles within the grid

---
 src/glimpse/raster.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index b9ac761..296b553 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -604,9 +604,9 @@ class Grid:
         yends = np.insert(np.searchsorted(yi, np.unique(yi), side="right"), 0, 0)
         # HACK: Achieves overlap by increasing tile size
         xstarts = xends.copy()
-        xstarts[1:-1] -= overlap[0]
+        xstarts[1:-1] = np.maximum(xstarts[1:-1] - overlap[0], 0)
         ystarts = yends.copy()
-        ystarts[1:-1] -= overlap[1]
+        ystarts[1:-1] = np.maximum(ystarts[1:-1] - overlap[1], 0)
         return tuple(
             (slice(ystarts[i], yends[i + 1]), slice(xstarts[j], xends[j + 1]))
             for i in range(len(ystarts) - 1)
-- 
2.43.0


From 860a4289105d7e25a0063a9f2e6998c7274b0526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:16 +0000
Subject: [PATCH 026/105] fix: fill circles in rasters with x decreasing from
 left to right

---
 src/glimpse/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 296b553..797463e 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1242,7 +1242,7 @@ class Raster(Grid):
         """
         # Circle indices
         rowcol = self.xy_to_rowcol(np.atleast_2d(center[0:2]), snap=True)
-        r = np.round(radius / self.d[0])
+        r = np.round(radius / abs(self.d[0]))
         xyi = helpers.bresenham_circle(rowcol[0, ::-1], r).astype(int)
         # Filled circle indices
         ind = []
-- 
2.43.0


From 2b525d476f32dc47a984c1a814802cebc53dbd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:25 +0000
Subject: [PATCH 027/105] fix: raster cells without points are NaN when
 rasterizing points

---
 src/glimpse/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 797463e..6fe41cd 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1132,7 +1132,7 @@ class Raster(Grid):
         """
         mask = self.inbounds_xy(xy)
         rowcol = self.xy_to_rowcol(xy[mask, :], snap=True)
-        array = self.array.copy()
+        array = np.full(self.shape, np.nan)
         helpers.rasterize_points(rowcol[:, 0], rowcol[:, 1], values[mask], a=array)
         return array
 
-- 
2.43.0


From a4a4418fca8394115722275ede17d7b6948fe874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:53 +0000
Subject: [PATCH 028/105] fix: horizon of rays that miss the raster, end at its
 bounds, or meet no values

---
 src/glimpse/raster.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 6fe41cd..af69492 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1441,13 +1441,15 @@ class Raster(Grid):
             rowcol = self.xy_to_rowcol(np.atleast_2d(origin[0:2]), snap=True)
             starts = np.repeat(rowcol[:, ::-1], n, axis=0)
         else:
-            rowcol = self.xy_to_rowcol(xy_starts)
-            starts = rowcol[:, ::-1]
-        rowcol = self.xy_to_rowcol(xy_ends, snap=True)
-        ends = rowcol[:, ::-1]
+            rowcol = self.xy_to_rowcol(np.nan_to_num(xy_starts), snap=True)
+            starts = np.clip(rowcol[:, ::-1], 0, self.size - 1)
+        # Clip, since intersections are subject to floating-point error
+        rowcol = self.xy_to_rowcol(np.nan_to_num(xy_ends), snap=True)
+        ends = np.clip(rowcol[:, ::-1], 0, self.size - 1)
+        misses = np.isnan(xy_ends).any(axis=1)
         # Iterate over line in each direction
         hxyz = np.full((n, 3), np.nan)
-        for i in range(n):
+        for i in np.flatnonzero(~misses):
             rowcol = helpers.bresenham_line(starts[i, :], ends[i, :])[:, ::-1]
             if inside:
                 # Skip start cell
@@ -1455,6 +1457,9 @@ class Raster(Grid):
             idx = self.rowcol_to_idx(rowcol)
             # TODO: Precompute Z.flatten()?
             dz = self.array.flat[idx] - origin[2]
+            if np.isnan(dz).all():
+                # No cells or no values along the ray
+                continue
             xy = self.rowcol_to_xy(rowcol)
             dxy = np.sum((xy - origin[0:2]) ** 2, axis=1)  # wait to take square root
             if isinstance(correction, dict):
-- 
2.43.0


From d5fd46bfc88434e9a764c8aa752258672d03b1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:04 +0000
Subject: [PATCH 029/105] fix: resize rasters without shifting values relative
 to coordinates

---
 src/glimpse/raster.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index af69492..123a736 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1201,7 +1201,10 @@ class Raster(Grid):
             order: Interpolation order
                 (0: nearest, 1: linear, 2: quadratic, 3: cubic, 4: quartic, 5: quintic).
         """
-        self.array = scipy.ndimage.zoom(self.array, zoom=float(scale), order=order)
+        # Align outer limits (rather than the centers of the outer cells)
+        self.array = scipy.ndimage.zoom(
+            self.array, zoom=float(scale), order=order, mode="nearest", grid_mode=True
+        )
 
     def shift(self, dx: Number = None, dy: Number = None, dz: Number = None) -> None:
         """
-- 
2.43.0


From 72d515aaf2a647fb0c178e8f925bc3d8a0c7c445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:12 +0000
Subject: [PATCH 030/105] fix: scale with which raster interpolant resizes
 rasters to the target cell size

---
 src/glimpse/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 123a736..2ee0c17 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1605,7 +1605,7 @@ class RasterInterpolant:
             if xlim_change or ylim_change:
                 obj.crop(xlim=xlim, ylim=ylim)
             if d_change:
-                scale = d / np.abs(obj.d).mean()
+                scale = np.abs(obj.d).mean() / d
                 obj.resize(scale)
             return obj
         if isinstance(obj, str):
-- 
2.43.0


From 50290a24f62e266914d5ce8b4a35e73212725b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:21 +0000
Subject: [PATCH 031/105] fix: interpolate rasters at the coordinate of a
 raster

---
 src/glimpse/raster.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 2ee0c17..a9b3449 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1703,7 +1703,8 @@ class RasterInterpolant:
         """Interpolate between two rasters."""
         dz = means[1].array - means[0].array
         dx = x[1] - x[0]
-        scale = (xi - x[0]) / dx
+        # Coordinates are equal if xi is the coordinate of a raster
+        scale = (xi - x[0]) / dx if dx else 0
         z = means[0].array + dz * scale
         t = xi if isinstance(xi, datetime.datetime) else None
         raster = means[0].__class__(z, x=means[0].xlim, y=means[0].ylim, datetime=t)
@@ -1715,7 +1716,7 @@ class RasterInterpolant:
             )
             # Interpolation uncertainty: nearest bound at 99.7%
             nearest_dx = np.min(np.abs(np.subtract(xi, x)))
-            zi_var = ((1 / 3) * dz * (nearest_dx / dx)) ** 2
+            zi_var = ((1 / 3) * dz * (nearest_dx / dx if dx else 0)) ** 2
             sigma = raster.__class__(
                 np.sqrt(z_var + zi_var), x=means[0].xlim, y=means[0].ylim, datetime=t
             )
-- 
2.43.0


From 7030ea744862011533b16e6bc4054e6dd2db2df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:39 +0000
Subject: [PATCH 032/105] fix: interpolate between rasters, numbers, and
 uncertainties of different sizes

---
 src/glimpse/raster.py | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index a9b3449..06ff89b 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1614,6 +1614,15 @@ class RasterInterpolant:
             return Raster.open(obj, d=d, xlim=xlim, ylim=ylim, datetime=t)
         raise ValueError("Cannot cast as Raster: " + str(type(obj)))
 
+    @staticmethod
+    def _resample(raster: Raster, grid: Grid, obj: Union[Raster, str, Number]) -> Raster:
+        """Resample raster to grid, without modifying the object it was parsed from."""
+        if raster.grid != grid:
+            if raster is obj:
+                raster = raster.copy()
+            raster.resample(grid)
+        return raster
+
     def _read_mean(
         self,
         index: int,
@@ -1764,7 +1773,9 @@ class RasterInterpolant:
         # Determine common grid (lowest resolution, smallest extent)
         grids = [self._read_mean_grid(k) for k in ij]
         if d is None:
-            d = np.max(np.abs(np.stack([grid.d for grid in grids])))
+            # Ignore infinite rasters
+            d = np.abs(np.stack([grid.d for grid in grids]))
+            d = np.max(d[np.isfinite(d)]) if np.isfinite(d).any() else None
         if xlim is None:
             xlim = (-np.inf, np.inf)
         if ylim is None:
@@ -1778,17 +1789,19 @@ class RasterInterpolant:
             self._read_mean(k, d=d, xlim=xlim, ylim=ylim, zlim=zlim, fun=fun, **kwargs)
             for k in ij
         ]
-        if means[0].grid != means[1].grid:
-            if means[1] is self.means[ij[1]]:
-                means[1] = means[1].copy()
-            means[1].resample(means[0])
+        # Resample to grid of first raster that is not infinite
+        first = int(isinstance(self.means[ij[0]], numbers.Number))
+        grid = means[first].grid
+        means = [
+            self._resample(raster, grid, self.means[k]) for raster, k in zip(means, ij)
+        ]
         # Read sigma rasters
         if return_sigma:
             sigmas = [self._read_sigma(k, d=d, xlim=xlim, ylim=ylim) for k in ij]
-            if sigmas[0].grid != sigmas[1].grid:
-                if sigmas[1] is self.sigmas[ij[1]]:
-                    sigmas[1] = sigmas[1].copy()
-                sigmas[1].resample(sigmas[0])
+            objs = (0, 0) if self.sigmas is None else [self.sigmas[k] for k in ij]
+            sigmas = [
+                self._resample(raster, grid, obj) for raster, obj in zip(sigmas, objs)
+            ]
         else:
             sigmas = None
         # Interpolate
-- 
2.43.0


From b99bdc7096ee94d408f9a72d9d2c5728ee0fd7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:43 +0000
Subject: [PATCH 033/105] fix: draw residual resamples in proportion to the
 remaining weights

---
 src/glimpse/track/tracker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/track/tracker.py b/src/glimpse/track/tracker.py
index 616e0e4..d74af42 100644
--- a/src/glimpse/track/tracker.py
+++ b/src/glimpse/track/tracker.py
@@ -193,7 +193,7 @@ class Tracker:
             # NOTE: Assumes weights sum to 1
             repetitions = (n * weights).astype(int)
             initial_indexes = np.repeat(np.arange(n), repetitions)
-            residuals = weights - repetitions
+            residuals = n * weights - repetitions
             residuals *= 1 / residuals.sum()
             cumulative_sum = np.cumsum(residuals)
             cumulative_sum[-1] = 1.0
-- 
2.43.0


From 274d935d4ac425376208276e25cb08be76119e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:51 +0000
Subject: [PATCH 034/105] fix: resample particles when cumulative weights round
 to less than one

---
 src/glimpse/track/tracker.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/track/tracker.py b/src/glimpse/track/tracker.py
index d74af42..1a85d34 100644
--- a/src/glimpse/track/tracker.py
+++ b/src/glimpse/track/tracker.py
@@ -173,7 +173,8 @@ class Tracker:
             positions = (np.arange(n) + np.random.random()) * (1 / n)
             cumulative_weight = np.cumsum(weights)
             # NOTE: Assumes weights sum to 1
-            return np.searchsorted(cumulative_weight, positions)
+            # NOTE: Sum may round to less than 1, so skip the last
+            return np.searchsorted(cumulative_weight[:-1], positions)
 
         def stratified(n: int, weights: np.ndarray) -> np.ndarray:
             """Stratified resampling."""
@@ -183,7 +184,8 @@ class Tracker:
             positions = (np.arange(n) + np.random.random(n)) * (1 / n)
             cumulative_weight = np.cumsum(weights)
             # NOTE: Assumes weights sum to 1
-            return np.searchsorted(cumulative_weight, positions)
+            # NOTE: Sum may round to less than 1, so skip the last
+            return np.searchsorted(cumulative_weight[:-1], positions)
 
         def residual(n: int, weights: np.ndarray) -> np.ndarray:
             """Residual resampling."""
-- 
2.43.0


From f7d907aeb1fb68aa22c381aa58d1e0ecb4708b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:11 +0000
Subject: [PATCH 035/105] fix: numbers and missing uncertainties as surfaces of
 motion models

---
 src/glimpse/track/motion.py | 55 +++++++++++++++++--------------------
 1 file changed, 25 insertions(+), 30 deletions(-)

diff --git a/src/glimpse/track/motion.py b/src/glimpse/track/motion.py
index 20a7c96..33d8c21 100644
--- a/src/glimpse/track/motion.py
+++ b/src/glimpse/track/motion.py
@@ -10,6 +10,13 @@ Index = Union[slice, Iterable[int]]
 Number = Union[int, float]
 
 
+def _sample(surface: Union[Number, Raster], xy: np.ndarray) -> np.ndarray:
+    """Sample a surface, either a raster or a constant, at points (n, [x, y])."""
+    if isinstance(surface, Raster):
+        return surface.sample(xy)
+    return np.full(len(xy), surface, dtype=float)
+
+
 class Motion:
     """
     Illustration of the motion model interface required by :class:`Tracker`.
@@ -133,11 +140,7 @@ class CartesianMotion(Motion):
     ) -> None:
         self.xy = xy
         self.time_unit = time_unit
-        if not isinstance(dem, Raster):
-            dem = Raster(dem)
         self.dem = dem
-        if not isinstance(dem_sigma, Raster):
-            dem_sigma = Raster(dem_sigma)
         self.dem_sigma = dem_sigma
         self.n = n
         self.xy_sigma = xy_sigma
@@ -155,9 +158,9 @@ class CartesianMotion(Motion):
         """
         particles = np.zeros((self.n, 6), dtype=float)
         particles[:, 0:2] = self.xy + self.xy_sigma * np.random.randn(self.n, 2)
-        particles[:, 2] = self.dem.sample(particles[:, 0:2])
+        particles[:, 2] = _sample(self.dem, particles[:, 0:2])
         if self.dem_sigma is not None:
-            z_sigma = self.dem_sigma.sample(particles[:, 0:2])
+            z_sigma = _sample(self.dem_sigma, particles[:, 0:2])
             particles[:, 2] += z_sigma * np.random.randn(self.n)
         particles[:, 3:6] = self.vxyz + self.vxyz_sigma * np.random.randn(self.n, 3)
         return particles
@@ -193,8 +196,8 @@ class CartesianMotion(Motion):
         """
         if self.dem_sigma is None:
             return None
-        z = self.dem.sample(particles[:, 0:2])
-        z_sigma = self.dem_sigma.sample(particles[:, 0:2])
+        z = _sample(self.dem, particles[:, 0:2])
+        z_sigma = _sample(self.dem_sigma, particles[:, 0:2])
         # Avoid division by zero
         nonzero = np.nonzero(z_sigma)[0]
         log_likelihoods = np.zeros(len(particles), dtype=float)
@@ -244,11 +247,7 @@ class CylindricalMotion(CartesianMotion):
     ) -> None:
         self.xy = xy
         self.time_unit = time_unit
-        if not isinstance(dem, Raster):
-            dem = Raster(dem)
         self.dem = dem
-        if not isinstance(dem_sigma, Raster):
-            dem_sigma = Raster(dem_sigma)
         self.dem_sigma = dem_sigma
         self.n = n
         self.xy_sigma = xy_sigma
@@ -266,9 +265,9 @@ class CylindricalMotion(CartesianMotion):
         """
         particles = np.zeros((self.n, 6), dtype=float)
         particles[:, 0:2] = self.xy + self.xy_sigma * np.random.randn(self.n, 2)
-        particles[:, 2] = self.dem.sample(particles[:, 0:2])
+        particles[:, 2] = _sample(self.dem, particles[:, 0:2])
         if self.dem_sigma is not None:
-            z_sigma = self.dem_sigma.sample(particles[:, 0:2])
+            z_sigma = _sample(self.dem_sigma, particles[:, 0:2])
             particles[:, 2] += z_sigma * np.random.randn(self.n)
         v = self.vrthz + self.vrthz_sigma * np.random.randn(self.n, 3)
         particles[:, 3:6] = np.column_stack(
@@ -362,11 +361,7 @@ class TangentCartesianMotion(Motion):
     ) -> None:
         self.xy = xy
         self.time_unit = time_unit
-        if not isinstance(dem, Raster):
-            dem = Raster(dem)
         self.dem = dem
-        if not isinstance(dem_sigma, Raster):
-            dem_sigma = Raster(dem_sigma)
         self.dem_sigma = dem_sigma
         self.n = n
         self.xy_sigma = xy_sigma
@@ -385,8 +380,10 @@ class TangentCartesianMotion(Motion):
         """
         particles = np.zeros((self.n, 6), dtype=float)
         particles[:, 0:2] = self.xy + self.xy_sigma * np.random.randn(self.n, 2)
-        z_offsets = self.dem_sigma.sample(particles[:, 0:2]) * np.random.randn(self.n)
-        particles[:, 2] = self.dem.sample(particles[:, 0:2]) + z_offsets
+        particles[:, 2] = _sample(self.dem, particles[:, 0:2])
+        if self.dem_sigma is not None:
+            z_sigma = _sample(self.dem_sigma, particles[:, 0:2])
+            particles[:, 2] += z_sigma * np.random.randn(self.n)
         particles[:, 3:5] = self.vxy + self.vxy_sigma * np.random.randn(self.n, 2)
         return particles
 
@@ -403,12 +400,12 @@ class TangentCartesianMotion(Motion):
         axy = self.axy + self.axy_sigma * np.random.randn(n, 2)
         dxy = time_units * particles[:, 3:5] + 0.5 * axy * time_units ** 2
         # HACK: Recover z_offsets (since particles may have been resampled)
-        z_offsets = particles[:, 2] - self.dem.sample(particles[:, 0:2])
+        z_offsets = particles[:, 2] - _sample(self.dem, particles[:, 0:2])
         z_offsets += (
             self.slope_sigma * np.random.randn(n) * (dxy ** 2).sum(axis=1) ** 0.5
         )
         particles[:, 0:2] += dxy
-        particles[:, 2] = self.dem.sample(particles[:, 0:2]) + z_offsets
+        particles[:, 2] = _sample(self.dem, particles[:, 0:2]) + z_offsets
         particles[:, 3:5] += time_units * axy
 
 
@@ -453,11 +450,7 @@ class TangentCylindricalMotion(Motion):
     ) -> None:
         self.xy = xy
         self.time_unit = time_unit
-        if not isinstance(dem, Raster):
-            dem = Raster(dem)
         self.dem = dem
-        if not isinstance(dem_sigma, Raster):
-            dem_sigma = Raster(dem_sigma)
         self.dem_sigma = dem_sigma
         self.n = n
         self.xy_sigma = xy_sigma
@@ -476,8 +469,10 @@ class TangentCylindricalMotion(Motion):
         """
         particles = np.zeros((self.n, 6), dtype=float)
         particles[:, 0:2] = self.xy + self.xy_sigma * np.random.randn(self.n, 2)
-        z_offsets = self.dem_sigma.sample(particles[:, 0:2]) * np.random.randn(self.n)
-        particles[:, 2] = self.dem.sample(particles[:, 0:2]) + z_offsets
+        particles[:, 2] = _sample(self.dem, particles[:, 0:2])
+        if self.dem_sigma is not None:
+            z_sigma = _sample(self.dem_sigma, particles[:, 0:2])
+            particles[:, 2] += z_sigma * np.random.randn(self.n)
         vrth = self.vrth + self.vrth_sigma * np.random.randn(self.n, 2)
         particles[:, 3:5] = np.column_stack(
             (
@@ -513,10 +508,10 @@ class TangentCylindricalMotion(Motion):
         )
         dxy = time_units * particles[:, 3:5] + 0.5 * axy * time_units ** 2
         # HACK: Recover z_offsets (since particles may have been resampled)
-        z_offsets = particles[:, 2] - self.dem.sample(particles[:, 0:2])
+        z_offsets = particles[:, 2] - _sample(self.dem, particles[:, 0:2])
         z_offsets += (
             self.slope_sigma * np.random.randn(n) * (dxy ** 2).sum(axis=1) ** 0.5
         )
         particles[:, 0:2] += dxy
-        particles[:, 2] = self.dem.sample(particles[:, 0:2]) + z_offsets
+        particles[:, 2] = _sample(self.dem, particles[:, 0:2]) + z_offsets
         particles[:, 3:5] += time_units * axy
-- 
2.43.0


From 23a9eb68c7820f62c148d2d863c6101155391579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:18 +0000
Subject: [PATCH 036/105] fix: evolve particles at rest with cylindrical motion

---
 src/glimpse/track/motion.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/glimpse/track/motion.py b/src/glimpse/track/motion.py
index 33d8c21..612e0e1 100644
--- a/src/glimpse/track/motion.py
+++ b/src/glimpse/track/motion.py
@@ -294,6 +294,8 @@ class CylindricalMotion(CartesianMotion):
         vx = particles[:, 3]
         vy = particles[:, 4]
         vr = np.sqrt(vx ** 2 + vy ** 2)
+        # Particles at rest have no direction (and thus no radial acceleration)
+        vr[vr == 0] = 1
         arthz = self.arthz + self.arthz_sigma * np.random.randn(n, 3)
         axyz = np.column_stack(
             (
@@ -497,6 +499,8 @@ class TangentCylindricalMotion(Motion):
         vx = particles[:, 3]
         vy = particles[:, 4]
         vr = np.sqrt(vx ** 2 + vy ** 2)
+        # Particles at rest have no direction (and thus no radial acceleration)
+        vr[vr == 0] = 1
         arth = self.arth + self.arth_sigma * np.random.randn(n, 2)
         axy = np.column_stack(
             (
-- 
2.43.0


From 9217225dc6871a8543db94d95563aafdcf22dc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:03 +0000
Subject: [PATCH 037/105] fix: compute distances between datetimes without
 rounding

---
 src/glimpse/helpers.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index 7e2a5c4..2ec4809 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -1576,13 +1576,14 @@ def pairwise_distance_datetimes(
                [2., 3.],
                [1., 2.]])
     """
-    # Convert datetimes to seconds since a common origin
+    # Convert datetimes to (whole) microseconds since a common origin
     # NOTE: Timestamps of naive datetimes depend on the local time zone
     x, y = list(x), list(y)
     origin = next(iter(x + y), None)
-    x = [(xi - origin).total_seconds() for xi in x]
-    y = [(yi - origin).total_seconds() for yi in y]
-    return pairwise_distance(x, y, metric="minkowski", p=1)
+    unit = datetime.timedelta(microseconds=1)
+    x = [(xi - origin) / unit for xi in x]
+    y = [(yi - origin) / unit for yi in y]
+    return pairwise_distance(x, y, metric="minkowski", p=1) / 1e6
 
 
 def datetime_range(
-- 
2.43.0


From 434ec3d49a3a2e9349942877f21dcfc49c8f44b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:26 +0000
Subject: [PATCH 038/105] fix: track with observers that have no matching
 images

---
 src/glimpse/track/tracker.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/track/tracker.py b/src/glimpse/track/tracker.py
index 1a85d34..283d758 100644
--- a/src/glimpse/track/tracker.py
+++ b/src/glimpse/track/tracker.py
@@ -292,7 +292,9 @@ class Tracker:
             observer_mask = np.ones((ntracks, len(self.observers)), dtype=bool)
         # Compute matching images
         matching_images = self.match_datetimes(datetimes=datetimes, maxdt=maxdt)
-        template_indices = np.not_equal(matching_images, None).argmax(axis=0)
+        matched = np.not_equal(matching_images, None)
+        # NOTE: No template for Observers without matching images
+        template_indices = np.where(matched.any(axis=0), matched.argmax(axis=0), -1)
         # Cache matching images
         if ntracks > 1:
             for i, observer in enumerate(self.observers):
-- 
2.43.0


From e96f5e4f65eea3b839361be7786d1ee6a2ec1600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:20 +0000
Subject: [PATCH 039/105] fix: search for templates at the offset of their
 particles

---
 src/glimpse/track/tracker.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/track/tracker.py b/src/glimpse/track/tracker.py
index 283d758..a5e11f1 100644
--- a/src/glimpse/track/tracker.py
+++ b/src/glimpse/track/tracker.py
@@ -584,7 +584,11 @@ class Tracker:
         size = np.asarray(self.templates[obs]["tile"].shape[0:2][::-1])
         uv = self.observers[obs].xyz_to_uv(self.particles[:, 0:3], img=img)
         halfsize = size * 0.5
-        box = np.row_stack((uv.min(axis=0) - halfsize, uv.max(axis=0) + halfsize))
+        # (relative to template tile, which is offset from its particles)
+        duv = self.templates[obs]["duv"]
+        box = np.row_stack(
+            (uv.min(axis=0) - duv - halfsize, uv.max(axis=0) - duv + halfsize)
+        )
         # Enlarge box to ensure SSE has cols, rows (ky + 1, kx + 1) for interpolation
         ky = self.interpolation.get("ky", 3)
         ncols = ky - (np.diff(box[:, 0]) - size[0])
@@ -621,7 +625,7 @@ class Tracker:
         box_edge = halfsize - 0.5
         sse_box = box + np.concatenate((box_edge, -box_edge))
         # (shift by subpixel offset of template tile)
-        sse_box += np.tile(self.templates[obs]["duv"], 2)
+        sse_box += np.tile(duv, 2)
         # Sample at projected particles
         sampled_sse = self.observers[obs].sample_tile(
             uv, tile=sse, box=sse_box, grid=False, **self.interpolation
-- 
2.43.0


From 69db7b07acbabf5fdef17b7ddc4387277a30204c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:45 +0000
Subject: [PATCH 040/105] fix: split observers into equal parts without
 rounding

---
 src/glimpse/track/observer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index 87fac3b..03d02cf 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -477,8 +477,8 @@ class Observer:
         if np.iterable(n):
             breaks = np.unique(np.hstack((n, self.datetimes[[0, -1]])))
         else:
-            dt = (self.datetimes[-1] - self.datetimes[0]) / n
-            breaks = helpers.datetime_range(self.datetimes[0], self.datetimes[-1], dt)
+            dt = self.datetimes[-1] - self.datetimes[0]
+            breaks = [self.datetimes[0] + dt * i / n for i in range(n + 1)]
         observers = []
         start = breaks[0]
         for i in range(len(breaks) - 1):
-- 
2.43.0


From d7ef49263cc18c1dd7d8b38e51fccc71eef47dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:54 +0000
Subject: [PATCH 041/105] fix: shift tiles without changing them

---
 src/glimpse/track/observer.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index 03d02cf..f37b52c 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -168,12 +168,14 @@ class Observer:
         cv = np.arange(0.5, tile.shape[0])  # y|rows
         # Interpolate at shifted center coordinates
         tile = np.atleast_3d(tile)
+        # (as new array, since values are not necessarily of the same type)
+        shifted = np.empty(tile.shape, dtype=float)
         for i in range(tile.shape[2]):
             f = scipy.interpolate.RectBivariateSpline(cv, cu, tile[:, :, i], **kwargs)
-            tile[:, :, i] = f(cv + duv[1], cu + duv[0], grid=True)
-        if tile.shape[2] == 1:
-            return tile.squeeze(axis=2)
-        return tile
+            shifted[:, :, i] = f(cv + duv[1], cu + duv[0], grid=True)
+        if shifted.shape[2] == 1:
+            return shifted.squeeze(axis=2)
+        return shifted
 
     def sample_tile(
         self,
-- 
2.43.0


From 2bef45985cde177bdbff4c1d41a07cd957443634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:06 +0000
Subject: [PATCH 042/105] fix: sample tiles of any resolution

---
 src/glimpse/track/observer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index f37b52c..7c8e0e1 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -206,8 +206,8 @@ class Observer:
         du = (box[2] - box[0]) / tile.shape[1]
         dv = (box[3] - box[1]) / tile.shape[0]
         # Cell center coordinates
-        cu = np.arange(box[0] + du * 0.5, box[2])  # x|cols
-        cv = np.arange(box[1] + dv * 0.5, box[3])  # y|rows
+        cu = box[0] + du * (np.arange(tile.shape[1]) + 0.5)  # x|cols
+        cv = box[1] + dv * (np.arange(tile.shape[0]) + 0.5)  # y|rows
         # Interpolate at arbitrary coordinates
         f = scipy.interpolate.RectBivariateSpline(cv, cu, tile, **kwargs)
         if grid:
-- 
2.43.0


From 6d5c8e87fae9927963327719251b489cbcd25568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:17 +0000
Subject: [PATCH 043/105] fix: sample tiles at grid coordinates

---
 src/glimpse/track/observer.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index 7c8e0e1..ed1645d 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -200,7 +200,14 @@ class Observer:
         Raises:
             ValueError: Some sampling points are outside box.
         """
-        if not np.all(helpers.in_box(uv, box)):
+        if grid:
+            inside = all(
+                np.all((np.asarray(x) >= box[i]) & (np.asarray(x) <= box[i + 2]))
+                for i, x in enumerate(uv)
+            )
+        else:
+            inside = np.all(helpers.in_box(uv, box))
+        if not inside:
             raise ValueError("Some sampling points are outside box")
         # Cell sizes
         du = (box[2] - box[0]) / tile.shape[1]
-- 
2.43.0


From 557c79e225ef8460103a3c82bd4376f740c8db9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:48 +0000
Subject: [PATCH 044/105] fix: rasterize points with multiple values

---
 src/glimpse/camera.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/glimpse/camera.py b/src/glimpse/camera.py
index 81eb355..7295857 100644
--- a/src/glimpse/camera.py
+++ b/src/glimpse/camera.py
@@ -842,8 +842,9 @@ class Camera:
             values: Point values (n, ) or (n, d).
 
         Returns:
-            Image array (float) of mean values of the same dimensions as :attr:`imgsz`.
-            Pixels without points are `NaN`.
+            Image array (float) of mean values of the same dimensions as :attr:`imgsz`,
+            and a 3rd dimension corresponding to each column (if more than one)
+            of `values`. Pixels without points are `NaN`.
 
         Example:
             >>> cam = Camera(imgsz=(3, 2), f=1)
@@ -854,7 +855,10 @@ class Camera:
                    [nan, nan,  3.]])
         """
         mask = self.inframe(uv)
-        a = np.full((self.imgsz[1], self.imgsz[0]), np.nan)
+        shape = self.imgsz[1], self.imgsz[0]
+        if values.ndim > 1 and values.shape[1] > 1:
+            shape += (values.shape[1],)
+        a = np.full(shape, np.nan)
         # Points on the right or bottom edge belong to the last column or row
         cr = np.minimum(uv[mask].astype(int), self.imgsz - 1)
         helpers.rasterize_points(cr[:, 1], cr[:, 0], values[mask], a=a)
-- 
2.43.0


From 427c5e3e611c425f4b31acd91dd8e396f9b34c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:25 +0000
Subject: [PATCH 045/105] fix: scale masks and values of DEM tiles like their
 elevations

---
 src/glimpse/camera.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/glimpse/camera.py b/src/glimpse/camera.py
index 7295857..8c70fe5 100644
--- a/src/glimpse/camera.py
+++ b/src/glimpse/camera.py
@@ -1059,15 +1059,17 @@ class Camera:
             tile_scale = min(max(tile_scale, min(scale_limits)), max(scale_limits))
             if tile_scale != 1:
                 tile.resize(tile_scale)
-                tile_mask = scipy.ndimage.zoom(
-                    tile_mask, zoom=float(tile_scale), order=0
-                )
+                # Align limits as for elevations (see Raster.resize)
+                zoom = {
+                    "zoom": float(tile_scale),
+                    "mode": "nearest",
+                    "grid_mode": True,
+                }
+                tile_mask = scipy.ndimage.zoom(tile_mask, order=0, **zoom)
                 if has_values:
                     tile_values = np.dstack(
                         [
-                            scipy.ndimage.zoom(
-                                tile_values[:, :, i], zoom=float(tile_scale), order=1
-                            )
+                            scipy.ndimage.zoom(tile_values[:, :, i], order=1, **zoom)
                             for i in range(tile_values.shape[2])
                         ]
                     )
-- 
2.43.0


From e21a9ad4c5ec534f210909e3968780e39baf0696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:09 +0000
Subject: [PATCH 046/105] fix: read parts of resized images

---
 src/glimpse/image.py | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/src/glimpse/image.py b/src/glimpse/image.py
index 2b9546c..63dcf6b 100644
--- a/src/glimpse/image.py
+++ b/src/glimpse/image.py
@@ -143,7 +143,8 @@ class Image:
             cache: Whether to cache image values.
                 If `True`, the region is extracted from the cached image.
                 If `False`, the region is extracted directly from the file
-                (faster than reading the entire image).
+                (faster than reading the entire image),
+                unless the image is resized.
 
         Example:
             The image is read and resized as needed to match the camera image size.
@@ -171,26 +172,24 @@ class Image:
             >>> np.all(tile == a[box[1] : box[3], box[0] : box[2]])
             True
         """
-        size = self._cache_imgsz or self._path_imgsz
         cam_size = tuple(self.cam.imgsz)
-        resize = cam_size != size
-        new_array = True
-        if self.array is not None and not resize:
+        crop = box is not None
+        if self.array is not None and self._cache_imgsz == cam_size:
             array = self.array
-            new_array = False
         else:
             ds = osgeo.gdal.Open(self.path)
             args = {}
-            if resize:
-                args["buf_xsize"], args["buf_ysize"] = cam_size
-            if box is not None and not cache:
-                # Resize box to actual image size
-                xscale, yscale = size[0] / cam_size[0], size[1] / cam_size[1]
+            if cam_size != (ds.RasterXSize, ds.RasterYSize):
+                # Read full image, since the resized pixels of an image subset
+                # are not the subset of the pixels of the resized image
+                args["buf_xsize"], args["buf_ysize"] = map(int, cam_size)
+            elif box is not None and not cache:
                 # Read image subset
-                args["xoff"] = int(round(box[0] * xscale))
-                args["win_xsize"] = int(round((box[2] - box[0]) * xscale))
-                args["yoff"] = int(round(box[1] * yscale))
-                args["win_ysize"] = int(round((box[3] - box[1]) * yscale))
+                args["xoff"] = int(box[0])
+                args["win_xsize"] = int(box[2] - box[0])
+                args["yoff"] = int(box[1])
+                args["win_ysize"] = int(box[3] - box[1])
+                crop = False
             array = np.dstack(
                 [
                     ds.GetRasterBand(i + 1).ReadAsArray(**args)
@@ -202,8 +201,7 @@ class Image:
             if cache:
                 array = sharedmem.copy(array)
                 self.array = array
-        if box is not None and (cache or not new_array):
-            # Caching and cropping: Subset cached array
+        if crop:
             array = array[box[1] : box[3], box[0] : box[2]]
         return array
 
-- 
2.43.0


From 0cfa4ba163aa699b13900ec1b1d09304f54bb5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:52 +0000
Subject: [PATCH 047/105] fix: take missing image settings from metadata

---
 src/glimpse/image.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/glimpse/image.py b/src/glimpse/image.py
index 63dcf6b..58e631b 100644
--- a/src/glimpse/image.py
+++ b/src/glimpse/image.py
@@ -93,16 +93,17 @@ class Image:
         if not cam:
             cam = {}
         if isinstance(cam, dict):
+            in_mm = "f" not in cam or "cmm" in cam
             if not (
-                "imgsz" in cam and "f" in cam or ("fmm" in cam and "sensorsz" in cam)
+                "imgsz" in cam
+                and ("f" in cam or "fmm" in cam)
+                and ("sensorsz" in cam or not in_mm)
             ):
                 exif = exif or Exif(path)
-                cam = {
-                    "imgsz": exif.imgsz,
-                    "fmm": exif.fmm,
-                    "sensorsz": exif.sensorsz,
-                    **cam,
-                }
+                defaults = {"imgsz": exif.imgsz, "sensorsz": exif.sensorsz}
+                if "f" not in cam:
+                    defaults["fmm"] = exif.fmm
+                cam = {**defaults, **cam}
             cam = Camera(**cam)
         self.cam = cam
         if not datetime:
-- 
2.43.0


From f4cb2dc9980ab492fc5cfc033f9c553a00cf3623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:50 +0000
Subject: [PATCH 048/105] fix: keep normalized coordinates of matches in step
 when filtered

---
 src/glimpse/optimize.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 2badb7a..1065d0c 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -540,8 +540,8 @@ class Matches:
     def _test_matches(self) -> None:
         if self.cams[0] is self.cams[1]:
             raise ValueError("Both cameras are the same object")
-        # HACK: Support subclasses with xyzs and optional uvs
-        uvs = self.uvs or self.xyzs
+        # HACK: Support subclasses with xys and optional uvs
+        uvs = self.xys if self.uvs is None else self.uvs
         if len(self.cams) != 2 or len(uvs) != 2:
             raise ValueError(
                 "Cameras and point coordinates do not have two elements each"
@@ -730,10 +730,10 @@ class Matches:
                 axis=1,
             )
             selected[selected] &= distances <= max_distance
-        # HACK: Support for RotationMatches
-        if self.uvs:
+        if self.uvs is not None:
             self.uvs = [uv[selected] for uv in self.uvs]
-        else:
+        # HACK: Support for RotationMatches
+        if getattr(self, "xys", None) is not None:
             self.xys = [xy[selected] for xy in self.xys]
         if self.weights is not None:
             self.weights = self.weights[selected]
-- 
2.43.0


From 9ba9311996da43db2616e395f7f49544c002c799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:57 +0000
Subject: [PATCH 049/105] fix: filter matches by limits of zero

---
 src/glimpse/optimize.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 1065d0c..0402a48 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -702,17 +702,17 @@ class Matches:
             ValueError: Filtering on weights failed since these are missing.
         """
         selected = np.ones(self.size, dtype=bool)
-        if (n_best or min_weight) and self.weights is None:
+        if (n_best is not None or min_weight is not None) and self.weights is None:
             raise ValueError("Filtering on weights failed since these are missing")
         if self.weights is not None:
-            if n_best:
+            if n_best is not None:
                 order = np.argsort(-self.weights)
                 selected[order[min(n_best, self.size) :]] = False
-            if min_weight:
+            if min_weight is not None:
                 selected &= self.weights >= min_weight
         ci = self._cam_index(cam)
         co = 0 if ci else 1
-        if max_error:
+        if max_error is not None:
             if scaled:
                 max_error = max_error * self.cams[ci].imgsz[0]
             errors = np.linalg.norm(
@@ -720,7 +720,7 @@ class Matches:
                 axis=1,
             )
             selected[selected] &= errors <= max_error
-        if max_distance and selected.any():
+        if max_distance is not None and selected.any():
             if scaled:
                 max_distance = max_distance * self.cams[ci].imgsz[0]
             scale = self.cams[ci].imgsz / self.cams[co].imgsz
-- 
2.43.0


From 6ccd4a84542b0ca3edfe754a37fd6a1e60710064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:07 +0000
Subject: [PATCH 050/105] fix: select no elements of camera parameters not
 wanted

---
 src/glimpse/optimize.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 0402a48..6d2bed4 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -1494,13 +1494,13 @@ class Cameras:
                     selection = value[0]
                 else:
                     selection = value
-                if selection or selection == 0:
-                    i = attributes.index(key)
-                    if selection is True:
-                        positions = range(indices[i], indices[i + 1])
-                    else:
-                        positions = indices[i] + np.atleast_1d(selection)
-                    mask[positions] = True
+                i = attributes.index(key)
+                positions = np.arange(indices[i], indices[i + 1])
+                if selection is None or selection is False:
+                    positions = positions[:0]
+                elif selection is not True:
+                    positions = np.atleast_1d(positions[selection])
+                mask[positions] = True
                 if isinstance(value, tuple):
                     min_bounds = np.atleast_1d(value[1])
                     if len(min_bounds) == 1:
-- 
2.43.0


From 3dd6a1e0c2d28006df145426318afb2f9dea068c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:16 +0000
Subject: [PATCH 051/105] fix: set parameters of cameras outside of groups

---
 src/glimpse/optimize.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 6d2bed4..2d1f8cb 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -1688,9 +1688,10 @@ class Cameras:
                 self.cams[j]._vector[self.group_masks[i]] = params[
                     self.group_breaks[i] : self.group_breaks[i + 1]
                 ]
-                self.cams[j]._vector[self.cam_masks[j]] = params[
-                    self.cam_breaks[j] : self.cam_breaks[j + 1]
-                ]
+        for j, cam in enumerate(self.cams):
+            cam._vector[self.cam_masks[j]] = params[
+                self.cam_breaks[j] : self.cam_breaks[j + 1]
+            ]
         if save:
             self.vectors = [cam.to_array() for cam in self.cams]
 
-- 
2.43.0


From 780f8a0774cff131905cecb274e3474cd1e16df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:23 +0000
Subject: [PATCH 052/105] fix: restore cameras when prediction fails

---
 src/glimpse/optimize.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 2d1f8cb..52d5310 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -1730,20 +1730,18 @@ class Cameras:
             params: Parameter values (see :meth:`Cameras.set_cameras`).
             index: Indices of points to return.
         """
-        if params is not None:
-            vectors = [cam.to_array() for cam in self.cams]
-            self.set_cameras(params)
-        if len(self.controls) == 1:
-            result = self.controls[0].predicted(index=index)
-        else:
+        vectors = [cam.to_array() for cam in self.cams]
+        try:
+            if params is not None:
+                self.set_cameras(params)
+            if len(self.controls) == 1:
+                return self.controls[0].predicted(index=index)
             # TODO: Map index to subindices for each control
-            result = np.vstack([control.predicted() for control in self.controls])[
-                index
-            ]
-        if params is not None:
-            for cam, vector in zip(self.cams, vectors):
-                cam._vector = vector
-        return result
+            return np.vstack([control.predicted() for control in self.controls])[index]
+        finally:
+            if params is not None:
+                for cam, vector in zip(self.cams, vectors):
+                    cam._vector = vector
 
     def residuals(
         self, params: FitParams = None, index: Index = slice(None)
-- 
2.43.0


From 1e2d6d6050b7ed6deda34e313959378d4dad023b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:50 +0000
Subject: [PATCH 053/105] fix: scale camera positions by the mean distance

---
 src/glimpse/optimize.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 52d5310..f55a3ef 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -1359,9 +1359,8 @@ class Cameras:
                         xyz.extend(control.xyzs)
             if xyz:
                 # NOTE: Upper bound (assumes motion perpendicular to feature direction)
-                dpixels[0:3] = (
-                    cam.f.mean() / np.linalg.norm(np.vstack(xyz) - cam.xyz).mean()
-                )
+                distances = np.linalg.norm(np.vstack(xyz) - cam.xyz, axis=1)
+                dpixels[0:3] = cam.f.mean() / distances.mean()
         # viewdir[0, 1]
         # First angle rotates camera left-right
         # Second angle rotates camera up-down
-- 
2.43.0


From f0a00cd2b4f968a7dc401c3a2effef18dc29961a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:03 +0000
Subject: [PATCH 054/105] fix: fit cameras in stages with their own groups and
 scales

---
 src/glimpse/optimize.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index f55a3ef..67518d6 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -1810,6 +1810,7 @@ class Cameras:
                 by group or camera (group, cam0, cam1, ...),
                 then ordered by position in :meth:`Camera.to_array()`.
         """
+        iter_kwargs = kwargs
         kwargs = {"nan_policy": "omit", **kwargs}
         if method == "leastsq":
             if self.scales is not None and "diag" not in kwargs:
@@ -1840,6 +1841,7 @@ class Cameras:
             len(group_params) if group_params else 0,
         )
         if iterations:
+            vectors = [cam.to_array() for cam in self.cams]
             for n in range(iterations):
                 iter_cam_params = cam_params[n] if cam_params else self.cam_params
                 iter_group_params = (
@@ -1849,9 +1851,13 @@ class Cameras:
                     cams=self.cams,
                     controls=self.controls,
                     cam_params=iter_cam_params,
+                    group_indices=self.group_indices,
                     group_params=iter_group_params,
+                    weights=self.weights,
+                    scales=self.scales is not None,
+                    sparsity=self.sparsity is not None,
                 )
-                values = model.fit(index=index, method=method, **kwargs)
+                values = model.fit(index=index, method=method, **iter_kwargs)
                 if values is not None:
                     model.set_cameras(params=values)
             self.update_params()
@@ -1865,7 +1871,8 @@ class Cameras:
         )
         sys.stdout.write("\n")
         if iterations:
-            self.reset_cameras()
+            for cam, vector in zip(self.cams, vectors):
+                cam._vector = vector
             self.update_params()
         if not result.success:
             print(result.message)
-- 
2.43.0


From 2ea097529bd9a3a875e287f1bc87c4b5fffb64d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:42 +0000
Subject: [PATCH 055/105] fix: draw all samples of few points

---
 src/glimpse/optimize.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 67518d6..e4c7614 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -11,6 +11,7 @@ import matplotlib.pyplot
 import numpy as np
 import scipy.optimize
 import scipy.sparse
+import scipy.special
 
 from . import config, helpers
 from .camera import Camera
@@ -2172,14 +2173,7 @@ def _ransac_samples(n: int, size: int, iterations: int = 100) -> List[int]:
     """
     if n >= size:
         raise ValueError("Sample size is larger or equal to total size")
-    # Estimate factorial with log(gamma) to avoid overflow
-    log = (
-        np.math.lgamma(size + 1) - np.math.lgamma(n + 1) - np.math.lgamma(size - n + 1)
-    )
-    if log:
-        # Compute max iterations if no float overflow
-        max_iterations = np.floor(np.exp(log))
-        iterations = min(iterations, max_iterations)
+    iterations = min(iterations, scipy.special.comb(size, n, exact=True))
     samples = set()
     indices = np.arange(size)
     while len(samples) < iterations:
-- 
2.43.0


From 3f1cd45ca26c2dae6229c950b64dc39984155937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:50 +0000
Subject: [PATCH 056/105] fix: return empty coordinates when no keypoints match

---
 src/glimpse/optimize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index e4c7614..15258b7 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2274,8 +2274,8 @@ def match_keypoints(
             matches = [m for m in matches if (m[0].queryIdx, m[0].trainIdx) in ba]
         if max_ratio:
             matches = [m for m in matches if m[0].distance / m[1].distance < max_ratio]
-        uva = np.asarray([ka[0][m[0].queryIdx].pt for m in matches])
-        uvb = np.asarray([kb[0][m[0].trainIdx].pt for m in matches])
+        uva = np.asarray([ka[0][m[0].queryIdx].pt for m in matches]).reshape(-1, 2)
+        uvb = np.asarray([kb[0][m[0].trainIdx].pt for m in matches]).reshape(-1, 2)
         if return_ratios:
             ratios = np.array([m.distance / n.distance for m, n in matches])
         if max_distance:
-- 
2.43.0


From 0e862fd46ea26a7672b25df65c3d0803240cce66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:55 +0000
Subject: [PATCH 057/105] fix: start orientations from a vector

---
 src/glimpse/optimize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 15258b7..e9fdf62 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2045,7 +2045,7 @@ class ObserverCameras:
         """
         # Ensure matches are in COO sparse matrix format
         matches = self.matches
-        if not isinstance(matches, scipy.sparse.coo.coo_matrix):
+        if not isinstance(matches, scipy.sparse.coo_matrix):
             matches = scipy.sparse.coo_matrix(matches)
 
         # Define combined objective, jacobian function
@@ -2077,7 +2077,7 @@ class ObserverCameras:
             return objective, gradients.ravel()
 
         # Optimize camera view directions
-        viewdirs_0 = [img.cam.viewdir for img in self.observer.images]
+        viewdirs_0 = np.concatenate([img.cam.viewdir for img in self.observer.images])
         result = scipy.optimize.minimize(
             fun=fun, x0=viewdirs_0, jac=True, method=method, **kwargs
         )
-- 
2.43.0


From 21b5db477abf17967e09dcb9ece98a6dd1d86492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:02 +0000
Subject: [PATCH 058/105] fix: give the gradient of distances between rays

---
 src/glimpse/optimize.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index e9fdf62..dd4f1b8 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2063,14 +2063,14 @@ class ObserverCameras:
                 # Project matches
                 dxyz = m.predicted(cam=0) - m.predicted(cam=1)
                 objective += np.sum(np.abs(dxyz))
-                # i -> j
-                xy_hat = np.column_stack((m.xys[0], np.ones(m.size)))
-                dD_dw = np.matmul(m.cams[0].Rprime, xy_hat.T)
                 delta = np.sign(dxyz).reshape(-1, 3, 1)
-                gradient = np.sum(np.matmul(dD_dw.T, delta).T, axis=2).squeeze()
-                gradients[i] += gradient
-                # j -> i
-                gradients[j] -= gradient
+                for c, image, sign in (0, i, 1), (1, j, -1):
+                    # Rays of unit length (before rotation)
+                    xy_hat = np.column_stack((m.xys[c], np.ones(m.size)))
+                    xy_hat *= 1 / np.linalg.norm(xy_hat, axis=1, keepdims=True)
+                    dD_dw = np.matmul(m.cams[c].Rprime, xy_hat.T)
+                    gradient = np.sum(np.matmul(dD_dw.T, delta).T, axis=2).squeeze()
+                    gradients[image] += sign * gradient
             # Update console output
             sys.stdout.write("\r" + str(objective))
             sys.stdout.flush()
-- 
2.43.0


From e39826c812524af20d70fa1381a0a4ddbf1f19f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:08 +0000
Subject: [PATCH 059/105] fix: match pairs whose first image is selected

---
 src/glimpse/optimize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index dd4f1b8..a3e7aed 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2510,7 +2510,8 @@ class KeypointMatcher:
         # Filter matched image pairs
         if imgs is not None:
             for i, m in enumerate(matching_images):
-                matching_images[i] = m[np.isin(m, imgs)]
+                if not np.isin(i, imgs):
+                    matching_images[i] = m[np.isin(m, imgs)]
 
         def reduce(matches: Iterable[Matches]) -> Iterable[Matches]:
             if filter:
-- 
2.43.0


From 5351c83ed9321c7e6479c60d87c234825d79305a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:15 +0000
Subject: [PATCH 060/105] fix: size matrix of matches by number of images

---
 src/glimpse/optimize.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index a3e7aed..abc6228 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2591,7 +2591,9 @@ class KeypointMatcher:
                 )
                 cols = np.concatenate(matching_images)
                 # HACK: Initialize with numeric data to avoid type errors
-                matches = scipy.sparse.coo_matrix(([1] * len(data), (rows, cols)))
+                matches = scipy.sparse.coo_matrix(
+                    ([1] * len(data), (rows, cols)), shape=(n, n)
+                )
                 matches.data = data
         if clear_matches:
             self.matches = None
-- 
2.43.0


From 2d2cccf68a9fe7ba2e1aa829943b309fa4fc1e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:24 +0000
Subject: [PATCH 061/105] fix: ignore filter when clearing matches

---
 src/glimpse/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index abc6228..6978ecb 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2514,7 +2514,7 @@ class KeypointMatcher:
                     matching_images[i] = m[np.isin(m, imgs)]
 
         def reduce(matches: Iterable[Matches]) -> Iterable[Matches]:
-            if filter:
+            if filter and matches:
                 for match in matches:
                     if match:
                         match.filter(**filter)
-- 
2.43.0


From e1031782bec3413a54ea71044803366e905cac1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:32 +0000
Subject: [PATCH 062/105] fix: overwrite keypoints of memory and file

---
 src/glimpse/optimize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 6978ecb..6c62a10 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2402,10 +2402,10 @@ class KeypointMatcher:
                 written = False
             keypoints = self.keypoints[i]
             read = keypoints is not None
-            if not read and written and not clear_keypoints:
+            if not overwrite and not read and written and not clear_keypoints:
                 # Read keypoints from file
                 keypoints = helpers.read_pickle(outpath)
-            elif read and not written and path:
+            elif not overwrite and read and not written and path:
                 # Write keypoints to file
                 helpers.write_pickle(keypoints, path=outpath)
             elif (not read and not written) or overwrite:
-- 
2.43.0


From fcc594a2114ac6db2ce068e187562b0fdde388ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:40 +0000
Subject: [PATCH 063/105] fix: count matched images in match breaks

---
 src/glimpse/optimize.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 6c62a10..1bca346 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2741,14 +2741,9 @@ class KeypointMatcher:
     def match_breaks(self, min_matches: int = 0) -> np.ndarray:
         """Return breaks in pairwise image matches."""
         self._test_matches()
-        all_starts = np.arange(len(self.images) - 1)
-        starts, counts = np.unique(self.matches.row, return_counts=True)
-        breaks = np.setdiff1d(all_starts, starts)
-        if min_matches:
-            min_matches = np.minimum(
-                min_matches, len(self.images) - np.arange(len(self.images))
-            )
-            breaks = np.sort(
-                np.concatenate((breaks, np.where(counts < min_matches)[0]))
-            )
-        return breaks
+        n = len(self.images)
+        # Number of later images matched to each image (but the last)
+        counts = np.bincount(self.matches.row, minlength=n)[: n - 1]
+        # Limited by the number of later images
+        limits = np.minimum(max(min_matches, 1), np.arange(n - 1, 0, -1))
+        return np.where(counts < limits)[0]
-- 
2.43.0


From ac48be23b5357b53043c864f6172fff818da3118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:47 +0000
Subject: [PATCH 064/105] fix: drop keypoints of dropped images

---
 src/glimpse/optimize.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 1bca346..919326e 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2735,8 +2735,10 @@ class KeypointMatcher:
         # Resize matches matrix
         n = len(self.images) - len(drop)
         self.matches._shape = (n, n)
-        # Remove dropped images
+        # Remove dropped images and their keypoints
         self.images = np.delete(self.images, drop)
+        if self.keypoints is not None:
+            self.keypoints = [self.keypoints[i] for i in keep]
 
     def match_breaks(self, min_matches: int = 0) -> np.ndarray:
         """Return breaks in pairwise image matches."""
-- 
2.43.0


From 9970f48600ffcf845797d64d07558cf5b2cff01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:54 +0000
Subject: [PATCH 065/105] fix: allow an empty match sequence

---
 src/glimpse/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 919326e..917f4d9 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2501,7 +2501,7 @@ class KeypointMatcher:
             matching_images = [np.array([], dtype=int) for i in range(n)]
         # Add match sequence
         if seq is not None:
-            seq = np.asarray(seq)
+            seq = np.asarray(seq, dtype=int)
             seq = np.unique(seq[seq > 0])
             for i, m in enumerate(matching_images):
                 iseq = seq + i
-- 
2.43.0


From f9a12b6297f5b3584a43099cf21c5b2703be4182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:50 +0000
Subject: [PATCH 066/105] fix: place at least one point across each side of the
 image

---
 src/glimpse/convert/converter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/convert/converter.py b/src/glimpse/convert/converter.py
index 90c3cb3..e235dad 100644
--- a/src/glimpse/convert/converter.py
+++ b/src/glimpse/convert/converter.py
@@ -56,9 +56,9 @@ class Converter:
         d = np.sqrt(area / n)
         # Place points such that spacing to edge is half of interpoint spacing
         # - | -- | -- | -- | -
-        dx = imgsz[0] / round(imgsz[0] / d)
+        dx = imgsz[0] / max(round(imgsz[0] / d), 1)
         x = np.arange(0.5 * dx, imgsz[0], dx)
-        dy = imgsz[1] / round(imgsz[1] / d)
+        dy = imgsz[1] / max(round(imgsz[1] / d), 1)
         y = np.arange(0.5 * dy, imgsz[1], dy)
         return np.reshape(np.meshgrid(x, y), (2, -1)).T
 
-- 
2.43.0


From 40a6125de2b42d75580a3dff5efb0ff26e083b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:59 +0000
Subject: [PATCH 067/105] fix: optimize external camera parameters selected by
 index

---
 src/glimpse/convert/converter.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/convert/converter.py b/src/glimpse/convert/converter.py
index e235dad..e45d0a3 100644
--- a/src/glimpse/convert/converter.py
+++ b/src/glimpse/convert/converter.py
@@ -115,7 +115,14 @@ class Converter:
             **kwargs: Optional arguments to :func:`scipy.optimize.least_squares`.
         """
         # Drop empty params and normalize value as a numpy index
-        indices = {k: slice(None) if v is True else v for k, v in params.items() if v}
+        indices = {}
+        for key, value in params.items():
+            if value is True:
+                indices[key] = slice(None)
+            elif value is not None and value is not False:
+                idx = np.atleast_1d(value)
+                if idx.size:
+                    indices[key] = idx
         x0 = []
         for key, idx in indices.items():
             value = np.atleast_1d(getattr(self.xcam, key))
@@ -125,7 +132,7 @@ class Converter:
             i = 0
             for key, idx in indices.items():
                 value = np.atleast_1d(getattr(self.xcam, key)).astype(float)
-                n = len(value) if isinstance(idx, slice) else len(np.atleast_1d(idx))
+                n = len(value[idx])
                 value[idx] = x[i : i + n]
                 setattr(self.xcam, key, tuple(value) if len(value) > 1 else value[0])
                 i += n
-- 
2.43.0


From dfbdbf514d0da95e38e7b642bc9efba0c1f2f228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:08 +0000
Subject: [PATCH 068/105] fix: read svg path commands one at a time

---
 src/glimpse/svg.py | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/src/glimpse/svg.py b/src/glimpse/svg.py
index a964de2..44fc68f 100644
--- a/src/glimpse/svg.py
+++ b/src/glimpse/svg.py
@@ -658,20 +658,11 @@ class Points:
     @classmethod
     def _from_path(cls, d: str = "") -> "Points":
         # NOTE: Only vertices are preserved. All curvature information is discarded.
-        regex = {
-            "cmd": re.compile(r"[a-df-zA-DF-Z]+"),
-            "seq": re.compile(r"[^a-df-zA-DF-Z]+"),
-            "coord": COORD_REGEX,
-        }
-        commands = regex["cmd"].findall(d)
-        parameters = [
-            [_num(coord) for coord in regex["coord"].findall(seq)]
-            for seq in regex["seq"].findall(d)
-        ]
-        if commands and commands[-1] in ("Z", "z"):
-            parameters.append([])
-        xy = []
-        for cmd, params in zip(commands, parameters):
+        # Each command is a single letter, followed by its (possibly no) parameters
+        regex = re.compile(r"([a-df-zA-DF-Z])([^a-df-zA-DF-Z]*)")
+        xy: Coordinates = []
+        for cmd, seq in regex.findall(d):
+            params = [_num(coord) for coord in COORD_REGEX.findall(seq)]
             # moveTo: M (x,y)+ | lineTo: L (x,y)+ | curveTo: T (x,y)+
             if cmd in ("M", "L", "T"):
                 for x, y in _chunks(params, 2):
-- 
2.43.0


From 8c41a5af492d857e9e4ff606ab2a8da96a487988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:16 +0000
Subject: [PATCH 069/105] fix: close svg subpaths at their own start

---
 src/glimpse/svg.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/svg.py b/src/glimpse/svg.py
index 44fc68f..070a86c 100644
--- a/src/glimpse/svg.py
+++ b/src/glimpse/svg.py
@@ -661,8 +661,12 @@ class Points:
         # Each command is a single letter, followed by its (possibly no) parameters
         regex = re.compile(r"([a-df-zA-DF-Z])([^a-df-zA-DF-Z]*)")
         xy: Coordinates = []
+        start = 0
         for cmd, seq in regex.findall(d):
             params = [_num(coord) for coord in COORD_REGEX.findall(seq)]
+            # moveTo starts a new subpath
+            if cmd in ("M", "m"):
+                start = len(xy)
             # moveTo: M (x,y)+ | lineTo: L (x,y)+ | curveTo: T (x,y)+
             if cmd in ("M", "L", "T"):
                 for x, y in _chunks(params, 2):
@@ -717,7 +721,7 @@ class Points:
                     xy.append((xy[-1][0] + dx, xy[-1][1] + dy))
             # closePath: Z | z
             elif cmd in ("Z", "z"):
-                xy.append(xy[0])
+                xy.append(xy[start])
             else:
                 raise ValueError(f"Invalid command encountered: {cmd}")
         return cls(xy)
-- 
2.43.0


From 143147090811d5eee4400e29469ad0e208d6716c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:25 +0000
Subject: [PATCH 070/105] fix: write the only point of svg paths and polygons

---
 src/glimpse/svg.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/glimpse/svg.py b/src/glimpse/svg.py
index 070a86c..2901879 100644
--- a/src/glimpse/svg.py
+++ b/src/glimpse/svg.py
@@ -585,7 +585,8 @@ class Points:
         return pts
 
     def _to_polygon(self) -> Polygon:
-        xy = self.xy[:-1] if self.closed() else self.xy
+        # NOTE: Fewer than two points are closed, but have no point to drop
+        xy = self.xy[:-1] if len(self.xy) > 1 and self.closed() else self.xy
         return {"points": self._xy_to_points(xy)}
 
     @classmethod
@@ -729,7 +730,9 @@ class Points:
     def _to_path(self) -> Path:
         # NOTE: Uses only moveTo (`M`), lineTo (`L`), and closePath (`Z`) if closed.
         commands = []
-        for i, xy in enumerate(self.xy[:-1] if self.closed() else self.xy):
+        # NOTE: Fewer than two points are closed, but have no point to drop
+        closed = len(self.xy) > 1 and self.closed()
+        for i, xy in enumerate(self.xy[:-1] if closed else self.xy):
             x, y = xy
             if i == 0:
                 cmd = f"M {x},{y}"
@@ -738,7 +741,7 @@ class Points:
             else:
                 cmd = f"{x},{y}"
             commands.append(cmd)
-        if self.closed():
+        if closed:
             commands.append("Z")
         return {"d": " ".join(commands)}
 
-- 
2.43.0


From d4afcbc77887a6c19057d45cb774c3e771450bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:32 +0000
Subject: [PATCH 071/105] fix: apply svg transformations from the innermost
 outward

---
 src/glimpse/svg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/svg.py b/src/glimpse/svg.py
index 2901879..e45f92e 100644
--- a/src/glimpse/svg.py
+++ b/src/glimpse/svg.py
@@ -126,7 +126,8 @@ def read(
         tag = (e.get(key) if key else None) or e.tag
         d: Dict[str, Any] = {tag: {}}
         # Grow transform
-        transform += e.get("transform", "")
+        # NOTE: Transforms of an element precede those of the groups it is in
+        transform = e.get("transform", "") + transform
         # Parse coordinates
         if e.tag in ("image", "path", "polyline", "polygon", "line", "circle", "rect"):
             points = Points.from_element(e.tag, **e.attrib)
-- 
2.43.0


From 3158920abf3f8952a179e173ce823d5ff3ec98d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:19 +0000
Subject: [PATCH 072/105] fix: end lines interpolated at a spacing at their end

---
 src/glimpse/helpers.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index 2ec4809..1402bb7 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -1138,10 +1138,9 @@ def interpolate_line(
         x = np.insert(x, 0, 0)
     if xi is None:
         if n is None:
-            n = abs((x[-1] - x[0]) / dx)
-            if n == int(n):
-                n += 1
-            n = int(round(n))
+            ratio = abs((x[-1] - x[0]) / dx)
+            # Number of intervals (at least one unless zero length) plus one
+            n = max(int(round(ratio)), int(ratio > 0)) + 1
         xi = np.linspace(start=x[0], stop=x[-1], num=n, endpoint=True)
         # Ensure defaults for speed
         error = False
-- 
2.43.0


From e34e6bcf6cf069241bffd27e7980f5d1dc795cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:27 +0000
Subject: [PATCH 073/105] fix: limits of boolean datatypes

---
 src/glimpse/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index 1402bb7..678566d 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -110,7 +110,7 @@ def numpy_dtype_minmax(
     if issubclass(dtype.type, np.integer):
         info = np.iinfo(dtype)
         return info.min, info.max
-    if dtype.type in (np.bool_, np.bool):
+    if dtype.type is np.bool_:
         return False, True
     raise ValueError("Cannot determine min, max for " + str(dtype))
 
-- 
2.43.0


From 6ef8c47969ba83fa5640a8c753474fdae8f41f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:34 +0000
Subject: [PATCH 074/105] fix: rasters of different shape are not equal

---
 src/glimpse/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 06ff89b..5def66c 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -666,7 +666,7 @@ class Raster(Grid):
     def __eq__(self, other: "Raster") -> bool:
         """Consider equal if coordinate system and values are equal."""
         return (
-            np.array_equiv(self.array, other.array)
+            np.array_equal(self.array, other.array)
             and (self.xlim == other.xlim).all()
             and (self.ylim == other.ylim).all()
         )
-- 
2.43.0


From 0032ed97465c4574b5ee9e67f7c3e556c5b8cd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:40 +0000
Subject: [PATCH 075/105] fix: direction from which hillshade lights rasters

---
 src/glimpse/raster.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 5def66c..5da6c8c 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1277,7 +1277,8 @@ class Raster(Grid):
                 :meth:`matplotlib.colors.LightSource.hillshade`.
         """
         light = matplotlib.colors.LightSource(azdeg=azimuth, altdeg=altitude)
-        return light.hillshade(self.array, dx=self.d[0], dy=self.d[1], **kwargs)
+        # LightSource assumes that y decreases with increasing row
+        return light.hillshade(self.array, dx=self.d[0], dy=-self.d[1], **kwargs)
 
     def fill_crevasses(
         self,
-- 
2.43.0


From 3fac2b3f52c6637cdae0cad24b48d745a09c8312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:46 +0000
Subject: [PATCH 076/105] fix: write missing values as the nan value of the
 file

---
 src/glimpse/helpers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index 678566d..ea6e817 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -569,6 +569,8 @@ def write_raster(
         ValueError: GDAL driver cannot write files.
     """
     a = np.atleast_3d(a)
+    if nan is not None and np.issubdtype(a.dtype, np.floating):
+        a = np.where(np.isnan(a), np.asarray(nan, dtype=a.dtype), a)
     dtype = osgeo.gdal_array.NumericTypeCodeToGDALTypeCode(a.dtype)
     if not dtype:
         dtypes = ", ".join([x.__name__ for x in osgeo.gdal_array.codes.values()])
-- 
2.43.0


From 90ba6ceb4b8a0655a37eee3764023a40faa6a5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:53 +0000
Subject: [PATCH 077/105] fix: masked gaussian filter of integers

---
 src/glimpse/helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index ea6e817..df71a49 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -359,7 +359,8 @@ def gaussian_filter(
     """
     if mask is None:
         return scipy.ndimage.filters.gaussian_filter(a, **kwargs)
-    x = a.copy()
+    # Integers would truncate the filtered values and weights
+    x = a.copy() if np.issubdtype(a.dtype, np.floating) else a.astype(float)
     x[~mask] = 0
     xf = scipy.ndimage.filters.gaussian_filter(x, **kwargs)
     x[mask] = 1
-- 
2.43.0


From 7de75e07d5dafd8a0cce45ebdb6ce21e8c6e4447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:59 +0000
Subject: [PATCH 078/105] fix: fill cells next to values at the minimum of the
 datatype

---
 src/glimpse/helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index df71a49..fd071b1 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -409,7 +409,8 @@ def maximum_filter(
     x[mask] = dtype_min
     x = scipy.ndimage.filters.maximum_filter(x, **kwargs)
     if fill:
-        mask = x == dtype_min
+        # Keep only cells without included neighbors (which may equal the minimum)
+        mask = ~scipy.ndimage.filters.maximum_filter(~mask, **kwargs)
     x[mask] = a[mask]
     return x
 
-- 
2.43.0


From f3fd949d843671bac9025c07afbe3f68b91bb6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:05 +0000
Subject: [PATCH 079/105] fix: average pixels over all tiles in
 Camera.project_dem

---
 src/glimpse/camera.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/glimpse/camera.py b/src/glimpse/camera.py
index 8c70fe5..7ca2695 100644
--- a/src/glimpse/camera.py
+++ b/src/glimpse/camera.py
@@ -1030,14 +1030,18 @@ class Camera:
         ntiles = len(tile_indices)
         # Initialize array
         nbands = (values.shape[2] if has_values else 0) + return_depth
-        # TODO: Use something faster than full
-        array = np.full((self.imgsz[1], self.imgsz[0], nbands), np.nan)
+        sums = np.zeros((self.imgsz[1], self.imgsz[0], nbands), dtype=float)
+        counts = np.zeros((self.imgsz[1], self.imgsz[0], 1), dtype=float)
         # Define parallel process
         bar = helpers._progress_bar(max=ntiles)
 
         def process(
             ij: Tuple[slice, slice]
-        ) -> Optional[Tuple[Tuple[Iterable[int], Iterable[int]], Iterable[Number]]]:
+        ) -> Optional[
+            Tuple[
+                Tuple[Iterable[int], Iterable[int]], Iterable[Number], Iterable[int]
+            ]
+        ]:
             tile_mask = mask[ij]  # type: ignore
             if not np.count_nonzero(tile_mask):
                 # No cells selected
@@ -1101,20 +1105,28 @@ class Camera:
             fidx, means = helpers.rasterize_points(
                 rc[:, 0], rc[:, 1], tile_values, shape=shape
             )
-            return np.unravel_index(fidx, shape), means
+            # Count the cells in each pixel
+            pixels = np.ravel_multi_index((rc[:, 0], rc[:, 1]), shape)
+            ncells = np.bincount(pixels)[fidx].reshape(-1, 1)
+            return np.unravel_index(fidx, shape), means, ncells
 
         def reduce(
             idx: Tuple[Iterable[int], Iterable[int]] = None,
-            values: Iterable[Number] = None,
+            means: Iterable[Number] = None,
+            ncells: Iterable[int] = None,
         ) -> None:
             bar.next()
             if idx is not None:
-                array[idx] = values
+                # Pixels may contain cells of several tiles
+                sums[idx] += means * ncells
+                counts[idx] += ncells
 
         with config.backend(np=parallel) as pool:
             pool.map(func=process, reduce=reduce, sequence=tile_indices)
         bar.finish()
-        return array
+        # Pixels without cells are NaN
+        counts[counts == 0] = np.nan
+        return sums / counts
 
     def set_plot_limits(self) -> None:
         """Set limits of current plot axes to image extent."""
-- 
2.43.0


From b0c74aa9c181cae2b9876362f97916ae05523704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:13 +0000
Subject: [PATCH 080/105] fix: clear keypoints after matching in parallel

---
 src/glimpse/optimize.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 917f4d9..f0689f1 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2595,6 +2595,9 @@ class KeypointMatcher:
                     ([1] * len(data), (rows, cols)), shape=(n, n)
                 )
                 matches.data = data
+        if clear_keypoints:
+            # Keypoints are not shared between processes
+            self.keypoints = [None] * n
         if clear_matches:
             self.matches = None
         else:
-- 
2.43.0


From 89a78e52f86bca392c16275fbdacf261d11b3cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:24 +0000
Subject: [PATCH 081/105] fix: keep tracking state apart between threads

---
 src/glimpse/track/tracker.py | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/glimpse/track/tracker.py b/src/glimpse/track/tracker.py
index a5e11f1..e469e39 100644
--- a/src/glimpse/track/tracker.py
+++ b/src/glimpse/track/tracker.py
@@ -1,4 +1,5 @@
 """Track particle trajectories through time."""
+import copy
 import datetime
 import sys
 import traceback
@@ -307,6 +308,8 @@ class Tracker:
         dts = np.diff(datetimes)
 
         def process(motion_model: Motion, observer_mask: np.ndarray) -> list:
+            # Threads share self but not the tracking state
+            tracker = copy.copy(self) if parallel else self
             means = np.full((ntimes, 6), np.nan)
             if return_covariances:
                 sigmas = np.full((ntimes, 6, 6), np.nan)
@@ -329,17 +332,17 @@ class Tracker:
                     last = len(observed) - 1 - np.argmax(observed[::-1])
                     for i in range(first, last + 1):
                         if i == first:
-                            self.particles = motion_model.initialize_particles()
-                            self.test_particles()
-                            self.initialize_weights()
+                            tracker.particles = motion_model.initialize_particles()
+                            tracker.test_particles()
+                            tracker.initialize_weights()
                         else:
                             dt = dts[i - 1]
-                            motion_model.evolve_particles(self.particles, dt=dt)
-                            self.test_particles()
+                            motion_model.evolve_particles(tracker.particles, dt=dt)
+                            tracker.test_particles()
                         # Initialize templates for Observers starting at datetimes[i]
                         at_template = observer_mask & (template_indices == i)
                         for obs in np.nonzero(at_template)[0]:
-                            self.initialize_template(
+                            tracker.initialize_template(
                                 obs=obs,
                                 img=matching_images[i][obs],
                                 tile_size=tile_size,
@@ -349,16 +352,18 @@ class Tracker:
                                 img if m else None
                                 for img, m in zip(matching_images[i], observer_mask)
                             ]
-                            self.update_weights(imgs=imgs, motion_model=motion_model)
-                            self.resample_particles()
-                        means[i] = self.particle_mean
+                            tracker.update_weights(
+                                imgs=imgs, motion_model=motion_model
+                            )
+                            tracker.resample_particles()
+                        means[i] = tracker.particle_mean
                         if return_covariances:
-                            sigmas[i] = self.particle_covariance
+                            sigmas[i] = tracker.particle_covariance
                         else:
-                            sigmas[i] = self.compute_particle_sigma(mean=means[i])
+                            sigmas[i] = tracker.compute_particle_sigma(mean=means[i])
                         if return_particles:
-                            particles[i] = self.particles
-                            weights[i] = self.weights
+                            particles[i] = tracker.particles
+                            weights[i] = tracker.weights
                 if caught:
                     all_warnings = tuple(caught)
             except Exception as e:
-- 
2.43.0


From 156a38e079e8438b09ea83a9f3d57c64d3658aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:32 +0000
Subject: [PATCH 082/105] fix: keep strings and allow any indent in flat JSON
 arrays

---
 src/glimpse/helpers.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index fd071b1..dcc2124 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -284,15 +284,20 @@ def write_json(
         '{\n  "x": [0, 1]\n}'
     """
     txt = json.dumps(obj, **kwargs)
-    if flat_arrays and kwargs.get("indent") >= 0:
+    if flat_arrays and kwargs.get("indent") is not None:
         separators = kwargs.get("separators")
         sep = separators[0] if separators else ", "
-        squished_sep = re.sub(r"\s", "", sep)
+        # Strings (left unchanged) or arrays
+        string = r'"(?:[^"\\]|\\.)*"'
+        array = r"(?:\[\s*)+(?:" + string + r'|[^"\]\{])*(?:\s*\])+'
 
         def flatten(match: Match) -> str:
-            return re.sub(squished_sep, sep, re.sub(r"\s", "", match.group(0)))
+            if match.group(0).startswith('"'):
+                return match.group(0)
+            tokens = re.findall(string + r'|[^"\s]', match.group(0))
+            return "".join(sep if token == "," else token for token in tokens)
 
-        txt = re.sub(r"(\[\s*)+[^\]\{]*(\s*\])+", flatten, txt)
+        txt = re.sub(string + "|" + array, flatten, txt)
     if path:
         path = pathlib.Path(path)
         path.parent.mkdir(parents=True, exist_ok=True)
-- 
2.43.0


From 31a8b7323572b7c63d45505d5db9812efab505da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:51 +0000
Subject: [PATCH 083/105] fix: raise NotImplementedError from
 RotationMatchesXYZ.observed

---
 src/glimpse/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index f0689f1..f788ab0 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -969,7 +969,7 @@ class RotationMatchesXYZ(RotationMatchesXY):
         dxyz *= 1 / np.linalg.norm(dxyz, ord=2, axis=1, keepdims=True)
         return dxyz
 
-    def observed() -> None:
+    def observed(self, *args: Any, **kwargs: Any) -> None:
         """Observed image coordinates are not available for RotationMatchesXYZ."""
         raise NotImplementedError()
 
-- 
2.43.0


From cd73977a16ddcbae236e681b2c3b01ad06dcb858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:23 +0000
Subject: [PATCH 084/105] fix: Sample integer rasters and fill values without
 truncation

---
 src/glimpse/raster.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 5da6c8c..d2f2bb8 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1006,7 +1006,9 @@ class Raster(Grid):
                 )
             else:
                 # 0D: Return constant
-                samples = np.full((len(xy[1]), len(xy[0])), self.array.flat[0])
+                samples = np.full(
+                    (len(xy[1]), len(xy[0])), self.array.flat[0], dtype=float
+                )
             if has_fill:
                 # Fill out of bounds with value
                 samples[yout, :] = fill_value
@@ -1014,7 +1016,7 @@ class Raster(Grid):
         else:
             # Sample at points
             if has_fill:
-                samples = np.full(len(xy), fill_value)
+                samples = np.full(len(xy), fill_value, dtype=float)
             if ndims == 2:
                 # 2D: Use RegularGridInterpolator
                 self.Zf.bounds_error = False
-- 
2.43.0


From a62bb8073e97caddf959eb8f4a7e47d23e151e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:27 +0000
Subject: [PATCH 085/105] fix: Restore cameras and accept index arrays in
 Cameras.plot

---
 src/glimpse/optimize.py | 57 ++++++++++++++++++++++-------------------
 1 file changed, 30 insertions(+), 27 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index f788ab0..53ee407 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -1920,7 +1920,8 @@ class Cameras:
                 matplotlib.pyplot.plot (dict), color, or `None` to hide.
             **kwargs: Optional arguments to matplotlib.pyplot.quiver for all points.
         """
-        if index != slice(None) and len(self.controls) > 1:
+        all_points = isinstance(index, slice) and index == slice(None)
+        if not all_points and len(self.controls) > 1:
             # TODO: Map index to subindices for each control
             raise ValueError(
                 "Plotting with `index` not yet supported with multiple controls"
@@ -1931,32 +1932,34 @@ class Cameras:
         cam = self.cams[cam] if isinstance(cam, int) else cam
         cam_controls = self.prune_controls(self.controls, cams=[cam])
         results = []
-        for control in cam_controls:
-            if isinstance(control, Lines):
-                result = control.plot(
-                    index=index,
-                    selected=selected,
-                    unselected=unselected,
-                    observed=lines_observed,
-                    predicted=lines_predicted,
-                    **kwargs
-                )
-            elif isinstance(control, Points):
-                result = control.plot(
-                    index=index, selected=selected, unselected=unselected, **kwargs
-                )
-            elif isinstance(control, Matches):
-                result = control.plot(
-                    cam=cam,
-                    index=index,
-                    selected=selected,
-                    unselected=unselected,
-                    **kwargs
-                )
-            results.append(result)
-        if params is not None:
-            for cam, vector in zip(self.cams, vectors):
-                cam._vector = vector
+        try:
+            for control in cam_controls:
+                if isinstance(control, Lines):
+                    result = control.plot(
+                        index=index,
+                        selected=selected,
+                        unselected=unselected,
+                        observed=lines_observed,
+                        predicted=lines_predicted,
+                        **kwargs
+                    )
+                elif isinstance(control, Points):
+                    result = control.plot(
+                        index=index, selected=selected, unselected=unselected, **kwargs
+                    )
+                elif isinstance(control, Matches):
+                    result = control.plot(
+                        cam=cam,
+                        index=index,
+                        selected=selected,
+                        unselected=unselected,
+                        **kwargs
+                    )
+                results.append(result)
+        finally:
+            if params is not None:
+                for cam, vector in zip(self.cams, vectors):
+                    cam._vector = vector
         return results
 
     def plot_weights(
-- 
2.43.0


From 9e8359c57bc2cdfc82e0ecc259d356e88e77a8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:37 +0000
Subject: [PATCH 086/105] fix: Plot polynomials with all points selected

---
 src/glimpse/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 53ee407..11dba2e 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -1107,7 +1107,7 @@ class Polynomial:
             (index, selected, "selected"),
         ]:
             if not len(idx) or args is None:
-                result = None
+                result[label] = None
                 continue
             if not isinstance(args, dict):
                 args = {"c": args}
-- 
2.43.0


From f23bff8c741474f35732055391f2e87975ed67e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:46 +0000
Subject: [PATCH 087/105] fix: Plot tiles that are not square over their own
 extent

---
 src/glimpse/track/observer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index ed1645d..e34a7c8 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -241,7 +241,7 @@ class Observer:
             **kwargs: Optional arguments to :func:`matplotlib.pyplot.imshow`.
         """
         if box is None:
-            box = (0, 0, tile.shape[0], tile.shape[1])
+            box = (0, 0, tile.shape[1], tile.shape[0])
         extent = (box[0], box[2], box[3], box[1])
         if axes is None:
             axes = matplotlib.pyplot.gca()
-- 
2.43.0


From 4758a2db8e4716eb2c21be6f8fd7bd0923e84985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:55 +0000
Subject: [PATCH 088/105] fix: Animate tracks with current matplotlib

---
 src/glimpse/track/tracks.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/track/tracks.py b/src/glimpse/track/tracks.py
index ce7fb73..de50114 100644
--- a/src/glimpse/track/tracks.py
+++ b/src/glimpse/track/tracks.py
@@ -392,7 +392,8 @@ class Tracks:
         def update_plot(i: int) -> tuple:
             # PathCollections cannot set x, y, so new objects have to be created
             for ax in axes:
-                ax.collections = []
+                for collection in list(ax.collections):
+                    collection.remove()
             img = self.images[i, obs]
             if particles:
                 # Map: Particles
-- 
2.43.0


From aee71680b54b39b8d79566bea09773365cbe43b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:03 +0000
Subject: [PATCH 089/105] fix: Scale animated velocities by the time to the
 next frame

---
 src/glimpse/track/tracks.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/glimpse/track/tracks.py b/src/glimpse/track/tracks.py
index de50114..12cf533 100644
--- a/src/glimpse/track/tracks.py
+++ b/src/glimpse/track/tracks.py
@@ -388,6 +388,7 @@ class Tracks:
             scales = np.ones(len(frames) - 1)
         # Discard last frame
         frames = frames[:-1]
+        scales = dict(zip(frames, scales))
 
         def update_plot(i: int) -> tuple:
             # PathCollections cannot set x, y, so new objects have to be created
-- 
2.43.0


From 54de7b64f435c17cdbd2dc0347917633a4f1a5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:10 +0000
Subject: [PATCH 090/105] fix: Animate tracks without a tracker

---
 src/glimpse/track/tracks.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/glimpse/track/tracks.py b/src/glimpse/track/tracks.py
index 12cf533..2c42b70 100644
--- a/src/glimpse/track/tracks.py
+++ b/src/glimpse/track/tracks.py
@@ -482,7 +482,6 @@ class Tracks:
                 )
             else:
                 basename = str(obs) + " : " + str(img)
-            basename = helpers.strip_path(self.tracker.observers[obs].images[img].path)
             map_txt.set_text(basename)
             if images:
                 return map_track, map_txt, image_track, image_tile, image_mean
-- 
2.43.0


From bc56436495e5a0463a4a1a3e3233390df1f9302e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:18 +0000
Subject: [PATCH 091/105] fix: Limit animated tiles that are not square to
 their extent

---
 src/glimpse/track/observer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index e34a7c8..17dd0c4 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -337,7 +337,7 @@ class Observer:
             transform=ax[0].transAxes,
         )
         ax[1].set_xlim(uv[0] - halfsize[0], uv[0] + halfsize[0])
-        ax[1].set_ylim(uv[1] + halfsize[1], uv[1] - halfsize[0])
+        ax[1].set_ylim(uv[1] + halfsize[1], uv[1] - halfsize[1])
 
         # Update plot
         def update_plot(i: int) -> list:
@@ -364,7 +364,7 @@ class Observer:
                 pt[j].set_xdata(puv[0])
                 pt[j].set_ydata(puv[1])
             ax[0].set_xlim(puv[0] - halfsize[0], puv[0] + halfsize[0])
-            ax[0].set_ylim(puv[1] + halfsize[1], puv[1] - halfsize[0])
+            ax[0].set_ylim(puv[1] + halfsize[1], puv[1] - halfsize[1])
             basename = helpers.strip_path(self.images[i].path)
             txt.set_text(str(i) + " : " + basename)
             return im + pt + [txt]
-- 
2.43.0


From beafbc9990350606f5b535bf67f57744a6188a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:26 +0000
Subject: [PATCH 092/105] fix: Accept frames as a list in Observer.track

---
 src/glimpse/track/observer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index 17dd0c4..681ad04 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -403,6 +403,7 @@ class Observer:
         """
         if frames is None:
             frames = np.arange(len(xyz))
+        frames = np.asarray(frames)
         halfsize = (size[0] * 0.5, size[1] * 0.5)
         # Initialize plot
         fig, ax = matplotlib.pyplot.subplots(ncols=2, **subplots)
-- 
2.43.0


From 2b5db5538a482887ddcc3711377fbbdf2195f66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:36 +0000
Subject: [PATCH 093/105] fix: Place the first animated tile in the first image
 shown

---
 src/glimpse/track/observer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index 681ad04..0b092ec 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -322,7 +322,7 @@ class Observer:
         halfsize = (size[0] * 0.5, size[1] * 0.5)
         # Initialize plot
         fig, ax = matplotlib.pyplot.subplots(ncols=2, **subplots)
-        box = self.tile_box(uv, size=size, img=0)
+        box = self.tile_box(uv, size=size, img=frames[0])
         tile = self.extract_tile(img=frames[0], box=box)
         im = [self.plot_tile(tile=tile, box=box, axes=axes) for axes in ax]
         pt = [axis.plot(uv[0], uv[1], marker=".", color="red")[0] for axis in ax]
@@ -409,7 +409,7 @@ class Observer:
         fig, ax = matplotlib.pyplot.subplots(ncols=2, **subplots)
         track_uv: np.ndarray = self.images[frames[0]].xyz_to_uv(xyz[0:1])
         uv = track_uv[-1]
-        box = self.tile_box(uv, size=size, img=0)
+        box = self.tile_box(uv, size=size, img=frames[0])
         tile = self.extract_tile(img=frames[0], box=box)
         im = [self.plot_tile(tile=tile, box=box, axes=axes, zorder=1) for axes in ax]
         track = ax[1].plot(track_uv[:, 0], track_uv[:, 1], "y.-", alpha=0.5, zorder=2)[
-- 
2.43.0


From 8e9e531bec652aa1e9b9bc1d4b008a2958241f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:39 +0000
Subject: [PATCH 094/105] fix: Resample numbers anywhere in RasterInterpolant

---
 src/glimpse/raster.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index d2f2bb8..5d4ae48 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1623,7 +1623,11 @@ class RasterInterpolant:
         if raster.grid != grid:
             if raster is obj:
                 raster = raster.copy()
-            raster.resample(grid)
+            if isinstance(obj, numbers.Number):
+                # Infinite raster, whichever bounds it was parsed with
+                raster.resample(grid, bounds_error=False, fill_value=None)
+            else:
+                raster.resample(grid)
         return raster
 
     def _read_mean(
-- 
2.43.0


From 421d19a706e2a1b62538129f06c0b2186b6eec9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:30 +0000
Subject: [PATCH 095/105] fix: Compute lines of sight from elevations as floats

---
 src/glimpse/raster.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 5d4ae48..1ee5b9c 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1336,7 +1336,7 @@ class Raster(Grid):
         # Compute distance to all cell centers
         dx = np.tile(self.x - origin[0], self.size[1])
         dy = np.repeat(self.y - origin[1], self.size[0])
-        dz = self.array.ravel() - origin[2]
+        dz = self.array.ravel().astype(float) - origin[2]
         dxy = dx ** 2 + dy ** 2  # wait to square root
         if correction is True:
             correction = {}
@@ -1462,7 +1462,7 @@ class Raster(Grid):
                 rowcol = rowcol[1:]
             idx = self.rowcol_to_idx(rowcol)
             # TODO: Precompute Z.flatten()?
-            dz = self.array.flat[idx] - origin[2]
+            dz = self.array.flat[idx].astype(float) - origin[2]
             if np.isnan(dz).all():
                 # No cells or no values along the ray
                 continue
-- 
2.43.0


From a661e19be027e37c96499040dc845c50bd9a113b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:40 +0000
Subject: [PATCH 096/105] fix: Interpolate rasters as floats in
 RasterInterpolant

---
 src/glimpse/raster.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 1ee5b9c..c77fee5 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1717,19 +1717,20 @@ class RasterInterpolant:
         sigmas: Iterable[Raster] = None,
     ) -> Union[Raster, Tuple[Raster, Raster]]:
         """Interpolate between two rasters."""
-        dz = means[1].array - means[0].array
+        # Integers may overflow
+        first = means[0].array.astype(float)
+        dz = means[1].array.astype(float) - first
         dx = x[1] - x[0]
         # Coordinates are equal if xi is the coordinate of a raster
         scale = (xi - x[0]) / dx if dx else 0
-        z = means[0].array + dz * scale
+        z = first + dz * scale
         t = xi if isinstance(xi, datetime.datetime) else None
         raster = means[0].__class__(z, x=means[0].xlim, y=means[0].ylim, datetime=t)
         if sigmas is not None:
             # Bounds uncertainty: error propagation of z above
             # NOTE: 'a * (1 - scale) + b * scale' form underestimates uncertainty
-            z_var = sigmas[0].array ** 2 + scale ** 2 * (
-                sigmas[0].array ** 2 + sigmas[1].array ** 2
-            )
+            variances = [sigma.array.astype(float) ** 2 for sigma in sigmas]
+            z_var = variances[0] + scale ** 2 * (variances[0] + variances[1])
             # Interpolation uncertainty: nearest bound at 99.7%
             nearest_dx = np.min(np.abs(np.subtract(xi, x)))
             zi_var = ((1 / 3) * dz * (nearest_dx / dx if dx else 0)) ** 2
-- 
2.43.0


From 1cf605cee536cf387f53e284b837a0433203d5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:15 +0000
Subject: [PATCH 097/105] fix: Leave tracks without images missing

---
 src/glimpse/track/tracker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/track/tracker.py b/src/glimpse/track/tracker.py
index e469e39..a713180 100644
--- a/src/glimpse/track/tracker.py
+++ b/src/glimpse/track/tracker.py
@@ -330,7 +330,7 @@ class Tracker:
                     ).any(axis=1)
                     first = np.argmax(observed)
                     last = len(observed) - 1 - np.argmax(observed[::-1])
-                    for i in range(first, last + 1):
+                    for i in range(first, last + 1) if observed.any() else ():
                         if i == first:
                             tracker.particles = motion_model.initialize_particles()
                             tracker.test_particles()
-- 
2.43.0


From 0cc984e37dd44e416e7db5e335f38e58bc44dc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:53 +0000
Subject: [PATCH 098/105] fix: Read padded and long subseconds in Exif.datetime

---
 src/glimpse/exif.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/exif.py b/src/glimpse/exif.py
index fe5a890..3213a81 100644
--- a/src/glimpse/exif.py
+++ b/src/glimpse/exif.py
@@ -102,7 +102,8 @@ class Exif:
         ymdhms = self.parse_tag("DateTimeOriginal")
         if not ymdhms:
             return None
-        ss = self.parse_tag("SubSecTimeOriginal")
+        # May be padded with blanks and finer than microseconds
+        ss = str(self.parse_tag("SubSecTimeOriginal") or "").strip()[:6]
         if not ss:
             return datetime.datetime.strptime(str(ymdhms), "%Y:%m:%d %H:%M:%S")
         return datetime.datetime.strptime(
-- 
2.43.0


From 673a186531edeff28ffa25269d2e3868763342bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:01 +0000
Subject: [PATCH 099/105] fix: Read unknown ratios as missing in Exif.parse_tag

---
 src/glimpse/exif.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/exif.py b/src/glimpse/exif.py
index 3213a81..125ff1a 100644
--- a/src/glimpse/exif.py
+++ b/src/glimpse/exif.py
@@ -174,7 +174,8 @@ class Exif:
         if isinstance(value, bytes):
             return value.decode()
         if isinstance(value, tuple) and len(value) == 2:
-            return value[0] / value[1]
+            # Unknown values are written as a ratio with a denominator of zero
+            return value[0] / value[1] if value[1] else None
         return value
 
     def dump(self) -> bytes:
-- 
2.43.0


From 0b72fe513c9a67e6a03a35d32a0973b6b1ca5ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:41 +0000
Subject: [PATCH 100/105] fix: Write and read pickles that are not binary

---
 src/glimpse/helpers.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index dcc2124..969ff62 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -214,7 +214,10 @@ def write_pickle(
         **kwargs: Optional arguments to :func:`pickle.dump`.
     """
     pathlib.Path(path).parent.mkdir(parents=True, exist_ok=True)
-    mode = "wb" if binary else "w"
+    # Pickles are bytes, and text only in the original protocol
+    mode = "wb"
+    if not binary:
+        kwargs = {"protocol": 0, **kwargs}
     if gz:
         fp = gzip.open(path, mode=mode)
     else:
@@ -233,7 +236,8 @@ def read_pickle(path: str, gz: bool = False, binary: bool = True, **kwargs: Any)
         binary: Whether pickle is binary.
         **kwargs: Optional arguments to :func:`pickle.load`.
     """
-    mode = "rb" if binary else "r"
+    # Pickles are bytes, whether binary or not
+    mode = "rb"
     if gz:
         fp = gzip.open(path, mode=mode)
     else:
-- 
2.43.0


From ba985b6e8b6683803e288eaf549e6a9f646bd09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:07:21 +0000
Subject: [PATCH 101/105] fix: Optimize all parameters selected with a tuple in
 Converter.optimize_cam

---
 src/glimpse/convert/converter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/convert/converter.py b/src/glimpse/convert/converter.py
index e45d0a3..7e15588 100644
--- a/src/glimpse/convert/converter.py
+++ b/src/glimpse/convert/converter.py
@@ -97,7 +97,10 @@ class Converter:
 
             **kwargs: Optional arguments to :func:`scipy.optimize.least_squares`.
         """
-        mask, _ = optimize.Cameras.parse_params(params)
+        # Iterables are indices, but tuples would be read as an index and bounds
+        mask, _ = optimize.Cameras.parse_params(
+            {k: list(v) if isinstance(v, tuple) else v for k, v in params.items()}
+        )
 
         def fun(x: np.ndarray) -> np.ndarray:
             self.cam._vector[mask] = x
-- 
2.43.0


From 9f2ae21fb0c4e81e610396a52c211b60d2a31f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:07:31 +0000
Subject: [PATCH 102/105] fix: Interpolate rasters whose cells are apart by
 more than half a cell

---
 src/glimpse/raster.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index c77fee5..ec91364 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1627,7 +1627,8 @@ class RasterInterpolant:
                 # Infinite raster, whichever bounds it was parsed with
                 raster.resample(grid, bounds_error=False, fill_value=None)
             else:
-                raster.resample(grid)
+                # Cells at the edges of the grid may have centers beyond the raster
+                raster.resample(grid, bounds_error=False)
         return raster
 
     def _read_mean(
-- 
2.43.0


From e4b7aeb065f21dc88d081629995ff576668cd3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:20:38 +0000
Subject: [PATCH 103/105] fix: mark the start of tracks which begin after the
 first time

---
 src/glimpse/track/tracks.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/glimpse/track/tracks.py b/src/glimpse/track/tracks.py
index 2c42b70..e934a16 100644
--- a/src/glimpse/track/tracks.py
+++ b/src/glimpse/track/tracks.py
@@ -191,9 +191,11 @@ class Tracks:
             if isinstance(mean, dict) and "color" in mean:
                 default["color"] = mean["color"]
             start = {**default, **start}
-            results["start"] = matplotlib.pyplot.plot(
-                self.xyz[tracks, 0, 0], self.xyz[tracks, 0, 1], **start
-            )
+            # Tracks may start after the first datetime
+            itracks = np.atleast_1d(np.arange(len(self.xyz))[tracks])
+            valid, first, _ = self.endpoints(itracks)
+            xyz = self.xyz[itracks[valid], first]
+            results["start"] = matplotlib.pyplot.plot(xyz[:, 0], xyz[:, 1], **start)
         if sigma:
             if sigma is True:
                 sigma = {}
-- 
2.43.0


From 9d9ab93dff3917ec50adf5dff22c818115945ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:20:48 +0000
Subject: [PATCH 104/105] fix: scale colors of particles by the weights which
 exist

---
 src/glimpse/track/tracks.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/track/tracks.py b/src/glimpse/track/tracks.py
index e934a16..c5142af 100644
--- a/src/glimpse/track/tracks.py
+++ b/src/glimpse/track/tracks.py
@@ -380,9 +380,10 @@ class Tracks:
             # Compute quiver scales
             scales = np.diff(self.datetimes[frames]) / self.time_unit
             # Compute weight limits for static colormap
+            # NOTE: Particles are missing before the first and after the last position
             clim = (
-                self.weights[track, :].ravel().min(),
-                self.weights[track, :].ravel().max(),
+                np.nanmin(self.weights[track, :]),
+                np.nanmax(self.weights[track, :]),
             )
         elif self.tracker is not None:
             scales = np.diff(self.datetimes[frames]) / self.time_unit
-- 
2.43.0


From 22d5dbee71342f39fcf159fea0a68387e22e37d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:21:00 +0000
Subject: [PATCH 105/105] fix: do not overwrite shared values when cropping by
 z

---
 src/glimpse/raster.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index ec91364..9837332 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1192,6 +1192,8 @@ class Raster(Grid):
                 if not issubclass(self.array.dtype.type, np.floating):
                     warnings.warn("array cast to float to accommodate NaN")
                     self.array = self.array.astype(float)
+                # Not in place, since array may be shared with other rasters
+                self.array = self.array.copy()
                 self.array[outbounds] = np.nan
 
     def resize(self, scale: Number, order: int = 1) -> None:
-- 
2.43.0

