From 334d0999b9ead5b7f9608dbc49c2c891ffe666cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:49 +0000
Subject: [PATCH 01/74] fix: weather interpolation uses the grid index of
 exactly hit coordinates

---
 hrosailing/models/weather_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/models/weather_model.py b/hrosailing/models/weather_model.py
index 01b4f3a..4982193 100644
--- a/hrosailing/models/weather_model.py
+++ b/hrosailing/models/weather_model.py
@@ -292,7 +292,7 @@ def _recursive_affine_interpolation(point, grid, get_data):
 
         if comp in cuboid_vals[dim]:
             j = cuboid_vals[dim].index(point_[dim])
-            return recursion(point_, completed + [j])
+            return recursion(point_, completed + [cuboid[dim][j]])
 
         idx0 = cuboid[dim][0]
         idx1 = cuboid[dim][1]
-- 
2.43.0


From d34f95a8e33f66357927999f1d9cdac82093d66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:18 +0000
Subject: [PATCH 02/74] fix: weighers no longer remove the boat speed from
 their own list of dimensions

---
 hrosailing/processing/weigher.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hrosailing/processing/weigher.py b/hrosailing/processing/weigher.py
index 7487dd0..9637aed 100644
--- a/hrosailing/processing/weigher.py
+++ b/hrosailing/processing/weigher.py
@@ -556,6 +556,9 @@ def _set_points_from_data(data, attributes, reduce=True):
 
     if attributes is None:
         attributes = list(data.keys()) or list(data.keys)
+    else:
+        # do not change the list of the caller
+        attributes = list(attributes)
 
     if reduce:
         if "BSP" in attributes:
-- 
2.43.0


From 1fe4343244f6721214e0207798c1dfba01290851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:22 +0000
Subject: [PATCH 03/74] fix: cylindric weighers do not keep the columns of the
 first data they see

---
 hrosailing/processing/weigher.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hrosailing/processing/weigher.py b/hrosailing/processing/weigher.py
index 9637aed..c191a49 100644
--- a/hrosailing/processing/weigher.py
+++ b/hrosailing/processing/weigher.py
@@ -316,9 +316,10 @@ class CylindricMeanWeigher(Weigher):
         return np.abs(mean - bsp) / std
 
     def _determine_points_in_cylinder(self, point, points, bsps, dimensions):
-        if self._norm is None:
-            self._norm = hrosailing_standard_scaled_euclidean_norm(dimensions)
-        in_cylinder = self._norm(points - point) <= self._radius
+        norm = self._norm
+        if norm is None:
+            norm = hrosailing_standard_scaled_euclidean_norm(dimensions)
+        in_cylinder = norm(points - point) <= self._radius
         return bsps[in_cylinder]
 
 
@@ -427,7 +428,7 @@ class CylindricMemberWeigher(Weigher):
         if isinstance(points, Data) and points.n_rows == 0:
             return []
 
-        self._dimensions, points = _set_points_from_data(
+        _, points = _set_points_from_data(
             points, self._dimensions, reduce=False
         )
 
-- 
2.43.0


From 8daa28b5954f8452054253c3876ef36cbcfcbdfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:27 +0000
Subject: [PATCH 04/74] fix: arithmetic combinations of weighers can be used
 for weighing

---
 hrosailing/processing/weigher.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/hrosailing/processing/weigher.py b/hrosailing/processing/weigher.py
index c191a49..10a2ef3 100644
--- a/hrosailing/processing/weigher.py
+++ b/hrosailing/processing/weigher.py
@@ -169,9 +169,10 @@ class _UnaryMapWeigher(Weigher):
         self._map = map_
 
     def weigh(self, points) -> (np.ndarray, dict):
-        weights, _ = self._sub_weigher.weigh(points)
-        self.set_statistics(weights)
-        return self._map(weights)
+        weights = np.asarray(self._sub_weigher.weigh(points))
+        new_weights = self._map(weights)
+        self.set_statistics(new_weights)
+        return new_weights
 
 
 class _BinaryMapWeigher(Weigher):
@@ -182,8 +183,8 @@ class _BinaryMapWeigher(Weigher):
         self._map = map_
 
     def weigh(self, points) -> (np.ndarray, dict):
-        weights, _ = self._sub_weigher.weigh(points)
-        other_weights, _ = self._other_sub_weigher.weigh(points)
+        weights = np.asarray(self._sub_weigher.weigh(points))
+        other_weights = np.asarray(self._other_sub_weigher.weigh(points))
         new_weights = self._map(weights, other_weights)
         self.set_statistics(new_weights)
         return new_weights
-- 
2.43.0


From ca68392af931e179b6c0d31de7e760d078f751ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:50 +0000
Subject: [PATCH 05/74] fix: wind conversion does not normalize the angles of
 the caller's array

---
 hrosailing/core/computing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/core/computing.py b/hrosailing/core/computing.py
index 0a09ac7..2c7ab04 100644
--- a/hrosailing/core/computing.py
+++ b/hrosailing/core/computing.py
@@ -26,7 +26,7 @@ class _Wind(enum.Enum):
         if np.any((ws < 0)):
             raise TypeError("`wind` has negative wind speeds")
 
-        wa %= 360  # normalize wind angles
+        wa = wa % 360  # normalize wind angles
         wa_above_180 = wa > 180
         wa = np.deg2rad(wa)
 
-- 
2.43.0


From 836f6e84f9491c7088d479e4afda93f238e9f802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:54 +0000
Subject: [PATCH 06/74] fix: polar diagram tables do not normalize the angles
 of the caller's arrays

---
 hrosailing/polardiagram/_polardiagramtable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hrosailing/polardiagram/_polardiagramtable.py b/hrosailing/polardiagram/_polardiagramtable.py
index ba0b0a3..407306d 100644
--- a/hrosailing/polardiagram/_polardiagramtable.py
+++ b/hrosailing/polardiagram/_polardiagramtable.py
@@ -750,7 +750,7 @@ class _Resolution_helper:
                 raise ValueError("`res` contains negative entries")
 
         if resolution_type == _Resolution_type.WIND_ANGLE:
-            res %= 360
+            res = res % 360
 
         return res
 
@@ -778,7 +778,7 @@ class _Resolution_helper:
                 raise ValueError("`wind` is negative")
 
         if resolution_type == _Resolution_type.WIND_ANGLE:
-            wind %= 360
+            wind = wind % 360
 
         return set(wind)
 
-- 
2.43.0


From f5d207d27adeca156590e604cef6642ce8058ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:58 +0000
Subject: [PATCH 07/74] fix: tables created without boat speeds keep their
 resolutions as arrays

---
 hrosailing/polardiagram/_polardiagramtable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hrosailing/polardiagram/_polardiagramtable.py b/hrosailing/polardiagram/_polardiagramtable.py
index 407306d..6a60c75 100644
--- a/hrosailing/polardiagram/_polardiagramtable.py
+++ b/hrosailing/polardiagram/_polardiagramtable.py
@@ -169,8 +169,8 @@ class PolarDiagramTable(PolarDiagram):
     def _create_zero_table(self, ws_resolution, wa_resolution):
         rows, cols = len(wa_resolution), len(ws_resolution)
         self._boat_speeds = np.zeros((rows, cols))
-        self._ws_resolution = sorted(ws_resolution)
-        self._wa_resolution = sorted(wa_resolution)
+        self._ws_resolution = np.array(sorted(ws_resolution), float)
+        self._wa_resolution = np.array(sorted(wa_resolution), float)
 
     def __str__(self):
         table = ["  TWA / TWS"]
-- 
2.43.0


From a975793a6be2f800a07f658c88782d51b77bfa45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:03 +0000
Subject: [PATCH 08/74] fix: point clouds do not normalize the angles of the
 caller's arrays

---
 hrosailing/polardiagram/_polardiagrampointcloud.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hrosailing/polardiagram/_polardiagrampointcloud.py b/hrosailing/polardiagram/_polardiagrampointcloud.py
index a03ea19..5bfc578 100644
--- a/hrosailing/polardiagram/_polardiagrampointcloud.py
+++ b/hrosailing/polardiagram/_polardiagrampointcloud.py
@@ -198,7 +198,7 @@ class PolarDiagramPointcloud(PolarDiagram):
         if np.any((ws <= 0)):
             raise ValueError("`ws` is non-positive")
 
-        wa %= 360
+        wa = wa % 360
 
         cloud = self.points
         point = cloud[np.logical_and(cloud[:, 0] == ws, cloud[:, 1] == wa)]
@@ -321,6 +321,7 @@ class PolarDiagramPointcloud(PolarDiagram):
             new_pts = np.asarray_chkfinite(new_pts)
             if np.any((new_pts[:, 0] <= 0)):
                 raise ValueError("`new_pts` has non-positive wind speeds")
+            new_pts = new_pts.copy()
             new_pts[:, 1] %= 360
 
         self._points = np.row_stack((self._points, new_pts))
-- 
2.43.0


From 6f5dc506c03a0657342bf6b5532d6558392275c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:29 +0000
Subject: [PATCH 09/74] fix: sail files are written next to the csv file for
 any path-like path

---
 hrosailing/polardiagram/_polardiagrammultisails.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hrosailing/polardiagram/_polardiagrammultisails.py b/hrosailing/polardiagram/_polardiagrammultisails.py
index b48504c..9362767 100644
--- a/hrosailing/polardiagram/_polardiagrammultisails.py
+++ b/hrosailing/polardiagram/_polardiagrammultisails.py
@@ -1,6 +1,7 @@
 # pylint: disable=missing-module-docstring
 
 import csv
+import os
 
 import numpy as np
 
@@ -189,8 +190,9 @@ class PolarDiagramMultiSails(PolarDiagram):
 
     @staticmethod
     def _get_sub_csv_path(path, i):
-        path = "_".join([path.split(".")[0], "sail", str(i)])
-        return f"{path}.csv"
+        directory, name = os.path.split(os.fspath(path))
+        name = "_".join([name.split(".", maxsplit=1)[0], "sail", str(i)])
+        return os.path.join(directory, f"{name}.csv")
 
     @classmethod
     def __from_csv__(cls, file):
-- 
2.43.0


From 695b3bd7e5aa82793d298a2ac9f5192253ac03bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:44 +0000
Subject: [PATCH 10/74] fix: reading a point cloud refuses incomplete points
 and accepts an empty cloud

---
 hrosailing/polardiagram/_polardiagrampointcloud.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hrosailing/polardiagram/_polardiagrampointcloud.py b/hrosailing/polardiagram/_polardiagrampointcloud.py
index 5bfc578..237edb6 100644
--- a/hrosailing/polardiagram/_polardiagrampointcloud.py
+++ b/hrosailing/polardiagram/_polardiagrampointcloud.py
@@ -8,6 +8,7 @@ import numpy as np
 
 from hrosailing.core.computing import convert_apparent_wind_to_true
 from hrosailing.core.data import WeightedPoints
+from hrosailing.core.exceptions import FileReadingException
 from hrosailing.processing import ArithmeticMeanInterpolator, Ball
 
 from ._basepolardiagram import PolarDiagram
@@ -265,7 +266,11 @@ class PolarDiagramPointcloud(PolarDiagram):
         csv_reader = csv.reader(file, delimiter=",")
         next(csv_reader)
         points = [[literal_eval(point) for point in row] for row in csv_reader]
-        points = np.array(points)
+        if any(len(point) != 3 for point in points):
+            raise FileReadingException(
+                "every point needs a wind speed, a wind angle and a boat speed"
+            )
+        points = np.array(points).reshape(-1, 3)
 
         return PolarDiagramPointcloud(points)
 
-- 
2.43.0


From 12d9f83c8de0fdfe4edef9f9031fb423653d768f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:18 +0000
Subject: [PATCH 11/74] fix: curve extensions do not share one default
 regressor

---
 hrosailing/pipeline/extensions.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/hrosailing/pipeline/extensions.py b/hrosailing/pipeline/extensions.py
index 7ca6d7c..be61567 100644
--- a/hrosailing/pipeline/extensions.py
+++ b/hrosailing/pipeline/extensions.py
@@ -210,13 +210,26 @@ class CurveExtension(PipelineExtension):
 
     def __init__(
         self,
-        regressor=pc.ODRegressor(
-            model_func=ws_s_wa_gauss_and_square,
-            init_values=(0.2, 0.2, 10, 0.001, 0.3, 110, 2000, 0.3, 250, 2000),
-        ),
+        regressor=None,
         radians=False,
     ):
         super().__init__()
+        if regressor is None:
+            regressor = pc.ODRegressor(
+                model_func=ws_s_wa_gauss_and_square,
+                init_values=(
+                    0.2,
+                    0.2,
+                    10,
+                    0.001,
+                    0.3,
+                    110,
+                    2000,
+                    0.3,
+                    250,
+                    2000,
+                ),
+            )
         self.regressor = regressor
         self.radians = radians
 
-- 
2.43.0


From a9fceff189f39b23bf496df446698e5bffb3b984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:24 +0000
Subject: [PATCH 12/74] fix: point cloud extension samples the wind plane with
 every sampler

---
 hrosailing/pipeline/extensions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/pipeline/extensions.py b/hrosailing/pipeline/extensions.py
index be61567..aeda0f4 100644
--- a/hrosailing/pipeline/extensions.py
+++ b/hrosailing/pipeline/extensions.py
@@ -323,7 +323,7 @@ class PointcloudExtension(PipelineExtension):
         --------
         `PipelineExtension.process`
         """
-        sample_points = self.sampler.sample(weighted_points.data)
+        sample_points = self.sampler.sample(weighted_points.data[:, :2])
         interpolated_points = _interpolate_points(
             sample_points,
             weighted_points,
-- 
2.43.0


From bfff818a6670beb4a4c001857ccaa8ffdcb6790a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:47 +0000
Subject: [PATCH 13/74] fix: curve extension does not convert the angles of the
 given points in place

---
 hrosailing/pipeline/extensions.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/hrosailing/pipeline/extensions.py b/hrosailing/pipeline/extensions.py
index aeda0f4..0431e20 100644
--- a/hrosailing/pipeline/extensions.py
+++ b/hrosailing/pipeline/extensions.py
@@ -246,10 +246,11 @@ class CurveExtension(PipelineExtension):
         --------
         `PipelineExtension.process`
         """
+        data = weighted_points.data
         if self._use_radians():
-            _convert_angles_to_radians(weighted_points)
+            data = _convert_angles_to_radians(data)
 
-        self.regressor.fit(weighted_points.data)
+        self.regressor.fit(data)
 
         return pol.PolarDiagramCurve(
             self.regressor.model_func,
@@ -261,8 +262,9 @@ class CurveExtension(PipelineExtension):
         return self.radians
 
 
-def _convert_angles_to_radians(weighted_points):
-    weighted_points.data[:, 1] = np.deg2rad(weighted_points.data[:, 1])
+def _convert_angles_to_radians(data):
+    ws, wa, bsp = data.T
+    return np.column_stack([ws, np.deg2rad(wa), bsp])
 
 
 class PointcloudExtension(PipelineExtension):
-- 
2.43.0


From 15beb92520399d98f77aa6131e230fd2a3aed60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:53 +0000
Subject: [PATCH 14/74] fix: training statistics report the pre-expander filter

---
 hrosailing/pipeline/pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/pipeline/pipeline.py b/hrosailing/pipeline/pipeline.py
index 7d78236..cbeafbf 100644
--- a/hrosailing/pipeline/pipeline.py
+++ b/hrosailing/pipeline/pipeline.py
@@ -365,7 +365,7 @@ class PolarPipeline:
             pp_training_statistics.imputator,
             pp_training_statistics.smoother,
             pp_training_statistics.pre_expanding_weigher,
-            pp_training_statistics.pre_influence_filter,
+            pp_training_statistics.pre_expanding_filter,
             pp_training_statistics.expander,
             pp_training_statistics.pre_influence_weigher,
             pp_training_statistics.pre_influence_filter,
-- 
2.43.0


From ec1d85a56c8add4e7bc457622973d6c1b72cbf42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:57 +0000
Subject: [PATCH 15/74] fix: pipelines accept a list of data handlers

---
 hrosailing/pipeline/pipeline.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hrosailing/pipeline/pipeline.py b/hrosailing/pipeline/pipeline.py
index cbeafbf..541e1d2 100644
--- a/hrosailing/pipeline/pipeline.py
+++ b/hrosailing/pipeline/pipeline.py
@@ -318,6 +318,10 @@ class PolarPipeline:
         if test_data is None:
             self.testing = False
 
+        # a list of handlers is used from its beginning in each execution
+        if not isinstance(self.data_handler, pc.DataHandler):
+            self._handlers = iter(self.data_handler)
+
         preproc_training_data, pp_training_statistics = self._preprocess(
             training_data,
             True,
@@ -501,7 +505,7 @@ class PolarPipeline:
         else:
             handler_output = []
             for field in data:
-                handler = next(self.data_handler)
+                handler = next(self._handlers)
                 handler_output.append(_collect(handler, handler.handle, field))
 
         return self._list_statistics(handler_output)
-- 
2.43.0


From 03b0162b97790de7c00ddc24838b8dbfaebb5f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:17 +0000
Subject: [PATCH 16/74] fix: execution time of a pipeline run does not depend
 on the wall clock

---
 hrosailing/pipeline/pipeline.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/hrosailing/pipeline/pipeline.py b/hrosailing/pipeline/pipeline.py
index 541e1d2..8e3a93e 100644
--- a/hrosailing/pipeline/pipeline.py
+++ b/hrosailing/pipeline/pipeline.py
@@ -2,7 +2,7 @@
 Pipeline to create polar diagrams from raw data.
 """
 
-from datetime import datetime as dt
+from time import perf_counter
 from typing import NamedTuple
 
 import numpy as np
@@ -293,7 +293,7 @@ class PolarPipeline:
         -------
         out : PipelineOutput
         """
-        start_time = dt.now()
+        start_time = perf_counter()
         keys = [
             "smoothing",
             "pre_expander_weighing",
@@ -360,9 +360,10 @@ class PolarPipeline:
             test_statistics = _EMPTY_STATISTIC
             quality_assurance_statistics = {}
 
-        quality_assurance_statistics["execution time"] = (
-            dt.now() - start_time
-        ).total_seconds()
+        quality_assurance_statistics = {
+            **quality_assurance_statistics,
+            "execution time": perf_counter() - start_time,
+        }
 
         training_statistics = Statistics(
             pp_training_statistics.data_handler,
-- 
2.43.0


From bdbf055f12a118e27096687c6692d14e6376c063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:22 +0000
Subject: [PATCH 17/74] fix: pipeline does not write into the statistics of the
 influence model

---
 hrosailing/pipeline/pipeline.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hrosailing/pipeline/pipeline.py b/hrosailing/pipeline/pipeline.py
index 8e3a93e..3f2b970 100644
--- a/hrosailing/pipeline/pipeline.py
+++ b/hrosailing/pipeline/pipeline.py
@@ -454,7 +454,10 @@ class PolarPipeline:
             data,
         )
 
-        influence_statistics.update(influence_fit_statistics)
+        influence_statistics = {
+            **influence_statistics,
+            **influence_fit_statistics,
+        }
 
         (
             data,
-- 
2.43.0


From d3d9fe52d70df4ca8b37ca34f3b5a1d91b05f623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:40 +0000
Subject: [PATCH 18/74] fix: datetime interpolation continues after a gap in
 the time series

---
 hrosailing/processing/imputator.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/hrosailing/processing/imputator.py b/hrosailing/processing/imputator.py
index 6e779a4..a948b33 100644
--- a/hrosailing/processing/imputator.py
+++ b/hrosailing/processing/imputator.py
@@ -192,11 +192,10 @@ class FillLocalImputator(Imputator):
         for i, dt in enumerate(data["datetime"]):
             if dt is None:
                 continue
-            if last_dt is None:
-                pass
-            elif abs(dt - last_dt) > self._max_time_diff:
-                continue
-            else:
+            if (
+                last_dt is not None
+                and abs(dt - last_dt) <= self._max_time_diff
+            ):
                 # linear approximation of time in between
                 for j in range(last_i + 1, i):
                     mu = (j - last_i) / (i - last_i)
-- 
2.43.0


From c5673f34e8b7b979a286dbee26416fba14c0c731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:46 +0000
Subject: [PATCH 19/74] fix: remove-only imputation reports the number of
 removed rows

---
 hrosailing/processing/imputator.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hrosailing/processing/imputator.py b/hrosailing/processing/imputator.py
index a948b33..4985d0e 100644
--- a/hrosailing/processing/imputator.py
+++ b/hrosailing/processing/imputator.py
@@ -53,7 +53,6 @@ class RemoveOnlyImputator(Imputator):
         --------
         `Imputator.impute`
         """
-        n_rows = data.n_rows
         remove_rows = [
             idx
             for idx, row in enumerate(data.rows(return_type=list))
@@ -61,7 +60,7 @@ class RemoveOnlyImputator(Imputator):
         ]
         data.delete(remove_rows)
 
-        self.set_statistics(0, n_rows - len(remove_rows), 0, data)
+        self.set_statistics(0, len(remove_rows), 0, data)
 
         return data
 
-- 
2.43.0


From c6e424d63d67ac5911b9f325802494c1f112d0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:53 +0000
Subject: [PATCH 20/74] fix: affine smoothing of less than two records does not
 fail

---
 hrosailing/processing/smoother.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hrosailing/processing/smoother.py b/hrosailing/processing/smoother.py
index 5034f1c..ed04fd5 100644
--- a/hrosailing/processing/smoother.py
+++ b/hrosailing/processing/smoother.py
@@ -90,6 +90,8 @@ class AffineSmoother(Smoother):
         --------
         `Smoother.smooth`
         """
+        if data.n_rows < 2:
+            return data
         if any(time < data["datetime"][0] for time in data["datetime"]):
             raise ValueError(
                 "AffineSmoother only supports chronologically ordered time"
-- 
2.43.0


From 639b788462061bc648b39536f2f3df58b9e4edc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:01 +0000
Subject: [PATCH 21/74] fix: NMEA sentences without a position fix are read as
 missing values

---
 hrosailing/processing/datahandler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hrosailing/processing/datahandler.py b/hrosailing/processing/datahandler.py
index 3693ee6..6109e81 100644
--- a/hrosailing/processing/datahandler.py
+++ b/hrosailing/processing/datahandler.py
@@ -358,6 +358,8 @@ class NMEAFileHandler(DataHandler):
         return parsed_sentence
 
     def _from_nmea_format(self, value):
+        if value in ("", None):
+            return None
         value = float(value)
         degrees = int(value / 100)
         minutes = value - 100 * degrees
-- 
2.43.0


From 5a7754f2b214ccef8f49b885eb950e5420696326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:25 +0000
Subject: [PATCH 22/74] fix: NMEA positions in the south and west are read as
 negative degrees

---
 hrosailing/processing/datahandler.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/hrosailing/processing/datahandler.py b/hrosailing/processing/datahandler.py
index 6109e81..aa17e40 100644
--- a/hrosailing/processing/datahandler.py
+++ b/hrosailing/processing/datahandler.py
@@ -309,6 +309,7 @@ class NMEAFileHandler(DataHandler):
                 }
 
                 processed_dict = self._postprocess(parsed_dict)
+                self._sign_position(processed_dict, parsed_sentence)
 
                 comp_data.update(processed_dict, compress=True)
 
@@ -357,6 +358,14 @@ class NMEAFileHandler(DataHandler):
                 )
         return parsed_sentence
 
+    def _sign_position(self, processed_dict, parsed_sentence):
+        # southern latitudes and western longitudes are negative
+        for key, direction in (("lat", "lat_dir"), ("lon", "lon_dir")):
+            if processed_dict.get(key) is None:
+                continue
+            if getattr(parsed_sentence, direction, "") in ("S", "W"):
+                processed_dict[key] *= -1
+
     def _from_nmea_format(self, value):
         if value in ("", None):
             return None
-- 
2.43.0


From 6ef0998c0fde126af10b9a8f40c4facd773fdfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:32 +0000
Subject: [PATCH 23/74] fix: NMEA timestamps with 60 seconds keep their
 fraction and time zone

---
 hrosailing/processing/datahandler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hrosailing/processing/datahandler.py b/hrosailing/processing/datahandler.py
index aa17e40..5b673ec 100644
--- a/hrosailing/processing/datahandler.py
+++ b/hrosailing/processing/datahandler.py
@@ -12,7 +12,7 @@ create custom data handlers to handle formats which are not supported yet.
 import csv
 from abc import ABC, abstractmethod
 from ast import literal_eval
-from datetime import date, datetime, time
+from datetime import date, datetime, time, timezone
 
 import numpy as np
 
@@ -378,7 +378,7 @@ class NMEAFileHandler(DataHandler):
         hours = int(timestr[0:2])
         minutes = int(timestr[2:4])
         seconds = int(timestr[4:6])
-        microseconds = int(timestr.split(".")[1])
+        microseconds = int(float(timestr[6:] or 0) * 1000000)
         if seconds >= 60:
             minutes += seconds // 60
             seconds %= 60
@@ -390,4 +390,5 @@ class NMEAFileHandler(DataHandler):
             minute=minutes,
             second=seconds,
             microsecond=microseconds,
+            tzinfo=timezone.utc,
         )
-- 
2.43.0


From 1ded54405df3c3faac1460defbe517c81583d334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:20 +0000
Subject: [PATCH 24/74] fix: weather expander adds weather as columns aligned
 with the records

---
 hrosailing/pipeline/expander.py | 35 ++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/hrosailing/pipeline/expander.py b/hrosailing/pipeline/expander.py
index 74fe6f8..bffc19e 100644
--- a/hrosailing/pipeline/expander.py
+++ b/hrosailing/pipeline/expander.py
@@ -96,13 +96,13 @@ class WeatherExpander(Expander):
         weather_data.hrosailing_standard_format()
         weather_data = self._mark_duplicate_keys(weather_data, data)
 
-        data.update(weather_data)
+        for key in weather_data.keys():
+            data.extend(key, weather_data[key])
         data.hrosailing_standard_format()
         self.set_statistics(data)
         return data
 
     def _get_weather(self, data):
-        weather_keys = None
         none_idxs = []
         weather_list = []
         for idx, (datetime, lat, lon) in enumerate(
@@ -110,21 +110,24 @@ class WeatherExpander(Expander):
         ):
             try:
                 weather = self._weather_model.get_weather([datetime, lat, lon])
-                weather_list.append(weather)
-                if weather_keys is None:
-                    weather_keys = weather.keys()
             except ValueError:
-                if self._exception_handling_mode == "ignore":
-                    weather_list.append(None)
-                none_idxs.append(idx)
-
-        if self._exception_handling_mode == "delete":
-            data.delete(none_idxs)
-        else:
-            for idx in none_idxs:
-                weather_list[idx] = {key: None for key in weather_keys}
-
-        return Data.concatenate(weather_list)
+                if self._exception_handling_mode == "delete":
+                    none_idxs.append(idx)
+                    continue
+                weather = {}
+            weather_list.append(weather)
+
+        data.delete(none_idxs)
+
+        weather_keys = dict.fromkeys(
+            key for weather in weather_list for key in weather
+        )
+        return Data.from_dict(
+            {
+                key: [weather.get(key) for weather in weather_list]
+                for key in weather_keys
+            }
+        )
 
     def _mark_duplicate_keys(self, weather_data, data):
         for key in list(weather_data.keys()):
-- 
2.43.0


From c6056650fbaa968935738e8d45223f09e4d4f949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:00 +0000
Subject: [PATCH 25/74] fix: weather model files keep fractions of seconds and
 time zones

---
 hrosailing/models/weather_model.py | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/hrosailing/models/weather_model.py b/hrosailing/models/weather_model.py
index 4982193..55354eb 100644
--- a/hrosailing/models/weather_model.py
+++ b/hrosailing/models/weather_model.py
@@ -224,10 +224,31 @@ class GriddedWeatherModel(WeatherModel):
         """
         with open(path, "r", encoding="utf-8") as file:
             data, times, *rest = json.loads(file.read())
-            times = [datetime.strptime(t, "%d.%m.%Y:%X") for t in times]
+            times = [_time_from_str(t) for t in times]
             return cls(data, times, *rest)
 
 
+_TIME_FORMAT = "%d.%m.%Y:%X"
+
+
+def _time_to_str(time):
+    fmt = _TIME_FORMAT
+    if time.microsecond:
+        fmt += ".%f"
+    if time.tzinfo is not None:
+        fmt += "%z"
+    return time.strftime(fmt)
+
+
+def _time_from_str(time_str):
+    for suffix in ["", ".%f", "%z"]:
+        try:
+            return datetime.strptime(time_str, _TIME_FORMAT + suffix)
+        except ValueError:
+            pass
+    return datetime.strptime(time_str, _TIME_FORMAT + ".%f%z")
+
+
 class _GriddedWeatherModelEncoder(json.JSONEncoder):
     def default(self, o):
         if isinstance(o, GriddedWeatherModel):
@@ -237,10 +258,8 @@ class _GriddedWeatherModelEncoder(json.JSONEncoder):
             return [data, times, lats, lons, attrs]
         if isinstance(o, np.ndarray):
             return o.tolist()
-        if installed_pandas and isinstance(o, pd.Timestamp):
-            return o.strftime("%d.%m.%Y:%X")
         if isinstance(o, datetime):
-            return o.strftime("%d.%m.%Y:%X")
+            return _time_to_str(o)
         raise TypeError(
             f"Object of type {type(o)} is not JSON serializable :("
         )
-- 
2.43.0


From 9b81c48a38d4845fd012f6a162f2be4a01bfb0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:06 +0000
Subject: [PATCH 26/74] fix: weather models do not share their times and
 attributes with the caller

---
 hrosailing/models/weather_model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hrosailing/models/weather_model.py b/hrosailing/models/weather_model.py
index 55354eb..6624684 100644
--- a/hrosailing/models/weather_model.py
+++ b/hrosailing/models/weather_model.py
@@ -84,10 +84,10 @@ class GriddedWeatherModel(WeatherModel):
     """
 
     def __init__(self, data, times, lats, lons, attrs):
-        self._times = times
+        self._times = list(times)
         self._lats = np.array(lats)
         self._lons = np.array(lons)
-        self._attrs = attrs
+        self._attrs = list(attrs)
         self._data = np.array(data)
 
     @property
@@ -97,7 +97,7 @@ class GriddedWeatherModel(WeatherModel):
         a `numpy.ndarray` containing the latitudes and a `numpy.ndarray`
         containing the longitudes.
         """
-        return self._times, self._lats.copy(), self._lons.copy()
+        return self._times.copy(), self._lats.copy(), self._lons.copy()
 
     @property
     def data(self):
@@ -113,7 +113,7 @@ class GriddedWeatherModel(WeatherModel):
         The attributes of the weather model. Each attribute corresponds to
         a column of `self.data`.
         """
-        return self._attrs
+        return self._attrs.copy()
 
     def get_weather(self, point):
         """Given a space-time point, uses the available weather model
-- 
2.43.0


From a1637de705be2b25ca095aa7e26f5c392a8f1cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:11 +0000
Subject: [PATCH 27/74] fix: lists of sails and diagrams of a multi sail
 diagram are read only

---
 hrosailing/polardiagram/_polardiagrammultisails.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hrosailing/polardiagram/_polardiagrammultisails.py b/hrosailing/polardiagram/_polardiagrammultisails.py
index 9362767..ab7ea9a 100644
--- a/hrosailing/polardiagram/_polardiagrammultisails.py
+++ b/hrosailing/polardiagram/_polardiagrammultisails.py
@@ -64,11 +64,11 @@ class PolarDiagramMultiSails(PolarDiagram):
 
     @property
     def sails(self):
-        return self._sails
+        return self._sails.copy()
 
     @property
     def diagrams(self):
-        return self._diagrams
+        return self._diagrams.copy()
 
     def __getitem__(self, item) -> PolarDiagramTable:
         """"""
-- 
2.43.0


From 9d84165df9ed00c38124d01dce98c9ef6d61d35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:04 +0000
Subject: [PATCH 28/74] fix: stripping data terminates and keeps types and
 number of rows up to date

---
 hrosailing/core/data.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index 9cb05b0..7168ba7 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -339,22 +339,24 @@ class Data:
             Defaults to `"all"`.
         """
         if mode == "cols":
-            self._data = {
-                key: value
-                for key, value in self._data.items()
-                if not all(v is None for v in value)
-            }
+            self.delete(
+                [
+                    key
+                    for key, value in self._data.items()
+                    if all(v is None for v in value)
+                ]
+            )
         elif mode == "rows":
             end_leading_nones = 0  # first index AFTER leading None rows
             start_tailing_nones = (
                 self._max_len - 1
             )  # first index BEFORE tailing None rows
-            while all(
+            while end_leading_nones < self._max_len and all(
                 value[end_leading_nones] is None
                 for key, value in self._data.items()
             ):
                 end_leading_nones += 1
-            while all(
+            while start_tailing_nones > end_leading_nones and all(
                 value[start_tailing_nones] is None
                 for key, value in self._data.items()
             ):
@@ -363,6 +365,7 @@ class Data:
                 key: value[end_leading_nones : start_tailing_nones + 1]
                 for key, value in self._data.items()
             }
+            self._max_len = max(0, start_tailing_nones + 1 - end_leading_nones)
         elif mode == "all":
             self.strip("cols")
             self.strip("rows")
-- 
2.43.0


From 3c8754f4f9e26da7a475141e024266edb234ed5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:09 +0000
Subject: [PATCH 29/74] fix: deleting rows counts every deleted row once

---
 hrosailing/core/data.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index 7168ba7..e4539a5 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -320,11 +320,12 @@ class Data:
                 for k in key:
                     self.delete(k)
             if isinstance(key[0], int):
+                deleted = set(key)
                 self._data = {
-                    k: [v for i, v in enumerate(value) if i not in key]
+                    k: [v for i, v in enumerate(value) if i not in deleted]
                     for k, value in self._data.items()
                 }
-                self._max_len -= len(key)
+                self._max_len -= len(deleted.intersection(range(self._max_len)))
 
     def strip(self, mode="all"):
         """
-- 
2.43.0


From 2b73769fe59d29e17dde76e1c2bfc7c07ca1a62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:15 +0000
Subject: [PATCH 30/74] fix: data does not share columns with given lists or
 with its slices

---
 hrosailing/core/data.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index e4539a5..2e8f0ef 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -172,7 +172,7 @@ class Data:
         else:
             # self.fill(self._max_len - len(data), [key])
             # self._data[key].extend(data)
-            self._data[key] = data
+            self._data[key] = list(data)
             self._types[key] = data_type
             self._max_len = max(self._max_len, len(self._data[key]))
 
@@ -508,7 +508,9 @@ class Data:
         """
 
         data = {
-            key: value for key, value in self._data.items() if key in slice_
+            key: list(value)
+            for key, value in self._data.items()
+            if key in slice_
         }
         types = {
             key: value for key, value in self._types.items() if key in slice_
-- 
2.43.0


From 59d764170a8f5cd8efb0e51f5b39ce580f1a909c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:19 +0000
Subject: [PATCH 31/74] fix: a rejected update does not change the data

---
 hrosailing/core/data.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index 2e8f0ef..599216e 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -158,15 +158,10 @@ class Data:
         data : list
             Data that will be appended to the given column.
         """
-        data_type = self._get_type(data)
+        data_type = self._get_checked_type(key, data)
         if key in self._data:
             if self._types[key] is None:
                 self._types[key] = data_type
-            if data_type is not None and data_type != self._types[key]:
-                raise ValueError(
-                    f"data should be of type {self._types[key]}"
-                    f" but has type {data_type}"
-                )
             self._data[key].extend(data)
             self._max_len = max(self._max_len, len(self._data[key]))
         else:
@@ -176,6 +171,15 @@ class Data:
             self._types[key] = data_type
             self._max_len = max(self._max_len, len(self._data[key]))
 
+    def _get_checked_type(self, key, data):
+        data_type = self._get_type(data)
+        type_ = self._types[key] if key in self._data else None
+        if None not in (data_type, type_) and data_type != type_:
+            raise ValueError(
+                f"data should be of type {type_} but has type {data_type}"
+            )
+        return data_type
+
     def update(self, data_dict, compress=False):
         """
         Extends the data according to given data and fills missing
@@ -195,6 +199,9 @@ class Data:
             return
         if not isinstance(data_dict, dict):
             raise TypeError("`data_dict` has to be of type `Data` or `dict`")
+        # a rejected update should not change anything
+        for key, val in data_dict.items():
+            self._get_checked_type(key, val if isinstance(val, list) else [val])
         self.fill(
             self._max_len, itertools.chain(data_dict.keys(), self.keys())
         )
-- 
2.43.0


From 31621ca8df16a3bb71b9d438fd1abd05e6e6b1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:24 +0000
Subject: [PATCH 32/74] fix: date and time are not appended to an existing
 datetime column

---
 hrosailing/core/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index 599216e..d503e7b 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -413,7 +413,7 @@ class Data:
                 new_key = f"{standard_key}(Control value {i})"
             self.rename(key, new_key)
 
-        if "time" in self and "date" in self:
+        if "time" in self and "date" in self and "datetime" not in self:
 
             def combine(date, time):
                 if date is None or time is None:
-- 
2.43.0


From 0c4345ef9cf56cb2bd232317267b2eea8ddbb277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:45 +0000
Subject: [PATCH 33/74] fix: cruise does not change the influence data of the
 caller

---
 hrosailing/cruising/basics.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hrosailing/cruising/basics.py b/hrosailing/cruising/basics.py
index eb5d2f6..a158da0 100644
--- a/hrosailing/cruising/basics.py
+++ b/hrosailing/cruising/basics.py
@@ -235,8 +235,9 @@ def cruise(
     _, slices, _ = pd.get_slices(ws, full_info=True)
     ws, wa, bsp = slices[0]
     if im:
-        for key, val in influence_data.items():
-            influence_data[key] = [val] * len(wa)
+        influence_data = {
+            key: [val] * len(wa) for key, val in influence_data.items()
+        }
         influence_data["TWS"] = [ws] * len(wa)
         influence_data["TWA"] = wa
         bsp = im.add_influence(pd, influence_data)
-- 
2.43.0


From 5e1a883a1b809ad98e95493f76e093d0af99d9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:51 +0000
Subject: [PATCH 34/74] fix: routing does not pass becalmed stretches in no
 time

---
 hrosailing/cruising/basics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hrosailing/cruising/basics.py b/hrosailing/cruising/basics.py
index a158da0..f636850 100644
--- a/hrosailing/cruising/basics.py
+++ b/hrosailing/cruising/basics.py
@@ -517,10 +517,10 @@ def _get_inverse_bsp(pd, pos, hdt, t, lat_mp, start_time, wm, im):
         tws, twa = _uvgrid_to_tw(ugrid, vgrid, hdt)
         bsp = pd(tws, twa)
 
-    if bsp != 0:
+    if bsp > 0:
         return 1 / bsp
 
-    return 0
+    return 1000  # the vessel does not move forward
 
 
 def _right_handing_course(a, b):
-- 
2.43.0


From a2fcce0ffb220fb9ff24b93b5917b4a72bb656f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:55 +0000
Subject: [PATCH 35/74] fix: routing does not write into the data of the
 weather model

---
 hrosailing/cruising/basics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hrosailing/cruising/basics.py b/hrosailing/cruising/basics.py
index f636850..edd5542 100644
--- a/hrosailing/cruising/basics.py
+++ b/hrosailing/cruising/basics.py
@@ -505,7 +505,8 @@ def _get_inverse_bsp(pd, pos, hdt, t, lat_mp, start_time, wm, im):
     lat, long = _inverse_mercator_proj(pos, lat_mp)
     time = start_time + timedelta(hours=t)
     try:
-        data = wm.get_weather((time, lat, long))
+        # do not write into the data of the weather model
+        data = dict(wm.get_weather((time, lat, long)))
     except ValueError:
         return 1000  # maybe a better default?
     data["HDT"] = hdt
-- 
2.43.0


From 840958f4965985ed2a6f2b432f18395fed36546e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:59 +0000
Subject: [PATCH 36/74] fix: routing treats empty weather of a multi weather
 model as missing

---
 hrosailing/cruising/basics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hrosailing/cruising/basics.py b/hrosailing/cruising/basics.py
index edd5542..01485e6 100644
--- a/hrosailing/cruising/basics.py
+++ b/hrosailing/cruising/basics.py
@@ -509,6 +509,8 @@ def _get_inverse_bsp(pd, pos, hdt, t, lat_mp, start_time, wm, im):
         data = dict(wm.get_weather((time, lat, long)))
     except ValueError:
         return 1000  # maybe a better default?
+    if not data:  # no submodel of a `MultiWeatherModel` is available
+        return 1000
     data["HDT"] = hdt
     if im:
         data = {key: [val] for key, val in data.items()}
-- 
2.43.0


From 166e341bf52377c02f832c5f7467dfa0ad572043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:21 +0000
Subject: [PATCH 37/74] fix: empty cells of csv files and data frames are
 missing values

---
 hrosailing/processing/datahandler.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/hrosailing/processing/datahandler.py b/hrosailing/processing/datahandler.py
index 5b673ec..fecaba4 100644
--- a/hrosailing/processing/datahandler.py
+++ b/hrosailing/processing/datahandler.py
@@ -87,7 +87,10 @@ class ArrayHandler(DataHandler):
         `DataHandler.handle`
         """
         if self.pand and isinstance(data, self.pd.DataFrame):
-            data_dict = data.to_dict(orient="list")
+            data_dict = {
+                key: [None if _is_missing(entry) else entry for entry in column]
+                for key, column in data.to_dict(orient="list").items()
+            }
         else:
             arr, keys = data
             arr = np.asarray(arr)
@@ -172,6 +175,8 @@ class CsvFileHandler(DataHandler):
         return data
 
     def _save_eval(self, entry):
+        if _is_missing(entry):
+            return None
         if not isinstance(entry, str):
             return entry
         try:
@@ -392,3 +397,10 @@ class NMEAFileHandler(DataHandler):
             microsecond=microseconds,
             tzinfo=timezone.utc,
         )
+
+
+def _is_missing(entry):
+    # empty cells of tables are NaN, NaT or empty strings
+    if isinstance(entry, str):
+        return not entry.strip()
+    return isinstance(entry, (float, datetime)) and entry != entry
-- 
2.43.0


From 290a6759b6d1d79a1c8a9c91d8b2ff7947f1eb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:27 +0000
Subject: [PATCH 38/74] fix: combined weather ignores unimplemented lookups of
 its sources as documented

---
 hrosailing/models/weather_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hrosailing/models/weather_model.py b/hrosailing/models/weather_model.py
index 6624684..53448f0 100644
--- a/hrosailing/models/weather_model.py
+++ b/hrosailing/models/weather_model.py
@@ -514,6 +514,7 @@ class MultiWeatherModel(WeatherModel):
                 ValueError,
                 TypeError,
                 KeyError,
+                NotImplementedError,
             ) as e:
                 if self._exception_sensitive:
                     raise e
-- 
2.43.0


From 117175bed4dd55e7aa7405bebab88b64ee4bd5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:52 +0000
Subject: [PATCH 39/74] fix: NMEA wind of a single wanted attribute keeps its
 reference

---
 hrosailing/processing/datahandler.py | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/hrosailing/processing/datahandler.py b/hrosailing/processing/datahandler.py
index fecaba4..df009cc 100644
--- a/hrosailing/processing/datahandler.py
+++ b/hrosailing/processing/datahandler.py
@@ -328,23 +328,19 @@ class NMEAFileHandler(DataHandler):
         return comp_data
 
     def _postprocess(self, parsed_sentence):
-        if (
-            "Wind angle" in parsed_sentence
-            and "Reference" in parsed_sentence
-            and "Wind speed" in parsed_sentence
-        ):
-            wind_angle = parsed_sentence["Wind angle"]
-            wind_speed = parsed_sentence["Wind speed"]
+        if "Reference" in parsed_sentence:
             reference = parsed_sentence["Reference"]
-            if reference == "R":
-                parsed_sentence["AWA"] = wind_angle
-                parsed_sentence["AWS"] = wind_speed
-            elif reference == "T":
-                parsed_sentence["TWA"] = wind_angle
-                parsed_sentence["TWS"] = wind_speed
+            for name, keys in [
+                ("Wind angle", {"R": "AWA", "T": "TWA"}),
+                ("Wind speed", {"R": "AWS", "T": "TWS"}),
+            ]:
+                if name not in parsed_sentence:
+                    continue
+                if reference in keys:
+                    parsed_sentence[keys[reference]] = parsed_sentence[name]
+                del parsed_sentence[name]
             del parsed_sentence["Reference"]
-            del parsed_sentence["Wind angle"]
-            del parsed_sentence["Wind speed"]
+
         if "Latitude" in parsed_sentence:
             parsed_sentence["lat"] = self._from_nmea_format(
                 parsed_sentence["Latitude"]
-- 
2.43.0


From f793d608436ad731294f5cf9986423d1c6e6b6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:50 +0000
Subject: [PATCH 40/74] fix: NMEA logs with a leap second at the end of the day
 are readable

---
 hrosailing/processing/datahandler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hrosailing/processing/datahandler.py b/hrosailing/processing/datahandler.py
index df009cc..e3edb42 100644
--- a/hrosailing/processing/datahandler.py
+++ b/hrosailing/processing/datahandler.py
@@ -386,6 +386,10 @@ class NMEAFileHandler(DataHandler):
         if minutes >= 60:
             hours += minutes // 60
             minutes %= 60
+
+        if hours == 24:
+            # leap second at the end of the day, the date is still the old one
+            return time.max.replace(tzinfo=timezone.utc)
         return time(
             hour=hours,
             minute=minutes,
-- 
2.43.0


From 3af6472f9c379bb91ace9209ab62088bfacd3a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:51 +0000
Subject: [PATCH 41/74] fix: NetCDF weather keeps fractional hours and seconds
 of its time axis

---
 hrosailing/models/weather_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/models/weather_model.py b/hrosailing/models/weather_model.py
index 53448f0..5b7ddf9 100644
--- a/hrosailing/models/weather_model.py
+++ b/hrosailing/models/weather_model.py
@@ -418,7 +418,7 @@ class NetCDFWeatherModel(GriddedWeatherModel):
             )
 
         times = [
-            starting_time + int(plain_time) * timestep
+            starting_time + float(plain_time) * timestep
             for plain_time in plain_times
         ]
 
-- 
2.43.0


From f3ee2776a7c39cc449552201f8f5784d6a138fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:39 +0000
Subject: [PATCH 42/74] fix: weather of stations with different times is not
 mixed

---
 hrosailing/models/weather_model.py | 32 ++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/hrosailing/models/weather_model.py b/hrosailing/models/weather_model.py
index 5b7ddf9..933ba3a 100644
--- a/hrosailing/models/weather_model.py
+++ b/hrosailing/models/weather_model.py
@@ -174,23 +174,33 @@ class GriddedWeatherModel(WeatherModel):
             )
 
         # fetch data
+        times = None
         lat_datas = []
         for lat in lats:
             lon_data = []
             for lon in lons:
                 loc = meteostat.Point(lat, lon, 0)
                 data = meteostat.Hourly(loc, start_time, end_time).fetch()
-                times = data.index.values
-                np_data = data[keys].to_numpy()
-                if np_data.shape[0] == 0:
-                    np_data = []
-                lon_data.append(np_data)
-            max_len = max(len(d) for d in lon_data)
-            lon_data = [
-                np.zeros((max_len, len(keys))) if d == [] else d
-                for d in lon_data
-            ]
-            lat_datas.append(np.stack(lon_data, axis=0))
+                lon_data.append(data[keys].to_numpy())
+                if len(data) == 0:
+                    continue
+                if times is None:
+                    times = data.index.values
+                elif not np.array_equal(times, data.index.values):
+                    raise ValueError(
+                        "the available data covers different times at "
+                        "different points"
+                    )
+            lat_datas.append(lon_data)
+
+        if times is None:
+            raise ValueError("no weather data available")
+
+        no_data = np.zeros((len(times), len(keys)))
+        lat_datas = [
+            np.stack([d if len(d) else no_data for d in lon_data], axis=0)
+            for lon_data in lat_datas
+        ]
 
         times = [pd.to_datetime(t) for t in times]
         data = np.stack(lat_datas, axis=0)
-- 
2.43.0


From f2701c79c686dec77a8a8d761ec12243dfe1c19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:00 +0000
Subject: [PATCH 43/74] fix: weather of an already expanded table does not
 extend its columns

---
 hrosailing/pipeline/expander.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hrosailing/pipeline/expander.py b/hrosailing/pipeline/expander.py
index bffc19e..ed8a964 100644
--- a/hrosailing/pipeline/expander.py
+++ b/hrosailing/pipeline/expander.py
@@ -131,6 +131,8 @@ class WeatherExpander(Expander):
 
     def _mark_duplicate_keys(self, weather_data, data):
         for key in list(weather_data.keys()):
-            if key in data.keys():
-                weather_data.rename(key, f"{key}(duplicate)")
+            new_key = key
+            while new_key in data.keys():
+                new_key = f"{new_key}(duplicate)"
+            weather_data.rename(key, new_key)
         return weather_data
-- 
2.43.0


From 912a485631c30f91dd20113f1a67bd202ce83b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:36 +0000
Subject: [PATCH 44/74] fix: routing chart uses degrees, nautical miles and the
 course's heading

---
 hrosailing/cruising/basics.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/hrosailing/cruising/basics.py b/hrosailing/cruising/basics.py
index 01485e6..58e43ae 100644
--- a/hrosailing/cruising/basics.py
+++ b/hrosailing/cruising/basics.py
@@ -349,7 +349,8 @@ def cost_cruise(
     proj_end = _mercator_proj(end, lat_mp)
     total_s = np.linalg.norm(proj_end - proj_start)
 
-    hdt = _right_handing_course(start, end)
+    # heading of the straight line on the projection
+    hdt = np.rad2deg(np.arctan2(*(proj_end - proj_start))) % 360
 
     # define derivative of t by s
     def dt_ds(s, t):
@@ -482,22 +483,25 @@ def isochrone(
 
 def _inverse_mercator_proj(pt, lat_mp):
     """
-    Computes point from its mercator projection with reference point `lat_mp`.
+    Computes point from its mercator projection with reference latitude `lat_mp`.
     """
-    x, y = pt / 69
-    return x + lat_mp, 180 / np.pi * np.arcsin(np.tanh(y))
+    x, y = pt / _mercator_radius(lat_mp)
+    return np.rad2deg(np.arctan(np.sinh(y))), np.rad2deg(x)
 
 
 def _mercator_proj(pt, lat_mp):
     """
-    Computes the mercator projection with reference point `lat_mp` of a point.
+    Computes the mercator projection of a point which is true to scale
+    at the reference latitude `lat_mp`.
     """
-    lat, long = pt
+    lat, long = np.deg2rad(pt)
 
-    # 69 nautical miles between two latitudes
-    return 69 * np.array(
-        [(lat - lat_mp), np.arcsinh(np.tan(np.pi * long / 180))]
-    )
+    return _mercator_radius(lat_mp) * np.array([long, np.arcsinh(np.tan(lat))])
+
+
+def _mercator_radius(lat_mp):
+    # 60 nautical miles between two latitudes
+    return np.rad2deg(60) * np.cos(np.deg2rad(lat_mp))
 
 
 def _get_inverse_bsp(pd, pos, hdt, t, lat_mp, start_time, wm, im):
-- 
2.43.0


From 80f8174995ad167600a71bf8b139e1e5aa460392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:41 +0000
Subject: [PATCH 45/74] fix: isochrones of non-positive time are refused
 instead of never ending

---
 hrosailing/cruising/basics.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hrosailing/cruising/basics.py b/hrosailing/cruising/basics.py
index 58e43ae..142d18b 100644
--- a/hrosailing/cruising/basics.py
+++ b/hrosailing/cruising/basics.py
@@ -440,6 +440,11 @@ def isochrone(
     s : float
         The length of the way traveled from start to end.
     """
+    if not 0 < total_time < np.inf:
+        raise ValueError("`total_time` has to be positive and finite")
+    if min_nodes <= 0:
+        raise ValueError("`min_nodes` is non-positive")
+
     # estimate first sample points as equidistant points
 
     lat_mp = start[0]
-- 
2.43.0


From b92ef10da99f80ded9fc86de02ebde4afe83aa52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:42 +0000
Subject: [PATCH 46/74] fix: rejected deletion of columns leaves the data
 unchanged

---
 hrosailing/core/data.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index d503e7b..3de3587 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -325,6 +325,9 @@ class Data:
                 return
             if isinstance(key[0], str):
                 for k in key:
+                    if k not in self._data:
+                        raise KeyError(k)
+                for k in dict.fromkeys(key):
                     self.delete(k)
             if isinstance(key[0], int):
                 deleted = set(key)
-- 
2.43.0


From 1e56461438a12bcce0447f69fea0442440e407b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:48 +0000
Subject: [PATCH 47/74] fix: columns without a name can be read

---
 hrosailing/core/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index 3de3587..3aac7cc 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -397,7 +397,7 @@ class Data:
                 lkey = lkey.replace(sep, " ")
             lkey = lkey.strip()
             # remove plural
-            stripped_lkey = lkey if lkey[-1] != "s" else lkey[:-1]
+            stripped_lkey = lkey[:-1] if lkey.endswith("s") else lkey
             if lkey in KEYSYNONYMS:
                 return KEYSYNONYMS[lkey]
             if stripped_lkey in KEYSYNONYMS:
-- 
2.43.0


From 94338ba0c3bc54ff51e5de67e3726085013c1673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:06 +0000
Subject: [PATCH 48/74] fix: changed table entries keep the order in which wind
 speeds and angles are given

---
 hrosailing/polardiagram/_polardiagramtable.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/hrosailing/polardiagram/_polardiagramtable.py b/hrosailing/polardiagram/_polardiagramtable.py
index 6a60c75..ea899c6 100644
--- a/hrosailing/polardiagram/_polardiagramtable.py
+++ b/hrosailing/polardiagram/_polardiagramtable.py
@@ -324,10 +324,11 @@ class PolarDiagramTable(PolarDiagram):
         if not wind:
             raise ValueError("empty slice-list was passed")
 
-        if not wind.issubset(set(res)):
+        if not set(wind).issubset(set(res)):
             raise ValueError(f"{wind} is not contained in {res}")
 
-        return [i for i, w in enumerate(res) if w in wind]
+        # keep the given order, the values to be entered are in this order
+        return [i for w_ in wind for i, w in enumerate(res) if w == w_]
 
     @property
     def wind_angles(self):
@@ -653,12 +654,7 @@ class PolarDiagramTable(PolarDiagram):
         if not correct_shape:
             raise ValueError("`new_bsps` has wrong shape")
 
-        mask = np.zeros(self.boat_speeds.shape, dtype=bool)
-        for i in wa:
-            for j in ws:
-                mask[i, j] = True
-
-        self._boat_speeds[mask] = new_bsps.flat
+        self._boat_speeds[np.ix_(wa, ws)] = new_bsps.reshape(len(wa), len(ws))
 
 
 class _Resolution_type(enum.Enum):
@@ -780,7 +776,8 @@ class _Resolution_helper:
         if resolution_type == _Resolution_type.WIND_ANGLE:
             wind = wind % 360
 
-        return set(wind)
+        # without duplicates
+        return list(dict.fromkeys(wind))
 
 
 def _incompatible_shapes(bsps, ws_resolution, wa_resolution):
-- 
2.43.0


From d32c8af512206c5c17c9283a28309ff3e9d25aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:10 +0000
Subject: [PATCH 49/74] fix: symmetrizing an empty cloud returns a new instance

---
 hrosailing/polardiagram/_polardiagrampointcloud.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/polardiagram/_polardiagrampointcloud.py b/hrosailing/polardiagram/_polardiagrampointcloud.py
index 237edb6..42edbd0 100644
--- a/hrosailing/polardiagram/_polardiagrampointcloud.py
+++ b/hrosailing/polardiagram/_polardiagrampointcloud.py
@@ -286,7 +286,7 @@ class PolarDiagramPointcloud(PolarDiagram):
         that might overwrite or live alongside old points.
         """
         if not self.points.size:
-            return self
+            return PolarDiagramPointcloud(self.points)
 
         below_180 = [wa for wa in self.wind_angles if wa <= 180]
         above_180 = [wa for wa in self.wind_angles if wa > 180]
-- 
2.43.0


From 7c675c56b2537b041bf54ae5e6cb2e21b178a5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:17 +0000
Subject: [PATCH 50/74] fix: the maximal weight always is in the last tenth of
 the weight statistics

---
 hrosailing/processing/weigher.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/hrosailing/processing/weigher.py b/hrosailing/processing/weigher.py
index 10a2ef3..e62b7dd 100644
--- a/hrosailing/processing/weigher.py
+++ b/hrosailing/processing/weigher.py
@@ -134,6 +134,8 @@ class Weigher(ComponentWithStatistics, ABC):
 
         def get_quantiles(args):
             minw, span = args
+            # rounding should not exclude the maximal weight from the last one
+            ends = [minw + span * i / 10 for i in range(10)] + [maxw]
             return [
                 round(
                     100
@@ -141,11 +143,7 @@ class Weigher(ComponentWithStatistics, ABC):
                         [
                             w
                             for w in weights
-                            if (
-                                minw + span * (i + 1) / 10
-                                >= w
-                                >= minw + span * i / 10
-                            )
+                            if ends[i + 1] >= w >= ends[i]
                         ]
                     )
                     / len(weights),
-- 
2.43.0


From 8f26794abc6279dada2e9ecaf1c9523b688a29c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:29 +0000
Subject: [PATCH 51/74] fix: weighers and filters without any points report
 their own statistics

---
 hrosailing/processing/filter.py  | 1 +
 hrosailing/processing/weigher.py | 8 +++++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/hrosailing/processing/filter.py b/hrosailing/processing/filter.py
index 4e0a549..bef3eeb 100644
--- a/hrosailing/processing/filter.py
+++ b/hrosailing/processing/filter.py
@@ -92,6 +92,7 @@ class QuantileFilter(Filter):
         `Filter.filter`
         """
         if len(wts) == 0:
+            self.set_statistics([])
             return []
         filtered_points = self._calculate_quantile(wts)
 
diff --git a/hrosailing/processing/weigher.py b/hrosailing/processing/weigher.py
index e62b7dd..0ef96ac 100644
--- a/hrosailing/processing/weigher.py
+++ b/hrosailing/processing/weigher.py
@@ -153,7 +153,9 @@ class Weigher(ComponentWithStatistics, ABC):
             ]
 
         super().set_statistics(
-            average_weight=safe_operation(np.mean, weights),
+            average_weight=safe_operation(np.mean, weights)
+            if len(weights)
+            else None,
             minimal_weight=minw,
             maximal_weight=maxw,
             quantiles=safe_operation(get_quantiles, [minw, span]),
@@ -285,8 +287,10 @@ class CylindricMeanWeigher(Weigher):
         `Weigher.weigh`
         """
         if isinstance(points, np.ndarray) and len(points) == 0:
+            self.set_statistics([])
             return []
         if isinstance(points, Data) and points.n_rows == 0:
+            self.set_statistics([])
             return []
         dimensions, points, bsps = _set_points_from_data(
             points, self._dimensions
@@ -423,8 +427,10 @@ class CylindricMemberWeigher(Weigher):
         """
 
         if isinstance(points, np.ndarray) and len(points) == 0:
+            self.set_statistics([])
             return []
         if isinstance(points, Data) and points.n_rows == 0:
+            self.set_statistics([])
             return []
 
         _, points = _set_points_from_data(
-- 
2.43.0


From 6e0ddc5116a45f4f3b0c7c794695a16c3d6e551e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:25 +0000
Subject: [PATCH 52/74] fix: curves in radians are mirrored at the axis of the
 boat

---
 hrosailing/polardiagram/_polardiagramcurve.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hrosailing/polardiagram/_polardiagramcurve.py b/hrosailing/polardiagram/_polardiagramcurve.py
index 351ac05..439f43e 100644
--- a/hrosailing/polardiagram/_polardiagramcurve.py
+++ b/hrosailing/polardiagram/_polardiagramcurve.py
@@ -206,9 +206,11 @@ class PolarDiagramCurve(PolarDiagram):
         by mirroring it at the 0° - 180° axis and returning a new instance.
         """
 
+        full_circle = 2 * np.pi if self.radians else 360
+
         def sym_func(ws, wa, *params):
             y = self._f(ws, wa, *params)
-            y_symm = self._f(ws, (360 - wa), *params)
+            y_symm = self._f(ws, (full_circle - wa), *params)
             return 0.5 * (y + y_symm)
 
         return PolarDiagramCurve(
-- 
2.43.0


From 97efc66c18219960ce324dd77702f71a7657228d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:30 +0000
Subject: [PATCH 53/74] fix: slices of curves in radians are taken at the
 angles they report

---
 hrosailing/polardiagram/_polardiagramcurve.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hrosailing/polardiagram/_polardiagramcurve.py b/hrosailing/polardiagram/_polardiagramcurve.py
index 439f43e..81b7b9f 100644
--- a/hrosailing/polardiagram/_polardiagramcurve.py
+++ b/hrosailing/polardiagram/_polardiagramcurve.py
@@ -73,7 +73,8 @@ class PolarDiagramCurve(PolarDiagram):
         wa = np.linspace(5, 355, 144)
         ws, wa = np.meshgrid(ws, wa)
         ws, wa = ws.ravel(), wa.ravel()
-        bsp = np.array([self(ws_, wa_) for ws_, wa_ in zip(ws, wa)])
+        angles = np.deg2rad(wa) if self.radians else wa
+        bsp = np.array([self(ws_, wa_) for ws_, wa_ in zip(ws, angles)])
         return np.column_stack([ws, wa, bsp])
 
     def get_slices(
@@ -108,8 +109,9 @@ class PolarDiagramCurve(PolarDiagram):
         `PolarDiagram.ws_to_slices`
         """
         wa_ls = np.linspace(0, 360, wa_resolution)
+        angles = np.deg2rad(wa_ls) if self.radians else wa_ls
         return [
-            np.row_stack([[ws_] * len(wa_ls), wa_ls, self(ws_, wa_ls)])
+            np.row_stack([[ws_] * len(wa_ls), wa_ls, self(ws_, angles)])
             for ws_ in ws
         ]
 
-- 
2.43.0


From 247772aeb948c22539328ea7b274bb6646d14d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:07 +0000
Subject: [PATCH 54/74] fix: statistics of a run are not shared with other runs
 or the component

---
 hrosailing/core/statistics.py   | 2 +-
 hrosailing/pipeline/pipeline.py | 7 +++----
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/hrosailing/core/statistics.py b/hrosailing/core/statistics.py
index ae6c5e3..34cea3d 100644
--- a/hrosailing/core/statistics.py
+++ b/hrosailing/core/statistics.py
@@ -25,4 +25,4 @@ class ComponentWithStatistics:
         statistics: dict
             The statistics of the latest run of the handler.
         """
-        return self._statistics
+        return self._statistics.copy()
diff --git a/hrosailing/pipeline/pipeline.py b/hrosailing/pipeline/pipeline.py
index 3f2b970..bee2d0e 100644
--- a/hrosailing/pipeline/pipeline.py
+++ b/hrosailing/pipeline/pipeline.py
@@ -44,9 +44,8 @@ class Statistics(NamedTuple):
     quality_assurance: dict
 
 
-_EMPTY_STATISTIC = Statistics(
-    {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}
-)
+def _empty_statistics():
+    return Statistics(*({} for _ in Statistics._fields))
 
 
 class PipelineOutput(NamedTuple):
@@ -357,7 +356,7 @@ class PolarPipeline:
                 polar_diagram, preproc_test_data.data
             )
         else:
-            test_statistics = _EMPTY_STATISTIC
+            test_statistics = _empty_statistics()
             quality_assurance_statistics = {}
 
         quality_assurance_statistics = {
-- 
2.43.0


From 89279be318cb4b998674ac562e582c9161ef989e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:12 +0000
Subject: [PATCH 55/74] fix: imputators, smoother and weather expander leave
 the given data unchanged

---
 hrosailing/pipeline/expander.py    | 1 +
 hrosailing/processing/imputator.py | 2 ++
 hrosailing/processing/smoother.py  | 1 +
 3 files changed, 4 insertions(+)

diff --git a/hrosailing/pipeline/expander.py b/hrosailing/pipeline/expander.py
index ed8a964..26a913a 100644
--- a/hrosailing/pipeline/expander.py
+++ b/hrosailing/pipeline/expander.py
@@ -92,6 +92,7 @@ class WeatherExpander(Expander):
         --------
         `Expander.expand`
         """
+        data = data.get_slice(data.keys())
         weather_data = self._get_weather(data)
         weather_data.hrosailing_standard_format()
         weather_data = self._mark_duplicate_keys(weather_data, data)
diff --git a/hrosailing/processing/imputator.py b/hrosailing/processing/imputator.py
index 4985d0e..4b1e547 100644
--- a/hrosailing/processing/imputator.py
+++ b/hrosailing/processing/imputator.py
@@ -53,6 +53,7 @@ class RemoveOnlyImputator(Imputator):
         --------
         `Imputator.impute`
         """
+        data = data.get_slice(data.keys())
         remove_rows = [
             idx
             for idx, row in enumerate(data.rows(return_type=list))
@@ -160,6 +161,7 @@ class FillLocalImputator(Imputator):
         `Imputator.impute`
         """
         self._n_filled = 0
+        data = data.get_slice(data.keys())
         n_removed_cols = data.n_cols
         data.strip("cols")
         n_removed_cols -= data.n_cols
diff --git a/hrosailing/processing/smoother.py b/hrosailing/processing/smoother.py
index ed04fd5..7f69202 100644
--- a/hrosailing/processing/smoother.py
+++ b/hrosailing/processing/smoother.py
@@ -97,6 +97,7 @@ class AffineSmoother(Smoother):
                 "AffineSmoother only supports chronologically ordered time"
                 " series."
             )
+        data = data.get_slice(data.keys())
         for key in data.keys():
             if data.type(key) is float:
                 data = self._smooth_field(key, data)
-- 
2.43.0


From 58a7305dc19a4c1de4b547c09e9088543fa7a63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:18 +0000
Subject: [PATCH 56/74] fix: affine smoothing refuses every series that is not
 in chronological order

---
 hrosailing/processing/smoother.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hrosailing/processing/smoother.py b/hrosailing/processing/smoother.py
index 7f69202..3806b09 100644
--- a/hrosailing/processing/smoother.py
+++ b/hrosailing/processing/smoother.py
@@ -92,7 +92,8 @@ class AffineSmoother(Smoother):
         """
         if data.n_rows < 2:
             return data
-        if any(time < data["datetime"][0] for time in data["datetime"]):
+        times = data["datetime"]
+        if any(time < before for before, time in zip(times, times[1:])):
             raise ValueError(
                 "AffineSmoother only supports chronologically ordered time"
                 " series."
-- 
2.43.0


From cb0492ea7b7004648d974b73870c05fc3f6d2191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:53 +0000
Subject: [PATCH 57/74] fix: affine smoothing keeps a last measurement that
 differs from the one before

---
 hrosailing/processing/smoother.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/hrosailing/processing/smoother.py b/hrosailing/processing/smoother.py
index 3806b09..53430e8 100644
--- a/hrosailing/processing/smoother.py
+++ b/hrosailing/processing/smoother.py
@@ -128,19 +128,16 @@ class AffineSmoother(Smoother):
         y_lb = ys[0]
         interval_bounds_x = []
         interval_bounds_y = []
-        for i, (x, x_after, y, y_after) in enumerate(
-            zip(xs, xs[1:], ys, ys[1:])
-        ):
-            if i == len(ys) - 2:
-                interval_bounds_x.append((x_lb, x_after))
-                interval_bounds_y.append(y)
-                break
+        for x, x_after, y, y_after in zip(xs, xs[1:], ys, ys[1:]):
             if y == y_after:
                 continue
             interval_bounds_x.extend([(x_lb, 1 / 2 * (x + x_after))])
             interval_bounds_y.append(y_lb)
             x_lb = 1 / 2 * (x + x_after)
             y_lb = y_after
+        # the last interval ends with the last measurement
+        interval_bounds_x.append((x_lb, xs[-1]))
+        interval_bounds_y.append(y_lb)
 
         return interval_bounds_x, interval_bounds_y
 
-- 
2.43.0


From 7a2b08f49758af59874c63e59deda0a62aa15f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:44 +0000
Subject: [PATCH 58/74] fix: plots assign the points of a slice to their own
 sails

---
 hrosailing/plotting/projections.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hrosailing/plotting/projections.py b/hrosailing/plotting/projections.py
index 70b3afe..490945f 100644
--- a/hrosailing/plotting/projections.py
+++ b/hrosailing/plotting/projections.py
@@ -456,7 +456,10 @@ def _plot(
         return
 
     for slice_, info_ in safe_zip(slices, info):
-        slice_ = slice_[:, np.argsort(slice_[1])]
+        order = np.argsort(slice_[1])
+        slice_ = slice_[:, order]
+        if info_ is not None:
+            info_ = [info_[i] for i in order]
         if use_convex_hull:
             ws, wa, bsp, info_ = _get_convex_hull(slice_, info_)
         else:
-- 
2.43.0


From 7e90f53aff1a39fc23ea0f5d074bc6af47b1f74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:39 +0000
Subject: [PATCH 59/74] fix: plotted convex hulls are closed on their edge

---
 hrosailing/plotting/projections.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/plotting/projections.py b/hrosailing/plotting/projections.py
index 490945f..9b188da 100644
--- a/hrosailing/plotting/projections.py
+++ b/hrosailing/plotting/projections.py
@@ -545,7 +545,7 @@ def _get_convex_hull(slice_, info_):
     x1 = slice_[2, -1] * np.sin(np.deg2rad(slice_[1, -1]))
     y0 = slice_[2, 0] * np.cos(np.deg2rad(slice_[1, 0]))
     y1 = slice_[2, -1] * np.cos(np.deg2rad(slice_[1, -1]))
-    lamb = x0 / (x0 - x1)
+    lamb = 1 - x0 / (x0 - x1)
     approx_ws = lamb * slice_[0, 0] + (1 - lamb) * slice_[0, -1]
     approx_bsp = lamb * y0 + (1 - lamb) * y1
 
-- 
2.43.0


From cde2e8c0b4b1bcdf144e5fa1cd92328994b18c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:45 +0000
Subject: [PATCH 60/74] fix: plots accept a single color given as a tuple of
 floats

---
 hrosailing/plotting/projections.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/plotting/projections.py b/hrosailing/plotting/projections.py
index 9b188da..2b9b630 100644
--- a/hrosailing/plotting/projections.py
+++ b/hrosailing/plotting/projections.py
@@ -693,7 +693,7 @@ def _only_one_color(colors):
         return is_color_like(colors)
 
     if isinstance(colors, tuple) and len(colors) in {3, 4}:
-        if isinstance(colors[0], int):
+        if isinstance(colors[0], (int, float)):
             return is_color_like(colors)
 
     return False
-- 
2.43.0


From c27ce586aeea82c529736dcf81e32405f88b8173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:52 +0000
Subject: [PATCH 61/74] fix: legends of plots in a single color

---
 hrosailing/plotting/projections.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hrosailing/plotting/projections.py b/hrosailing/plotting/projections.py
index 2b9b630..f4760df 100644
--- a/hrosailing/plotting/projections.py
+++ b/hrosailing/plotting/projections.py
@@ -757,6 +757,10 @@ def _determine_colors_from_coefficients(coefficients, colors):
 
 
 def _configure_legend(ax, ws, colors, label, **legend_kw):
+    if _only_one_color(colors):
+        _set_legend_with_wind_speeds(ax, [colors] * len(ws), ws, legend_kw)
+        return
+
     if _plot_with_color_gradient(ws, colors):
         _set_colormap(ws, colors, ax, label, **legend_kw)
         return
-- 
2.43.0


From 03190ab7a5259cd63c65f4614bfc514876de840b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:58 +0000
Subject: [PATCH 62/74] fix: color gradients over equal values have a color

---
 hrosailing/plotting/projections.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hrosailing/plotting/projections.py b/hrosailing/plotting/projections.py
index f4760df..4afd8f3 100644
--- a/hrosailing/plotting/projections.py
+++ b/hrosailing/plotting/projections.py
@@ -741,6 +741,9 @@ def _get_gradient_coefficients(gradient):
     min_gradient = gradient.min()
     max_gradient = gradient.max()
 
+    if min_gradient == max_gradient:
+        return [0] * len(gradient)
+
     return [
         (grad - min_gradient) / (max_gradient - min_gradient)
         for grad in gradient
-- 
2.43.0


From d666ed6f93bf98f34d400ad34b646d408379a755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:23 +0000
Subject: [PATCH 63/74] fix: csv logs with separators at the ends of lines keep
 their columns

---
 hrosailing/processing/datahandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/processing/datahandler.py b/hrosailing/processing/datahandler.py
index e3edb42..a27535c 100644
--- a/hrosailing/processing/datahandler.py
+++ b/hrosailing/processing/datahandler.py
@@ -153,7 +153,7 @@ class CsvFileHandler(DataHandler):
         `DataHandler.handle`
         """
         if self.pand:
-            df = self.pd.read_csv(data)
+            df = self.pd.read_csv(data, index_col=False)
             data_dict = df.to_dict(orient="list")
         else:
             with open(data, "r", encoding="utf-8") as file:
-- 
2.43.0


From f5a9d87cfe307368c07410f0e0e73f77f4797a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:03 +0000
Subject: [PATCH 64/74] fix: samplers end for points which are close together

---
 hrosailing/processing/sampler.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/hrosailing/processing/sampler.py b/hrosailing/processing/sampler.py
index 86a3b32..b43b6c0 100644
--- a/hrosailing/processing/sampler.py
+++ b/hrosailing/processing/sampler.py
@@ -277,7 +277,11 @@ def _sample_generator(base_set, midpoint, ineqs):
 
 def _make_circle(pts, eps=0.0001):
     """"""
-    pts = pts.copy()
+    # also points which are close together should not all be in a circle of
+    # radius zero
+    origin = pts.min(axis=0)
+    pts = pts - origin
+    eps *= min(1, pts.max())
     np.random.shuffle(pts)
     k = []  # list of necessary boundary points
     circle = _small_circle(pts[k])
@@ -304,13 +308,14 @@ def _make_circle(pts, eps=0.0001):
         circle = _small_circle(pts[k])
         i = 0
 
-    return circle
+    mp, r = circle
+    return mp + origin, r
 
 
 def _is_in_circle(p, circle, eps):
     """"""
     mp, r = circle
-    return np.linalg.norm(p - mp) < r + eps
+    return np.linalg.norm(p - mp) <= r + eps
 
 
 def _small_circle(pts):
-- 
2.43.0


From f1edd1d9b97805f16919a5b65c2a698c647137c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:41 +0000
Subject: [PATCH 65/74] fix: tables accept iterators over keys or a mask

---
 hrosailing/core/data.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index 3aac7cc..aa6e722 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -102,6 +102,8 @@ class Data:
         """
         if keys is None:
             keys = self.keys()
+        # the keys are needed for every row
+        keys = list(keys)
         for i in range(self._max_len):
             if return_type is dict:
                 yield {key: self._data[key][i] for key in keys}
@@ -556,10 +558,8 @@ class Data:
             return self._data[item]
         if isinstance(item, int):
             return {key: val[item] for key, val in self._data.items()}
-        type_ = None
-        for key in item:
-            type_ = type(key)
-            break
+        item = list(item)
+        type_ = type(item[0]) if item else None
         if type_ is None or type_ in (bool, np.bool_):
             return self._mask_rows(item)
         if type_ is str:
-- 
2.43.0


From 027824b292a1b21874c592969a1a43fc6cd7d9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:48 +0000
Subject: [PATCH 66/74] fix: an NMEA handler can read with iterators over
 sentences and attributes

---
 hrosailing/processing/datahandler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hrosailing/processing/datahandler.py b/hrosailing/processing/datahandler.py
index a27535c..b27b811 100644
--- a/hrosailing/processing/datahandler.py
+++ b/hrosailing/processing/datahandler.py
@@ -246,10 +246,12 @@ class NMEAFileHandler(DataHandler):
     ):
         super().__init__()
         if wanted_sentences is not None:
+            wanted_sentences = list(wanted_sentences)
             self._sentence_filter = lambda line: any(
                 sentence in line for sentence in wanted_sentences
             )
         elif unwanted_sentences is not None:
+            unwanted_sentences = list(unwanted_sentences)
             self._sentence_filter = lambda line: all(
                 sentence not in line for sentence in unwanted_sentences
             )
@@ -268,6 +270,7 @@ class NMEAFileHandler(DataHandler):
                 field[0] == attribute for attribute in wanted_nmea_attributes
             )
         elif unwanted_attributes is not None:
+            unwanted_attributes = list(unwanted_attributes)
             self._attribute_filter = lambda field: all(
                 field[0] != attribute for attribute in unwanted_attributes
             )
-- 
2.43.0


From f50244faf599d6e4b03c9a1772674e8fd0ba425d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:03 +0000
Subject: [PATCH 67/74] fix: slices can be requested with any iterable of wind
 speeds

---
 hrosailing/polardiagram/_basepolardiagram.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hrosailing/polardiagram/_basepolardiagram.py b/hrosailing/polardiagram/_basepolardiagram.py
index 81f82d6..87e24a9 100644
--- a/hrosailing/polardiagram/_basepolardiagram.py
+++ b/hrosailing/polardiagram/_basepolardiagram.py
@@ -103,6 +103,7 @@ class PolarDiagram(ABC):
         if isinstance(ws, (int, float)):
             return [ws]
         try:
+            ws = list(ws)
             all_numbers = all(
                 isinstance(ws_, (int, float, np.integer, np.floating))
                 for ws_ in ws
-- 
2.43.0


From 33c98fe0f7e8ba401149d7924b325c0b3f7f66d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:10 +0000
Subject: [PATCH 68/74] fix: csv logs are read the same way without pandas

---
 hrosailing/processing/datahandler.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/hrosailing/processing/datahandler.py b/hrosailing/processing/datahandler.py
index b27b811..dfa7e3d 100644
--- a/hrosailing/processing/datahandler.py
+++ b/hrosailing/processing/datahandler.py
@@ -160,9 +160,11 @@ class CsvFileHandler(DataHandler):
                 csv_reader = csv.reader(file)
                 keys = next(csv_reader)
                 data_dict = {key: [] for key in keys}
-                for row in csv_reader:
-                    for i, entry in enumerate(row):
-                        data_dict[keys[i]].append(entry)
+                for row in filter(None, csv_reader):
+                    # short rows belong to incomplete records
+                    row.extend([""] * (len(keys) - len(row)))
+                    for key, entry in zip(keys, row):
+                        data_dict[key].append(_to_number(entry))
 
         for key, value_list in data_dict.items():
             data_dict[key] = [self._save_eval(value) for value in value_list]
@@ -402,6 +404,14 @@ class NMEAFileHandler(DataHandler):
         )
 
 
+def _to_number(entry):
+    # as pandas, such that a column can contain 5 as well as 5.5
+    try:
+        return float(entry)
+    except ValueError:
+        return entry
+
+
 def _is_missing(entry):
     # empty cells of tables are NaN, NaT or empty strings
     if isinstance(entry, str):
-- 
2.43.0


From 91bd215d0080b73bf29edf7bd09c2edf8d8e0026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:44 +0000
Subject: [PATCH 69/74] fix: weather files do not depend on the locale's
 representation of times

---
 hrosailing/models/weather_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/models/weather_model.py b/hrosailing/models/weather_model.py
index 933ba3a..1a4fa04 100644
--- a/hrosailing/models/weather_model.py
+++ b/hrosailing/models/weather_model.py
@@ -238,7 +238,7 @@ class GriddedWeatherModel(WeatherModel):
             return cls(data, times, *rest)
 
 
-_TIME_FORMAT = "%d.%m.%Y:%X"
+_TIME_FORMAT = "%d.%m.%Y:%H:%M:%S"
 
 
 def _time_to_str(time):
-- 
2.43.0


From c951d2c2ab27f3e98d779dbd7f4b673f52b9a90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:05 +0000
Subject: [PATCH 70/74] fix: a data table can be weighed with a single weight

---
 hrosailing/core/data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index aa6e722..7905af2 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -636,6 +636,8 @@ class WeightedPoints:
         if isinstance(weights, (float, int)):
             if isinstance(data, dict):
                 length = len(list(data.values())[0])
+            elif isinstance(data, Data):
+                length = data.n_rows
             else:
                 length = len(data)
             self.weights = weights * np.ones(length)
-- 
2.43.0


From fc40f6215041b1a43cbf550f7309882f622297d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:09 +0000
Subject: [PATCH 71/74] fix: weighers do not depend on the order of the columns
 of the data

---
 hrosailing/processing/weigher.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hrosailing/processing/weigher.py b/hrosailing/processing/weigher.py
index 0ef96ac..d686536 100644
--- a/hrosailing/processing/weigher.py
+++ b/hrosailing/processing/weigher.py
@@ -582,7 +582,11 @@ def _set_points_from_data(data, attributes, reduce=True):
         data = data_dict_to_numpy(data, attributes)
 
     if isinstance(data, Data):
-        attributes, data = data[attributes].numerical
+        keys, data = data[attributes].numerical
+        # the order of the columns of the data should not matter
+        attributes = [key for key in attributes if key in keys]
+        if attributes:
+            data = data[:, [keys.index(key) for key in attributes]]
 
     if reduce:
         return attributes, data, np.asarray(bsp)
-- 
2.43.0


From 75079c842c7d72d8cffd3064277952558d888a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:13 +0000
Subject: [PATCH 72/74] fix: the fluctuation weigher considers exactly the
 records of the timespan

---
 hrosailing/processing/weigher.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/hrosailing/processing/weigher.py b/hrosailing/processing/weigher.py
index d686536..9ae55ab 100644
--- a/hrosailing/processing/weigher.py
+++ b/hrosailing/processing/weigher.py
@@ -528,19 +528,14 @@ class FluctuationWeigher(Weigher):
 
         weights = [1] * len(points)
 
-        for curr_idx, (dt, pt) in enumerate(zip(times, points)):
-            start_idx = min(
-                i
-                for i in range(len(points))
-                if times[i] <= dt and dt - times[i] <= self._timespan_before
-            )
-            end_idx = max(
-                i
-                for i in range(len(points))
-                if dt <= times[i] and times[i] - dt <= self._timespan_after
-            )
+        for curr_idx, dt in enumerate(times):
+            # the records are not necessarily in chronological order
+            in_timespan = [
+                -self._timespan_before <= time - dt <= self._timespan_after
+                for time in times
+            ]
             for col, ub in enumerate(upper_bounds):
-                curr_pts = points[start_idx : end_idx + 1, col]
+                curr_pts = points[in_timespan, col]
                 std = np.std(curr_pts)
                 if std > ub:
                     weights[curr_idx] = 0
-- 
2.43.0


From e2d40081b3a60b858495eda3e23083f248c5a5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:16 +0000
Subject: [PATCH 73/74] fix: weighers can be combined with numbers and arrays
 as documented

---
 hrosailing/processing/weigher.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hrosailing/processing/weigher.py b/hrosailing/processing/weigher.py
index 9ae55ab..a3f254d 100644
--- a/hrosailing/processing/weigher.py
+++ b/hrosailing/processing/weigher.py
@@ -28,6 +28,9 @@ class Weigher(ComponentWithStatistics, ABC):
     Basic arithmetic operations may be performed among weighers.
     """
 
+    # arrays should leave operations with weighers to the weighers
+    __array_ufunc__ = None
+
     @abstractmethod
     def weigh(self, points) -> (np.ndarray, dict):
         """This method should be used to determine a weight for each point
@@ -79,7 +82,7 @@ class Weigher(ComponentWithStatistics, ABC):
     def __sub__(self, other):
         if isinstance(other, Weigher):
             return _BinaryMapWeigher(self, other, lambda x, y: x - y)
-        if isinstance(other, np.ndarray):
+        if isinstance(other, (int, float, np.ndarray)):
             return _UnaryMapWeigher(self, lambda x: x - other)
         raise TypeError(
             f"Invalid type for subtraction with Weigher."
@@ -103,7 +106,7 @@ class Weigher(ComponentWithStatistics, ABC):
     def __rtruediv__(self, other):
         if isinstance(other, Weigher):
             return _BinaryMapWeigher(self, other, lambda x, y: y / x)
-        if isinstance(other, np.ndarray):
+        if isinstance(other, (int, float, np.ndarray)):
             return _UnaryMapWeigher(self, lambda x: other / x)
         raise TypeError(
             f"Invalid type for division with Weigher."
-- 
2.43.0


From 4d4fad99693db04851fc3815f52905d71556f432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:26 +0000
Subject: [PATCH 74/74] fix: asking a fuzzy variable for another sharpness does
 not change the variable

---
 hrosailing/processing/weigher.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/hrosailing/processing/weigher.py b/hrosailing/processing/weigher.py
index a3f254d..03cd9b1 100644
--- a/hrosailing/processing/weigher.py
+++ b/hrosailing/processing/weigher.py
@@ -818,9 +818,7 @@ class FuzzyVariable:
     @property
     def sharpness(self):
         """Sharpness that will be used for the next generated `FuzzyBool` instance."""
-        next_sharpness = self._next_sharpness
-        self._next_sharpness = self._sharpness
-        return next_sharpness
+        return self._next_sharpness
 
     def _truth(self, other, sigma):
         sigmoid = FuzzyBool.sigmoid(float(other), self.sharpness, sigma)
@@ -854,8 +852,9 @@ class FuzzyVariable:
         return FuzzyVariable(key=item, sharpness=self.sharpness)
 
     def __call__(self, sharpness):
-        self._next_sharpness = sharpness
-        return self
+        new = FuzzyVariable(self._sharpness, self.key)
+        new._next_sharpness = sharpness
+        return new
 
     def __str__(self):
         if self.key is None:
-- 
2.43.0

