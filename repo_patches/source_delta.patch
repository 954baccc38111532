From e60aaa9c5bc3d1cf9af04c1e305172a4cef3cb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:46 +0000
Subject: [PATCH 01/69] fix: derive the side of track for SIDD sensor models
 from the ARP geometry

---
 src/aws/osml/gdal/sidd_sensor_model_builder.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/aws/osml/gdal/sidd_sensor_model_builder.py b/src/aws/osml/gdal/sidd_sensor_model_builder.py
index ce1b25f..1642406 100644
--- a/src/aws/osml/gdal/sidd_sensor_model_builder.py
+++ b/src/aws/osml/gdal/sidd_sensor_model_builder.py
@@ -3,6 +3,7 @@
 import logging
 from typing import Optional, Union
 
+import numpy as np
 from xsdata.formats.dataclass.parsers import XmlParser
 
 import aws.osml.formats.sidd.models.sidd_v1_0_0 as sidd100
@@ -99,10 +100,18 @@ class SIDDSensorModelBuilder(SensorModelBuilder):
 
         u_gpn = SICDSensorModel.compute_u_gpn(scp_ecf=scp_ecf, u_row=u_row, u_col=u_col)
 
+        # SIDD metadata does not include the side of track. It can be derived from the ARP position and velocity at the
+        # COA time of the reference point; the point is on the left if it is in the direction of up x velocity.
+        scp_time_coa = time_coa_poly(0.0, 0.0)
+        scp_arp = arp_poly(scp_time_coa)
+        left = np.cross(scp_arp, arp_poly.deriv()(scp_time_coa))
+        side_of_track = "L" if np.dot(left, scp_ecf.coordinate - scp_arp) >= 0 else "R"
+
         sidd_sensor_model = SICDSensorModel(
             coord_converter=coord_converter,
             coa_projection_set=projection_set,
             u_spn=u_gpn,
+            side_of_track=side_of_track,
             u_gpn=u_gpn,
         )
 
-- 
2.43.0


From 284c3afe6c077b2747847b91008f1b8ad6ea1f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:56 +0000
Subject: [PATCH 02/69] fix: keep minutes and seconds below 60 when formatting
 geodetic coordinates

---
 src/aws/osml/photogrammetry/coordinates.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/aws/osml/photogrammetry/coordinates.py b/src/aws/osml/photogrammetry/coordinates.py
index aab4709..bec1e60 100644
--- a/src/aws/osml/photogrammetry/coordinates.py
+++ b/src/aws/osml/photogrammetry/coordinates.py
@@ -159,18 +159,18 @@ class GeodeticWorldCoordinate(WorldCoordinate):
         if lat_degrees < 0:
             lat_degrees *= -1.0
             lh = "S"
-        ld = int(lat_degrees)
-        lm = int(round(lat_degrees - ld, 6) * 60)
-        ls = int(round(lat_degrees - ld - lm / 60, 6) * 3600)
+        # Split a single (rounded) total so that the degrees, minutes, and seconds are always consistent. Splitting
+        # each of them separately can result in 60 minutes or seconds if rounding carries over to the next component.
+        lm, ls = divmod(int(round(lat_degrees * 3600, 3)), 60)
+        ld, lm = divmod(lm, 60)
 
         lon_degrees = np.degrees(self.longitude)
         oh = "E"
         if lon_degrees < 0:
             lon_degrees *= -1.0
             oh = "W"
-        od = int(lon_degrees)
-        om = int(round(lon_degrees - od, 6) * 60)
-        os = int(round(lon_degrees - od - om / 60, 6) * 3600)
+        om, os = divmod(int(round(lon_degrees * 3600, 3)), 60)
+        od, om = divmod(om, 60)
 
         result = []
         i = 0
-- 
2.43.0


From 45aca537d58d0f757f1bca54402e98f38da418d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:28 +0000
Subject: [PATCH 03/69] fix: assign locations on the outer edge of the web
 mercator grid to existing tiles

---
 src/aws/osml/image_processing/map_tileset_wmq.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/aws/osml/image_processing/map_tileset_wmq.py b/src/aws/osml/image_processing/map_tileset_wmq.py
index 4ed12cf..e6f1c84 100644
--- a/src/aws/osml/image_processing/map_tileset_wmq.py
+++ b/src/aws/osml/image_processing/map_tileset_wmq.py
@@ -80,6 +80,11 @@ class WebMercatorQuadMapTileSet(MapTileSet):
         )
         x_pixels, y_pixels = self._meters_to_pixels(x_meters, y_meters, tile_matrix)
         tile_col, tile_row = self._pixels_to_tile(x_pixels, y_pixels)
+
+        # Locations on the outer edge of the tile matrix (e.g. longitude of -180) belong to the outermost tiles
+        max_tile_index = 2**tile_matrix - 1
+        tile_col = min(max(tile_col, 0), max_tile_index)
+        tile_row = min(max(tile_row, 0), max_tile_index)
         return self.get_tile(MapTileId(tile_matrix=tile_matrix, tile_row=tile_row, tile_col=tile_col))
 
     def _resolution(self, tile_matrix: int) -> float:
-- 
2.43.0


From 5591c3d39f02d16806dd36b2a3a6c5ed65ef4094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:02 +0000
Subject: [PATCH 04/69] fix: keep the default RPC inverse search inside the
 camera's normalized domain

---
 src/aws/osml/photogrammetry/rpc_sensor_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/aws/osml/photogrammetry/rpc_sensor_model.py b/src/aws/osml/photogrammetry/rpc_sensor_model.py
index 23f9d3a..ccab733 100644
--- a/src/aws/osml/photogrammetry/rpc_sensor_model.py
+++ b/src/aws/osml/photogrammetry/rpc_sensor_model.py
@@ -218,7 +218,9 @@ class RPCSensorModel(SensorModel):
 
         initial_search_distance = options.get(SensorModelOptions.INITIAL_SEARCH_DISTANCE) if options is not None else None
         if initial_search_distance is None:
-            initial_search_distance = radians(0.5)
+            # The polynomials are only a valid approximation inside the normalized domain so the starting simplex should
+            # not extend beyond it. Otherwise, the search may converge on a location that is nowhere near the image.
+            initial_search_distance = radians(min(0.5, self.lat_scale, self.long_scale))
 
         # Iteratively adjust the initial guess to minimize the distance to the target image coordinate. We are only
         # allowing the x,y components to vary here and the z is fixed to the elevation model. The starting simplex
-- 
2.43.0


From 2103fb26075f91c58716c99926715499f48a7a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:48 +0000
Subject: [PATCH 05/69] fix: interpolate DEM elevations between the cell
 centers where they were measured

---
 src/aws/osml/gdal/gdal_dem_tile_factory.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/aws/osml/gdal/gdal_dem_tile_factory.py b/src/aws/osml/gdal/gdal_dem_tile_factory.py
index b4caca1..c5a6084 100644
--- a/src/aws/osml/gdal/gdal_dem_tile_factory.py
+++ b/src/aws/osml/gdal/gdal_dem_tile_factory.py
@@ -65,7 +65,20 @@ class GDALDigitalElevationModelTileFactory(DigitalElevationModelTileFactory):
         raster_band = ds.GetRasterBand(1)
         band_as_array = raster_band.ReadAsArray(0, 0, ds.RasterXSize, ds.RasterYSize)
         height, width = band_as_array.shape
-        sensor_model = GDALAffineSensorModel(geo_transform)
+
+        # The geo transform locates the corners of the raster cells but the elevation values are measured at their
+        # centers. Shift the transform half a cell so the grid locations computed by the sensor model are array indexes
+        # (i.e. [0, 0] is the location of the first elevation value).
+        sensor_model = GDALAffineSensorModel(
+            [
+                geo_transform[0] + 0.5 * (geo_transform[1] + geo_transform[2]),
+                geo_transform[1],
+                geo_transform[2],
+                geo_transform[3] + 0.5 * (geo_transform[4] + geo_transform[5]),
+                geo_transform[4],
+                geo_transform[5],
+            ]
+        )
 
         # Compute the distance in meters from the upper left to the lower right corner. Divide that by the distance
         # in pixels to get an approximate pixel size in meters
-- 
2.43.0


From 81a813a1948499a7ab0297b4bf7255af666178fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:40 +0000
Subject: [PATCH 06/69] fix: report exact minimum and maximum elevations for
 DEM tiles

---
 src/aws/osml/gdal/gdal_dem_tile_factory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aws/osml/gdal/gdal_dem_tile_factory.py b/src/aws/osml/gdal/gdal_dem_tile_factory.py
index c5a6084..0061424 100644
--- a/src/aws/osml/gdal/gdal_dem_tile_factory.py
+++ b/src/aws/osml/gdal/gdal_dem_tile_factory.py
@@ -86,7 +86,8 @@ class GDALDigitalElevationModelTileFactory(DigitalElevationModelTileFactory):
         lr_corner_ecf = geodetic_to_geocentric(sensor_model.image_to_world(ImageCoordinate([width, height]))).coordinate
         post_spacing = np.linalg.norm(ul_corner_ecf - lr_corner_ecf) / np.sqrt(width * width + height * height)
 
-        stats = raster_band.GetStatistics(True, True)
+        # These need to be exact because clients rely on every elevation in the tile being between the min and max.
+        stats = raster_band.GetStatistics(False, True)
         summary = ElevationRegionSummary(
             min_elevation=stats[0],
             max_elevation=stats[1],
-- 
2.43.0


From 2b050312bcef878756b0f65f71f9ca61a32254f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:41 +0000
Subject: [PATCH 07/69] fix: keep the RSM inverse search from collapsing onto
 the bounds of the ground domain

---
 .../replacement_sensor_model.py               | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/aws/osml/photogrammetry/replacement_sensor_model.py b/src/aws/osml/photogrammetry/replacement_sensor_model.py
index 3f4cb7a..059d93b 100644
--- a/src/aws/osml/photogrammetry/replacement_sensor_model.py
+++ b/src/aws/osml/photogrammetry/replacement_sensor_model.py
@@ -532,6 +532,15 @@ class RSMPolynomialSensorModel(RSMSensorModel):
         if initial_search_distance is None:
             initial_search_distance = sqrt(((v1.longitude - v4.longitude) ** 2) + ((v1.latitude - v4.latitude) ** 2))
 
+        # The vertices of the simplex are clipped to the bounds of the search, and a simplex that has collapsed onto one
+        # of the bounds can not move away from it again. Start inside the ground domain and leave enough room around it
+        # that this does not happen when searching for a location near its edge.
+        min_lon, min_lat, max_lon, max_lat = self.context.ground_domain.geodetic_lonlat_bbox
+        lon_extent, lat_extent = max_lon - min_lon, max_lat - min_lat
+        initial_search_distance = min(initial_search_distance, lon_extent / 4.0, lat_extent / 4.0)
+        initial_guess = initial_guess + [2.0 * pi * round(((min_lon + max_lon) / 2.0 - initial_guess[0]) / (2.0 * pi)), 0.0]
+        initial_guess = np.clip(initial_guess, [min_lon, min_lat], [max_lon, max_lat])
+
         # Iteratively adjust the initial guess to minimize the distance to the target image coordinate. We are only
         # allowing the x,y components to vary here and the z is fixed to the elevation model used by the ground
         # domain. The starting simplex is estimated as a triangle centered in the ground domain.
@@ -540,14 +549,8 @@ class RSMPolynomialSensorModel(RSMSensorModel):
             initial_guess,
             method="Nelder-Mead",
             bounds=[
-                (
-                    self.context.ground_domain.geodetic_lonlat_bbox[0],
-                    self.context.ground_domain.geodetic_lonlat_bbox[2],
-                ),
-                (
-                    self.context.ground_domain.geodetic_lonlat_bbox[1],
-                    self.context.ground_domain.geodetic_lonlat_bbox[3],
-                ),
+                (min_lon - lon_extent, max_lon + lon_extent),
+                (min_lat - lat_extent, max_lat + lat_extent),
             ],
             options={
                 "xatol": radians(0.000001),
-- 
2.43.0


From 6ec2fbcfa1b135d28299499953058dc9ad4d58ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:01 +0000
Subject: [PATCH 08/69] fix: relate the last pixel of a SIDD chip to the
 original coordinate of its corner

---
 src/aws/osml/gdal/sidd_sensor_model_builder.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/aws/osml/gdal/sidd_sensor_model_builder.py b/src/aws/osml/gdal/sidd_sensor_model_builder.py
index 1642406..8342eca 100644
--- a/src/aws/osml/gdal/sidd_sensor_model_builder.py
+++ b/src/aws/osml/gdal/sidd_sensor_model_builder.py
@@ -123,12 +123,13 @@ class SIDDSensorModelBuilder(SensorModelBuilder):
             # This 4 corner transformation handles images that are cropped, rotated, and scaled, from the full
             # SIDD image grid.
             geo_chip = sidd.downstream_reprocessing.geometric_chip
-            chip_num_rows = geo_chip.chip_size.row
-            chip_num_cols = geo_chip.chip_size.col
+            # The original coordinates are the locations of the corner pixels, so the last row and column of the chip
+            # are one less than its size. See section 5.1.1 of the SIDD specification v3.0 Volume 1.
+            last_row = geo_chip.chip_size.row - 1
+            last_col = geo_chip.chip_size.col - 1
 
             chipped_image_coords = [
-                ImageCoordinate(coord)
-                for coord in [[0, 0], [chip_num_cols, 0], [chip_num_cols, chip_num_rows], [0, chip_num_rows]]
+                ImageCoordinate(coord) for coord in [[0, 0], [last_col, 0], [last_col, last_row], [0, last_row]]
             ]
             full_image_coords = [
                 ImageCoordinate([x.col, x.row])
-- 
2.43.0


From 10fd26337a45ece7641ba1cb75d45ea7bb2494c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:59 +0000
Subject: [PATCH 09/69] fix: search the heights of every DEM region a SAR
 range/range-rate contour crosses

---
 .../osml/photogrammetry/sicd_sensor_model.py  | 36 ++++++++++++++-----
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/aws/osml/photogrammetry/sicd_sensor_model.py b/src/aws/osml/photogrammetry/sicd_sensor_model.py
index 912d441..91a6260 100644
--- a/src/aws/osml/photogrammetry/sicd_sensor_model.py
+++ b/src/aws/osml/photogrammetry/sicd_sensor_model.py
@@ -829,19 +829,28 @@ class DEMRRDotSurfaceProjection(RRDotSurfaceProjection):
             self.look = -1.0
 
         elevation_summary = elevation_model.describe_region(self.scp_lle)
-        self.hae_min = elevation_summary.min_elevation
-        self.hae_max = elevation_summary.max_elevation
-        self.hae_max_surface_projection = HAERRDotSurfaceProjection(
-            scp_ecf=scp_ecf, side_of_track=side_of_track, hae=self.hae_max
-        )
-        self.hae_min_surface_projection = HAERRDotSurfaceProjection(
-            scp_ecf=scp_ecf, side_of_track=side_of_track, hae=self.hae_min
-        )
+        self._set_hae_range(elevation_summary.min_elevation, elevation_summary.max_elevation)
         self.delta_dist_dem = 0.5 * elevation_summary.post_spacing
 
         self.delta_dist_rrc = max_adjacent_point_distance
         self.delta_hd_lim = height_threshold
 
+    def _set_hae_range(self, hae_min: float, hae_max: float) -> None:
+        """
+        Set the range of heights searched for an intersection between the R/Rdot contour and the DEM.
+
+        :param hae_min: minimum surface height (m) above the WGS-84 reference ellipsoid
+        :param hae_max: maximum surface height (m) above the WGS-84 reference ellipsoid
+        """
+        self.hae_min = hae_min
+        self.hae_max = hae_max
+        self.hae_max_surface_projection = HAERRDotSurfaceProjection(
+            scp_ecf=self.scp_ecf, side_of_track=self.side_of_track, hae=self.hae_max
+        )
+        self.hae_min_surface_projection = HAERRDotSurfaceProjection(
+            scp_ecf=self.scp_ecf, side_of_track=self.side_of_track, hae=self.hae_min
+        )
+
     def rrdot_to_ground(self, r_tgt_coa, r_dot_tgt_coa, arp_position, arp_velocity) -> np.ndarray:
         """
         This method implements the R/RDot Contour Ground Plane Intersection described in section 10.3
@@ -889,6 +898,17 @@ class DEMRRDotSurfaceProjection(RRDotSurfaceProjection):
         cos_cab = np.dot(point_b - ctr, u_rrx) / rrrc
         sin_cab = self.look * np.sqrt(1 - cos_cab * cos_cab)
 
+        # The contour may cross a different part of the DEM than the region summarized for the SCP. If the heights there
+        # are outside the range searched so far then expand it to make sure the intersection is not missed.
+        for point in (point_a, point_b):
+            summary = self.elevation_model.describe_region(geocentric_to_geodetic(WorldCoordinate(point)))
+            if summary and (summary.min_elevation < self.hae_min or summary.max_elevation > self.hae_max):
+                self._set_hae_range(
+                    min(self.hae_min, summary.min_elevation),
+                    max(self.hae_max, summary.max_elevation),
+                )
+                return self.rrdot_to_ground(r_tgt_coa, r_dot_tgt_coa, arp_position, arp_velocity)
+
         # (5) A set of points along the R/Rdot contour are to be computed. The points will be spaced in equal
         # increments of the cosine of the contour angle. Compute the step size, delta_cos_ca.
 
-- 
2.43.0


From 1d9342fe6779515a65d9174857db0d3ca52f66dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:10 +0000
Subject: [PATCH 10/69] fix: locate SAR pixels on the default surface when the
 elevation model has no data for the scene

---
 src/aws/osml/photogrammetry/sicd_sensor_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/aws/osml/photogrammetry/sicd_sensor_model.py b/src/aws/osml/photogrammetry/sicd_sensor_model.py
index 91a6260..1fcaaf0 100644
--- a/src/aws/osml/photogrammetry/sicd_sensor_model.py
+++ b/src/aws/osml/photogrammetry/sicd_sensor_model.py
@@ -1070,7 +1070,9 @@ class SICDSensorModel(SensorModel):
         xrow_ycol = self.coord_converter.rowcol_to_xrowycol(row_col=row_col)
         r_tgt_coa, r_dot_tgt_coa, time_coa, arp_coa, varp_coa = self.coa_projection_set.precise_rrdot_computation(xrow_ycol)
 
-        if elevation_model is not None:
+        # The elevation model may not have any data for this scene, in that case fall back on the default surface.
+        scp_lle = geocentric_to_geodetic(self.coord_converter.scp_ecf)
+        if elevation_model is not None and elevation_model.describe_region(scp_lle) is not None:
             surface_projection = DEMRRDotSurfaceProjection(
                 self.coord_converter.scp_ecf, self.side_of_track, elevation_model=elevation_model
             )
-- 
2.43.0


From f5c81a511817b57219e4983977cba87738fa141f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:01 +0000
Subject: [PATCH 11/69] fix: keep projective fits of small footprints well
 conditioned

---
 src/aws/osml/photogrammetry/transforms.py | 31 +++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/aws/osml/photogrammetry/transforms.py b/src/aws/osml/photogrammetry/transforms.py
index b4d780c..f5cf576 100644
--- a/src/aws/osml/photogrammetry/transforms.py
+++ b/src/aws/osml/photogrammetry/transforms.py
@@ -2,6 +2,8 @@
 
 from __future__ import annotations
 
+from typing import Tuple
+
 import numpy as np
 import numpy.typing as npt
 
@@ -72,6 +74,12 @@ class ProjectiveTransform:
 
         :return: the projective transform
         """
+        # Center and scale both sets of points before the fit. The longitudes and latitudes of a small footprint differ
+        # by only a few millionths of a radian and without this normalization the system is too poorly conditioned
+        # to be solved.
+        src, src_normalization = cls._normalize(src)
+        dst, dst_normalization = cls._normalize(dst)
+
         xs = src[:, 0]
         ys = src[:, 1]
         num_points = src.shape[0]
@@ -95,6 +103,25 @@ class ProjectiveTransform:
         b[num_points:] = dst[:, 1]
 
         # See: https://numpy.org/doc/stable/reference/generated/numpy.linalg.lstsq.html
-        matrix_parameters = np.linalg.lstsq(a, b, rcond=None)[0]
+        normalized_matrix = np.append(np.linalg.lstsq(a, b, rcond=None)[0], 1.0)[[1, 2, 0, 4, 5, 3, 6, 7, 8]].reshape(3, 3)
 
-        return cls(matrix_parameters)
+        # Undo the normalization of the points and return to the form where the constant in the denominator is 1
+        matrix = np.linalg.inv(dst_normalization) @ normalized_matrix @ src_normalization
+        matrix = matrix / matrix[2, 2]
+        return cls(matrix.ravel()[[2, 0, 1, 5, 3, 4, 6, 7]])
+
+    @staticmethod
+    def _normalize(points: npt.ArrayLike) -> Tuple[np.ndarray, np.ndarray]:
+        """
+        Translate and scale a set of points so they are centered on the origin and have roughly unit size.
+
+        :param points: the points [[x, y], ...]
+
+        :return: the normalized points and the 3x3 homogeneous matrix that normalizes them
+        """
+        center = np.mean(points, axis=0)
+        scale = np.max(np.abs(points - center))
+        if not scale > 0.0:
+            scale = 1.0
+        normalization = np.array([[1.0, 0.0, -center[0]], [0.0, 1.0, -center[1]], [0.0, 0.0, scale]]) / scale
+        return (points - center) / scale, normalization
-- 
2.43.0


From 657c00141de0730e7a9ac9613c047c1f946999e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:21 +0000
Subject: [PATCH 12/69] fix: tell SICD and SIDD documents apart by their
 namespace

---
 src/aws/osml/gdal/sensor_model_factory.py          | 4 ++--
 src/aws/osml/image_processing/gdal_tile_factory.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/aws/osml/gdal/sensor_model_factory.py b/src/aws/osml/gdal/sensor_model_factory.py
index 9bd3636..7f04095 100644
--- a/src/aws/osml/gdal/sensor_model_factory.py
+++ b/src/aws/osml/gdal/sensor_model_factory.py
@@ -191,12 +191,12 @@ class SensorModelFactory:
                     if not xml_str:
                         continue
 
-                    if "SIDD" in xml_str:
+                    if "urn:SIDD:" in xml_str:
                         # SIDD images will often contain SICD XML metadata as well but the SIDD should come first
                         # so we can stop processing other XML data segments
                         precision_sensor_model = SIDDSensorModelBuilder(sidd_xml=xml_str).build()
                         break
-                    elif "SICD" in xml_str and SensorModelTypes.SICD in self.selected_sensor_model_types:
+                    elif "urn:SICD:" in xml_str and SensorModelTypes.SICD in self.selected_sensor_model_types:
                         precision_sensor_model = SICDSensorModelBuilder(sicd_xml=xml_str).build()
                         break
 
diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index a694d09..63331ff 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -68,13 +68,13 @@ class GDALTileFactory:
                         continue
 
                     # Check to see if this is SICD or SIDD data
-                    if "SIDD" in xml_str:
+                    if "urn:SIDD:" in xml_str:
                         # SIDD images will often contain SICD XML metadata as well but the SIDD should come first
                         # so we can stop processing other XML data segments if we find a SIDD segment.
                         self.sar_des_header = self.des_accessor.extract_des_header(xml_data_segment)
                         self.sar_updater = SIDDUpdater(xml_str)
                         break
-                    elif "SICD" in xml_str:
+                    elif "urn:SICD:" in xml_str:
                         self.sar_des_header = self.des_accessor.extract_des_header(xml_data_segment)
                         self.sar_updater = SICDUpdater(xml_str)
                         break
-- 
2.43.0


From 9a82ec3a2d5b1472ca54535dec6b88fee00396ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:01 +0000
Subject: [PATCH 13/69] fix: report incomplete coefficient groups in XML TREs
 as ValueErrors

---
 src/aws/osml/gdal/xmltre_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/aws/osml/gdal/xmltre_utils.py b/src/aws/osml/gdal/xmltre_utils.py
index 53b8a15..99bda03 100644
--- a/src/aws/osml/gdal/xmltre_utils.py
+++ b/src/aws/osml/gdal/xmltre_utils.py
@@ -55,7 +55,10 @@ def parse_rpc_coefficients(tre: ET.Element, repeated_name: str) -> List[float]:
             raise ValueError("Invalid XML TRE: Repeated group in XML TRE is missing required index attribute")
         index = int(index_str)
 
-        if group[0] is None:
+        if not 0 <= index < num_coefficients:
+            raise ValueError("Invalid XML TRE: Repeated group in XML TRE has an index outside the number of groups")
+
+        if len(group) == 0:
             raise ValueError("Invalid XML TRE: Repeated group in XML TRE is missing required field child element")
 
         value_str = group[0].get("value")
-- 
2.43.0


From b377b965aee9170bfd249c44d0a20ff85d3b56b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:02 +0000
Subject: [PATCH 14/69] fix: skip sectioned RSM models that are missing a
 section

---
 src/aws/osml/gdal/rsm_sensor_model_builder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aws/osml/gdal/rsm_sensor_model_builder.py b/src/aws/osml/gdal/rsm_sensor_model_builder.py
index 2b59c10..0a0a093 100644
--- a/src/aws/osml/gdal/rsm_sensor_model_builder.py
+++ b/src/aws/osml/gdal/rsm_sensor_model_builder.py
@@ -311,6 +311,8 @@ class RSMSensorModelBuilder(SensorModelBuilder):
         for row in range(1, num_section_rows + 1):
             row_of_sensor_models = []
             for col in range(1, num_section_cols + 1):
+                if (row, col) not in sensor_model_grid_map:
+                    raise ValueError(f"Image is missing the RSMPCA TRE for section {row}, {col}")
                 row_of_sensor_models.append(sensor_model_grid_map[(row, col)])
             section_sensor_model_grid.append(row_of_sensor_models)
 
-- 
2.43.0


From 2f9a9075a14c3c0e8d43340681b99082ee7c29e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:02 +0000
Subject: [PATCH 15/69] fix: ignore CSCRNA TREs that can not be parsed

---
 src/aws/osml/gdal/projective_sensor_model_builder.py | 12 +++++++++---
 src/aws/osml/gdal/sensor_model_factory.py            | 10 ++++++----
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/aws/osml/gdal/projective_sensor_model_builder.py b/src/aws/osml/gdal/projective_sensor_model_builder.py
index c0ae65d..412788b 100644
--- a/src/aws/osml/gdal/projective_sensor_model_builder.py
+++ b/src/aws/osml/gdal/projective_sensor_model_builder.py
@@ -50,9 +50,15 @@ class ProjectiveSensorModelBuilder(SensorModelBuilder):
             logging.debug("No CSCRNA TRE found.")
             return None
 
-        return ProjectiveSensorModelBuilder.build_projective_sensor_model(
-            cscrna_tre, self.full_image_width, self.full_image_height
-        )
+        try:
+            return ProjectiveSensorModelBuilder.build_projective_sensor_model(
+                cscrna_tre, self.full_image_width, self.full_image_height
+            )
+        except ValueError as ve:
+            logging.warning("Unable to parse CSCRNA TRE found in XML metadata. No SensorModel created.")
+            logging.warning(str(ve))
+
+            return None
 
     @staticmethod
     def build_projective_sensor_model(
diff --git a/src/aws/osml/gdal/sensor_model_factory.py b/src/aws/osml/gdal/sensor_model_factory.py
index 7f04095..02f19ef 100644
--- a/src/aws/osml/gdal/sensor_model_factory.py
+++ b/src/aws/osml/gdal/sensor_model_factory.py
@@ -168,15 +168,17 @@ class SensorModelFactory:
             if SensorModelTypes.PROJECTIVE in self.selected_sensor_model_types:
                 cscrna_tre = self.xml_tres.find("./tre[@name='CSCRNA']")
                 if cscrna_tre is not None:
-                    approximate_sensor_model = ProjectiveSensorModelBuilder(
+                    corner_sensor_model = ProjectiveSensorModelBuilder(
                         self.xml_tres, full_image_width, full_image_height
                     ).build()
-                    if approximate_sensor_model is not None and chipped_image_info is not None:
-                        approximate_sensor_model = ChippedImageSensorModel(
+                    if corner_sensor_model is not None and chipped_image_info is not None:
+                        corner_sensor_model = ChippedImageSensorModel(
                             chipped_image_info.full_image_coordinates,
                             chipped_image_info.chipped_image_coordinates,
-                            approximate_sensor_model,
+                            corner_sensor_model,
                         )
+                    if corner_sensor_model is not None:
+                        approximate_sensor_model = corner_sensor_model
 
                 # TODO: Maybe create a projective sensor model from corner locations derived from the precision model
                 # TODO: Consider using the rough corners from IGEOLO
-- 
2.43.0


From 21c84b308df18760fbe458d2eb79ab5d0299c00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:02 +0000
Subject: [PATCH 16/69] fix: leave sensor models unchanged if the ICHIPB TRE
 can not be used

---
 src/aws/osml/gdal/sensor_model_factory.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/aws/osml/gdal/sensor_model_factory.py b/src/aws/osml/gdal/sensor_model_factory.py
index 02f19ef..fcdda4d 100644
--- a/src/aws/osml/gdal/sensor_model_factory.py
+++ b/src/aws/osml/gdal/sensor_model_factory.py
@@ -33,7 +33,12 @@ class ChippedImageInfoFacade:
 
         :return: None
         """
+        self.is_valid = False
         try:
+            # A transform flag of 1 means that the remaining fields of this TRE do not contain any data
+            if ichipb_tre.find("./field[@name='XFRM_FLAG'][@value='01']") is not None:
+                raise ValueError("ICHIPB TRE does not contain chip coordinates.")
+
             # Loop through the Output Product (OP) and Full Image (FI) fields in the ICHIPB TRE and construct
             # the corresponding image coordinates needed to create a chipped sensor model.
             self.full_image_coordinates = []
@@ -48,6 +53,7 @@ class ChippedImageInfoFacade:
 
             self.full_image_width = get_tre_field_value(ichipb_tre, "FI_COL", int)
             self.full_image_height = get_tre_field_value(ichipb_tre, "FI_ROW", int)
+            self.is_valid = True
         except ValueError as ve:
             logging.warning("Unable to parse ICHIPB TRE found in XML metadata. SensorModel is unchanged.")
             logging.warning(str(ve))
@@ -143,9 +149,11 @@ class SensorModelFactory:
             chipped_image_info = None
             ichipb_tre = self.xml_tres.find("./tre[@name='ICHIPB']")
             if ichipb_tre is not None:
-                chipped_image_info = ChippedImageInfoFacade(ichipb_tre)
-                full_image_width = chipped_image_info.full_image_width
-                full_image_height = chipped_image_info.full_image_height
+                ichipb_info = ChippedImageInfoFacade(ichipb_tre)
+                if ichipb_info.is_valid:
+                    chipped_image_info = ichipb_info
+                    full_image_width = chipped_image_info.full_image_width
+                    full_image_height = chipped_image_info.full_image_height
 
             # Attempt to build a robust sensor model from either RSM or RPC metadata in the TREs. These
             # sensor models always reference the full image so if this is a chip we wrap the resulting sensor
-- 
2.43.0


From 04160ceb63fbf6a12cdd974de3cdff445603076f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:02 +0000
Subject: [PATCH 17/69] fix: fall back to other metadata if a SICD or SIDD
 sensor model can not be built

---
 src/aws/osml/gdal/sensor_model_factory.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/aws/osml/gdal/sensor_model_factory.py b/src/aws/osml/gdal/sensor_model_factory.py
index fcdda4d..97ddc4a 100644
--- a/src/aws/osml/gdal/sensor_model_factory.py
+++ b/src/aws/osml/gdal/sensor_model_factory.py
@@ -204,10 +204,14 @@ class SensorModelFactory:
                     if "urn:SIDD:" in xml_str:
                         # SIDD images will often contain SICD XML metadata as well but the SIDD should come first
                         # so we can stop processing other XML data segments
-                        precision_sensor_model = SIDDSensorModelBuilder(sidd_xml=xml_str).build()
-                        break
+                        sar_sensor_model = SIDDSensorModelBuilder(sidd_xml=xml_str).build()
                     elif "urn:SICD:" in xml_str and SensorModelTypes.SICD in self.selected_sensor_model_types:
-                        precision_sensor_model = SICDSensorModelBuilder(sicd_xml=xml_str).build()
+                        sar_sensor_model = SICDSensorModelBuilder(sicd_xml=xml_str).build()
+                    else:
+                        continue
+
+                    if sar_sensor_model is not None:
+                        precision_sensor_model = sar_sensor_model
                         break
 
         # If we have both an approximate and a precision sensor model return them as a composite so applications
-- 
2.43.0


From 5e15d8d77ae6678596ce27a23f22a4e91ceec527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:02 +0000
Subject: [PATCH 18/69] fix: skip XML data segments that can not be decoded

---
 src/aws/osml/gdal/nitf_des_accessor.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/aws/osml/gdal/nitf_des_accessor.py b/src/aws/osml/gdal/nitf_des_accessor.py
index b586555..b78c710 100644
--- a/src/aws/osml/gdal/nitf_des_accessor.py
+++ b/src/aws/osml/gdal/nitf_des_accessor.py
@@ -115,8 +115,12 @@ class NITFDESAccessor:
         if value_attribute:
             # This appears to be the encoding used by GDAL versions <3.9. Extract the
             # XML from the base64 encoded value attribute
-            xml_bytes = base64.b64decode(value_attribute)
-            return xml_bytes.decode("utf-8")
+            try:
+                xml_bytes = base64.b64decode(value_attribute)
+                return xml_bytes.decode("utf-8")
+            except ValueError:
+                # The segment does not contain UTF-8 encoded text
+                return None
 
         xml_content_element = desdata_element.find("xml_content")
         if xml_content_element:
-- 
2.43.0


From d45a83dcb3035d1fa1da2a9ae1fd0c5df7b46afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:02 +0000
Subject: [PATCH 19/69] fix: skip geo transforms that can not be used to build
 a sensor model

---
 src/aws/osml/gdal/gdal_sensor_model_builder.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/aws/osml/gdal/gdal_sensor_model_builder.py b/src/aws/osml/gdal/gdal_sensor_model_builder.py
index 57f9576..b673e90 100644
--- a/src/aws/osml/gdal/gdal_sensor_model_builder.py
+++ b/src/aws/osml/gdal/gdal_sensor_model_builder.py
@@ -1,9 +1,11 @@
 #  Copyright 2023-2024 Amazon.com, Inc. or its affiliates.
 
+import logging
 from math import radians
 from typing import List, Optional
 
 from osgeo import gdal
+from pyproj.exceptions import ProjError
 
 from aws.osml.photogrammetry import GDALAffineSensorModel, GeodeticWorldCoordinate, ImageCoordinate, ProjectiveSensorModel
 
@@ -36,7 +38,12 @@ class GDALAffineSensorModelBuilder(SensorModelBuilder):
         """
         if self.geo_transform is None:
             return None
-        return GDALAffineSensorModel(self.geo_transform, self.proj_wkt)
+        try:
+            return GDALAffineSensorModel(self.geo_transform, self.proj_wkt)
+        except (ValueError, ProjError) as e:
+            logging.warning("Unable to use the GDAL geo transform and projection. No SensorModel created.")
+            logging.warning(str(e))
+            return None
 
 
 class GDALGCPSensorModelBuilder(SensorModelBuilder):
-- 
2.43.0


From 57cc3464dc589a3e7025e951b5d5eb01e1597edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:33 +0000
Subject: [PATCH 20/69] fix: do not build SAR sensor models from missing or
 malformed values

---
 .../osml/gdal/sicd_sensor_model_builder.py    | 31 ++++++++++++++-----
 .../osml/gdal/sidd_sensor_model_builder.py    | 11 ++++---
 2 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/src/aws/osml/gdal/sicd_sensor_model_builder.py b/src/aws/osml/gdal/sicd_sensor_model_builder.py
index 5cb798d..74b959a 100644
--- a/src/aws/osml/gdal/sicd_sensor_model_builder.py
+++ b/src/aws/osml/gdal/sicd_sensor_model_builder.py
@@ -1,7 +1,7 @@
 #  Copyright 2023-2024 Amazon.com, Inc. or its affiliates.
 
 import logging
-from typing import Optional, Union
+from typing import Any, Optional, Union
 
 import numpy as np
 from xsdata.formats.dataclass.parsers import XmlParser
@@ -27,6 +27,20 @@ from .sensor_model_builder import SensorModelBuilder
 logger = logging.getLogger(__name__)
 
 
+def required_floats(*values: Any) -> np.ndarray:
+    """
+    Convert values from the metadata to floating point numbers.
+
+    :param values: the values parsed from the XML, these will be None or text if the element is missing or malformed
+    :raises ValueError: if any of the values is not a finite number
+    :return: the values as a 1-d NumPy array
+    """
+    result = np.array(values, dtype=float)
+    if not np.all(np.isfinite(result)):
+        raise ValueError(f"Metadata is missing required numeric values: {values}")
+    return result
+
+
 def xyztype_to_ndarray(xyztype: Union[sicd121.XYZType, sicd130.XYZType]) -> np.ndarray:
     """
     Convert the XYZType to a 1-d NumPy array.
@@ -34,7 +48,7 @@ def xyztype_to_ndarray(xyztype: Union[sicd121.XYZType, sicd130.XYZType]) -> np.n
     :param xyztype: the XYZType dataclass
     :return: the NumPy array
     """
-    return np.array([xyztype.x, xyztype.y, xyztype.z])
+    return required_floats(xyztype.x, xyztype.y, xyztype.z)
 
 
 def poly1d_to_native(poly1d: Union[sicd121.Poly1DType, sicd130.XYZType]) -> np.polynomial.Polynomial:
@@ -47,7 +61,7 @@ def poly1d_to_native(poly1d: Union[sicd121.Poly1DType, sicd130.XYZType]) -> np.p
     coefficients = [0] * (poly1d.order1 + 1)
     for coef in poly1d.coef:
         coefficients[coef.exponent1] = coef.value
-    return np.polynomial.Polynomial(coefficients)
+    return np.polynomial.Polynomial(required_floats(*coefficients))
 
 
 def poly2d_to_native(poly2d: Union[sicd121.Poly2DType, sicd130.Poly2DType]) -> Polynomial2D:
@@ -62,7 +76,7 @@ def poly2d_to_native(poly2d: Union[sicd121.Poly2DType, sicd130.Poly2DType]) -> P
         coefficients[row] = [0] * (poly2d.order2 + 1)
     for coef in poly2d.coef:
         coefficients[coef.exponent1][coef.exponent2] = coef.value
-    return Polynomial2D(np.array(coefficients))
+    return Polynomial2D(np.array([required_floats(*row_coefficients) for row_coefficients in coefficients]))
 
 
 def xyzpoly_to_native(xyzpoly: Union[sicd121.XYZPolyType, sicd130.XYZPolyType]) -> PolynomialXYZ:
@@ -122,7 +136,8 @@ class SICDSensorModelBuilder(SensorModelBuilder):
         """
 
         scp_ecf = WorldCoordinate(xyztype_to_ndarray(sicd.geo_data.scp.ecf))
-        scp_pixel = ImageCoordinate([sicd.image_data.scppixel.col, sicd.image_data.scppixel.row])
+        scp_pixel = ImageCoordinate(required_floats(sicd.image_data.scppixel.col, sicd.image_data.scppixel.row))
+        row_ss, col_ss = required_floats(sicd.grid.row.ss, sicd.grid.col.ss)
         time_coa_poly = poly2d_to_native(sicd.grid.time_coapoly)
         arp_poly = xyzpoly_to_native(sicd.position.arppoly)
 
@@ -131,9 +146,9 @@ class SICDSensorModelBuilder(SensorModelBuilder):
             scp_ecf=scp_ecf,
             u_row=xyztype_to_ndarray(sicd.grid.row.uvect_ecf),
             u_col=xyztype_to_ndarray(sicd.grid.col.uvect_ecf),
-            row_ss=sicd.grid.row.ss,
-            col_ss=sicd.grid.col.ss,
-            first_pixel=ImageCoordinate([sicd.image_data.first_col, sicd.image_data.first_row]),
+            row_ss=row_ss,
+            col_ss=col_ss,
+            first_pixel=ImageCoordinate(required_floats(sicd.image_data.first_col, sicd.image_data.first_row)),
         )
 
         projection_set = None
diff --git a/src/aws/osml/gdal/sidd_sensor_model_builder.py b/src/aws/osml/gdal/sidd_sensor_model_builder.py
index 8342eca..cea4e13 100644
--- a/src/aws/osml/gdal/sidd_sensor_model_builder.py
+++ b/src/aws/osml/gdal/sidd_sensor_model_builder.py
@@ -20,7 +20,7 @@ from ..photogrammetry import (
     WorldCoordinate,
 )
 from .sensor_model_builder import SensorModelBuilder
-from .sicd_sensor_model_builder import poly2d_to_native, xyzpoly_to_native, xyztype_to_ndarray
+from .sicd_sensor_model_builder import poly2d_to_native, required_floats, xyzpoly_to_native, xyztype_to_ndarray
 
 logger = logging.getLogger(__name__)
 
@@ -74,7 +74,10 @@ class SIDDSensorModelBuilder(SensorModelBuilder):
 
         plane_projection = sidd.measurement.plane_projection
         scp_ecf = WorldCoordinate(xyztype_to_ndarray(plane_projection.reference_point.ecef))
-        scp_pixel = ImageCoordinate([plane_projection.reference_point.point.col, plane_projection.reference_point.point.row])
+        scp_pixel = ImageCoordinate(
+            required_floats(plane_projection.reference_point.point.col, plane_projection.reference_point.point.row)
+        )
+        row_ss, col_ss = required_floats(plane_projection.sample_spacing.row, plane_projection.sample_spacing.col)
         time_coa_poly = poly2d_to_native(plane_projection.time_coapoly)
         arp_poly = xyzpoly_to_native(sidd.measurement.arppoly)
 
@@ -85,8 +88,8 @@ class SIDDSensorModelBuilder(SensorModelBuilder):
             scp_ecf=scp_ecf,
             u_row=u_row,
             u_col=u_col,
-            row_ss=plane_projection.sample_spacing.row,
-            col_ss=plane_projection.sample_spacing.col,
+            row_ss=row_ss,
+            col_ss=col_ss,
             first_pixel=ImageCoordinate([0, 0]),
         )
 
-- 
2.43.0


From a9eeb25708fef468ba235773b056327f7e476d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:14 +0000
Subject: [PATCH 21/69] fix: do not build SICD sensor models without a
 projection for the image formation algorithm

---
 src/aws/osml/gdal/sicd_sensor_model_builder.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/aws/osml/gdal/sicd_sensor_model_builder.py b/src/aws/osml/gdal/sicd_sensor_model_builder.py
index 74b959a..ecdf965 100644
--- a/src/aws/osml/gdal/sicd_sensor_model_builder.py
+++ b/src/aws/osml/gdal/sicd_sensor_model_builder.py
@@ -191,6 +191,13 @@ class SICDSensorModelBuilder(SensorModelBuilder):
             logger.warning(f"SICD image with unknown grid type {sicd.grid.type_value}. No sensor model created.")
             return None
 
+        if projection_set is None:
+            logger.warning(
+                f"SICD image with unsupported image formation algorithm {sicd.image_formation.image_form_algo}. "
+                "No sensor model created."
+            )
+            return None
+
         sicd_sensor_model = SICDSensorModel(
             coord_converter=coord_converter,
             coa_projection_set=projection_set,
-- 
2.43.0


From 929deda53d08492b490993a69d4f680ec7530dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:30 +0000
Subject: [PATCH 22/69] fix: honor bucket values of zero when computing DRA
 parameters

---
 src/aws/osml/gdal/dynamic_range_adjustment.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aws/osml/gdal/dynamic_range_adjustment.py b/src/aws/osml/gdal/dynamic_range_adjustment.py
index 2be82b6..828f012 100644
--- a/src/aws/osml/gdal/dynamic_range_adjustment.py
+++ b/src/aws/osml/gdal/dynamic_range_adjustment.py
@@ -48,9 +48,9 @@ class DRAParameters:
         :return: a set of DRA parameters containing recommended and actual ranges of values
         """
         num_histogram_bins = len(counts)
-        if not first_bucket_value:
+        if first_bucket_value is None:
             first_bucket_value = 0
-        if not last_bucket_value:
+        if last_bucket_value is None:
             last_bucket_value = num_histogram_bins
 
         # Find the first and last non-zero counts
-- 
2.43.0


From 619adef8a3f00c6884b84112fbaec24db5c25737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:56 +0000
Subject: [PATCH 23/69] fix: do not suggest inverted dynamic ranges if most
 pixels share a single value

---
 src/aws/osml/gdal/dynamic_range_adjustment.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/aws/osml/gdal/dynamic_range_adjustment.py b/src/aws/osml/gdal/dynamic_range_adjustment.py
index 828f012..27f2bc4 100644
--- a/src/aws/osml/gdal/dynamic_range_adjustment.py
+++ b/src/aws/osml/gdal/dynamic_range_adjustment.py
@@ -80,6 +80,12 @@ class DRAParameters:
         while cumulative_counts[e_max] > high_threshold and e_max > 0:
             e_max -= 1
 
+        # If nearly all of the pixels share a single bucket there are no outliers to exclude on at least one side
+        # of it. Use the full range of the pixels, the thresholds do not describe a valid range in that case.
+        if e_max <= e_min:
+            e_min = actual_min_value
+            e_max = actual_max_value
+
         min_value = max([actual_min_value, e_min - a * (e_max - e_min)])
         max_value = min([actual_max_value, e_max + b * (e_max - e_min)])
 
-- 
2.43.0


From bdf373e028dc7b3b8dfcfbd07a0cd93bbec22716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:30 +0000
Subject: [PATCH 24/69] fix: select the full range of pixel values when
 adjusting the range of integer and constant images

---
 src/aws/osml/gdal/gdal_utils.py | 52 ++++++++++++++++++++++++---------
 1 file changed, 38 insertions(+), 14 deletions(-)

diff --git a/src/aws/osml/gdal/gdal_utils.py b/src/aws/osml/gdal/gdal_utils.py
index e0f6b76..2f867ed 100644
--- a/src/aws/osml/gdal/gdal_utils.py
+++ b/src/aws/osml/gdal/gdal_utils.py
@@ -112,6 +112,41 @@ def get_minmax_for_type(gdal_type: int) -> Tuple[float, float]:
     return min_value, max_value
 
 
+def compute_dra_parameters(band: gdal.Band, min_value: float, max_value: float) -> DRAParameters:
+    """
+    This function computes the dynamic range adjustment for a band from the histogram of its pixel values.
+
+    :param band: the raster band
+    :param min_value: the minimum pixel value of the band
+    :param max_value: the maximum pixel value of the band
+    :return: the dynamic range adjustment parameters
+    """
+    if max_value <= min_value:
+        # All pixels share a single value
+        return DRAParameters(min_value, max_value, min_value, max_value)
+
+    if band.DataType == gdalconst.GDT_Float32 or band.DataType == gdalconst.GDT_Float64:
+        num_buckets = 255
+        half_bucket = 0
+    else:
+        # Integer pixels get one bucket for each value unless the range of values is too large. The buckets are
+        # centered on the values they count.
+        num_buckets = min(int(max_value - min_value) + 1, 2**16)
+        half_bucket = 0.5
+
+    return DRAParameters.from_counts(
+        counts=band.GetHistogram(
+            buckets=num_buckets,
+            max=max_value + half_bucket,
+            min=min_value - half_bucket,
+            include_out_of_range=1,
+            approx_ok=1,
+        ),
+        first_bucket_value=min_value,
+        last_bucket_value=max_value + 2 * half_bucket,
+    )
+
+
 def get_type_and_scales(
     raster_dataset: gdal.Dataset,
     desired_output_type: Optional[int] = None,
@@ -152,24 +187,13 @@ def get_type_and_scales(
             min_value = stats[0]
             max_value = stats[1]
 
-            num_buckets = int(max_value - min_value)
-            if band_type == gdalconst.GDT_Float32 or band_type == gdalconst.GDT_Float64:
-                num_buckets = 255
-
-            dra = DRAParameters.from_counts(
-                counts=band.GetHistogram(
-                    buckets=num_buckets, max=max_value, min=min_value, include_out_of_range=1, approx_ok=1
-                ),
-                first_bucket_value=min_value,
-                last_bucket_value=max_value,
-            )
-
             if range_adjustment == RangeAdjustmentType.DRA:
+                dra = compute_dra_parameters(band, min_value, max_value)
                 selected_min = dra.suggested_min_value
                 selected_max = dra.suggested_max_value
             elif range_adjustment == RangeAdjustmentType.MINMAX:
-                selected_min = dra.actual_min_value
-                selected_max = dra.actual_max_value
+                selected_min = min_value
+                selected_max = max_value
             else:
                 logger.warning(f"Unknown range adjustment selected {range_adjustment}. Skipping.")
 
-- 
2.43.0


From 8ad0e8f5553f1752d48b09747c9ce8db47ae388d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:39 +0000
Subject: [PATCH 25/69] fix: copy 64-bit pixels unchanged if no range
 adjustment was requested

---
 src/aws/osml/image_processing/gdal_tile_factory.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index 63331ff..93b1e8a 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -536,6 +536,14 @@ class GDALTileFactory:
             "format": self.tile_format,
         }
 
+        # Pixels that are neither adjusted nor converted to another type are copied as is. Even an identity scaling
+        # does not preserve 64-bit values.
+        band_types = {
+            self.raster_dataset.GetRasterBand(n).DataType for n in range(1, self.raster_dataset.RasterCount + 1)
+        }
+        if self.range_adjustment == RangeAdjustmentType.NONE and band_types == {output_type}:
+            del gdal_translate_kwargs["scaleParams"]
+
         creation_options = []
         if self.tile_format == GDALImageFormats.NITF:
             # Creation options specific to the NITF raster driver.
-- 
2.43.0


From cc4d6666d50261ec32cd0c925e2853454ef0e6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:31 +0000
Subject: [PATCH 26/69] fix: keep DES header fields left justified

---
 src/aws/osml/gdal/nitf_des_accessor.py | 34 +++++++++++++-------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/aws/osml/gdal/nitf_des_accessor.py b/src/aws/osml/gdal/nitf_des_accessor.py
index b78c710..66487f2 100644
--- a/src/aws/osml/gdal/nitf_des_accessor.py
+++ b/src/aws/osml/gdal/nitf_des_accessor.py
@@ -66,22 +66,22 @@ class NITFDESAccessor:
         """
         result_builder = StringIO()
         result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESVER", int), "02d"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DECLAS", str), ">1"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCLSY", str), ">2"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCODE", str), ">11"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCTLH", str), ">2"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESREL", str), ">20"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESDCTP", str), ">2"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESDCDT", str), ">8"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESDCXM", str), ">4"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESDG", str), ">1"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESDGDT", str), ">8"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCLTX", str), ">43"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCATP", str), ">1"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCAUT", str), ">40"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCRSN", str), ">1"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESSRDT", str), ">8"))
-        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCTLN", str), ">15"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DECLAS", str), "<1"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCLSY", str), "<2"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCODE", str), "<11"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCTLH", str), "<2"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESREL", str), "<20"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESDCTP", str), "<2"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESDCDT", str), "<8"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESDCXM", str), "<4"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESDG", str), "<1"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESDGDT", str), "<8"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCLTX", str), "<43"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCATP", str), "<1"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCAUT", str), "<40"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCRSN", str), "<1"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESSRDT", str), "<8"))
+        result_builder.write(format(NITFDESAccessor.parse_field_value(des_element, "DESCTLN", str), "<15"))
 
         # TODO: If DESID = TRE_OVERFLOW DESOFLW, DESITEM
 
@@ -91,7 +91,7 @@ class NITFDESAccessor:
             result_builder.write(
                 format(
                     NITFDESAccessor.parse_field_value(des_element, "DESSHF", str),
-                    f">{subheader_length}",
+                    f"<{subheader_length}",
                 )
             )
 
-- 
2.43.0


From ceb0a01dd72ea4d083bf0af14ce6eabd840b9777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:51 +0000
Subject: [PATCH 27/69] fix: relate every chip of a SIDD image to the original
 image, not to the chips created before

---
 src/aws/osml/image_processing/sidd_updater.py | 27 +++++++++++--------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/aws/osml/image_processing/sidd_updater.py b/src/aws/osml/image_processing/sidd_updater.py
index 67583a5..f7a262f 100644
--- a/src/aws/osml/image_processing/sidd_updater.py
+++ b/src/aws/osml/image_processing/sidd_updater.py
@@ -22,9 +22,14 @@ class SIDDUpdater:
         :param xml_str: the SIDD XML metadata to update
         """
         self.xml_str = xml_str
+        # Here we're storing off the original chip information to support the case where multiple chips are
+        # created from the same SIDD image.
+        self.original_geometric_chip = None
         if self.xml_str is not None and len(self.xml_str) > 0:
             parser = XmlParser()
             self.sidd = parser.from_string(self.xml_str)
+            if self.sidd.downstream_reprocessing:
+                self.original_geometric_chip = self.sidd.downstream_reprocessing.geometric_chip
 
     def update_image_data_for_chip(self, chip_bounds: List[int], output_size: Optional[Tuple[int, int]]) -> None:
         """
@@ -87,27 +92,27 @@ class SIDDUpdater:
             (chip_bounds[0] + chip_bounds[2] - 1, chip_bounds[1] + chip_bounds[3] - 1),
             (chip_bounds[0], chip_bounds[1] + chip_bounds[3] - 1),
         ]
-        if self.sidd.downstream_reprocessing.geometric_chip:
+        if self.original_geometric_chip:
             original_chip_size = (
-                self.sidd.downstream_reprocessing.geometric_chip.chip_size.col,
-                self.sidd.downstream_reprocessing.geometric_chip.chip_size.row,
+                self.original_geometric_chip.chip_size.col,
+                self.original_geometric_chip.chip_size.row,
             )
             original_corners = [
                 (
-                    self.sidd.downstream_reprocessing.geometric_chip.original_upper_left_coordinate.col,
-                    self.sidd.downstream_reprocessing.geometric_chip.original_upper_left_coordinate.row,
+                    self.original_geometric_chip.original_upper_left_coordinate.col,
+                    self.original_geometric_chip.original_upper_left_coordinate.row,
                 ),
                 (
-                    self.sidd.downstream_reprocessing.geometric_chip.original_upper_right_coordinate.col,
-                    self.sidd.downstream_reprocessing.geometric_chip.original_upper_right_coordinate.row,
+                    self.original_geometric_chip.original_upper_right_coordinate.col,
+                    self.original_geometric_chip.original_upper_right_coordinate.row,
                 ),
                 (
-                    self.sidd.downstream_reprocessing.geometric_chip.original_lower_right_coordinate.col,
-                    self.sidd.downstream_reprocessing.geometric_chip.original_lower_right_coordinate.row,
+                    self.original_geometric_chip.original_lower_right_coordinate.col,
+                    self.original_geometric_chip.original_lower_right_coordinate.row,
                 ),
                 (
-                    self.sidd.downstream_reprocessing.geometric_chip.original_lower_left_coordinate.col,
-                    self.sidd.downstream_reprocessing.geometric_chip.original_lower_left_coordinate.row,
+                    self.original_geometric_chip.original_lower_left_coordinate.col,
+                    self.original_geometric_chip.original_lower_left_coordinate.row,
                 ),
             ]
 
-- 
2.43.0


From 1399f9bdc62e51500b3a3ceba6a99ba232c96bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:25 +0000
Subject: [PATCH 28/69] fix: keep the width and height of map tiles that are
 not square

---
 src/aws/osml/image_processing/gdal_tile_factory.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index 93b1e8a..d71e1d1 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -275,17 +275,17 @@ class GDALTileFactory:
 
         # Create 2D linear interpolators that map the pixels in the map tile to x and y values in the source image.
         # This will allow us to efficiently generate the maps needed by the opencv::remap function for every pixel
-        # in the destination image.
-        src_x_interpolator = RectBivariateSpline(pixel_x, pixel_y, src_x, kx=1, ky=1)
-        src_y_interpolator = RectBivariateSpline(pixel_x, pixel_y, src_y, kx=1, ky=1)
+        # in the destination image. Note that the rows (y) are the first dimension of these arrays.
+        src_x_interpolator = RectBivariateSpline(pixel_y, pixel_x, src_x, kx=1, ky=1)
+        src_y_interpolator = RectBivariateSpline(pixel_y, pixel_x, src_y, kx=1, ky=1)
 
         # Create the map1 and map2 arrays that capture the non-linear relationship between each pixel in the map tile
         # (dst) to pixels in the original image (src). See opencv::remap documentation for definitions of these
         # parameters.
         dst_x = np.linspace(0, tile_size[0] - 1, tile_size[0])
         dst_y = np.linspace(0, tile_size[1] - 1, tile_size[1])
-        map1 = src_x_interpolator(dst_x, dst_y).astype(np.float32)
-        map2 = src_y_interpolator(dst_x, dst_y).astype(np.float32)
+        map1 = src_x_interpolator(dst_y, dst_x).astype(np.float32)
+        map2 = src_y_interpolator(dst_y, dst_x).astype(np.float32)
 
         logger.debug(
             f"Sanity check remap array sizes. They should match the desired map tile size {tile_size[0]}x{tile_size[1]}"
-- 
2.43.0


From dd4e052c75d45ad4114972c79e1a27f01cf1e273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:54 +0000
Subject: [PATCH 29/69] fix: keep the order of the color bands in map tiles

---
 src/aws/osml/image_processing/gdal_tile_factory.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index d71e1d1..0fcc0e5 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -321,6 +321,10 @@ class GDALTileFactory:
             # add alpha mask
             output_tile_pixels = np.dstack((output_tile_pixels, alpha_mask))
 
+        # imencode expects the color channels in BGR order
+        if output_tile_pixels.ndim == 3 and output_tile_pixels.shape[2] == 4:
+            output_tile_pixels = np.ascontiguousarray(output_tile_pixels[:, :, [2, 1, 0, 3]])
+
         # TODO: Formats other than PNG?
         is_success, image_bytes = cv2.imencode(".png", output_tile_pixels)
         return image_bytes if is_success else None
-- 
2.43.0


From 03e47c96bf00c1c68ed5d128204a8e3dba2bd181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:03 +0000
Subject: [PATCH 30/69] fix: use the elevation at the center of the image for
 map tiles

---
 src/aws/osml/image_processing/gdal_tile_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index 0fcc0e5..92b2572 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -183,7 +183,7 @@ class GDALTileFactory:
         # the image.
         center_x = self.raster_dataset.RasterXSize / 2
         center_y = self.raster_dataset.RasterYSize / 2
-        geo_image_center = self.sensor_model.image_to_world(ImageCoordinate([center_y, center_x]))
+        geo_image_center = self.sensor_model.image_to_world(ImageCoordinate([center_x, center_y]))
 
         def world_to_image_func(lon, lat):
             # TODO: Assign the elevation from a DEM
-- 
2.43.0


From dbad73ab59109451d8a6e9952c965e47201c4ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:11 +0000
Subject: [PATCH 31/69] fix: map the range between the minimum and maximum
 value to the full range of map tile pixels

---
 src/aws/osml/image_processing/gdal_tile_factory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index 92b2572..de1807a 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -461,7 +461,8 @@ class GDALTileFactory:
         max_value = band.GetMaximum() if band.GetMaximum() is not None else np.max(pixel_array)
 
         # Apply the Min-Max normalization
-        normalized_pixel = (pixel_array - min_value) * (255.0 / max(max_value, 1.0))
+        value_range = float(max_value) - float(min_value)
+        normalized_pixel = (pixel_array - min_value) * (255.0 / (value_range if value_range > 0.0 else 1.0))
         normalized_pixel = np.clip(normalized_pixel, 0.0, 255.0)
         return normalized_pixel.astype(np.uint8)
 
-- 
2.43.0


From 617f66ec5231de193aaab90c00eec519c2ed6b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:40 +0000
Subject: [PATCH 32/69] fix: keep the sign of pixel differences when
 normalizing integer map tiles

---
 src/aws/osml/image_processing/gdal_tile_factory.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index de1807a..d5e5787 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -457,11 +457,11 @@ class GDALTileFactory:
         """
         # Get the minimum and maximum values from the entire GDAL dataset. If the minimum and maximum values are
         # not available, calculate them from the tile.
-        min_value = band.GetMinimum() if band.GetMinimum() is not None else np.min(pixel_array)
-        max_value = band.GetMaximum() if band.GetMaximum() is not None else np.max(pixel_array)
+        min_value = float(band.GetMinimum() if band.GetMinimum() is not None else np.min(pixel_array))
+        max_value = float(band.GetMaximum() if band.GetMaximum() is not None else np.max(pixel_array))
 
         # Apply the Min-Max normalization
-        value_range = float(max_value) - float(min_value)
+        value_range = max_value - min_value
         normalized_pixel = (pixel_array - min_value) * (255.0 / (value_range if value_range > 0.0 else 1.0))
         normalized_pixel = np.clip(normalized_pixel, 0.0, 255.0)
         return normalized_pixel.astype(np.uint8)
@@ -477,8 +477,8 @@ class GDALTileFactory:
         """
         # Get the minimum and maximum values from the entire GDAL dataset. If the minimum and maximum values are
         # not available, calculate them from the tile.
-        min_value = band.GetMinimum() if band.GetMinimum() is not None else np.min(pixel_array)
-        max_value = band.GetMaximum() if band.GetMaximum() is not None else np.max(pixel_array)
+        min_value = float(band.GetMinimum() if band.GetMinimum() is not None else np.min(pixel_array))
+        max_value = float(band.GetMaximum() if band.GetMaximum() is not None else np.max(pixel_array))
 
         hist = band.GetHistogram(min=min_value, max=max_value, buckets=max(256, int(max_value - min_value)))
         dra_parameters = DRAParameters.from_counts(
-- 
2.43.0


From 9a05bebe5cda7dbba28d29f99b24f5b5715adaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:46 +0000
Subject: [PATCH 33/69] fix: adjust the dynamic range of map tiles for images
 with very narrow or very wide value ranges

---
 src/aws/osml/image_processing/gdal_tile_factory.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index d5e5787..bfd691e 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -480,14 +480,14 @@ class GDALTileFactory:
         min_value = float(band.GetMinimum() if band.GetMinimum() is not None else np.min(pixel_array))
         max_value = float(band.GetMaximum() if band.GetMaximum() is not None else np.max(pixel_array))
 
-        hist = band.GetHistogram(min=min_value, max=max_value, buckets=max(256, int(max_value - min_value)))
+        num_buckets = int(min(max(256.0, max_value - min_value), 65536.0))
+        hist = band.GetHistogram(min=min_value, max=max_value, buckets=num_buckets)
         dra_parameters = DRAParameters.from_counts(
             hist, first_bucket_value=min_value, last_bucket_value=max_value, max_percentage=0.97
         )
+        value_range = dra_parameters.suggested_max_value - dra_parameters.suggested_min_value
         normalized_pixel = (
-            255
-            * (pixel_array - dra_parameters.suggested_min_value)
-            / max(dra_parameters.suggested_max_value - dra_parameters.suggested_min_value, 1.0)
+            255 * (pixel_array - dra_parameters.suggested_min_value) / (value_range if value_range > 0.0 else 1.0)
         )
         normalized_pixel = np.clip(normalized_pixel, 0.0, 255.0)
         return normalized_pixel.astype(np.uint8)
-- 
2.43.0


From 3998da410a4036a271b054eb8d59ce1d4b00b176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:53 +0000
Subject: [PATCH 34/69] fix: create map tiles for images with more than 3 bands
 if no range adjustment was requested

---
 src/aws/osml/image_processing/gdal_tile_factory.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index bfd691e..0112888 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -387,6 +387,9 @@ class GDALTileFactory:
         elif self.range_adjustment == RangeAdjustmentType.MINMAX:
             return self._normalize_bands(pixel_array, self._normalize_band_minmax)
         else:
+            # Like for the other range adjustments only the first 3 bands of multiband images can be displayed
+            if pixel_array.ndim == 3 and pixel_array.shape[2] > 3:
+                pixel_array = pixel_array[:, :, 0:3]
             return pixel_array.astype(np.uint8)
 
     def _normalize_bands(
-- 
2.43.0


From 04c6c5b8db7820e4078f9a2e8c566da2052de53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:16 +0000
Subject: [PATCH 35/69] fix: compute the power of integer SAR pixels without
 overflow

---
 src/aws/osml/image_processing/sar_complex_imageop.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aws/osml/image_processing/sar_complex_imageop.py b/src/aws/osml/image_processing/sar_complex_imageop.py
index 4fd590c..d3b24be 100644
--- a/src/aws/osml/image_processing/sar_complex_imageop.py
+++ b/src/aws/osml/image_processing/sar_complex_imageop.py
@@ -47,6 +47,10 @@ def complex_to_power_value(complex_data: np.ndarray) -> np.ndarray:
     :param complex_data: the SAR complex image signal with real and imaginary components
     :return: the power values
     """
+    complex_data = np.asarray(complex_data)
+    if np.issubdtype(complex_data.dtype, np.integer):
+        # The squares of integer pixels (e.g. RE16I_IM16I) do not fit into the pixel type
+        complex_data = complex_data.astype(np.float64)
     return np.sum(np.square(complex_data), axis=0)
 
 
-- 
2.43.0


From c1b4469dc48e8416956adaa817f5e89536306f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:09 +0000
Subject: [PATCH 36/69] fix: create no map tile if its corners have no finite
 image coordinates

---
 src/aws/osml/image_processing/gdal_tile_factory.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index 0112888..528bbaa 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -199,7 +199,12 @@ class GDALTileFactory:
             # Unable to convert the map tile coordinates to image coordinates using the sensor model.
             # This usually means at least one coordinate isn't near the image and fell outside the range
             # of values the sensor model could create. No map tile can be created from this image.
-            logger.debug("Unable to convert map tile coordinates to image coordinates.", e)
+            logger.debug(f"Unable to convert map tile coordinates to image coordinates. {e}")
+            return None
+
+        if not (np.all(np.isfinite(src_x)) and np.all(np.isfinite(src_y))):
+            # Some sensor models report non-finite image coordinates for locations they can not convert.
+            logger.debug("Unable to convert map tile coordinates to image coordinates.")
             return None
 
         # Find min/max x and y for this grid and check to make sure it actually overlaps the image.
-- 
2.43.0


From 202c0f075bb3716f61d38bb195ce6c3fa86d5758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:49 +0000
Subject: [PATCH 37/69] fix: display SAR images without any signal as black
 images

---
 src/aws/osml/image_processing/sar_complex_imageop.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/aws/osml/image_processing/sar_complex_imageop.py b/src/aws/osml/image_processing/sar_complex_imageop.py
index d3b24be..493db4c 100644
--- a/src/aws/osml/image_processing/sar_complex_imageop.py
+++ b/src/aws/osml/image_processing/sar_complex_imageop.py
@@ -98,7 +98,8 @@ def histogram_stretch_mag_values(magnitude_values: np.ndarray, scale_factor: flo
     :return: the quantized grayscale image clipped to the range of [0:255]
     """
     mean_value = np.mean(magnitude_values[np.isfinite(magnitude_values)])
-    u = 1 / (scale_factor * mean_value)
+    # Images without any signal are black
+    u = 1 / (scale_factor * mean_value) if mean_value != 0.0 else 0.0
     return np.clip(255.0 * u * magnitude_values, 0.0, 255.0)
 
 
@@ -119,7 +120,8 @@ def quarter_power_mag_values(
     mean_value = precomputed_mean
     if mean_value is None:
         mean_value = np.mean(sqrt_magnitude[np.isfinite(sqrt_magnitude)])
-    b = 1 / (scale_factor * mean_value)
+    # Images without any signal are black
+    b = 1 / (scale_factor * mean_value) if mean_value != 0.0 else 0.0
     return np.clip(255.0 * b * sqrt_magnitude, 0.0, 255.0)
 
 
-- 
2.43.0


From 0ba0b936d1a856f451d82598ea7354389ddca784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:31 +0000
Subject: [PATCH 38/69] fix: spatial index can be built from the geographic
 geometries of features

---
 src/aws/osml/features/feature_index.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/aws/osml/features/feature_index.py b/src/aws/osml/features/feature_index.py
index 6fd8b90..e670051 100644
--- a/src/aws/osml/features/feature_index.py
+++ b/src/aws/osml/features/feature_index.py
@@ -51,7 +51,10 @@ class STRFeature2DSpatialIndex(Feature2DSpatialIndex):
         if use_image_geometries and property_accessor is not None:
             geometries = [property_accessor.find_image_geometry(feature) for feature in self.features]
         else:
-            geometries = [(shapely.shape(feature.geometry), feature) for feature in self.features]
+            geometries = [
+                shapely.geometry.shape(feature.geometry) if feature.geometry is not None else None
+                for feature in self.features
+            ]
 
         self.index = shapely.STRtree(geometries)
 
-- 
2.43.0


From 3fff74e1831a4ea7539074dead260a192901a49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:05 +0000
Subject: [PATCH 39/69] fix: geolocating only features without an image
 geometry leaves them unchanged

---
 src/aws/osml/features/geolocation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aws/osml/features/geolocation.py b/src/aws/osml/features/geolocation.py
index be5a969..0fdce54 100644
--- a/src/aws/osml/features/geolocation.py
+++ b/src/aws/osml/features/geolocation.py
@@ -152,6 +152,10 @@ class Geolocator:
             feature_bounds[2] = max(feature_bounds[2], image_geometry_bbox[2])
             feature_bounds[3] = max(feature_bounds[3], image_geometry_bbox[3])
 
+        if feature_bounds[0] > feature_bounds[2]:
+            logging.warning("None of the features have a valid detection shape, there is nothing to geolocate.")
+            return
+
         # Expand the bounds to handle edge case where the features are all located at a single point or line.
         feature_bounds[0] -= 10
         feature_bounds[1] -= 10
-- 
2.43.0


From 96046ad7f93e032623926fc9a4ed40d5ede81781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:12 +0000
Subject: [PATCH 40/69] fix: geolocation grid covers image bounding boxes
 larger than the image geometry

---
 src/aws/osml/features/geolocation.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/aws/osml/features/geolocation.py b/src/aws/osml/features/geolocation.py
index 0fdce54..eebe1bd 100644
--- a/src/aws/osml/features/geolocation.py
+++ b/src/aws/osml/features/geolocation.py
@@ -146,11 +146,16 @@ class Geolocator:
             image_geometry = self.property_accessor.find_image_geometry(feature)
             if image_geometry is None:
                 continue
-            image_geometry_bbox = image_geometry.bounds
-            feature_bounds[0] = min(feature_bounds[0], image_geometry_bbox[0])
-            feature_bounds[1] = min(feature_bounds[1], image_geometry_bbox[1])
-            feature_bounds[2] = max(feature_bounds[2], image_geometry_bbox[2])
-            feature_bounds[3] = max(feature_bounds[3], image_geometry_bbox[3])
+            # The image bounding box of a feature may be larger than its image geometry
+            image_bbox = self.property_accessor.get_image_bbox(feature)
+            for image_shape in [image_geometry, image_bbox]:
+                if image_shape is None:
+                    continue
+                image_shape_bounds = image_shape.bounds
+                feature_bounds[0] = min(feature_bounds[0], image_shape_bounds[0])
+                feature_bounds[1] = min(feature_bounds[1], image_shape_bounds[1])
+                feature_bounds[2] = max(feature_bounds[2], image_shape_bounds[2])
+                feature_bounds[3] = max(feature_bounds[3], image_shape_bounds[3])
 
         if feature_bounds[0] > feature_bounds[2]:
             logging.warning("None of the features have a valid detection shape, there is nothing to geolocate.")
-- 
2.43.0


From 8ed3e0b632f05799bb24377f1bab2e8c8ae0fef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:56 +0000
Subject: [PATCH 41/69] fix: geolocation does not print to standard output

---
 src/aws/osml/features/geolocation.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/aws/osml/features/geolocation.py b/src/aws/osml/features/geolocation.py
index eebe1bd..00f921b 100644
--- a/src/aws/osml/features/geolocation.py
+++ b/src/aws/osml/features/geolocation.py
@@ -246,7 +246,6 @@ class Geolocator:
             raise ValueError("Unable to geolocate features without a geometry property")
 
         if isinstance(image_geometry, shapely.Point):
-            print(f"Geolocating point: {image_geometry.coords[0]}")
             return geojson.Point(Geolocator.radians_coordinate_to_degrees(interpolation_grid(image_geometry.coords[0])))
         elif isinstance(image_geometry, (shapely.LineString, shapely.LinearRing)):
             return geojson.LineString(
@@ -269,7 +268,6 @@ class Geolocator:
             or image_geometry.__class__.__name__ == "GeometryCollection"
         ):
             geometry_list = [Geolocator._geolocate_image_geometry(part, interpolation_grid) for part in image_geometry.geoms]
-            print(f"geometry_list: {geometry_list}")
             return getattr(geojson, image_geometry.__class__.__name__)(geometry_list)
         else:
             raise ValueError(f"Unhandled geometry type: {image_geometry.__class__}")
-- 
2.43.0


From fbccedb21203e47b7e7b6ed9b9703d2c2e9e7741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:27 +0000
Subject: [PATCH 42/69] fix: features crossing the antimeridian are geolocated
 continuously

---
 src/aws/osml/features/geolocation.py | 40 +++++++++++++++++++++++++---
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/src/aws/osml/features/geolocation.py b/src/aws/osml/features/geolocation.py
index 00f921b..6202727 100644
--- a/src/aws/osml/features/geolocation.py
+++ b/src/aws/osml/features/geolocation.py
@@ -2,7 +2,7 @@
 
 import logging
 import math
-from typing import List, Optional, Tuple, Union
+from typing import List, Optional, Sequence, Tuple, Union
 
 import geojson
 import numpy as np
@@ -14,6 +14,18 @@ from aws.osml.photogrammetry import ElevationModel, GeodeticWorldCoordinate, Ima
 from .imaged_feature_property_accessor import ImagedFeaturePropertyAccessor
 
 
+def normalize_longitude(longitude: float) -> float:
+    """
+    Normalize a longitude to the range -pi to pi.
+
+    :param longitude: the longitude in radians
+    :return: the longitude in radians in the range -pi to pi
+    """
+    if abs(longitude) <= math.pi:
+        return longitude
+    return (longitude + math.pi) % (2 * math.pi) - math.pi
+
+
 class LocationGridInterpolator:
     """
     This class can be used to approximate geodetic world coordinates from a grid of correspondences that is
@@ -57,6 +69,8 @@ class LocationGridInterpolator:
                 elevation_values[i] = world_coordinate.elevation
                 i += 1
         longitude_values.shape = len(xs), len(ys)
+        # Keep the longitudes continuous for images crossing the antimeridian
+        longitude_values = np.unwrap(np.unwrap(longitude_values, axis=0), axis=1)
         latitude_values.shape = longitude_values.shape
         elevation_values.shape = longitude_values.shape
 
@@ -65,6 +79,16 @@ class LocationGridInterpolator:
         self.elevation_interpolator = RectBivariateSpline(xs, ys, elevation_values, kx=1, ky=1)
         self.elevation_model = elevation_model
 
+    def continuous_longitude(self, image_coord: Sequence[float]) -> float:
+        """
+        Interpolate the longitude of an image coordinate. The longitudes of an image crossing the antimeridian do not
+        jump there, they may be outside the range -pi to pi.
+
+        :param image_coord: the image coordinate array
+        :return: the longitude in radians
+        """
+        return self.longitude_interpolator(image_coord[0], image_coord[1])[0][0]
+
     def __call__(self, *args, **kwargs):
         """
         Call this interpolation function given an image coordinate array.
@@ -75,7 +99,7 @@ class LocationGridInterpolator:
         """
         image_coord = args[0]
         world_coord = [
-            self.longitude_interpolator(image_coord[0], image_coord[1])[0][0],
+            normalize_longitude(self.continuous_longitude(image_coord)),
             self.latitude_interpolator(image_coord[0], image_coord[1])[0][0],
             self.elevation_interpolator(image_coord[0], image_coord[1])[0][0],
         ]
@@ -204,7 +228,17 @@ class Geolocator:
                     for corner in bbox_corners_image_coords
                 ]
                 bbox_corners_world_geometry = shapely.MultiPoint(bbox_corners_world_coords)
-                feature["bbox"] = bbox_corners_world_geometry.bounds
+                _, min_latitude, _, max_latitude = bbox_corners_world_geometry.bounds
+                # A box crossing the antimeridian has its west edge at a larger longitude than its east edge
+                corner_longitudes = [
+                    tile_interpolation_grid.continuous_longitude(corner) for corner in bbox_corners_image_coords
+                ]
+                feature["bbox"] = (
+                    math.degrees(normalize_longitude(min(corner_longitudes))),
+                    min_latitude,
+                    math.degrees(normalize_longitude(max(corner_longitudes))),
+                    max_latitude,
+                )
 
             # If the feature has the "imageGeometry" property set then we will convert it to the "geometry" property
             # defined in the GeoJSON spec. The "geometry" property will have the same type (e.g. Point, LineString,
-- 
2.43.0


From 1d978b90de11f7c7498167ec70b5480faab7f9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:51 +0000
Subject: [PATCH 43/69] fix: restore the GDAL configuration options of nested
 scopes

The previous values are kept for each time the environment is entered, so that entering the same object again or
adding options inside the scope does not lose them.
---
 src/aws/osml/gdal/gdal_config.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/aws/osml/gdal/gdal_config.py b/src/aws/osml/gdal/gdal_config.py
index a0053c6..3e472fa 100644
--- a/src/aws/osml/gdal/gdal_config.py
+++ b/src/aws/osml/gdal/gdal_config.py
@@ -1,7 +1,7 @@
 #  Copyright 2023-2024 Amazon.com, Inc. or its affiliates.
 
 import logging
-from typing import Dict, Optional
+from typing import Dict, List, Optional
 
 from osgeo import gdal
 
@@ -58,7 +58,8 @@ class GDALConfigEnv:
             self.options = options.copy()
         else:
             self.options = {}
-        self.old_options: Dict = {}
+        # The previous values of the options for each time this environment has been entered and not left yet
+        self.old_options: List[Dict[str, Optional[str]]] = []
 
     def with_aws_credentials(self, aws_credentials: Optional[Dict[str, str]]) -> "GDALConfigEnv":
         """
@@ -79,10 +80,10 @@ class GDALConfigEnv:
         return self
 
     def __enter__(self) -> None:
+        self.old_options.append({key: gdal.GetConfigOption(key) for key in self.options})
         for key, val in self.options.items():
-            self.old_options[key] = gdal.GetConfigOption(key)
             gdal.SetConfigOption(key, str(val))
 
     def __exit__(self, exc_type: str, exc_val: str, exc_traceback: str) -> None:
-        for key, val in self.options.items():
-            gdal.SetConfigOption(key, self.old_options[key])
+        for key, val in self.old_options.pop().items():
+            gdal.SetConfigOption(key, val)
-- 
2.43.0


From 2ee49317bf54f3f6e70a3936910d0d4863647b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:00 +0000
Subject: [PATCH 44/69] fix: do not turn environment variables into GDAL
 configuration options on exit of a scope

---
 src/aws/osml/gdal/gdal_config.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/aws/osml/gdal/gdal_config.py b/src/aws/osml/gdal/gdal_config.py
index 3e472fa..c4ec9ac 100644
--- a/src/aws/osml/gdal/gdal_config.py
+++ b/src/aws/osml/gdal/gdal_config.py
@@ -80,7 +80,10 @@ class GDALConfigEnv:
         return self
 
     def __enter__(self) -> None:
-        self.old_options.append({key: gdal.GetConfigOption(key) for key in self.options})
+        # Only values set explicitly are saved. Options that come from an environment variable need to be unset again
+        # on exit; otherwise they would hide later changes of the variable. The option names are not case-sensitive.
+        current_options = {key.upper(): val for key, val in gdal.GetConfigOptions().items()}
+        self.old_options.append({key: current_options.get(key.upper()) for key in self.options})
         for key, val in self.options.items():
             gdal.SetConfigOption(key, str(val))
 
-- 
2.43.0


From 52fc789666bb6d1ada411bf88e507e78cab348d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:36 +0000
Subject: [PATCH 45/69] fix: honor the coordinate reference system of ground
 control points

---
 src/aws/osml/gdal/gdal_utils.py | 37 +++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/src/aws/osml/gdal/gdal_utils.py b/src/aws/osml/gdal/gdal_utils.py
index 2f867ed..f6aec02 100644
--- a/src/aws/osml/gdal/gdal_utils.py
+++ b/src/aws/osml/gdal/gdal_utils.py
@@ -2,10 +2,12 @@
 
 import logging
 import re
-from typing import Dict, List, Optional, Tuple
+from typing import Dict, List, Optional, Sequence, Tuple
 
+import pyproj
 from defusedxml import ElementTree
 from osgeo import gdal, gdalconst
+from pyproj.exceptions import ProjError
 
 from aws.osml.photogrammetry import SensorModel
 
@@ -36,7 +38,7 @@ def load_gdal_dataset(image_path: str) -> Tuple[gdal.Dataset, Optional[SensorMod
 
     # Get a GDAL Geo Transform and any available GCPs
     geo_transform = ds.GetGeoTransform(can_return_null=True)
-    ground_control_points = ds.GetGCPs()
+    ground_control_points = convert_gcps_to_lonlat(ds.GetGCPs(), ds.GetGCPProjection())
     proj_wkt = ds.GetProjection()
 
     # If this image has NITF TREs defined parse them
@@ -70,6 +72,37 @@ def load_gdal_dataset(image_path: str) -> Tuple[gdal.Dataset, Optional[SensorMod
     return ds, sensor_model
 
 
+def convert_gcps_to_lonlat(
+    ground_control_points: Optional[Sequence[gdal.GCP]], gcp_wkt: Optional[str]
+) -> Optional[Sequence[gdal.GCP]]:
+    """
+    This function converts ground control points from the CRS used by the dataset to longitude, latitude in degrees.
+
+    :param ground_control_points: the ground control points
+    :param gcp_wkt: the well known text string of the CRS of the points, they already are longitudes and latitudes if empty
+    :return: the converted points or None if they can not be converted
+    """
+    if not ground_control_points or not gcp_wkt:
+        return ground_control_points
+
+    try:
+        gcp_to_wgs84 = pyproj.Transformer.from_crs(pyproj.CRS.from_string(gcp_wkt), "EPSG:4326", always_xy=True)
+        return [
+            gdal.GCP(
+                *gcp_to_wgs84.transform(gcp.GCPX, gcp.GCPY, errcheck=True),
+                gcp.GCPZ,
+                gcp.GCPPixel,
+                gcp.GCPLine,
+                gcp.Info,
+                gcp.Id,
+            )
+            for gcp in ground_control_points
+        ]
+    except ProjError as e:
+        logger.warning("Unable to convert the ground control points to longitudes and latitudes: {}".format(e))
+        return None
+
+
 def get_minmax_for_type(gdal_type: int) -> Tuple[float, float]:
     """
     This function computes the minimum and maximum values that can be stored in a given GDAL pixel type.
-- 
2.43.0


From b117e1aff02ae2041037e973e6425d6a3b586c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:09 +0000
Subject: [PATCH 46/69] fix: RPC cameras locate images crossing the
 antimeridian

---
 src/aws/osml/photogrammetry/rpc_sensor_model.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/aws/osml/photogrammetry/rpc_sensor_model.py b/src/aws/osml/photogrammetry/rpc_sensor_model.py
index ccab733..c9b94e9 100644
--- a/src/aws/osml/photogrammetry/rpc_sensor_model.py
+++ b/src/aws/osml/photogrammetry/rpc_sensor_model.py
@@ -1,6 +1,6 @@
 #  Copyright 2023-2024 Amazon.com, Inc. or its affiliates.
 
-from math import degrees, radians, sqrt
+from math import degrees, pi, radians, remainder, sqrt
 from typing import Any, Dict, List, Optional, Tuple
 
 import numpy as np
@@ -162,7 +162,8 @@ class RPCSensorModel(SensorModel):
         # GeodeticWorldCoordinate is assumed to be in radians with meters elevation. Convert the coordinate to
         # degrees before normalizing the values.
         # TODO: Check that GeodeticWorldCoordinate in RSM is meters elevation
-        l_val = (degrees(geodetic_coordinate.x) - self.long_off) / self.long_scale
+        # Longitudes are periodic, locations across the antimeridian are close to the offset as well.
+        l_val = remainder(degrees(geodetic_coordinate.x) - self.long_off, 360.0) / self.long_scale
         p_val = (degrees(geodetic_coordinate.y) - self.lat_off) / self.lat_scale
         h_val = (geodetic_coordinate.z - self.height_off) / self.height_scale
         norm_domain_coordinate = WorldCoordinate([l_val, p_val, h_val])
@@ -199,7 +200,7 @@ class RPCSensorModel(SensorModel):
         # distance between that new image location and the input image location. When those locations match then
         # we know we have the ground domain coordinate that corresponds to the input.
         def distance_to_target_coordinate(lonlat_coord: Tuple[float, float]) -> float:
-            ground_domain_coordinate = GeodeticWorldCoordinate([lonlat_coord[0], lonlat_coord[1], 0.0])
+            ground_domain_coordinate = GeodeticWorldCoordinate([remainder(lonlat_coord[0], 2.0 * pi), lonlat_coord[1], 0.0])
             self.default_elevation_model.set_elevation(ground_domain_coordinate)
             if elevation_model:
                 elevation_model.set_elevation(ground_domain_coordinate)
@@ -238,7 +239,7 @@ class RPCSensorModel(SensorModel):
 
         # The minimization result is an (x,y) tuple, so we need to expand it to x,y,z and replace the z component with
         # the height from the elevation model. Note that the units of this are radians, radians, meters
-        world_coordinate = GeodeticWorldCoordinate(np.append(res.x, 0.0))
+        world_coordinate = GeodeticWorldCoordinate([remainder(res.x[0], 2.0 * pi), res.x[1], 0.0])
         self.default_elevation_model.set_elevation(world_coordinate)
         if elevation_model:
             elevation_model.set_elevation(world_coordinate)
-- 
2.43.0


From 553f521f43af4c75382d21a9e0953aa6e20798d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:09 +0000
Subject: [PATCH 47/69] fix: tie point cameras locate images crossing the
 antimeridian

---
 .../photogrammetry/projective_sensor_model.py | 28 +++++++++++++++++--
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/aws/osml/photogrammetry/projective_sensor_model.py b/src/aws/osml/photogrammetry/projective_sensor_model.py
index 0530d6d..afd7172 100644
--- a/src/aws/osml/photogrammetry/projective_sensor_model.py
+++ b/src/aws/osml/photogrammetry/projective_sensor_model.py
@@ -1,5 +1,6 @@
 #  Copyright 2023-2024 Amazon.com, Inc. or its affiliates.
 
+from math import pi, remainder
 from typing import Any, Dict, List, Optional
 
 import numpy as np
@@ -30,8 +31,12 @@ class ProjectiveSensorModel(SensorModel):
         :return: None
         """
         super().__init__()
+        # Longitudes are periodic, the transform uses those closest to the first point to be continuous for an image
+        # that crosses the antimeridian.
+        self.longitude_origin = world_coordinates[0].longitude
         src_coordinates = [
-            np.array([world_coordinate.longitude, world_coordinate.latitude]) for world_coordinate in world_coordinates
+            np.array([self._unwrap_longitude(world_coordinate.longitude), world_coordinate.latitude])
+            for world_coordinate in world_coordinates
         ]
         dst_coordinates = [image_coordinate.coordinate for image_coordinate in image_coordinates]
         self.lonlat_to_xy_transform = ProjectiveTransform.estimate(np.vstack(src_coordinates), np.vstack(dst_coordinates))
@@ -53,7 +58,8 @@ class ProjectiveSensorModel(SensorModel):
         :return: the longitude, latitude, elevation world coordinate
         """
         world_coords = self.lonlat_to_xy_transform.inverse(np.array([image_coordinate.coordinate]))
-        world_coordinate = GeodeticWorldCoordinate(np.append(world_coords[0], [0]))
+        longitude, latitude = world_coords[0]
+        world_coordinate = GeodeticWorldCoordinate([self._wrap_longitude(longitude), latitude, 0.0])
         if elevation_model:
             elevation_model.set_elevation(world_coordinate)
         return world_coordinate
@@ -67,6 +73,22 @@ class ProjectiveSensorModel(SensorModel):
 
         :return: the x, y image coordinate
         """
-        image_coords = self.lonlat_to_xy_transform.forward(np.array([world_coordinate.coordinate[0:2]]))
+        longitude, latitude = world_coordinate.coordinate[0:2]
+        image_coords = self.lonlat_to_xy_transform.forward(np.array([[self._unwrap_longitude(longitude), latitude]]))
         image_coordinate = ImageCoordinate(image_coords[0])
         return image_coordinate
+
+    def _unwrap_longitude(self, longitude: float) -> float:
+        """
+        :param longitude: a longitude in radians
+        :return: the equivalent longitude within half a turn of the first tie point
+        """
+        return self.longitude_origin + remainder(longitude - self.longitude_origin, 2.0 * pi)
+
+    @staticmethod
+    def _wrap_longitude(longitude: float) -> float:
+        """
+        :param longitude: a longitude in radians
+        :return: the equivalent longitude in the range [-pi, pi]
+        """
+        return longitude if abs(longitude) <= pi else remainder(longitude, 2.0 * pi)
-- 
2.43.0


From 6c12294e1c86607722c0460f09e3c07a9c446c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:43 +0000
Subject: [PATCH 48/69] fix: RSM cameras locate images crossing the
 antimeridian and report longitudes within half a turn

---
 .../replacement_sensor_model.py               | 30 ++++++++++++-------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/aws/osml/photogrammetry/replacement_sensor_model.py b/src/aws/osml/photogrammetry/replacement_sensor_model.py
index 059d93b..9546522 100644
--- a/src/aws/osml/photogrammetry/replacement_sensor_model.py
+++ b/src/aws/osml/photogrammetry/replacement_sensor_model.py
@@ -2,7 +2,7 @@
 
 from abc import ABC
 from enum import Enum
-from math import floor, pi, radians, sqrt
+from math import floor, pi, radians, remainder, sqrt
 from typing import Any, Dict, List, Optional, Tuple
 
 import numpy as np
@@ -129,6 +129,11 @@ class RSMGroundDomain:
         self.geodetic_ground_domain_vertices = [
             self.ground_domain_coordinate_to_geodetic(vertex) for vertex in self.ground_domain_vertices
         ]
+        if self.ground_domain_form == RSMGroundDomainForm.RECTANGULAR:
+            # The longitudes of a ground domain that crosses the antimeridian need to be continuous too.
+            for geodetic_vertex in self.geodetic_ground_domain_vertices:
+                longitude_offset = geodetic_vertex.longitude - self.geodetic_ground_domain_vertices[0].longitude
+                geodetic_vertex.longitude -= 2.0 * pi * round(longitude_offset / (2.0 * pi))
 
         # Calculate a bounding box and average elevation for this ground domain in geodetic coordinates
         elevation_sum = 0.0
@@ -503,15 +508,23 @@ class RSMPolynomialSensorModel(RSMSensorModel):
         :return: the corresponding world coordinate
         """
 
+        # The longitudes of the ground domain may not be in the range [-pi, pi] that is expected by elevation models and
+        # returned to the caller.
+        def surface_coordinate(lonlat_coord: Tuple[float, float]) -> GeodeticWorldCoordinate:
+            longitude = lonlat_coord[0] if abs(lonlat_coord[0]) <= pi else remainder(lonlat_coord[0], 2.0 * pi)
+            surface_world_coordinate = GeodeticWorldCoordinate([longitude, lonlat_coord[1], 0.0])
+            self.context.ground_domain.default_elevation_model.set_elevation(surface_world_coordinate)
+            if elevation_model:
+                elevation_model.set_elevation(surface_world_coordinate)
+            return surface_world_coordinate
+
         # This is the function we will be minimizing. Given a longitude, latitude coordinate we invoke the
         # world_to_image function to get a projection of that location in the image. Then we compute the
         # distance between that new image location and the input image location. When those locations match then
         # we know we have the world coordinate that corresponds to the input.
         def distance_to_target_coordinate(lonlat_coord: Tuple[float, float]) -> float:
-            current_world_coordinate = GeodeticWorldCoordinate([lonlat_coord[0], lonlat_coord[1], 0.0])
-            self.context.ground_domain.default_elevation_model.set_elevation(current_world_coordinate)
-            if elevation_model:
-                elevation_model.set_elevation(current_world_coordinate)
+            current_world_coordinate = surface_coordinate(lonlat_coord)
+            current_world_coordinate.longitude = lonlat_coord[0]
             new_image_coordinate = self.world_to_image(current_world_coordinate)
             return sqrt(
                 (image_coordinate.x - new_image_coordinate.x) ** 2 + (image_coordinate.y - new_image_coordinate.y) ** 2
@@ -561,12 +574,7 @@ class RSMPolynomialSensorModel(RSMSensorModel):
 
         # The minimization result is a (longitude,latitude) tuple, so we need to expand it to
         # longitude,latitude,elevation and replace the z component with the height from the elevation model.
-        world_coordinate = GeodeticWorldCoordinate(np.append(res.x, 0.0))
-        self.context.ground_domain.default_elevation_model.set_elevation(world_coordinate)
-        if elevation_model:
-            elevation_model.set_elevation(world_coordinate)
-
-        return world_coordinate
+        return surface_coordinate(res.x)
 
     def ground_domain_to_image(self, domain_coordinate: WorldCoordinate) -> ImageCoordinate:
         """
-- 
2.43.0


From ef4e98a429b9ed0c3d9c6d339ff7c842dd90a6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:05 +0000
Subject: [PATCH 49/69] fix: longitudes that are not finite do not raise an
 exception

---
 .../osml/photogrammetry/projective_sensor_model.py  |  6 +++---
 .../osml/photogrammetry/replacement_sensor_model.py |  6 +++---
 src/aws/osml/photogrammetry/rpc_sensor_model.py     | 13 +++++++++----
 3 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/aws/osml/photogrammetry/projective_sensor_model.py b/src/aws/osml/photogrammetry/projective_sensor_model.py
index afd7172..28507df 100644
--- a/src/aws/osml/photogrammetry/projective_sensor_model.py
+++ b/src/aws/osml/photogrammetry/projective_sensor_model.py
@@ -1,6 +1,6 @@
 #  Copyright 2023-2024 Amazon.com, Inc. or its affiliates.
 
-from math import pi, remainder
+from math import pi
 from typing import Any, Dict, List, Optional
 
 import numpy as np
@@ -83,7 +83,7 @@ class ProjectiveSensorModel(SensorModel):
         :param longitude: a longitude in radians
         :return: the equivalent longitude within half a turn of the first tie point
         """
-        return self.longitude_origin + remainder(longitude - self.longitude_origin, 2.0 * pi)
+        return self.longitude_origin + self._wrap_longitude(longitude - self.longitude_origin)
 
     @staticmethod
     def _wrap_longitude(longitude: float) -> float:
@@ -91,4 +91,4 @@ class ProjectiveSensorModel(SensorModel):
         :param longitude: a longitude in radians
         :return: the equivalent longitude in the range [-pi, pi]
         """
-        return longitude if abs(longitude) <= pi else remainder(longitude, 2.0 * pi)
+        return longitude - 2.0 * pi * np.round(longitude / (2.0 * pi))
diff --git a/src/aws/osml/photogrammetry/replacement_sensor_model.py b/src/aws/osml/photogrammetry/replacement_sensor_model.py
index 9546522..0a2209b 100644
--- a/src/aws/osml/photogrammetry/replacement_sensor_model.py
+++ b/src/aws/osml/photogrammetry/replacement_sensor_model.py
@@ -2,7 +2,7 @@
 
 from abc import ABC
 from enum import Enum
-from math import floor, pi, radians, remainder, sqrt
+from math import floor, pi, radians, sqrt
 from typing import Any, Dict, List, Optional, Tuple
 
 import numpy as np
@@ -133,7 +133,7 @@ class RSMGroundDomain:
             # The longitudes of a ground domain that crosses the antimeridian need to be continuous too.
             for geodetic_vertex in self.geodetic_ground_domain_vertices:
                 longitude_offset = geodetic_vertex.longitude - self.geodetic_ground_domain_vertices[0].longitude
-                geodetic_vertex.longitude -= 2.0 * pi * round(longitude_offset / (2.0 * pi))
+                geodetic_vertex.longitude -= 2.0 * pi * np.round(longitude_offset / (2.0 * pi))
 
         # Calculate a bounding box and average elevation for this ground domain in geodetic coordinates
         elevation_sum = 0.0
@@ -511,7 +511,7 @@ class RSMPolynomialSensorModel(RSMSensorModel):
         # The longitudes of the ground domain may not be in the range [-pi, pi] that is expected by elevation models and
         # returned to the caller.
         def surface_coordinate(lonlat_coord: Tuple[float, float]) -> GeodeticWorldCoordinate:
-            longitude = lonlat_coord[0] if abs(lonlat_coord[0]) <= pi else remainder(lonlat_coord[0], 2.0 * pi)
+            longitude = lonlat_coord[0] - 2.0 * pi * np.round(lonlat_coord[0] / (2.0 * pi))
             surface_world_coordinate = GeodeticWorldCoordinate([longitude, lonlat_coord[1], 0.0])
             self.context.ground_domain.default_elevation_model.set_elevation(surface_world_coordinate)
             if elevation_model:
diff --git a/src/aws/osml/photogrammetry/rpc_sensor_model.py b/src/aws/osml/photogrammetry/rpc_sensor_model.py
index c9b94e9..897ca0a 100644
--- a/src/aws/osml/photogrammetry/rpc_sensor_model.py
+++ b/src/aws/osml/photogrammetry/rpc_sensor_model.py
@@ -1,6 +1,6 @@
 #  Copyright 2023-2024 Amazon.com, Inc. or its affiliates.
 
-from math import degrees, pi, radians, remainder, sqrt
+from math import degrees, pi, radians, sqrt
 from typing import Any, Dict, List, Optional, Tuple
 
 import numpy as np
@@ -163,7 +163,8 @@ class RPCSensorModel(SensorModel):
         # degrees before normalizing the values.
         # TODO: Check that GeodeticWorldCoordinate in RSM is meters elevation
         # Longitudes are periodic, locations across the antimeridian are close to the offset as well.
-        l_val = remainder(degrees(geodetic_coordinate.x) - self.long_off, 360.0) / self.long_scale
+        longitude_offset = degrees(geodetic_coordinate.x) - self.long_off
+        l_val = (longitude_offset - 360.0 * np.round(longitude_offset / 360.0)) / self.long_scale
         p_val = (degrees(geodetic_coordinate.y) - self.lat_off) / self.lat_scale
         h_val = (geodetic_coordinate.z - self.height_off) / self.height_scale
         norm_domain_coordinate = WorldCoordinate([l_val, p_val, h_val])
@@ -195,12 +196,16 @@ class RPCSensorModel(SensorModel):
         :return: the corresponding world coordinate
         """
 
+        # The search may cross the antimeridian but all locations have longitudes in the range [-pi, pi].
+        def wrap_longitude(longitude: float) -> float:
+            return longitude - 2.0 * pi * np.round(longitude / (2.0 * pi))
+
         # This is the function we will be minimizing. Given an x,y coordinate in the ground domain we use invoke the
         # ground_domain_to_image function to get a projection of that location in the image. Then we compute the
         # distance between that new image location and the input image location. When those locations match then
         # we know we have the ground domain coordinate that corresponds to the input.
         def distance_to_target_coordinate(lonlat_coord: Tuple[float, float]) -> float:
-            ground_domain_coordinate = GeodeticWorldCoordinate([remainder(lonlat_coord[0], 2.0 * pi), lonlat_coord[1], 0.0])
+            ground_domain_coordinate = GeodeticWorldCoordinate([wrap_longitude(lonlat_coord[0]), lonlat_coord[1], 0.0])
             self.default_elevation_model.set_elevation(ground_domain_coordinate)
             if elevation_model:
                 elevation_model.set_elevation(ground_domain_coordinate)
@@ -239,7 +244,7 @@ class RPCSensorModel(SensorModel):
 
         # The minimization result is an (x,y) tuple, so we need to expand it to x,y,z and replace the z component with
         # the height from the elevation model. Note that the units of this are radians, radians, meters
-        world_coordinate = GeodeticWorldCoordinate([remainder(res.x[0], 2.0 * pi), res.x[1], 0.0])
+        world_coordinate = GeodeticWorldCoordinate([wrap_longitude(res.x[0]), res.x[1], 0.0])
         self.default_elevation_model.set_elevation(world_coordinate)
         if elevation_model:
             elevation_model.set_elevation(world_coordinate)
-- 
2.43.0


From f56c0b6b5dbdbc96a3a46199b6d4ec0ed1193306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:30 +0000
Subject: [PATCH 50/69] fix: select image extension from the file name only,
 not from its folders

---
 src/aws/osml/gdal/gdal_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/aws/osml/gdal/gdal_utils.py b/src/aws/osml/gdal/gdal_utils.py
index f6aec02..a4339a9 100644
--- a/src/aws/osml/gdal/gdal_utils.py
+++ b/src/aws/osml/gdal/gdal_utils.py
@@ -1,6 +1,7 @@
 #  Copyright 2023-2024 Amazon.com, Inc. or its affiliates.
 
 import logging
+import os
 import re
 from typing import Dict, List, Optional, Sequence, Tuple
 
@@ -260,11 +261,13 @@ def select_extension(image_path: str, possible_extensions: List[str]) -> str:
 
     :return: select extension
     """
+    # Only the name of the file counts, the folders it is in may contain the extension of a different format
+    file_name = os.path.basename(image_path)
     selected_extension = "UNKNOWN"
     for i, possible_extension in enumerate(possible_extensions):
         if i == 0:
             selected_extension = possible_extension.upper()
-        elif f".{possible_extension}".upper() in image_path.upper():
+        elif f".{possible_extension}".upper() in file_name.upper():
             selected_extension = possible_extension.upper()
     return selected_extension
 
-- 
2.43.0


From a25cf9e2011a4241e8f05f8d7fc9aa41e921dad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:23 +0000
Subject: [PATCH 51/69] fix: skip tie points and chip corners that do not
 define a transform

---
 src/aws/osml/gdal/gdal_sensor_model_builder.py | 7 ++++++-
 src/aws/osml/gdal/sensor_model_factory.py      | 8 ++++++++
 src/aws/osml/photogrammetry/transforms.py      | 6 ++++--
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/aws/osml/gdal/gdal_sensor_model_builder.py b/src/aws/osml/gdal/gdal_sensor_model_builder.py
index b673e90..0a63e5f 100644
--- a/src/aws/osml/gdal/gdal_sensor_model_builder.py
+++ b/src/aws/osml/gdal/gdal_sensor_model_builder.py
@@ -75,4 +75,9 @@ class GDALGCPSensorModelBuilder(SensorModelBuilder):
             GeodeticWorldCoordinate([radians(gcp.GCPX), radians(gcp.GCPY), gcp.GCPZ]) for gcp in self.ground_control_points
         ]
         image_coordinates = [ImageCoordinate([gcp.GCPPixel, gcp.GCPLine]) for gcp in self.ground_control_points]
-        return ProjectiveSensorModel(world_coordinates, image_coordinates)
+        try:
+            return ProjectiveSensorModel(world_coordinates, image_coordinates)
+        except ValueError as ve:
+            logging.warning("Unable to use the GDAL ground control points. No SensorModel created.")
+            logging.warning(str(ve))
+            return None
diff --git a/src/aws/osml/gdal/sensor_model_factory.py b/src/aws/osml/gdal/sensor_model_factory.py
index 97ddc4a..e6e38af 100644
--- a/src/aws/osml/gdal/sensor_model_factory.py
+++ b/src/aws/osml/gdal/sensor_model_factory.py
@@ -5,9 +5,11 @@ from enum import Enum
 from typing import List, Optional
 from xml.etree import ElementTree as ET
 
+import numpy as np
 from osgeo import gdal
 
 from aws.osml.photogrammetry import ChippedImageSensorModel, CompositeSensorModel, ImageCoordinate, SensorModel
+from aws.osml.photogrammetry.transforms import ProjectiveTransform
 
 from .gdal_sensor_model_builder import GDALAffineSensorModelBuilder, GDALGCPSensorModelBuilder
 from .nitf_des_accessor import NITFDESAccessor
@@ -53,6 +55,12 @@ class ChippedImageInfoFacade:
 
             self.full_image_width = get_tre_field_value(ichipb_tre, "FI_COL", int)
             self.full_image_height = get_tre_field_value(ichipb_tre, "FI_ROW", int)
+
+            # This raises a ValueError if the points can not be used to relate the chip to the full image
+            ProjectiveTransform.estimate(
+                np.vstack([image_coordinate.coordinate for image_coordinate in self.full_image_coordinates]),
+                np.vstack([image_coordinate.coordinate for image_coordinate in self.chipped_image_coordinates]),
+            )
             self.is_valid = True
         except ValueError as ve:
             logging.warning("Unable to parse ICHIPB TRE found in XML metadata. SensorModel is unchanged.")
diff --git a/src/aws/osml/photogrammetry/transforms.py b/src/aws/osml/photogrammetry/transforms.py
index f5cf576..ec2fb0a 100644
--- a/src/aws/osml/photogrammetry/transforms.py
+++ b/src/aws/osml/photogrammetry/transforms.py
@@ -72,6 +72,7 @@ class ProjectiveTransform:
         :param src: the source points
         :param dst: the destination points
 
+        :raises ValueError: if the source or destination points are all the same or some of them are not finite
         :return: the projective transform
         """
         # Center and scale both sets of points before the fit. The longitudes and latitudes of a small footprint differ
@@ -117,11 +118,12 @@ class ProjectiveTransform:
 
         :param points: the points [[x, y], ...]
 
+        :raises ValueError: if the points are all the same or some of them are not finite
         :return: the normalized points and the 3x3 homogeneous matrix that normalizes them
         """
         center = np.mean(points, axis=0)
         scale = np.max(np.abs(points - center))
-        if not scale > 0.0:
-            scale = 1.0
+        if not np.all(np.isfinite(points)) or not np.any(np.ptp(points, axis=0) > 0.0):
+            raise ValueError("Points that are all the same or not finite do not define a projective transform.")
         normalization = np.array([[1.0, 0.0, -center[0]], [0.0, 1.0, -center[1]], [0.0, 0.0, scale]]) / scale
         return (points - center) / scale, normalization
-- 
2.43.0


From 170402e662903b62e6d487ce305540b6214be160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:07 +0000
Subject: [PATCH 52/69] fix: treat coefficients that are missing or not finite
 as incomplete metadata

---
 src/aws/osml/gdal/xmltre_utils.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/aws/osml/gdal/xmltre_utils.py b/src/aws/osml/gdal/xmltre_utils.py
index 99bda03..c9c780d 100644
--- a/src/aws/osml/gdal/xmltre_utils.py
+++ b/src/aws/osml/gdal/xmltre_utils.py
@@ -1,5 +1,6 @@
 #  Copyright 2023-2024 Amazon.com, Inc. or its affiliates.
 
+from math import isfinite
 from typing import Callable, List, TypeVar
 from xml.etree import ElementTree as ET
 
@@ -25,7 +26,10 @@ def get_tre_field_value(tre: ET.Element, field_name: str, type_conversion: Calla
     str_value = field_element.get("value")
     if str_value is None:
         raise ValueError(f"Field {field_name} does not have a value attribute.")
-    return type_conversion(str_value)
+    value = type_conversion(str_value)
+    if isinstance(value, float) and not isfinite(value):
+        raise ValueError(f"Field {field_name} is not a finite number: {str_value}")
+    return value
 
 
 def parse_rpc_coefficients(tre: ET.Element, repeated_name: str) -> List[float]:
@@ -49,6 +53,7 @@ def parse_rpc_coefficients(tre: ET.Element, repeated_name: str) -> List[float]:
     num_coefficients = int(num_coefficients_str)
 
     result: List[float] = [0.0] * num_coefficients
+    found_indexes = set()
     for group in repeated:
         index_str = group.get("index")
         if index_str is None:
@@ -65,6 +70,12 @@ def parse_rpc_coefficients(tre: ET.Element, repeated_name: str) -> List[float]:
         if value_str is None:
             raise ValueError("Invalid XML TRE: Field in repeated group in XML TRE is missing required value attribute")
         value = float(value_str)
+        if not isfinite(value):
+            raise ValueError("Invalid XML TRE: Field in repeated group in XML TRE is not a finite number")
         result[index] = value
+        found_indexes.add(index)
+
+    if len(found_indexes) != num_coefficients:
+        raise ValueError("Invalid XML TRE: Repeated tag in XML TRE has fewer groups than its number attribute")
 
     return result
-- 
2.43.0


From 359508e858b6e173cf17b1aa1329335e04bcf467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:28 +0000
Subject: [PATCH 53/69] fix: ignore RPC and RSM metadata with unusable scale
 factors or polynomial sizes

---
 src/aws/osml/gdal/rpc_sensor_model_builder.py | 17 ++++++++++-------
 src/aws/osml/gdal/rsm_sensor_model_builder.py | 16 ++++++++--------
 src/aws/osml/gdal/xmltre_utils.py             | 14 ++++++++++++++
 3 files changed, 32 insertions(+), 15 deletions(-)

diff --git a/src/aws/osml/gdal/rpc_sensor_model_builder.py b/src/aws/osml/gdal/rpc_sensor_model_builder.py
index ea77fe7..02a9908 100644
--- a/src/aws/osml/gdal/rpc_sensor_model_builder.py
+++ b/src/aws/osml/gdal/rpc_sensor_model_builder.py
@@ -7,7 +7,7 @@ from xml.etree import ElementTree as ET
 from aws.osml.photogrammetry import RPCPolynomial, RPCSensorModel
 
 from .sensor_model_builder import SensorModelBuilder
-from .xmltre_utils import get_tre_field_value, parse_rpc_coefficients
+from .xmltre_utils import get_tre_field_value, nonzero_float, parse_rpc_coefficients
 
 
 class RPCSensorModelBuilder(SensorModelBuilder):
@@ -81,11 +81,11 @@ class RPCSensorModelBuilder(SensorModelBuilder):
             get_tre_field_value(rpc_tre, "LAT_OFF", float),
             get_tre_field_value(rpc_tre, "LONG_OFF", float),
             get_tre_field_value(rpc_tre, "HEIGHT_OFF", float),
-            get_tre_field_value(rpc_tre, "LINE_SCALE", float),
-            get_tre_field_value(rpc_tre, "SAMP_SCALE", float),
-            get_tre_field_value(rpc_tre, "LAT_SCALE", float),
-            get_tre_field_value(rpc_tre, "LONG_SCALE", float),
-            get_tre_field_value(rpc_tre, "HEIGHT_SCALE", float),
+            get_tre_field_value(rpc_tre, "LINE_SCALE", nonzero_float),
+            get_tre_field_value(rpc_tre, "SAMP_SCALE", nonzero_float),
+            get_tre_field_value(rpc_tre, "LAT_SCALE", nonzero_float),
+            get_tre_field_value(rpc_tre, "LONG_SCALE", nonzero_float),
+            get_tre_field_value(rpc_tre, "HEIGHT_SCALE", nonzero_float),
             RPCSensorModelBuilder.build_rpc_polynomial(rpc_tre, "LINE_NUM_COEFF"),
             RPCSensorModelBuilder.build_rpc_polynomial(rpc_tre, "LINE_DEN_COEFF"),
             RPCSensorModelBuilder.build_rpc_polynomial(rpc_tre, "SAMP_NUM_COEFF"),
@@ -104,4 +104,7 @@ class RPCSensorModelBuilder(SensorModelBuilder):
 
         :return: the RPC polynomial
         """
-        return RPCPolynomial(parse_rpc_coefficients(rpc_tre, polynomial_name))
+        coefficients = parse_rpc_coefficients(rpc_tre, polynomial_name)
+        if len(coefficients) != 20:
+            raise ValueError(f"Incorrect number of coefficients for {polynomial_name}. Expecting 20, got {len(coefficients)}")
+        return RPCPolynomial(coefficients)
diff --git a/src/aws/osml/gdal/rsm_sensor_model_builder.py b/src/aws/osml/gdal/rsm_sensor_model_builder.py
index 0a0a093..a482d55 100644
--- a/src/aws/osml/gdal/rsm_sensor_model_builder.py
+++ b/src/aws/osml/gdal/rsm_sensor_model_builder.py
@@ -18,7 +18,7 @@ from aws.osml.photogrammetry import (
 )
 
 from .sensor_model_builder import SensorModelBuilder
-from .xmltre_utils import get_tre_field_value, parse_rpc_coefficients
+from .xmltre_utils import get_tre_field_value, nonzero_float, parse_rpc_coefficients
 
 
 class RSMSensorModelBuilder(SensorModelBuilder):
@@ -254,11 +254,11 @@ class RSMSensorModelBuilder(SensorModelBuilder):
             get_tre_field_value(rsmpc_tre, "XNRMO", float),
             get_tre_field_value(rsmpc_tre, "YNRMO", float),
             get_tre_field_value(rsmpc_tre, "ZNRMO", float),
-            get_tre_field_value(rsmpc_tre, "RNRMSF", float),
-            get_tre_field_value(rsmpc_tre, "CNRMSF", float),
-            get_tre_field_value(rsmpc_tre, "XNRMSF", float),
-            get_tre_field_value(rsmpc_tre, "YNRMSF", float),
-            get_tre_field_value(rsmpc_tre, "ZNRMSF", float),
+            get_tre_field_value(rsmpc_tre, "RNRMSF", nonzero_float),
+            get_tre_field_value(rsmpc_tre, "CNRMSF", nonzero_float),
+            get_tre_field_value(rsmpc_tre, "XNRMSF", nonzero_float),
+            get_tre_field_value(rsmpc_tre, "YNRMSF", nonzero_float),
+            get_tre_field_value(rsmpc_tre, "ZNRMSF", nonzero_float),
             RSMSensorModelBuilder._build_rsm_polynomial(rsmpc_tre, "RN"),
             RSMSensorModelBuilder._build_rsm_polynomial(rsmpc_tre, "RD"),
             RSMSensorModelBuilder._build_rsm_polynomial(rsmpc_tre, "CN"),
@@ -320,8 +320,8 @@ class RSMSensorModelBuilder(SensorModelBuilder):
             rsm_context,
             num_section_rows,
             num_section_cols,
-            get_tre_field_value(rsmpi_tre, "RSSIZ", float),
-            get_tre_field_value(rsmpi_tre, "CSSIZ", float),
+            get_tre_field_value(rsmpi_tre, "RSSIZ", nonzero_float),
+            get_tre_field_value(rsmpi_tre, "CSSIZ", nonzero_float),
             RSMSensorModelBuilder._build_loworder_rsm_polynomial(rsmpi_tre, "R"),
             RSMSensorModelBuilder._build_loworder_rsm_polynomial(rsmpi_tre, "C"),
             section_sensor_model_grid,
diff --git a/src/aws/osml/gdal/xmltre_utils.py b/src/aws/osml/gdal/xmltre_utils.py
index c9c780d..e444629 100644
--- a/src/aws/osml/gdal/xmltre_utils.py
+++ b/src/aws/osml/gdal/xmltre_utils.py
@@ -32,6 +32,20 @@ def get_tre_field_value(tre: ET.Element, field_name: str, type_conversion: Calla
     return value
 
 
+def nonzero_float(str_value: str) -> float:
+    """
+    This is a type conversion for the fields that values will be divided by, such as normalization scale factors.
+
+    :param str_value: the text of the field
+    :raises ValueError: if the text is not a number or the number is zero
+    :return: the floating point value
+    """
+    value = float(str_value)
+    if value == 0.0:
+        raise ValueError("Scale factors must not be zero")
+    return value
+
+
 def parse_rpc_coefficients(tre: ET.Element, repeated_name: str) -> List[float]:
     """
     This private utility function parses RPC coefficients from the child elements of a <repeated ...> tag in the
-- 
2.43.0


From f57d150c5e418f4aab71b1b0d3c4556219aae486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:36 +0000
Subject: [PATCH 54/69] fix: do not build SICD sensor models without the range
 or azimuth parameters of the grid

---
 src/aws/osml/gdal/sicd_sensor_model_builder.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/aws/osml/gdal/sicd_sensor_model_builder.py b/src/aws/osml/gdal/sicd_sensor_model_builder.py
index ecdf965..ec78d4f 100644
--- a/src/aws/osml/gdal/sicd_sensor_model_builder.py
+++ b/src/aws/osml/gdal/sicd_sensor_model_builder.py
@@ -165,11 +165,14 @@ class SICDSensorModelBuilder(SensorModelBuilder):
                 )
             elif sicd.image_formation.image_form_algo.value == sicd121.ImageFormAlgo.RGAZCOMP.value:
                 projection_set = RGAZCOMPProjectionSet(
-                    scp_ecf=scp_ecf, az_scale_factor=sicd.rg_az_comp.az_sf, coa_time_poly=time_coa_poly, arp_poly=arp_poly
+                    scp_ecf=scp_ecf,
+                    az_scale_factor=float(required_floats(sicd.rg_az_comp.az_sf)[0]),
+                    coa_time_poly=time_coa_poly,
+                    arp_poly=arp_poly,
                 )
         elif sicd.grid.type_value.value == sicd121.ImageGridType.RGZERO.value:
             projection_set = INCAProjectionSet(
-                r_ca_scp=sicd.rma.inca.r_ca_scp,
+                r_ca_scp=float(required_floats(sicd.rma.inca.r_ca_scp)[0]),
                 inca_time_coa_poly=poly1d_to_native(sicd.rma.inca.time_capoly),
                 drate_sf_poly=poly2d_to_native(sicd.rma.inca.drate_sfpoly),
                 coa_time_poly=time_coa_poly,
-- 
2.43.0


From fedac701b6c634ccb54e967d6455d95a744cda97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:56 +0000
Subject: [PATCH 55/69] fix: skip geo transforms with values that are not
 finite

---
 src/aws/osml/photogrammetry/gdal_sensor_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aws/osml/photogrammetry/gdal_sensor_model.py b/src/aws/osml/photogrammetry/gdal_sensor_model.py
index 681d82d..33407f3 100644
--- a/src/aws/osml/photogrammetry/gdal_sensor_model.py
+++ b/src/aws/osml/photogrammetry/gdal_sensor_model.py
@@ -51,6 +51,8 @@ class GDALAffineSensorModel(SensorModel):
             )
             # Use NumPy to calculate an inverse transform
             self.inv_transform = np.linalg.inv(self.transform)
+            if not (np.all(np.isfinite(self.transform)) and np.all(np.isfinite(self.inv_transform))):
+                raise np.linalg.LinAlgError("GeoTransform contains values that are not finite.")
 
             self.image_to_wgs84 = None
             if proj_wkt:
-- 
2.43.0


From 03251feaa27a84ce31b978522b90fbe043483e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:59 +0000
Subject: [PATCH 56/69] fix: keep the affine sensor model when the ground
 control points are unusable

---
 src/aws/osml/gdal/sensor_model_factory.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/aws/osml/gdal/sensor_model_factory.py b/src/aws/osml/gdal/sensor_model_factory.py
index e6e38af..771db97 100644
--- a/src/aws/osml/gdal/sensor_model_factory.py
+++ b/src/aws/osml/gdal/sensor_model_factory.py
@@ -144,7 +144,9 @@ class SensorModelFactory:
 
         if SensorModelTypes.PROJECTIVE in self.selected_sensor_model_types:
             if self.ground_control_points is not None and len(self.ground_control_points) > 3:
-                approximate_sensor_model = GDALGCPSensorModelBuilder(self.ground_control_points).build()
+                gcp_sensor_model = GDALGCPSensorModelBuilder(self.ground_control_points).build()
+                if gcp_sensor_model is not None:
+                    approximate_sensor_model = gcp_sensor_model
 
         if self.xml_tres is not None:
             # Start with the assumption that the raster we have is the full image. We will update this later if
-- 
2.43.0


From 453efe72dd9fab39beff1c4f4f974edf0ad5246a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:15 +0000
Subject: [PATCH 57/69] fix: return no tile when GDAL was unable to encode it

---
 src/aws/osml/image_processing/gdal_tile_factory.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index 528bbaa..932faf4 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -125,12 +125,18 @@ class GDALTileFactory:
         # From GDAL documentation:
         #   srcWin --- subwindow in pixels to extract:
         #               [left_x, top_y, width, height]
-        gdal.Translate(
+        encoded_ds = gdal.Translate(
             temp_ds_name,
             self.raster_dataset,
             srcWin=src_window,
             **gdal_translate_kwargs,
         )
+        if encoded_ds is None:
+            # The tile could not be encoded. Don't mistake an incomplete file left behind for a tile.
+            gdal.Unlink(temp_ds_name)
+            return None
+        # Closing the dataset flushes the remaining contents to the file
+        del encoded_ds
 
         # Read the VSIFile
         vsifile_handle = None
-- 
2.43.0


From 17afd08a77915eefcee69fdfedda1724891b454f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:22 +0000
Subject: [PATCH 58/69] fix: do not request JPEG2000 for pixel types the codec
 does not support

---
 src/aws/osml/image_processing/gdal_tile_factory.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index 932faf4..332bd8e 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -569,12 +569,13 @@ class GDALTileFactory:
             # See: https://gdal.org/drivers/raster/nitf.html
             if self.tile_compression is None or self.tile_compression == GDALCompressionOptions.J2K:
                 # Default NITF tiles to JPEG2000 compression if not specified
-                # The OpenJPEG library does not currently support floating point pixel types. If J2K compression
-                # was requested we need to fall back to no compression to avoid a failure. This update can be
-                # removed if compression of floating points is supported or if we move to an alternate J2K library.
-                if output_type in [gdalconst.GDT_Float32, gdalconst.GDT_Float64]:
+                # The OpenJPEG library does not currently support floating point, complex or 32-bit integer pixel
+                # types. If J2K compression was requested we need to fall back to no compression to avoid a failure.
+                # This update can be removed if compression of these types is supported or if we move to an alternate
+                # J2K library.
+                if output_type not in [gdalconst.GDT_Byte, gdalconst.GDT_UInt16, gdalconst.GDT_Int16]:
                     logger.warning(
-                        "OpenJPEG J2K library does not support floating point pixel values. "
+                        f"OpenJPEG J2K library does not support {gdal.GetDataTypeName(output_type)} pixel values. "
                         "Outputs will not be compressed."
                     )
                     creation_options.append("IC=NC")
-- 
2.43.0


From 9ac7dbf880e5f0fd3dee36e6a933c6e71f639b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:58 +0000
Subject: [PATCH 59/69] fix: keep the geometry of SIDD chips with a single row
 or column

---
 src/aws/osml/gdal/sidd_sensor_model_builder.py | 15 +++++++++++++++
 src/aws/osml/image_processing/sidd_updater.py  |  3 +++
 2 files changed, 18 insertions(+)

diff --git a/src/aws/osml/gdal/sidd_sensor_model_builder.py b/src/aws/osml/gdal/sidd_sensor_model_builder.py
index cea4e13..cec71c9 100644
--- a/src/aws/osml/gdal/sidd_sensor_model_builder.py
+++ b/src/aws/osml/gdal/sidd_sensor_model_builder.py
@@ -144,6 +144,21 @@ class SIDDSensorModelBuilder(SensorModelBuilder):
                 ]
             ]
 
+            if last_row == 0 or last_col == 0:
+                # The corners of a single row or column coincide. They don't tell where the neighboring row or column
+                # would be so assume square pixels that aren't mirrored.
+                upper_left, upper_right, _, lower_left = [coord.coordinate for coord in full_image_coords]
+                step = np.array([1.0, 0.0])
+                if last_col > 0:
+                    step = (upper_right - upper_left) / last_col
+                elif last_row > 0:
+                    step = np.flip(lower_left - upper_left) * [1.0, -1.0] / last_row
+                chipped_image_coords = [ImageCoordinate(coord) for coord in [[0, 0], [1, 0], [1, 1], [0, 1]]]
+                full_image_coords = [
+                    ImageCoordinate(upper_left + coord.x * step + coord.y * np.flip(step) * [-1.0, 1.0])
+                    for coord in chipped_image_coords
+                ]
+
             return ChippedImageSensorModel(
                 full_image_coords,
                 chipped_image_coords,
diff --git a/src/aws/osml/image_processing/sidd_updater.py b/src/aws/osml/image_processing/sidd_updater.py
index f7a262f..02444d4 100644
--- a/src/aws/osml/image_processing/sidd_updater.py
+++ b/src/aws/osml/image_processing/sidd_updater.py
@@ -165,6 +165,9 @@ class SIDDUpdater:
         :param original_corner_coordinates: the [x, y] location of the UL, UR, LR, LL corners in the original image
         :return: the [x, y] coordinate of the pixel in the original image
         """
+        # The coordinate of the only row or column of a chip is 0 no matter which size it is divided by
+        chip_size = [max(size, 2) for size in chip_size]
+
         # Step 1: Normalize the chip coordinates
         u = chip_coordinate[1] / (chip_size[1] - 1)
         v = chip_coordinate[0] / (chip_size[0] - 1)
-- 
2.43.0


From cebe201612495d1b32d3f133538e4dfd03b106d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:26 +0000
Subject: [PATCH 60/69] fix: use the projection of DEM tiles to locate their
 elevations

---
 src/aws/osml/gdal/gdal_dem_tile_factory.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/aws/osml/gdal/gdal_dem_tile_factory.py b/src/aws/osml/gdal/gdal_dem_tile_factory.py
index 0061424..3859a7d 100644
--- a/src/aws/osml/gdal/gdal_dem_tile_factory.py
+++ b/src/aws/osml/gdal/gdal_dem_tile_factory.py
@@ -14,6 +14,8 @@ from aws.osml.photogrammetry import (
     geodetic_to_geocentric,
 )
 
+from .gdal_sensor_model_builder import GDALAffineSensorModelBuilder
+
 
 class GDALDigitalElevationModelTileFactory(DigitalElevationModelTileFactory):
     """
@@ -69,7 +71,7 @@ class GDALDigitalElevationModelTileFactory(DigitalElevationModelTileFactory):
         # The geo transform locates the corners of the raster cells but the elevation values are measured at their
         # centers. Shift the transform half a cell so the grid locations computed by the sensor model are array indexes
         # (i.e. [0, 0] is the location of the first elevation value).
-        sensor_model = GDALAffineSensorModel(
+        sensor_model = GDALAffineSensorModelBuilder(
             [
                 geo_transform[0] + 0.5 * (geo_transform[1] + geo_transform[2]),
                 geo_transform[1],
@@ -77,8 +79,12 @@ class GDALDigitalElevationModelTileFactory(DigitalElevationModelTileFactory):
                 geo_transform[3] + 0.5 * (geo_transform[4] + geo_transform[5]),
                 geo_transform[4],
                 geo_transform[5],
-            ]
-        )
+            ],
+            ds.GetProjection(),
+        ).build()
+        if sensor_model is None:
+            logging.warning(f"DEM tile does not have a usable geo transform and projection: {tile_location}")
+            return None, None, None
 
         # Compute the distance in meters from the upper left to the lower right corner. Divide that by the distance
         # in pixels to get an approximate pixel size in meters
-- 
2.43.0


From a23bb0601095ae53715967427d9ca4854a766c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:28 +0000
Subject: [PATCH 61/69] fix: treat DEM tiles that can not be read as missing

---
 src/aws/osml/gdal/gdal_dem_tile_factory.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/aws/osml/gdal/gdal_dem_tile_factory.py b/src/aws/osml/gdal/gdal_dem_tile_factory.py
index 3859a7d..5a502bd 100644
--- a/src/aws/osml/gdal/gdal_dem_tile_factory.py
+++ b/src/aws/osml/gdal/gdal_dem_tile_factory.py
@@ -49,7 +49,11 @@ class GDALDigitalElevationModelTileFactory(DigitalElevationModelTileFactory):
         """
         tile_location = f"{self.tile_directory}/{tile_path}"
         tile_location = tile_location.replace("s3:/", "/vsis3", 1)
-        ds = gdal.Open(tile_location)
+        try:
+            ds = gdal.Open(tile_location)
+        except RuntimeError:
+            # GDAL was configured to use exceptions
+            ds = None
 
         # It isn't unusual for a DEM tile set to be missing tiles for regions (particularly over the ocean). If
         # the raster dataset can't be opened we'll return nothing so the client can proceed knowing that the
@@ -65,7 +69,13 @@ class GDALDigitalElevationModelTileFactory(DigitalElevationModelTileFactory):
             return None, None, None
 
         raster_band = ds.GetRasterBand(1)
-        band_as_array = raster_band.ReadAsArray(0, 0, ds.RasterXSize, ds.RasterYSize)
+        try:
+            band_as_array = raster_band.ReadAsArray(0, 0, ds.RasterXSize, ds.RasterYSize)
+        except RuntimeError:
+            band_as_array = None
+        if band_as_array is None:
+            logging.warning(f"DEM tile exists but its elevations can't be read: {tile_location}")
+            return None, None, None
         height, width = band_as_array.shape
 
         # The geo transform locates the corners of the raster cells but the elevation values are measured at their
-- 
2.43.0


From 32d97ca3c1ca088988272893ab12654109ba06bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:12 +0000
Subject: [PATCH 62/69] fix: return no tile when GDAL is unable to encode it
 and uses exceptions

---
 .../image_processing/gdal_tile_factory.py     | 20 ++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index 332bd8e..94a9942 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -125,15 +125,21 @@ class GDALTileFactory:
         # From GDAL documentation:
         #   srcWin --- subwindow in pixels to extract:
         #               [left_x, top_y, width, height]
-        encoded_ds = gdal.Translate(
-            temp_ds_name,
-            self.raster_dataset,
-            srcWin=src_window,
-            **gdal_translate_kwargs,
-        )
+        try:
+            encoded_ds = gdal.Translate(
+                temp_ds_name,
+                self.raster_dataset,
+                srcWin=src_window,
+                **gdal_translate_kwargs,
+            )
+        except RuntimeError as e:
+            # GDAL was configured to use exceptions
+            logger.warning(f"GDAL was unable to encode the tile. {e}")
+            encoded_ds = None
         if encoded_ds is None:
             # The tile could not be encoded. Don't mistake an incomplete file left behind for a tile.
-            gdal.Unlink(temp_ds_name)
+            if gdal.VSIStatL(temp_ds_name) is not None:
+                gdal.Unlink(temp_ds_name)
             return None
         # Closing the dataset flushes the remaining contents to the file
         del encoded_ds
-- 
2.43.0


From f36fd4b532aa07a3ca476a1b50ca8927b40e961d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:28 +0000
Subject: [PATCH 63/69] fix: create no map tile if its pixels can not be read

---
 src/aws/osml/image_processing/gdal_tile_factory.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index 94a9942..10d4af5 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -265,7 +265,12 @@ class GDALTileFactory:
 
         # Read pixels from the selected resolution level that match the region of the image needed to create the
         # map tile. This data becomes the "src" in the cv2.remap transformation.
-        src = self._read_from_rlevel_as_array(overview_bbox, r_level)
+        try:
+            src = self._read_from_rlevel_as_array(overview_bbox, r_level)
+        except RuntimeError as e:
+            # Unable to read the pixels, no tile can be created
+            logger.warning(f"Unable to read the pixels needed to create the map tile. {e}")
+            return None
         logger.debug(f"src.shape = {src.shape}")
 
         # Convert the raw image pixels into a 8-bit per pixel image suitable for human review. These transformations
@@ -380,6 +385,8 @@ class GDALTileFactory:
                     scaled_bbox[3] - scaled_bbox[1],
                 )
             )
+            if band_pixels[-1] is None:
+                raise RuntimeError(f"GDAL was unable to read band {band_num}")
 
         # If the image has multiple bands then we can stack the results with the band being the 3rd dimension
         # in the array. This aligns to how OpenCV wants to work with imagery. If the image doesn't have multiple
-- 
2.43.0


From 152b7fb290ece0db45c6a92449d771d1781a6976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:36 +0000
Subject: [PATCH 64/69] fix: skip empty image geometries when geolocating
 features

---
 src/aws/osml/features/geolocation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/aws/osml/features/geolocation.py b/src/aws/osml/features/geolocation.py
index 6202727..3051678 100644
--- a/src/aws/osml/features/geolocation.py
+++ b/src/aws/osml/features/geolocation.py
@@ -245,10 +245,12 @@ class Geolocator:
             # Polygon) as the "imageGeometry" property. If the feature does not have the "imageGeometry" property
             # defined this
             image_geometry = self.property_accessor.get_image_geometry(feature)
+            if image_geometry is not None and image_geometry.is_empty:
+                image_geometry = None
             if image_bbox is None and image_geometry is None:
                 logging.info(f"Feature may be using deprecated attributes: {feature}")
                 image_geometry = self.property_accessor.find_image_geometry(feature)
-                if image_geometry is None:
+                if image_geometry is None or image_geometry.is_empty:
                     logging.warning(f"There isn't a valid detection shape for feature: {feature}")
                     continue
 
-- 
2.43.0


From 965b3ef5c77426010f4c693d09a5d744bdf1e77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:42 +0000
Subject: [PATCH 65/69] fix: keep pixels of a map tile opaque that are dark in
 only some of the bands

---
 src/aws/osml/image_processing/gdal_tile_factory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index 10d4af5..c96e615 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -325,9 +325,9 @@ class GDALTileFactory:
             alpha_mask = np.zeros_like(dst, dtype=np.uint8)
             alpha_mask[all_channel_pixels_mask] = 255
         elif dst.ndim >= 3:  # multi band image e.g. RGB, complex SAR, MSI, etc.
-            all_channel_pixels_mask = np.all(dst != 0, axis=2)
+            any_channel_pixels_mask = np.any(dst != 0, axis=2)
             alpha_mask = np.zeros_like(dst[..., 0], dtype=np.uint8)
-            alpha_mask[all_channel_pixels_mask] = 255
+            alpha_mask[any_channel_pixels_mask] = 255
         if alpha_mask is not None:  # arrays with zeros/zero size can be falsy so explicitly check None
             logger.debug(f"alpha_mask.shape = {alpha_mask.shape}")
         elif dst.ndim > 2:
-- 
2.43.0


From 9a52de29409c81b62b39ed55254c40a5c17cb146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:48 +0000
Subject: [PATCH 66/69] fix: saturate pixel values that do not fit into a map
 tile

---
 src/aws/osml/image_processing/gdal_tile_factory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index c96e615..11b45d7 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -414,7 +414,8 @@ class GDALTileFactory:
             # Like for the other range adjustments only the first 3 bands of multiband images can be displayed
             if pixel_array.ndim == 3 and pixel_array.shape[2] > 3:
                 pixel_array = pixel_array[:, :, 0:3]
-            return pixel_array.astype(np.uint8)
+            # Values that do not fit into 8 bits are saturated instead of wrapping around
+            return np.clip(pixel_array, 0, 255).astype(np.uint8)
 
     def _normalize_bands(
         self, pixel_array: np.array, normalize_band_func: Callable[[gdal.Band, np.array], np.array]
-- 
2.43.0


From 602c4bdb79ca07532742c8b7c2b3a6b3fabc4bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:56 +0000
Subject: [PATCH 67/69] fix: give map tiles of two band images a transparency
 band

---
 src/aws/osml/image_processing/gdal_tile_factory.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index 11b45d7..e7688ff 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -414,6 +414,9 @@ class GDALTileFactory:
             # Like for the other range adjustments only the first 3 bands of multiband images can be displayed
             if pixel_array.ndim == 3 and pixel_array.shape[2] > 3:
                 pixel_array = pixel_array[:, :, 0:3]
+            elif pixel_array.ndim == 3 and pixel_array.shape[2] == 2:
+                # Two bands do not form a color image, adding a transparency band would turn them into one
+                pixel_array = pixel_array[:, :, 0]
             # Values that do not fit into 8 bits are saturated instead of wrapping around
             return np.clip(pixel_array, 0, 255).astype(np.uint8)
 
-- 
2.43.0


From f298dc16b58d64eafc8020a266b33149ff402ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:23 +0000
Subject: [PATCH 68/69] fix: build no SAR camera from polynomials with negative
 exponents

---
 src/aws/osml/gdal/sicd_sensor_model_builder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aws/osml/gdal/sicd_sensor_model_builder.py b/src/aws/osml/gdal/sicd_sensor_model_builder.py
index ec78d4f..6a567c3 100644
--- a/src/aws/osml/gdal/sicd_sensor_model_builder.py
+++ b/src/aws/osml/gdal/sicd_sensor_model_builder.py
@@ -60,6 +60,8 @@ def poly1d_to_native(poly1d: Union[sicd121.Poly1DType, sicd130.XYZType]) -> np.p
     """
     coefficients = [0] * (poly1d.order1 + 1)
     for coef in poly1d.coef:
+        if coef.exponent1 < 0:
+            raise ValueError(f"Polynomial has a negative exponent: {coef}")
         coefficients[coef.exponent1] = coef.value
     return np.polynomial.Polynomial(required_floats(*coefficients))
 
@@ -75,6 +77,8 @@ def poly2d_to_native(poly2d: Union[sicd121.Poly2DType, sicd130.Poly2DType]) -> P
     for row in range(0, len(coefficients)):
         coefficients[row] = [0] * (poly2d.order2 + 1)
     for coef in poly2d.coef:
+        if coef.exponent1 < 0 or coef.exponent2 < 0:
+            raise ValueError(f"Polynomial has a negative exponent: {coef}")
         coefficients[coef.exponent1][coef.exponent2] = coef.value
     return Polynomial2D(np.array([required_floats(*row_coefficients) for row_coefficients in coefficients]))
 
-- 
2.43.0


From 742ca883cff2d433ddfd7f44daf7837db731970c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:01 +0000
Subject: [PATCH 69/69] fix: leave no sidecar file of an encoded tile behind in
 memory

---
 src/aws/osml/image_processing/gdal_tile_factory.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aws/osml/image_processing/gdal_tile_factory.py b/src/aws/osml/image_processing/gdal_tile_factory.py
index e7688ff..bad8d00 100644
--- a/src/aws/osml/image_processing/gdal_tile_factory.py
+++ b/src/aws/osml/image_processing/gdal_tile_factory.py
@@ -157,6 +157,9 @@ class GDALTileFactory:
             if vsifile_handle is not None:
                 gdal.VSIFCloseL(vsifile_handle)
             gdal.GetDriverByName(self.tile_format).Delete(temp_ds_name)
+            # The driver only finds the sidecar file with the additional metadata if GDAL is allowed to list directories
+            if gdal.VSIStatL(f"{temp_ds_name}.aux.xml") is not None:
+                gdal.Unlink(f"{temp_ds_name}.aux.xml")
 
     def create_orthophoto_tile(
         self, geo_bbox: Tuple[float, float, float, float], tile_size: Tuple[int, int]
-- 
2.43.0

