From b2bcc819301126e886dd5e6872dd741b5c623a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:03 +0000
Subject: [PATCH 01/77] fix: the pixel to ground solver chose a 2 unit
 derivative step whenever a probe overflowed to nan

It took a step of 2 degrees for RPC models, whose cubic terms overflow for the largest probes, and then did
not reach the requested pixel error within max_iter.
---
 .../abstract_earth_overhead_point_calc.py     | 21 +++++++++----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
index 0266a9b..fe02ca4 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
@@ -240,20 +240,19 @@ class AbstractEarthOverheadPointCalc:
             machine_pixels_lat_x_diff = machine_lat_pixels_x - machine_pixel_lon_lat[0]
             machine_pixels_lat_y_diff = machine_lat_pixels_y - machine_pixel_lon_lat[1]
 
-            # find the first index where a shift in longitude is greater than 1 pixel
-            # TODO: this is broken in some cases.  fix and add unit tests.
-            if np.isnan(machine_pixels_lon_x_diff).max() and np.isnan(machine_pixels_lon_x_diff).max():
+            # find the indices where a shift in longitude / latitude is greater than 1 pixel.  The largest shifts can
+            # overflow to nan in the point calculator, those never compare as greater.
+            lon_gt1_pixel_indices = np.where(np.square(machine_pixels_lon_x_diff) +
+                                             np.square(machine_pixels_lon_y_diff) > np.square(d_pixel))[0]
+            lat_gt1_pixel_indices = np.where(np.square(machine_pixels_lat_x_diff) +
+                                             np.square(machine_pixels_lat_y_diff) > np.square(d_pixel))[0]
+            if len(lon_gt1_pixel_indices) == 0 or len(lat_gt1_pixel_indices) == 0:
                 d_lon = 2
                 d_lat = 2
             else:
-                lon_gt1_pixel_index = (np.where(np.square(machine_pixels_lon_x_diff) +
-                                                np.square(machine_pixels_lon_y_diff) > np.square(d_pixel))[0])[0]
-                d_lon = machine_d_lons[lon_gt1_pixel_index] - approximate_lon
-
-                # find the first index where a shift in longitude is greater than 1 pixel
-                lat_gt1_pixel_index = (np.where(np.square(machine_pixels_lat_x_diff) +
-                                                np.square(machine_pixels_lat_y_diff) > np.square(d_pixel))[0])[0]
-                d_lat = machine_d_lats[lat_gt1_pixel_index] - approximate_lat
+                # use the first shift that is greater than 1 pixel
+                d_lon = machine_d_lons[lon_gt1_pixel_indices[0]] - approximate_lon
+                d_lat = machine_d_lats[lat_gt1_pixel_indices[0]] - approximate_lat
 
         for i in range(max_iter):
             pixel_x_estimate, pixel_y_estimate = self.lon_lat_alt_to_pixel_x_y(lons, lats, alts, band=band)
-- 
2.43.0


From 50f9b432d4010cd45ffadd4a6f792ec91d1185da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:24 +0000
Subject: [PATCH 02/77] fix: the pixel to ground solver returned nan when a
 shift in longitude does not move the x pixel

The longitude update divided by d(pixel x)/d(longitude), which is zero for a camera heading of 90 degrees;
solve the 2x2 system by its determinant instead, as is already done for the latitude.
---
 .../abstract_earth_overhead_point_calc.py                       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
index fe02ca4..a89c1c2 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
@@ -272,7 +272,7 @@ class AbstractEarthOverheadPointCalc:
             delta_py = pixel_ys - pixel_y_estimate
 
             delta_lat = (delta_py * pxx - pyx * delta_px) / (pyy * pxx - pxy * pyx)
-            delta_lon = (delta_px - delta_lat * pxy) / pxx
+            delta_lon = (delta_px * pyy - delta_py * pxy) / (pyy * pxx - pxy * pyx)
 
             new_lons = lons + delta_lon
             new_lats = lats + delta_lat
-- 
2.43.0


From a81108c48aadd0c0082f3d008b8ec2663fb47441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:13 +0000
Subject: [PATCH 03/77] fix: local UTM projections were built with an invalid
 zone argument

PROJ takes the zone number and a south flag; '18T' is rejected as an invalid zone.
---
 resippy/utils/proj_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resippy/utils/proj_utils.py b/resippy/utils/proj_utils.py
index f1d1bb2..e6d5faa 100644
--- a/resippy/utils/proj_utils.py
+++ b/resippy/utils/proj_utils.py
@@ -29,8 +29,8 @@ def decimal_degrees_to_local_utm_proj(lon_decimal_degrees,      # type: float
                                       lat_decimal_degrees,      # type: float
                                       ):                        # type: (...) -> Proj
     zone_info = utm.from_latlon(lat_decimal_degrees, lon_decimal_degrees)
-    zone_string = str(zone_info[2]) + zone_info[3]
-    zone_letter = zone_string[-1]
+    zone_number = zone_info[2]
+    zone_letter = zone_info[3]
     is_south_zone = zone_letter < 'N'
-    local_proj = Proj(proj='utm', ellps='WGS84', zone=zone_string, south=is_south_zone)
+    local_proj = Proj(proj='utm', ellps='WGS84', zone=zone_number, south=is_south_zone)
     return local_proj
-- 
2.43.0


From ef3cd92123b79100cfe97d6d4beee8a15394124e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:13 +0000
Subject: [PATCH 04/77] fix: Pix4D cameras used the second radial distortion
 coefficient as the third

---
 .../earth_overhead_point_calculators/pix4d_point_calc.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py
index adc58ea..6931343 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py
@@ -100,7 +100,7 @@ class Pix4dPointCalc(AbstractEarthOverheadPointCalc):
         point_calc.tangential_distortion_2 = all_params[image_key_basename]['tangential_distortion'][1]
         point_calc.radial_distortion_1 = all_params[image_key_basename]['radial_distortion'][0]
         point_calc.radial_distortion_2 = all_params[image_key_basename]['radial_distortion'][1]
-        point_calc.radial_distortion_3 = all_params[image_key_basename]['radial_distortion'][1]
+        point_calc.radial_distortion_3 = all_params[image_key_basename]['radial_distortion'][2]
         point_calc.distortion_model = distortion_model
 
         approximate_lon = all_params[image_key_basename]['external_params'][0]
-- 
2.43.0


From 432ae0698807490302b695fe59a7053fc8270837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:44 +0000
Subject: [PATCH 05/77] fix: the 19th RPC coefficient multiplied latitude^2 *
 longitude instead of latitude^2 * height

---
 .../earth_overhead_point_calculators/rpc_point_calc.py          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/rpc_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/rpc_point_calc.py
index 0f27d9d..83bf413 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/rpc_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/rpc_point_calc.py
@@ -182,7 +182,7 @@ class RPCPointCalc(AbstractEarthOverheadPointCalc):
 
         p = a1 + a2*y + a3*x + a4*z + a5*xy + a6*yz + a7*xz + a8 * y_squared + \
             a9*x_squared + a10*z_squared + a11*x*y*z + a12*y_cubed + a13*y*x_squared + a14*y*z_squared + \
-            a15*y_squared*x + a16*x_cubed + a17*x*z_squared + a18*y_squared*z + a19*x_squared*y + a20*z_cubed
+            a15*y_squared*x + a16*x_cubed + a17*x*z_squared + a18*y_squared*z + a19*x_squared*z + a20*z_cubed
         return p
 
     def _lon_lat_alt_to_pixel_x_y_native(self,
-- 
2.43.0


From fe736a472021b3b1bdb17942a7bfd9c63d3df1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:44 +0000
Subject: [PATCH 06/77] fix: omega and kappa were recovered as nan for
 orientations close to level

arccos of a ratio that rounds to just above 1 is nan, and it loses half of the digits for small angles.
---
 resippy/utils/photogrammetry_utils.py | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/resippy/utils/photogrammetry_utils.py b/resippy/utils/photogrammetry_utils.py
index 6d81595..72e794f 100644
--- a/resippy/utils/photogrammetry_utils.py
+++ b/resippy/utils/photogrammetry_utils.py
@@ -180,18 +180,9 @@ def solve_for_omega_phi_kappa(m_matrix,  # type: ndarray
     m32 = m_matrix[2, 1]
     m21 = m_matrix[1, 0]
 
-    phi = np.arcsin(m31)
-    cos_phi = np.cos(phi)
-    kappa = np.arccos(m11 / cos_phi)
-    omega = np.arccos(m33 / cos_phi)
-    # if np.isnan(kappa):
-    #     kappa = 0
-    # if np.isnan(omega):
-    #     omega = 0
-    if m32 > 0:
-        omega = -omega
-    if m21 > 0:
-        kappa = -kappa
+    phi = np.arcsin(np.clip(m31, -1.0, 1.0))
+    kappa = np.arctan2(-m21, m11)
+    omega = np.arctan2(-m32, m33)
 
     return omega, phi, kappa
 
-- 
2.43.0


From f8dbff2b67b0636b04535cdba222b41c86a7e317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:47 +0000
Subject: [PATCH 07/77] fix: GeoTIFF no-data values were truncated to whole
 numbers, and nan could not be written

---
 resippy/image_objects/earth_overhead/geotiff/geotiff_image.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
index 7b6244f..3405f7f 100644
--- a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
+++ b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
@@ -115,7 +115,7 @@ class GeotiffImage(AbstractEarthOverheadImage):
         for band in range(self.get_metadata().get_n_bands()):
             dataset.GetRasterBand(band + 1).WriteArray(self.get_image_band(band))
             if self.get_metadata().get_nodata_val() is not None:
-                dataset.GetRasterBand(band + 1).SetNoDataValue(int(self.get_metadata().get_nodata_val()))
+                dataset.GetRasterBand(band + 1).SetNoDataValue(float(self.get_metadata().get_nodata_val()))
         return dataset
 
     def write_to_disk(self,
@@ -139,7 +139,7 @@ class GeotiffImage(AbstractEarthOverheadImage):
         for band in range(self.get_metadata().get_n_bands()):
             dataset.GetRasterBand(band + 1).WriteArray(self.get_image_band(band))
             if self.get_metadata().get_nodata_val() is not None:
-                dataset.GetRasterBand(band + 1).SetNoDataValue(int(self.get_metadata().get_nodata_val()))
+                dataset.GetRasterBand(band + 1).SetNoDataValue(float(self.get_metadata().get_nodata_val()))
         dataset.FlushCache()
         dataset = None
 
-- 
2.43.0


From 9871a188c8e2190e77a036c82b705fd311c4d358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:21 +0000
Subject: [PATCH 08/77] fix: warping an in-memory GeoTIFF image without naming
 a destination failed

---
 .../image_objects/earth_overhead/geotiff/geotiff_image.py    | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
index 3405f7f..7881265 100644
--- a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
+++ b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
@@ -1,5 +1,7 @@
 from __future__ import division
 
+import uuid
+
 import gdal
 import numpy as np
 import osr
@@ -151,6 +153,9 @@ class GeotiffImage(AbstractEarthOverheadImage):
         src_dataset = image.get_dset()
         if src_dataset is None:
             src_dataset = image.get_gdal_mem_datset()
+            if dst_fname is None:
+                # a VRT would only refer to the in-memory source dataset, which cannot be opened by name
+                dst_fname = "/vsimem/" + uuid.uuid4().hex + ".tif"
 
         if dst_fname is None:
             dst_fname="/vsimem/tmp_gdalwarp_geotiff.vrt"
-- 
2.43.0


From d2fac6efc60a5c57768be2e58e964cb3c210dfc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:00 +0000
Subject: [PATCH 09/77] fix: reproject_vertical_datum called an undefined
 function and could not name its horizontal CRS

---
 .../earth_overhead/geotiff/geotiff_image.py     | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
index 7881265..43503e4 100644
--- a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
+++ b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
@@ -172,14 +172,15 @@ class GeotiffImage(AbstractEarthOverheadImage):
                                  dst_fname,         # type: str
                                  datum_epsg_code    # type: str
                                  ):                 # type: (...) -> GeotiffImage
-        proj4_srs = geotiff_image.get_point_calculator().get_projection().srs
-        srs = osr.SpatialReference()
-        srs.ImportFromProj4(proj4_srs)
-        srs.AutoIdentifyEPSG()
-        dst_epsg = 'EPSG:' + str(srs.GetAuthorityCode(None)) + "+" + str(datum_epsg_code)
-
-        ops = gdal.WarpOptions(dstSRS=dst_epsg)
-        return gdalwarp_geoTiffImage(geotiff_image, dst_fname, ops)
+        horizontal_srs = osr.SpatialReference()
+        horizontal_srs.ImportFromWkt(geotiff_image.get_point_calculator().get_gdal_projection_wkt())
+        vertical_srs = osr.SpatialReference()
+        vertical_srs.ImportFromEPSG(int(datum_epsg_code))
+        dst_srs = osr.SpatialReference()
+        dst_srs.SetCompoundCS('compound', horizontal_srs, vertical_srs)
+
+        ops = gdal.WarpOptions(dstSRS=dst_srs.ExportToWkt())
+        return GeotiffImage.gdalwarp_geotiff_image(geotiff_image, ops, dst_fname)
 
     def create_map_tiles(self, out_dir, gdalwarp_ops=None):
         # keep this import statement in here until all OS / pip related issues with installing gdal2tiles are resolved.
-- 
2.43.0


From 6a81994bbadbb28dc30153b2c32a27a0afd3310e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:59 +0000
Subject: [PATCH 10/77] fix: bilinear DEM interpolation weighted the farthest
 sample most, and failed at the samples

---
 resippy/photogrammetry/dem/geotiff_dem.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/resippy/photogrammetry/dem/geotiff_dem.py b/resippy/photogrammetry/dem/geotiff_dem.py
index 27f66a2..dccdf10 100644
--- a/resippy/photogrammetry/dem/geotiff_dem.py
+++ b/resippy/photogrammetry/dem/geotiff_dem.py
@@ -113,18 +113,15 @@ class GeotiffDem(AbstractDem):
             elevations_y2x1 = self.dem_data[pixel_locs_y_2, pixel_locs_x_1]
             elevations_y2x2 = self.dem_data[pixel_locs_y_2, pixel_locs_x_2]
 
-            x_distances_1 = pixel_locs_x - pixel_locs_x_1
-            x_distances_2 = pixel_locs_x_2 - pixel_locs_x
-            y_distances_1 = pixel_locs_y - pixel_locs_y_1
-            y_distances_2 = pixel_locs_y_2 - pixel_locs_y
-
-            distances_y1x1 = np.sqrt(np.square(y_distances_1) + np.square(x_distances_1))
-            distances_y1x2 = np.sqrt(np.square(y_distances_1) + np.square(x_distances_2))
-            distances_y2x1 = np.sqrt(np.square(y_distances_2) + np.square(x_distances_1))
-            distances_y2x2 = np.sqrt(np.square(y_distances_2) + np.square(x_distances_2))
+            # the closer a pixel is to the location the more it contributes
+            x_weights_2 = np.clip(pixel_locs_x - pixel_locs_x_1, 0, 1)
+            y_weights_2 = np.clip(pixel_locs_y - pixel_locs_y_1, 0, 1)
+            x_weights_1 = 1 - x_weights_2
+            y_weights_1 = 1 - y_weights_2
 
             elevations_arr = np.array((elevations_y1x1, elevations_y1x2, elevations_y2x1, elevations_y2x2))
-            weights_arr = np.array((distances_y1x1, distances_y1x2, distances_y2x1, distances_y2x2))
+            weights_arr = np.array((y_weights_1 * x_weights_1, y_weights_1 * x_weights_2,
+                                    y_weights_2 * x_weights_1, y_weights_2 * x_weights_2))
 
             elevations = np.average(elevations_arr, weights=weights_arr, axis=0,)
 
-- 
2.43.0


From 5627527ce34c7ace703a2e642d6765124a23696b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:15 +0000
Subject: [PATCH 11/77] fix: DEMs with integer elevations and a no-data value
 could not be loaded

---
 resippy/photogrammetry/dem/geotiff_dem.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resippy/photogrammetry/dem/geotiff_dem.py b/resippy/photogrammetry/dem/geotiff_dem.py
index dccdf10..e78b404 100644
--- a/resippy/photogrammetry/dem/geotiff_dem.py
+++ b/resippy/photogrammetry/dem/geotiff_dem.py
@@ -64,6 +64,9 @@ class GeotiffDem(AbstractDem):
         self.nodata_value = nodata_value
         if self.nodata_value is not None:
             if self.dem_data is not None:
+                if not np.issubdtype(self.dem_data.dtype, np.floating):
+                    # only floating point elevations can be nan
+                    self.dem_data = self.dem_data.astype(float)
                 self.dem_data[np.where(self.dem_data == nodata_value)] = np.nan
 
     def set_geotiff_image(self,
-- 
2.43.0


From 81aa92079d2d04241cd0958ba3978c3dc58286dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:32 +0000
Subject: [PATCH 12/77] fix: DEMs did not initialize their projection and
 reference

---
 resippy/photogrammetry/dem/constant_elevation_dem.py | 1 +
 resippy/photogrammetry/dem/geotiff_dem.py            | 1 +
 2 files changed, 2 insertions(+)

diff --git a/resippy/photogrammetry/dem/constant_elevation_dem.py b/resippy/photogrammetry/dem/constant_elevation_dem.py
index ce82fd2..a120947 100644
--- a/resippy/photogrammetry/dem/constant_elevation_dem.py
+++ b/resippy/photogrammetry/dem/constant_elevation_dem.py
@@ -8,6 +8,7 @@ import resippy.photogrammetry.crs_defs as crs_defs
 
 class ConstantElevationDem(AbstractDem):
     def __init__(self, elevation=0):
+        super(ConstantElevationDem, self).__init__()
         self.elevation = elevation
 
     def get_elevations(self,
diff --git a/resippy/photogrammetry/dem/geotiff_dem.py b/resippy/photogrammetry/dem/geotiff_dem.py
index e78b404..9a3cdbd 100644
--- a/resippy/photogrammetry/dem/geotiff_dem.py
+++ b/resippy/photogrammetry/dem/geotiff_dem.py
@@ -10,6 +10,7 @@ import gdal
 
 class GeotiffDem(AbstractDem):
     def __init__(self):
+        super(GeotiffDem, self).__init__()
         self.dem_data = None
         self.gtiff = GeotiffImage
         self.nodata_value = None
-- 
2.43.0


From 46317aff3273c1ba2b54b46c395034cc2316db15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:05 +0000
Subject: [PATCH 13/77] fix: unknown DEM interpolation methods were accepted
 silently

---
 resippy/photogrammetry/dem/dem_factory.py | 2 +-
 resippy/photogrammetry/dem/geotiff_dem.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/resippy/photogrammetry/dem/dem_factory.py b/resippy/photogrammetry/dem/dem_factory.py
index eaf753c..49eec31 100644
--- a/resippy/photogrammetry/dem/dem_factory.py
+++ b/resippy/photogrammetry/dem/dem_factory.py
@@ -25,7 +25,7 @@ class DemFactory:
         elif interpolation_method == 'nearest':
             gtiff_dem.set_interpolation_to_nearest()
         else:
-            TypeError("interpolation method should either be 'bilinear' or 'nearest'")
+            raise TypeError("interpolation method should either be 'bilinear' or 'nearest'")
         return gtiff_dem
 
     @staticmethod
diff --git a/resippy/photogrammetry/dem/geotiff_dem.py b/resippy/photogrammetry/dem/geotiff_dem.py
index 9a3cdbd..9f0feee 100644
--- a/resippy/photogrammetry/dem/geotiff_dem.py
+++ b/resippy/photogrammetry/dem/geotiff_dem.py
@@ -130,8 +130,8 @@ class GeotiffDem(AbstractDem):
             elevations = np.average(elevations_arr, weights=weights_arr, axis=0,)
 
         else:
-            TypeError("interpolation must be set to either 'nearest' or 'bilinear' "
-                      "when getting elevations from a GeoTiff DEM")
+            raise TypeError("interpolation must be set to either 'nearest' or 'bilinear' "
+                            "when getting elevations from a GeoTiff DEM")
 
         # unflatten world_xyz arrays if the original inputs were 2d
         if world_xyz_is_2d:
-- 
2.43.0


From 0b4ec0d29be87bd8fb6f4621c47cd95dbe0970f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:29 +0000
Subject: [PATCH 14/77] fix: ray casting used np.int, which numpy no longer has

---
 .../abstract_earth_overhead_point_calc.py                       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
index a89c1c2..4f5a224 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
@@ -361,7 +361,7 @@ class AbstractEarthOverheadPointCalc:
         all_elevations = dem.get_elevations(np.array(lons_matrix), np.array(lats_matrix), world_proj=self.get_projection())
 
         ray = np.linspace(max_alt, min_alt, n_steps_per_ray)
-        first_ray_intersect_indices = np.zeros(n_pixels_to_project, dtype=np.int)
+        first_ray_intersect_indices = np.zeros(n_pixels_to_project, dtype=int)
         ray_step_indices = list(range(n_steps_per_ray))
         ray_step_indices.reverse()
         for i in ray_step_indices:
-- 
2.43.0


From 379c18f1b6ca03935263123d04d81b181bad1667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:43 +0000
Subject: [PATCH 15/77] fix: ray casting failed on level terrain and for
 vertical rays

---
 .../abstract_earth_overhead_point_calc.py                   | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
index 4f5a224..9fd9af1 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
@@ -334,6 +334,9 @@ class AbstractEarthOverheadPointCalc:
         if min_alt is None:
             min_alt = dem.get_lowest_alt()
         alt_range = max_alt - min_alt
+        if alt_range == 0:
+            # a level DEM still needs to lie strictly between the ends of the rays
+            alt_range = 100.0
 
         # put the max and min alts at 1 percent above and below the maximum returned by the DEM
         max_alt = max_alt + alt_range * 0.01
@@ -348,7 +351,8 @@ class AbstractEarthOverheadPointCalc:
 
         ray_horizontal_lens = np.sqrt(
             np.square(lons_max_alt - lons_min_alt) + np.square(lats_max_alt - lats_min_alt))
-        n_steps_per_ray = int(np.ceil(np.max(ray_horizontal_lens) / dem_sample_distance) + 1)
+        # a vertical ray has no horizontal length, but still has two ends
+        n_steps_per_ray = max(int(np.ceil(np.max(ray_horizontal_lens) / dem_sample_distance) + 1), 2)
 
         lons_matrix = np.zeros((n_pixels_to_project, n_steps_per_ray)) + np.linspace(0, 1, n_steps_per_ray)
         lats_matrix = np.zeros((n_pixels_to_project, n_steps_per_ray)) + np.linspace(0, 1, n_steps_per_ray)
-- 
2.43.0


From 169815df4f25c78b06f75cfdb7dd9005e075cb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:28 +0000
Subject: [PATCH 16/77] fix: ray casting took the DEM sampling distance in
 degrees for cameras in longitude/latitude

---
 .../abstract_earth_overhead_point_calc.py                      | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
index 9fd9af1..8ffc6dd 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py
@@ -351,6 +351,9 @@ class AbstractEarthOverheadPointCalc:
 
         ray_horizontal_lens = np.sqrt(
             np.square(lons_max_alt - lons_min_alt) + np.square(lats_max_alt - lats_min_alt))
+        if self.get_projection().crs.is_geographic:
+            # dem_sample_distance is in meters, these lengths are in degrees
+            ray_horizontal_lens = np.deg2rad(ray_horizontal_lens) * 6378137.0
         # a vertical ray has no horizontal length, but still has two ends
         n_steps_per_ray = max(int(np.ceil(np.max(ray_horizontal_lens) / dem_sample_distance) + 1), 2)
 
-- 
2.43.0


From 87f1adc80c4d89485d995d2896c5b3a5f177dade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:34 +0000
Subject: [PATCH 17/77] fix: orthorectified images were georeferenced with one
 pixel too many in each direction

---
 resippy/utils/photogrammetry_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/utils/photogrammetry_utils.py b/resippy/utils/photogrammetry_utils.py
index 72e794f..f2ea33d 100644
--- a/resippy/utils/photogrammetry_utils.py
+++ b/resippy/utils/photogrammetry_utils.py
@@ -40,8 +40,8 @@ def world_poly_to_geo_t(world_polygon,      # type: Polygon
                         ):                  # type: (...) -> list
     envelope = world_polygon.envelope
     minx, miny, maxx, maxy = envelope.bounds
-    gsd_x = (maxx - minx)/(npix_x + 1)
-    gsd_y = (maxy - miny)/(npix_y + 1)
+    gsd_x = (maxx - minx)/npix_x
+    gsd_y = (maxy - miny)/npix_y
     geot = [minx, gsd_x, 0, maxy, 0, -1*gsd_y]
     return geot
 
-- 
2.43.0


From d2c9f089288b4268ce0d9097baf394e31ec0c824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:34 +0000
Subject: [PATCH 18/77] fix: get_pixel_values used np.int, which numpy no
 longer has

---
 resippy/photogrammetry/ortho_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index 6c5443b..aec6287 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -34,12 +34,12 @@ def get_pixel_values(image_object,  # type: AbstractEarthOverheadImage
                      ):  # type: (...) -> ndarray
 
     nodata = image_object.get_metadata().get_nodata_val()
-    wh = np.round(window/2.0).astype(np.int)
+    wh = np.round(window/2.0).astype(int)
     pix_vals = []
     for band in range(image_object.get_metadata().get_n_bands()):
         img = image_object.read_band_from_disk(band)
         x, y = image_object.get_point_calculator().lon_lat_alt_to_pixel_x_y(lons, lats, alts, band=band)
-        locs = zip(np.round(x).astype(np.int), np.round(y).astype(np.int))
+        locs = zip(np.round(x).astype(int), np.round(y).astype(int))
         vals = []
         for item in locs:
             try:
-- 
2.43.0


From 0ff6e228f83e95abf56a83ab86af598971a4ccea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:34 +0000
Subject: [PATCH 19/77] fix: get_pixel_values took pixels from the opposite
 side for windows reaching beyond the left or upper edge

---
 resippy/photogrammetry/ortho_tools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index aec6287..5f5f378 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -47,6 +47,8 @@ def get_pixel_values(image_object,  # type: AbstractEarthOverheadImage
                 xmax = item[0] + wh
                 ymin = item[1] - wh
                 ymax = item[1] + wh
+                if xmin < 0 or ymin < 0:
+                    raise IndexError("window reaches beyond the image")
                 pix_win = img[ymin:ymax, xmin:xmax]
                 good_inds = pix_win != nodata
                 val = np.mean(pix_win[good_inds])
-- 
2.43.0


From d99e1138e85418091520248423f496242f690f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:34 +0000
Subject: [PATCH 20/77] fix: get_image_band failed for images whose data has
 not been loaded

---
 resippy/image_objects/abstract_image.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resippy/image_objects/abstract_image.py b/resippy/image_objects/abstract_image.py
index 878506c..55c6fdc 100644
--- a/resippy/image_objects/abstract_image.py
+++ b/resippy/image_objects/abstract_image.py
@@ -87,8 +87,10 @@ class AbstractImage():
         """
         Gets a particular image band of the image object's _image_data class variable.  band_num is zero-based.
         :param band_num: band number to get
-        :return: image band of dimensions (ny, nx)
+        :return: image band of dimensions (ny, nx), None if no image data has been loaded
         """
+        if self._image_data is None:
+            return None
         return self._image_data[:, :, band_num]
 
     def set_image_band(self,
-- 
2.43.0


From e375bde0b82202ee56306a5a74057cb2fa905258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:34 +0000
Subject: [PATCH 21/77] fix: orthorectified images with separately pointed
 bands showed zeros instead of no-data outside the image

---
 resippy/photogrammetry/ortho_tools.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index 5f5f378..87214f0 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -218,6 +218,12 @@ def create_ortho_gtiff_image_world_to_sensor(overhead_image,  # type: AbstractEa
 
             regridded = image_utils.unflatten_image_band(regridded, ortho_nx_pix, ortho_ny_pix)
             regridded = regridded.astype(im_tp)
+
+            regridded[np.where(pixels_x <= 0)] = nodata_val
+            regridded[np.where(pixels_x >= overhead_image.metadata.get_npix_x() - 2)] = nodata_val
+
+            regridded[np.where(pixels_y <= 0)] = nodata_val
+            regridded[np.where(pixels_y >= overhead_image.metadata.get_npix_y() - 2)] = nodata_val
             images.append(regridded)
     else:
         pixels_x, pixels_y = overhead_image.get_point_calculator(). \
-- 
2.43.0


From aa81be8fd4451db6e1ff6849c52a312dd9e4f128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:21 +0000
Subject: [PATCH 22/77] fix: get_pixel_lon_lats asked DEMs of another CRS for
 elevations at native coordinates

---
 resippy/photogrammetry/ortho_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index 87214f0..c00c4b0 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -82,7 +82,7 @@ def get_pixel_lon_lats(overhead_image,  # type: AbstractEarthOverheadImage
                                                                      pixel_error_threshold=pixel_error_threshold,
                                                                      max_iter=max_iter)
     # get differences from the highest alt using the dem
-    alt_diff = alts - dem.get_elevations(lons_highest, lats_highest)
+    alt_diff = alts - dem.get_elevations(lons_highest, lats_highest, point_calc.get_projection())
     new_alts = alts - alt_diff
     lons_low, lats_low = point_calc.pixel_x_y_alt_to_lon_lat(pixels_x, pixels_y, new_alts,
                                                              band=band,
-- 
2.43.0


From e89914d5ed0f7f4286adcc41e5e6aa72dd654e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:21 +0000
Subject: [PATCH 23/77] fix: extents in longitude/latitude lost corners, they
 were simplified by 0.001 degrees

---
 resippy/photogrammetry/ortho_tools.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index c00c4b0..207bd00 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -379,9 +379,11 @@ def get_extent(overhead_image,  # type: AbstractEarthOverheadImage
         all_band_lats = np.append(all_band_lats, lats)
 
     extents = [(MultiPoint(list(zip(all_band_lons, all_band_lats))))]
-    # TODO, check into whether we can get rid of this tolerance, also, this isn't a very good approach, since it assumes
-    # TODO a particular CRS (probably 4326)
-    return unary_union(extents).convex_hull.simplify(0.001)
+    # TODO, check into whether we can get rid of this tolerance
+    tolerance = 0.001  # meters
+    if overhead_image.get_point_calculator().get_projection().crs.is_geographic:
+        tolerance = np.rad2deg(tolerance / 6378137.0)
+    return unary_union(extents).convex_hull.simplify(tolerance)
 
 
 def are_pixels_obstructed_by_dem(earth_overhead_image,      # type: AbstractEarthOverheadImage
-- 
2.43.0


From ee8811fdc0411bf5738df1610d6aeeb83d3524d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:21 +0000
Subject: [PATCH 24/77] fix: create_full_ortho_gtiff_image asked for the places
 of lists of pixels and bands

---
 resippy/photogrammetry/ortho_tools.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index 207bd00..14e5eb7 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -129,9 +129,9 @@ def create_full_ortho_gtiff_image(overhead_image,  # type: AbstractEarthOverhead
         ny = overhead_image.metadata.get_npix_y()
         native_lons, native_lats = get_pixel_lon_lats(overhead_image,
                                                       dem,
-                                                      bands,
-                                                      pixels_x=[0, nx-1, 0],
-                                                      pixels_y=[0, 0, ny-1])
+                                                      bands if bands is None else bands[0],
+                                                      pixels_x=np.array([0, nx-1, 0]),
+                                                      pixels_y=np.array([0, 0, ny-1]))
         local_lons, local_lats = transform(overhead_image.pointcalc.get_projection(), local_proj, native_lons, native_lats)
         distance_along_x = math.sqrt((local_lons[1] - local_lons[0]) ** 2 + (local_lats[1] - local_lats[0]) ** 2)
         distance_along_y = math.sqrt((local_lons[2] - local_lons[0]) ** 2 + (local_lats[2] - local_lats[0]) ** 2)
-- 
2.43.0


From b7768b656b5d8513c12c0485982841b5a80c3dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:53 +0000
Subject: [PATCH 25/77] fix: create_full_ortho_gtiff_image took native extents
 for meters in the output projection

---
 resippy/photogrammetry/ortho_tools.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index 14e5eb7..f15e205 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -17,7 +17,7 @@ from resippy.image_objects.earth_overhead.geotiff.geotiff_image import GeotiffIm
 from resippy.image_objects.earth_overhead.igm.igm_image import IgmImage
 from resippy.photogrammetry.dem.abstract_dem import AbstractDem
 from resippy.photogrammetry import crs_defs as crs_defs
-from resippy.utils.photogrammetry_utils import create_ground_grid, world_poly_to_geo_t
+from resippy.utils.photogrammetry_utils import create_ground_grid, world_poly_to_geo_t, reproject_geometry
 from resippy.utils import proj_utils
 from pyproj import transform
 from resippy.photogrammetry.dem.dem_factory import DemFactory
@@ -139,14 +139,21 @@ def create_full_ortho_gtiff_image(overhead_image,  # type: AbstractEarthOverhead
         gsd_y = distance_along_y / ny
         gsd_meters = (gsd_x + gsd_y) / 2.0
 
-    ortho_x_dist = np.abs(extent.bounds[2] - extent.bounds[0])
-    ortho_y_dist = np.abs(extent.bounds[3] - extent.bounds[1])
+    if output_proj is None:
+        output_proj = overhead_image.pointcalc.get_projection()
+    if output_proj.srs != overhead_image.pointcalc.get_projection().srs:
+        extent = reproject_geometry(extent, overhead_image.pointcalc.get_projection(), output_proj)
+
+    # the units of the output projection aren't necessarily meters on the ground
+    min_x, min_y, max_x, max_y = extent.bounds
+    mid_x, mid_y = (min_x + max_x) / 2.0, (min_y + max_y) / 2.0
+    local_x, local_y = transform(output_proj, local_proj, [min_x, max_x, mid_x, mid_x], [mid_y, mid_y, min_y, max_y])
+    ortho_x_dist = math.sqrt((local_x[1] - local_x[0]) ** 2 + (local_y[1] - local_y[0]) ** 2)
+    ortho_y_dist = math.sqrt((local_x[3] - local_x[2]) ** 2 + (local_y[3] - local_y[2]) ** 2)
 
     ortho_nx = int(ortho_x_dist / gsd_meters)
     ortho_ny = int(ortho_y_dist / gsd_meters)
 
-    if output_proj is None:
-        output_proj = overhead_image.pointcalc.get_projection()
     return create_ortho_gtiff_image_world_to_sensor(overhead_image,
                                                     ortho_nx,
                                                     ortho_ny,
-- 
2.43.0


From 076e9cc31673dbb58c6fa6cb7e174d6e3d40d644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:25 +0000
Subject: [PATCH 26/77] fix: create_full_ortho_gtiff_image named no band to
 images with separately pointed bands

---
 resippy/photogrammetry/ortho_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index f15e205..bf49765 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -129,7 +129,7 @@ def create_full_ortho_gtiff_image(overhead_image,  # type: AbstractEarthOverhead
         ny = overhead_image.metadata.get_npix_y()
         native_lons, native_lats = get_pixel_lon_lats(overhead_image,
                                                       dem,
-                                                      bands if bands is None else bands[0],
+                                                      0 if bands is None else bands[0],
                                                       pixels_x=np.array([0, nx-1, 0]),
                                                       pixels_y=np.array([0, 0, ny-1]))
         local_lons, local_lats = transform(overhead_image.pointcalc.get_projection(), local_proj, native_lons, native_lats)
-- 
2.43.0


From 4174eb57c07acb3737aecc8c6cc11448d4cb0835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:16 +0000
Subject: [PATCH 27/77] fix: terrain obstructions were looked for in the
 direction away from the camera

---
 resippy/photogrammetry/ortho_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index bf49765..0bf140d 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -415,8 +415,8 @@ def are_pixels_obstructed_by_dem(earth_overhead_image,      # type: AbstractEart
     obstructed_mask = np.zeros_like(lons)
 
     lons_highest, lats_highest = earth_overhead_image.get_point_calculator().pixel_x_y_alt_to_lon_lat(pixels_x, pixels_y, highest_alts, band=band)
-    lon_diffs = lons - lons_highest
-    lat_diffs = lats - lats_highest
+    lon_diffs = lons_highest - lons
+    lat_diffs = lats_highest - lats
     horizontal_distances = np.sqrt(np.square(lon_diffs + lat_diffs))
     vertical_distances = highest_alts - alts
     max_horizontal_distance = horizontal_distances.max()
-- 
2.43.0


From d1f7b722821d8e698ea50bee9bc0d963add0616e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:16 +0000
Subject: [PATCH 28/77] fix: the distance over which terrain obstructions are
 looked for was the difference of its components

---
 resippy/photogrammetry/ortho_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index 0bf140d..145f4fb 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -417,7 +417,7 @@ def are_pixels_obstructed_by_dem(earth_overhead_image,      # type: AbstractEart
     lons_highest, lats_highest = earth_overhead_image.get_point_calculator().pixel_x_y_alt_to_lon_lat(pixels_x, pixels_y, highest_alts, band=band)
     lon_diffs = lons_highest - lons
     lat_diffs = lats_highest - lats
-    horizontal_distances = np.sqrt(np.square(lon_diffs + lat_diffs))
+    horizontal_distances = np.sqrt(np.square(lon_diffs) + np.square(lat_diffs))
     vertical_distances = highest_alts - alts
     max_horizontal_distance = horizontal_distances.max()
     n_dem_steps = max_horizontal_distance / dem_resolution
-- 
2.43.0


From 7d711eb9c90f15d4e6ae5b55c654f3a786731806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:36 +0000
Subject: [PATCH 29/77] fix: terrain obstructions of integer pixels were looked
 for below the highest terrain

---
 resippy/photogrammetry/ortho_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index 145f4fb..2d669f4 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -406,7 +406,7 @@ def are_pixels_obstructed_by_dem(earth_overhead_image,      # type: AbstractEart
     DEFAULT_DEM_RESOLUTION = 5
     if dem_resolution is None:
         dem_resolution = DEFAULT_DEM_RESOLUTION
-    highest_alts = np.zeros_like(pixels_x)
+    highest_alts = np.zeros(np.shape(pixels_x))
     highest_alts[:] = dem.get_highest_alt() + 0.001
 
     if alts is None:
-- 
2.43.0


From f3f449d69d04c8be5c76b5c894738a431b26f39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:36 +0000
Subject: [PATCH 30/77] fix: terrain obstructions were looked for at native
 coordinates in DEMs of another CRS

---
 resippy/photogrammetry/ortho_tools.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index 2d669f4..1684293 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -410,7 +410,7 @@ def are_pixels_obstructed_by_dem(earth_overhead_image,      # type: AbstractEart
     highest_alts[:] = dem.get_highest_alt() + 0.001
 
     if alts is None:
-        alts = dem.get_elevations(lons, lats)
+        alts = dem.get_elevations(lons, lats, earth_overhead_image.get_point_calculator().get_projection())
 
     obstructed_mask = np.zeros_like(lons)
 
@@ -424,7 +424,8 @@ def are_pixels_obstructed_by_dem(earth_overhead_image,      # type: AbstractEart
     for step in np.arange(1, n_dem_steps):
         test_lons = lons + lon_diffs * (step) / n_dem_steps
         test_lats = lats + lat_diffs * (step) / n_dem_steps
-        test_alts = dem.get_elevations(test_lons, test_lats)
+        test_alts = dem.get_elevations(test_lons, test_lats,
+                                       earth_overhead_image.get_point_calculator().get_projection())
         obstruction_heights = alts + vertical_distances * step / n_dem_steps
         obstructed_mask[np.where(test_alts > obstruction_heights)] = 1
     return obstructed_mask
-- 
2.43.0


From bce390cf75a11d28fe2e7a9645188b74e7c01de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:49 +0000
Subject: [PATCH 31/77] fix: terrain obstructions were never found for cameras
 in longitude/latitude, distances were in degrees

---
 resippy/photogrammetry/ortho_tools.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index 1684293..0e87926 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -418,6 +418,9 @@ def are_pixels_obstructed_by_dem(earth_overhead_image,      # type: AbstractEart
     lon_diffs = lons_highest - lons
     lat_diffs = lats_highest - lats
     horizontal_distances = np.sqrt(np.square(lon_diffs) + np.square(lat_diffs))
+    if earth_overhead_image.get_point_calculator().get_projection().crs.is_geographic:
+        # dem_resolution is in meters, these distances are in degrees
+        horizontal_distances = np.deg2rad(horizontal_distances) * 6378137.0
     vertical_distances = highest_alts - alts
     max_horizontal_distance = horizontal_distances.max()
     n_dem_steps = max_horizontal_distance / dem_resolution
-- 
2.43.0


From d3cd742b979e1f334fff73054922392bdcdb28ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:22 +0000
Subject: [PATCH 32/77] fix: IGM images given one altitude for all pixels
 stored zeros

---
 .../earth_overhead_point_calculators/igm_point_calc.py          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/igm_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/igm_point_calc.py
index d5c7729..1ad7dd1 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/igm_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/igm_point_calc.py
@@ -22,7 +22,7 @@ class IGMPointCalc(AbstractEarthOverheadPointCalc):
         self._npix_y, self._npix_x = lon_array.shape
         self.set_projection(projection)
         if isinstance(alt_array, numbers.Number):
-            self._alts = numpy.zeros_like(lon_array)
+            self._alts = numpy.zeros(lon_array.shape) + alt_array
         else:
             self._alts = alt_array
         self._bands_coregistered = True
-- 
2.43.0


From a90704679305e825ca2ee91aa798911431aa6bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:22 +0000
Subject: [PATCH 33/77] fix: create_igm_image failed for images whose data has
 not been loaded

---
 resippy/photogrammetry/ortho_tools.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/resippy/photogrammetry/ortho_tools.py b/resippy/photogrammetry/ortho_tools.py
index 0e87926..2b681ff 100644
--- a/resippy/photogrammetry/ortho_tools.py
+++ b/resippy/photogrammetry/ortho_tools.py
@@ -103,11 +103,14 @@ def create_igm_image(overhead_image,    # type: AbstractEarthOverheadImage
                                                                          pixels_y,
                                                                          dem,
                                                                          dem_sample_distance=dem_sample_distance)
-    igm_image = IgmImage.from_params(overhead_image.get_image_data(),
+    image_data = overhead_image.get_image_data()
+    if image_data is None:
+        image_data = overhead_image.read_all_image_data_from_disk()
+    igm_image = IgmImage.from_params(image_data,
                                      lons,
                                      lats,
                                      alts,
-                                     overhead_image.get_image_data().shape[2],
+                                     image_data.shape[2],
                                      overhead_image.pointcalc.get_projection())
     return igm_image
 
-- 
2.43.0


From fe1200ae91b41bd0bfaac850d495308969766b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:52 +0000
Subject: [PATCH 34/77] fix: grid_warp_image_band did not reproduce the no-data
 value outside the image

---
 resippy/utils/image_utils/image_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resippy/utils/image_utils/image_utils.py b/resippy/utils/image_utils/image_utils.py
index 6accb45..eef27b8 100644
--- a/resippy/utils/image_utils/image_utils.py
+++ b/resippy/utils/image_utils/image_utils.py
@@ -50,6 +50,10 @@ def grid_warp_image_band(image_to_warp,  # type: ndarray
 
     warped_image = sktransform.warp(image_to_warp, coords, preserve_range=True,
                                     mode='constant', cval=nodata_val, order=order)
+    # interpolating between nodata values doesn't reproduce them exactly, and splines overshoot beyond the image
+    image_x_coords, image_y_coords = np.asarray(image_x_coords), np.asarray(image_y_coords)
+    warped_image[(image_x_coords <= -1) | (image_x_coords >= image_to_warp.shape[1]) |
+                 (image_y_coords <= -1) | (image_y_coords >= image_to_warp.shape[0])] = nodata_val
     return warped_image
 
 
-- 
2.43.0


From 9757f157c0d3a5cf8ad2fedb07c828e4e9b06cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:01 +0000
Subject: [PATCH 35/77] fix: sam overflowed for integer images

---
 resippy/spectral/spectral_image_processing_1d.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resippy/spectral/spectral_image_processing_1d.py b/resippy/spectral/spectral_image_processing_1d.py
index 6569ec7..d4af695 100644
--- a/resippy/spectral/spectral_image_processing_1d.py
+++ b/resippy/spectral/spectral_image_processing_1d.py
@@ -165,6 +165,10 @@ def ace_demeaned(demeaned_image,            # type: ndarray
 def sam(spectral_image,     # type: ndarray
         target_spectra      # type: ndarray
         ):                  # type: (...) -> ndarray
+    # products of integers can overflow
+    spectral_image = spectral_image.astype(float)
+    target_spectra = np.asarray(target_spectra, dtype=float)
+
     # Python 3.5+
     # numerator = target_spectra @ spectral_image.transpose()
     # Python 2.7 - 3.4
-- 
2.43.0


From cb274ada013bd5f54c91f4ff3d455c678203a8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:01 +0000
Subject: [PATCH 36/77] fix: compute_cov_eq_linear_transform_matrix of 2d
 scenes failed without masks

---
 resippy/spectral/spectral_image_processing_2d.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/resippy/spectral/spectral_image_processing_2d.py b/resippy/spectral/spectral_image_processing_2d.py
index ef5c91d..71fa7b9 100644
--- a/resippy/spectral/spectral_image_processing_2d.py
+++ b/resippy/spectral/spectral_image_processing_2d.py
@@ -146,8 +146,12 @@ def compute_cov_eq_linear_transform_matrix(input_scene,                 # type:
                                            ):                           # type: (...) -> ndarray
     flattened_1 = spectral_tools.flatten_image_cube(input_scene)
     flattened_2 = spectral_tools.flatten_image_cube(scene_to_match)
-    flattened_mask_1 = image_utils.flatten_image_band(input_scene_mask)
-    flattened_mask_2 = image_utils.flatten_image_band(scene_to_match_mask)
+    flattened_mask_1 = None
+    flattened_mask_2 = None
+    if input_scene_mask is not None:
+        flattened_mask_1 = image_utils.flatten_image_band(input_scene_mask)
+    if scene_to_match_mask is not None:
+        flattened_mask_2 = image_utils.flatten_image_band(scene_to_match_mask)
     big_l = spectral_image_processing_1d.compute_cov_eq_linear_transform_matrix(flattened_1,
                                                                                 flattened_2,
                                                                                 flattened_mask_1,
-- 
2.43.0


From e6594f88bd9a9aafe4c9e755fae48007cc4e7e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:09 +0000
Subject: [PATCH 37/77] fix: spectra of integer data could not be asked for

---
 resippy/spectral/spectrum.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/resippy/spectral/spectrum.py b/resippy/spectral/spectrum.py
index 493a2a4..8f9d0fe 100644
--- a/resippy/spectral/spectrum.py
+++ b/resippy/spectral/spectrum.py
@@ -39,7 +39,12 @@ class Spectrum:
         spectral_data = copy.deepcopy(self._spectral_data)
         if nodata_to_nan:
             # spectral_data_nodata_replaced = copy.deepcopy(self._spectral_data)
-            spectral_data[np.where(spectral_data == self.get_nodata_val())] = np.nan
+            is_nodata = np.asarray(spectral_data == self.get_nodata_val())
+            if is_nodata.any():
+                if not np.issubdtype(spectral_data.dtype, np.floating):
+                    # only floating point data can be nan
+                    spectral_data = spectral_data.astype(float)
+                spectral_data[np.where(is_nodata)] = np.nan
         if with_units:
             spectral_data = spectral_data * self.get_spectrum_units()
         return spectral_data
-- 
2.43.0


From 5531c6e0676834620a20d85295c315365d1a5940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:09 +0000
Subject: [PATCH 38/77] fix: resampled spectra were nan in all bands if any
 channel had no data

---
 resippy/spectral/spectrum.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resippy/spectral/spectrum.py b/resippy/spectral/spectrum.py
index 8f9d0fe..6254a29 100644
--- a/resippy/spectral/spectrum.py
+++ b/resippy/spectral/spectrum.py
@@ -108,7 +108,8 @@ class Spectrum:
             rsr_data = rsr_spectrum.get_spectral_data()
 
             rsr_data_resamp = np.interp(self.get_wavelengths(), rsr_wave, rsr_data, left=0, right=0)
-            normed = self.get_spectral_data() * rsr_data_resamp
+            # what lies outside of the band doesn't contribute, even if it is nodata
+            normed = np.where(rsr_data_resamp == 0, 0, self.get_spectral_data() * rsr_data_resamp)
 
             # import matplotlib.pyplot as plt
             # # plt.plot(self.get_wavelengths(), rsr_data_resamp)
-- 
2.43.0


From 6f6a52342f6c3e9f7821fb090b004dbee9be5fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:25 +0000
Subject: [PATCH 39/77] fix: USGS libraries were not found in directories whose
 names contain brackets

---
 .../usgs/ascii/usgs_ascii_spectral_factory.py                 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/spectral/spectrum_factories/usgs/ascii/usgs_ascii_spectral_factory.py b/resippy/spectral/spectrum_factories/usgs/ascii/usgs_ascii_spectral_factory.py
index 2a92ea8..24dcc31 100644
--- a/resippy/spectral/spectrum_factories/usgs/ascii/usgs_ascii_spectral_factory.py
+++ b/resippy/spectral/spectrum_factories/usgs/ascii/usgs_ascii_spectral_factory.py
@@ -39,7 +39,7 @@ class UsgsAsciiSpectralFactory:
     @staticmethod
     def get_fwhm_fname(base_dir     # type: str
                        ):           # type: (...) -> str
-        txt_files = glob.glob(base_dir + "/*.txt")
+        txt_files = glob.glob(glob.escape(base_dir) + "/*.txt")
         for txt_file in txt_files:
             basename_lower = str.lower(os.path.basename(txt_file))
             if "resolution" in basename_lower or \
@@ -49,7 +49,7 @@ class UsgsAsciiSpectralFactory:
     @staticmethod
     def get_wavelengths_fname(base_dir     # type: str
                               ):           # type: (...) -> str
-        txt_files = glob.glob(base_dir + "/*.txt")
+        txt_files = glob.glob(glob.escape(base_dir) + "/*.txt")
         for txt_file in txt_files:
             basename_lower = str.lower(os.path.basename(txt_file))
             if "wavelength" in basename_lower or \
-- 
2.43.0


From c03ca995cda02fb6ba1de48df00ff1e4557bd8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:17 +0000
Subject: [PATCH 40/77] fix: ENVI data types 6 and 9 are single and double
 precision complex

---
 resippy/utils/envi_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/utils/envi_utils.py b/resippy/utils/envi_utils.py
index a6260d9..3fa4e9d 100644
--- a/resippy/utils/envi_utils.py
+++ b/resippy/utils/envi_utils.py
@@ -8,10 +8,10 @@ ENVI_DTYPES_TO_NUMPY = {"1": np.uint8,
                         "3": np.int32,
                         "4": np.float32,
                         "5": np.float64,
-                        "6": None,
+                        "6": np.complex64,
                         "7": None,
                         "8": None,
-                        "9": np.complex64,
+                        "9": np.complex128,
                         "10": None,
                         "11": None,
                         "12": np.uint16,
-- 
2.43.0


From a3c05dbcc5cf455001a3d045c561dfa210c3e1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:17 +0000
Subject: [PATCH 41/77] fix: read_envi_header dropped or cut the last entry of
 a header that does not end with a newline

---
 resippy/utils/envi_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resippy/utils/envi_utils.py b/resippy/utils/envi_utils.py
index 3fa4e9d..7b54750 100644
--- a/resippy/utils/envi_utils.py
+++ b/resippy/utils/envi_utils.py
@@ -87,7 +87,8 @@ def read_envi_header(header_fname,      # type: str
     with open(header_fname, 'r') as content_file:
         header_text = content_file.read()
 
-    header_text = string_utils.cleanup_newlines(header_text)
+    # every entry, the last one included, ends with a newline
+    header_text = string_utils.cleanup_newlines(header_text) + os.linesep
 
     envi_header_dict = {}
 
-- 
2.43.0


From 60f455c887514869082f60bddb8aaba1dee4f888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:17 +0000
Subject: [PATCH 42/77] fix: read_envi_header failed for values that contain an
 equals sign

---
 resippy/utils/envi_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/utils/envi_utils.py b/resippy/utils/envi_utils.py
index 7b54750..c067cca 100644
--- a/resippy/utils/envi_utils.py
+++ b/resippy/utils/envi_utils.py
@@ -132,7 +132,7 @@ def read_envi_header(header_fname,      # type: str
         elif is_equals_entry(header_text):
             linesep_index = header_text.find(os.linesep)
             entry_text = header_text[0:linesep_index]
-            key, val = entry_text.split('=')
+            key, val = entry_text.split('=', 1)
             header_text = header_text[linesep_index + 1:]
 
         elif entry_has_newline(header_text):
-- 
2.43.0


From 3a7b0e9fbd38d5caba527c9c0db7c03ab7e15dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:17 +0000
Subject: [PATCH 43/77] fix: headers read with read_envi_header could not be
 written and read again

---
 resippy/utils/envi_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resippy/utils/envi_utils.py b/resippy/utils/envi_utils.py
index c067cca..76b2fa3 100644
--- a/resippy/utils/envi_utils.py
+++ b/resippy/utils/envi_utils.py
@@ -125,7 +125,7 @@ def read_envi_header(header_fname,      # type: str
 
         if is_bracket_entry(header_text):
             right_brace_index = header_text.find('}')
-            entry_text = header_text[0:right_brace_index]
+            entry_text = header_text[0:right_brace_index + 1]
             key, val = str.split(entry_text, '=', 1)
             header_text = header_text[right_brace_index + 1:]
 
@@ -179,6 +179,8 @@ def write_envi_header(header_dict,      # type: dict
     with open(header_fname, "w") as f:
         f.write("ENVI" + "\n")
         for key, val in header_dict.items():
+            if isinstance(val, np.ndarray):
+                val = "{" + ", ".join([repr(float(v)) for v in val]) + "}"
             f.write(key + " = " + str(val))
             f.write("\n")
 
-- 
2.43.0


From c325b1edb28b23ea0e199694e1ace0446abcb5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:51 +0000
Subject: [PATCH 44/77] fix: ENVI images with bip or bsq interleave were read
 and written as zeros

---
 resippy/utils/envi_utils.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/resippy/utils/envi_utils.py b/resippy/utils/envi_utils.py
index 76b2fa3..1ca225b 100644
--- a/resippy/utils/envi_utils.py
+++ b/resippy/utils/envi_utils.py
@@ -185,7 +185,6 @@ def write_envi_header(header_dict,      # type: dict
             f.write("\n")
 
 
-# TODO: add more interleave formats, only BIP is currently supported
 def write_envi_image(image_cube,                    # type: np.ndarray
                      output_fname,                  # type: str
                      output_header_fname=None,      # type: str
@@ -202,6 +201,12 @@ def write_envi_image(image_cube,                    # type: np.ndarray
                 data_chunk = image_cube[l, :, b]
                 raw_data[raw_data_counter:raw_data_counter+nx] = data_chunk
                 raw_data_counter = raw_data_counter+nx
+    elif interleave == 'bip':
+        raw_data[:] = image_cube.ravel()
+    elif interleave == 'bsq':
+        raw_data[:] = image_cube.transpose((2, 0, 1)).ravel()
+    else:
+        raise NotImplementedError("interleave " + str(interleave) + " is not supported")
     raw_data.tofile(output_fname)
 
     envi_dtype = numpy_dtype_to_envi_dtype(image_cube.dtype)
@@ -259,4 +264,10 @@ def construct_image_cube_from_raw_data(raw_envi_data,       # type: np.ndarray
                 data_chunk = raw_envi_data[raw_data_counter:raw_data_counter+nx]
                 image_cube[l, :, b] = data_chunk
                 raw_data_counter = raw_data_counter+nx
+    elif interleave == 'bip':
+        image_cube[:] = raw_envi_data.reshape((ny, nx, nbands))
+    elif interleave == 'bsq':
+        image_cube[:] = raw_envi_data.reshape((nbands, ny, nx)).transpose((1, 2, 0))
+    else:
+        raise NotImplementedError("interleave " + str(interleave) + " is not supported")
     return image_cube
-- 
2.43.0


From e97d610a68a300adb65a407a0d27783fdba77a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:51 +0000
Subject: [PATCH 45/77] fix: read_envi_image ignored the header offset and the
 byte order

---
 resippy/utils/envi_utils.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/resippy/utils/envi_utils.py b/resippy/utils/envi_utils.py
index 1ca225b..ade109b 100644
--- a/resippy/utils/envi_utils.py
+++ b/resippy/utils/envi_utils.py
@@ -237,17 +237,23 @@ def read_envi_image(image_file,             # type: str
     nbands = int(envi_header['bands'])
     envi_dtype = envi_header['data type']
     interleave = envi_header['interleave']
-    envi_image_data = read_all_image_data_to_numpy_array(image_file, envi_dtype)
+    header_offset = envi_header.get('header offset', 0)
+    byte_order = envi_header.get('byte order', 0)
+    envi_image_data = read_all_image_data_to_numpy_array(image_file, envi_dtype, header_offset, byte_order)
     image_cube = construct_image_cube_from_raw_data(envi_image_data, nx, ny, nbands, interleave)
     return image_cube
 
 
 def read_all_image_data_to_numpy_array(envi_image_path,     # type: str
                                        envi_dtype,          # type: int
+                                       header_offset=0,     # type: int
+                                       byte_order=0,        # type: int
                                        ):                   # type: (...) -> np.ndarray
-    numpy_dtype = envi_dtype_to_numpy_dtype(envi_dtype)
-    numpy_data = np.fromfile(envi_image_path, numpy_dtype)
-    return numpy_data
+    numpy_dtype = np.dtype(envi_dtype_to_numpy_dtype(envi_dtype))
+    # byte order 0 is little endian, 1 is big endian
+    file_dtype = numpy_dtype.newbyteorder('>' if byte_order == 1 else '<')
+    numpy_data = np.fromfile(envi_image_path, file_dtype, offset=header_offset)
+    return numpy_data.astype(numpy_dtype)
 
 
 def construct_image_cube_from_raw_data(raw_envi_data,       # type: np.ndarray
-- 
2.43.0


From ac70a5e8bb16a0cc013f3a3550cd2203efd472a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:50 +0000
Subject: [PATCH 46/77] fix: images could not be chipped without naming their
 bands (np.int no longer exists)

---
 resippy/utils/image_utils/image_chipper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/utils/image_utils/image_chipper.py b/resippy/utils/image_utils/image_chipper.py
index afe9b84..90e6407 100644
--- a/resippy/utils/image_utils/image_chipper.py
+++ b/resippy/utils/image_utils/image_chipper.py
@@ -86,7 +86,7 @@ def chip_images_by_pixel_upper_lefts(input_image,                   # type: ndar
     n_chips = len(pixel_y_ul_list)
 
     if bands is None:
-        bands = np.arange(0, nbands).astype(np.int)
+        bands = np.arange(0, nbands).astype(int)
     else:
         nbands = len(bands)
 
-- 
2.43.0


From 57ab07eb3e34f1b89ad7979a35da723d158ad15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:50 +0000
Subject: [PATCH 47/77] fix: stacks of grayscale chips could not be written to
 disk

---
 resippy/utils/image_utils/image_chipper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/utils/image_utils/image_chipper.py b/resippy/utils/image_utils/image_chipper.py
index 90e6407..362e0f4 100644
--- a/resippy/utils/image_utils/image_chipper.py
+++ b/resippy/utils/image_utils/image_chipper.py
@@ -146,10 +146,10 @@ def write_chips_to_disk(image_chips,            # type: ndarray
         base_chip_fname = os.path.basename(output_dir)
     n_chips = get_nchips(image_chips)
     for i in range(n_chips):
-        chip = image_chips[i, :, :, :]
+        chip = image_chips[i]
         if output_chip_ny is not None:
             chip = image_utils.resize_image(chip, output_chip_ny, output_chip_nx)
-        if remove_alpha is True and chip.shape[-1] == 4:
+        if remove_alpha is True and chip.ndim == 3 and chip.shape[-1] == 4:
             chip = chip[:, :, 0:3]
         chip_fname = base_chip_fname + "_" + str(i).zfill(8)
         if fnames_list is not None:
-- 
2.43.0


From e662de73c97b6dba37569111be7142189306a429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:50 +0000
Subject: [PATCH 48/77] fix: colormaps of more than 128 colors overflowed their
 index maps

---
 resippy/utils/image_utils/image_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/utils/image_utils/image_utils.py b/resippy/utils/image_utils/image_utils.py
index eef27b8..ca7901e 100644
--- a/resippy/utils/image_utils/image_utils.py
+++ b/resippy/utils/image_utils/image_utils.py
@@ -209,8 +209,8 @@ def apply_colormap_to_grayscale_image(grayscale_image,  # type: ndarray
         max_clip = min_clip + (max_clip - min_clip) * (n_bins - 1) / n_bins
 
     palette_indices = np.linspace(min_clip, max_clip, n_bins)
-    image_low_index_map = np.zeros(grayscale_image.shape, dtype=np.int8)
-    image_high_index_map = np.zeros(grayscale_image.shape, dtype=np.int8)
+    image_low_index_map = np.zeros(grayscale_image.shape, dtype=int)
+    image_high_index_map = np.zeros(grayscale_image.shape, dtype=int)
     image_low_palette_index = np.zeros(grayscale_image.shape)
     image_high_palette_index = np.zeros(grayscale_image.shape)
 
-- 
2.43.0


From 43572ebd36892bf644535db7d37ec7c0394f6f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:50 +0000
Subject: [PATCH 49/77] fix: normalize_grayscale_image overflowed for images of
 signed integers

---
 resippy/utils/image_utils/image_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resippy/utils/image_utils/image_utils.py b/resippy/utils/image_utils/image_utils.py
index ca7901e..74e6d86 100644
--- a/resippy/utils/image_utils/image_utils.py
+++ b/resippy/utils/image_utils/image_utils.py
@@ -127,6 +127,9 @@ def gdal_grid_image_band(image_to_warp,  # type: ndarray
 
 
 def normalize_grayscale_image(input_image, new_min, new_max, output_dtype=None):
+    if not np.issubdtype(input_image.dtype, np.inexact):
+        # differences of integers may not fit the image's own data type
+        input_image = input_image.astype(float)
     image_min = np.min(input_image)
     image_max = np.max(input_image)
     image_zero_to_one = (input_image - image_min)/(image_max-image_min)
-- 
2.43.0


From 3b0aa793a05517d0f384954ac9c287b4e7bbabc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:29 +0000
Subject: [PATCH 50/77] fix: the range of colormaps overflowed for images of
 signed integers

---
 resippy/utils/image_utils/image_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resippy/utils/image_utils/image_utils.py b/resippy/utils/image_utils/image_utils.py
index 74e6d86..14f6c01 100644
--- a/resippy/utils/image_utils/image_utils.py
+++ b/resippy/utils/image_utils/image_utils.py
@@ -193,6 +193,8 @@ def apply_colormap_to_grayscale_image(grayscale_image,  # type: ndarray
             max_clip = np.nanmax(grayscale_image[good_inds])
         else:
             max_clip = np.nanmax(grayscale_image)
+    # the range may not fit the image's own data type
+    min_clip, max_clip = float(min_clip), float(max_clip)
     color_palette = np.asarray(color_palette)
 
     if n_bins is not None:
-- 
2.43.0


From 48c50ede7591cb530aa42a24a44ee6b6f1eec0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:00 +0000
Subject: [PATCH 51/77] fix: gps and utc conversions depended on the time zone
 of the computer

---
 resippy/utils/time_utils.py | 44 ++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/resippy/utils/time_utils.py b/resippy/utils/time_utils.py
index 167a7cc..f8786e4 100644
--- a/resippy/utils/time_utils.py
+++ b/resippy/utils/time_utils.py
@@ -1,33 +1,33 @@
-from datetime import datetime, timedelta
+from datetime import datetime, timedelta, timezone
 from bisect import bisect_right
 import math
 
 # table of UTC leap second insertions since 1980 (http://hpiers.obspm.fr/eop-pc/index.php?index=TAI-UTC_tab&lang=en)
 _LEAPSECONDS = [
-    (datetime(1980, 1, 1).timestamp(), timedelta(seconds=19)),
-    (datetime(1981, 7, 1).timestamp(), timedelta(seconds=20)),
-    (datetime(1982, 7, 1).timestamp(), timedelta(seconds=21)),
-    (datetime(1983, 7, 1).timestamp(), timedelta(seconds=22)),
-    (datetime(1985, 7, 1).timestamp(), timedelta(seconds=23)),
-    (datetime(1988, 1, 1).timestamp(), timedelta(seconds=24)),
-    (datetime(1990, 1, 1).timestamp(), timedelta(seconds=25)),
-    (datetime(1991, 1, 1).timestamp(), timedelta(seconds=26)),
-    (datetime(1992, 7, 1).timestamp(), timedelta(seconds=27)),
-    (datetime(1993, 7, 1).timestamp(), timedelta(seconds=28)),
-    (datetime(1994, 7, 1).timestamp(), timedelta(seconds=29)),
-    (datetime(1996, 1, 1).timestamp(), timedelta(seconds=30)),
-    (datetime(1997, 7, 1).timestamp(), timedelta(seconds=31)),
-    (datetime(1999, 1, 1).timestamp(), timedelta(seconds=32)),
-    (datetime(2006, 1, 1).timestamp(), timedelta(seconds=33)),
-    (datetime(2009, 1, 1).timestamp(), timedelta(seconds=34)),
-    (datetime(2012, 7, 1).timestamp(), timedelta(seconds=35)),
-    (datetime(2015, 7, 1).timestamp(), timedelta(seconds=36)),
-    (datetime(2017, 1, 1).timestamp(), timedelta(seconds=37))
+    (datetime(1980, 1, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=19)),
+    (datetime(1981, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=20)),
+    (datetime(1982, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=21)),
+    (datetime(1983, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=22)),
+    (datetime(1985, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=23)),
+    (datetime(1988, 1, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=24)),
+    (datetime(1990, 1, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=25)),
+    (datetime(1991, 1, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=26)),
+    (datetime(1992, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=27)),
+    (datetime(1993, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=28)),
+    (datetime(1994, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=29)),
+    (datetime(1996, 1, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=30)),
+    (datetime(1997, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=31)),
+    (datetime(1999, 1, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=32)),
+    (datetime(2006, 1, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=33)),
+    (datetime(2009, 1, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=34)),
+    (datetime(2012, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=35)),
+    (datetime(2015, 7, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=36)),
+    (datetime(2017, 1, 1, tzinfo=timezone.utc).timestamp(), timedelta(seconds=37))
 ]
 
 # reference epoch for GPS and UTC time
-_GPS_EPOCH = datetime(1980, 1, 6)
-_UNIX_EPOCH = datetime(1970, 1, 1)
+_GPS_EPOCH = datetime(1980, 1, 6, tzinfo=timezone.utc)
+_UNIX_EPOCH = datetime(1970, 1, 1, tzinfo=timezone.utc)
 
 # other constants
 _SECONDS_IN_MINUTE = 60
-- 
2.43.0


From 4049d54736da8ab6b3ef9db75b632a1a24151530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:00 +0000
Subject: [PATCH 52/77] fix: gps to utc conversion was one second off in the
 last seconds before a leap second

---
 resippy/utils/time_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resippy/utils/time_utils.py b/resippy/utils/time_utils.py
index f8786e4..a4cc623 100644
--- a/resippy/utils/time_utils.py
+++ b/resippy/utils/time_utils.py
@@ -60,7 +60,9 @@ def utc_timestamp_to_gps_timestamp(utc_timestamp    # type: float
 def gps_timestamp_to_utc_timestamp(gps_timestamp    # type: float
                                    ):               # type: (...) -> float
     utc_timestamp_with_leap = gps_timestamp + (_GPS_EPOCH.timestamp() - _UNIX_EPOCH.timestamp())
-    return utc_timestamp_with_leap - _get_gps_leapsecond_offset(utc_timestamp_with_leap).total_seconds()
+    # the leap seconds that apply are those up to the utc time, which lies before the gps time
+    utc_timestamp = utc_timestamp_with_leap - _get_gps_leapsecond_offset(utc_timestamp_with_leap).total_seconds()
+    return utc_timestamp_with_leap - _get_gps_leapsecond_offset(utc_timestamp).total_seconds()
 
 
 def utc_timestamp_to_gps_week_and_seconds(utc_timestamp     # type: float
-- 
2.43.0


From ce4b5029bc625c25794f7f9bed7b5541696a9047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:23 +0000
Subject: [PATCH 53/77] fix: incomplete lines in exterior orientation files
 shifted the columns of all later records

---
 resippy/photogrammetry/nav/applanix_eo_nav.py | 23 +++++++++++--------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/resippy/photogrammetry/nav/applanix_eo_nav.py b/resippy/photogrammetry/nav/applanix_eo_nav.py
index 0d0c715..bcd2eba 100644
--- a/resippy/photogrammetry/nav/applanix_eo_nav.py
+++ b/resippy/photogrammetry/nav/applanix_eo_nav.py
@@ -27,17 +27,20 @@ class ApplanixEONav(AbstractNav):
                 line_parts = line.split()
 
                 try:
-                    gps_time.append(float(line_parts[1]))
-                    easting.append(float(line_parts[2]))
-                    northing.append(float(line_parts[3]))
-                    height.append(float(line_parts[4]))
-                    omega.append(float(line_parts[5]))
-                    phi.append(float(line_parts[6]))
-                    kappa.append(float(line_parts[7]))
-                    lat.append(float(line_parts[8]))
-                    lon.append(float(line_parts[9]))
+                    values = [float(line_parts[i]) for i in range(1, 10)]
                 except (IndexError, ValueError):
-                    pass
+                    # not a complete record: none of it may be kept
+                    continue
+
+                gps_time.append(values[0])
+                easting.append(values[1])
+                northing.append(values[2])
+                height.append(values[3])
+                omega.append(values[4])
+                phi.append(values[5])
+                kappa.append(values[6])
+                lat.append(values[7])
+                lon.append(values[8])
 
         self._nav_data = {
             'gps_time': np.array(gps_time),
-- 
2.43.0


From 6237805ef209389299f0b7e839e8fe68b5bbf9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:57 +0000
Subject: [PATCH 54/77] fix: the last line of pix4d internal camera parameter
 files was not read

---
 .../earth_overhead_point_calculators/pix4d_point_calc.py        | 2 +-
 resippy/utils/pix4d_utils.py                                    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py
index 6931343..75bec1c 100644
--- a/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py
+++ b/resippy/image_objects/earth_overhead/earth_overhead_point_calculators/pix4d_point_calc.py
@@ -201,7 +201,7 @@ class Pix4dPointCalc(AbstractEarthOverheadPointCalc):
                 new_camera_param_start_locations.append(i)
 
         new_camera_param_end_locations = new_camera_param_start_locations[1:]
-        new_camera_param_end_locations.append(i)
+        new_camera_param_end_locations.append(len(lines))
 
         camera_params_list = []
 
diff --git a/resippy/utils/pix4d_utils.py b/resippy/utils/pix4d_utils.py
index 90acab2..ea57875 100644
--- a/resippy/utils/pix4d_utils.py
+++ b/resippy/utils/pix4d_utils.py
@@ -235,7 +235,7 @@ def read_pix4d_calibrated_internal_camera_parameters(internal_params_cam_file,
             new_camera_param_start_locations.append(i)
 
     new_camera_param_end_locations = new_camera_param_start_locations[1:]
-    new_camera_param_end_locations.append(i)
+    new_camera_param_end_locations.append(len(lines))
 
     camera_params_list = []
 
-- 
2.43.0


From a0f393be8e64c959ae6b17c2204e74fa61a10a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:57 +0000
Subject: [PATCH 55/77] fix: fractional degrees and minutes of image positions
 lost their denominators

---
 .../earth_overhead/micasense/micasense_image.py             | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resippy/image_objects/earth_overhead/micasense/micasense_image.py b/resippy/image_objects/earth_overhead/micasense/micasense_image.py
index b3ae344..fe55fe3 100644
--- a/resippy/image_objects/earth_overhead/micasense/micasense_image.py
+++ b/resippy/image_objects/earth_overhead/micasense/micasense_image.py
@@ -67,10 +67,10 @@ class MicasenseImage(AbstractEarthOverheadImage):
         dms = dms_tag.values
         ref = ref_tag.values
 
-        d = dms[0].num
-        m = dms[1].num
+        d = dms[0].num / dms[0].den
+        m = dms[1].num / dms[1].den
         s = dms[2].num / dms[2].den
 
         sign = -1 if ref == 'S' or ref == 'W' else 1
 
-        return sign * (int(d) + float(m) / 60 + float(s) / 3600)
+        return sign * (d + float(m) / 60 + float(s) / 3600)
-- 
2.43.0


From e2e6f881bb778ea634635f4659c96f9d5dd45483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:14 +0000
Subject: [PATCH 56/77] fix: simulated cameras looked up base maps of another
 CRS at coordinates of the world projection

---
 resippy/utils/physical_camera_simulator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resippy/utils/physical_camera_simulator.py b/resippy/utils/physical_camera_simulator.py
index 4d2cc6d..a1268e1 100644
--- a/resippy/utils/physical_camera_simulator.py
+++ b/resippy/utils/physical_camera_simulator.py
@@ -131,7 +131,8 @@ class PhysicalCameraSimulator:
         gtiff_x_vals, gtiff_y_vals = self._gtiff_image_object.get_point_calculator().lon_lat_alt_to_pixel_x_y(
             pass1_lons,
             pass1_lats,
-            numpy.zeros_like(pass1_lons))
+            numpy.zeros_like(pass1_lons),
+            world_proj=point_calc.get_projection())
 
         if self._gtiff_image_data is None:
             self._gtiff_image_data = self._gtiff_image_object.read_band_from_disk(0)
-- 
2.43.0


From d7d55e51aa41118bc02709fd9f38f97635925110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:25 +0000
Subject: [PATCH 57/77] fix: simulated cameras took exterior orientation angles
 in the units of the boresight

---
 resippy/utils/physical_camera_simulator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resippy/utils/physical_camera_simulator.py b/resippy/utils/physical_camera_simulator.py
index a1268e1..62799e7 100644
--- a/resippy/utils/physical_camera_simulator.py
+++ b/resippy/utils/physical_camera_simulator.py
@@ -90,9 +90,9 @@ class PhysicalCameraSimulator:
                                                                              order=self._boresight_rpy_order)
 
         fixtured_camera.set_fixture_orientation_by_roll_pitch_yaw(roll, pitch, yaw,
-                                                                  roll_units=self._boresight_units,
-                                                                  pitch_units=self._boresight_units,
-                                                                  yaw_units=self._boresight_units)
+                                                                  roll_units=self._external_orientation_rpy_units,
+                                                                  pitch_units=self._external_orientation_rpy_units,
+                                                                  yaw_units=self._external_orientation_rpy_units)
 
         camera_1_m_matrix = fixtured_camera.get_camera_absolute_M_matrix()
         omega, phi, kappa = photogrammetry_utils.solve_for_omega_phi_kappa(camera_1_m_matrix)
-- 
2.43.0


From 0958c90542c0a43f549b6cd1b2a19e80eb346cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:30 +0000
Subject: [PATCH 58/77] fix: ground grids of a single row or column failed

---
 resippy/utils/photogrammetry_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/utils/photogrammetry_utils.py b/resippy/utils/photogrammetry_utils.py
index f2ea33d..937e6ef 100644
--- a/resippy/utils/photogrammetry_utils.py
+++ b/resippy/utils/photogrammetry_utils.py
@@ -59,8 +59,8 @@ def create_ground_grid(min_x,   # type: float
     ground_y_arr = ground_y_arr/npix_y*(max_y - min_y)
     ground_x_arr = ground_x_arr + min_x
     ground_y_arr = ground_y_arr + min_y
-    x_gsd = np.abs(ground_x_arr[0, 1] - ground_x_arr[0, 0])
-    y_gsd = np.abs(ground_y_arr[0, 0] - ground_y_arr[1, 0])
+    x_gsd = np.abs((max_x - min_x)/npix_x)
+    y_gsd = np.abs((max_y - min_y)/npix_y)
     return ground_x_arr + x_gsd/2.0, ground_y_arr - y_gsd/2.0
 
 
-- 
2.43.0


From bd932d0c70054564b0d52f9ca48b08e70aaf4dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:09 +0000
Subject: [PATCH 59/77] fix: files were not found in directories whose names
 contain brackets

---
 resippy/utils/file_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/utils/file_utils.py b/resippy/utils/file_utils.py
index 591d780..d897662 100644
--- a/resippy/utils/file_utils.py
+++ b/resippy/utils/file_utils.py
@@ -33,7 +33,7 @@ def get_all_files_in_dir(directory,                     # type: str
 
     files = []
     for extension in sanitized_extensions:
-        fnames = glob.glob(directory + os.path.sep + "*." + extension)
+        fnames = glob.glob(glob.escape(directory) + os.path.sep + "*." + extension)
         files = files + fnames
     if return_fullpaths:
         return files
-- 
2.43.0


From a5eee64063349e43322acd9c625f3bc5383a4d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:09 +0000
Subject: [PATCH 60/77] fix: folders whose names contain a dot were listed as
 files

---
 resippy/utils/file_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/utils/file_utils.py b/resippy/utils/file_utils.py
index d897662..5df253c 100644
--- a/resippy/utils/file_utils.py
+++ b/resippy/utils/file_utils.py
@@ -34,7 +34,7 @@ def get_all_files_in_dir(directory,                     # type: str
     files = []
     for extension in sanitized_extensions:
         fnames = glob.glob(glob.escape(directory) + os.path.sep + "*." + extension)
-        files = files + fnames
+        files = files + [fname for fname in fnames if os.path.isfile(fname)]
     if return_fullpaths:
         return files
     else:
-- 
2.43.0


From 37f1e4d1ed1dc742c27d0816ed36e464ae23f215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:09 +0000
Subject: [PATCH 61/77] fix: files without an extension were left out of the
 list of all files

---
 resippy/utils/file_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resippy/utils/file_utils.py b/resippy/utils/file_utils.py
index 5df253c..0b96de6 100644
--- a/resippy/utils/file_utils.py
+++ b/resippy/utils/file_utils.py
@@ -27,13 +27,14 @@ def get_all_files_in_dir(directory,                     # type: str
     elif type(extensions) == (type("")):
         sanitized_extensions.append(extensions.replace(".", "").replace("*", ""))
     elif extensions is None:
-        sanitized_extensions.append("*")
+        sanitized_extensions.append(None)
     else:
         raise TypeError("extensions should either be a string or list of strings")
 
     files = []
     for extension in sanitized_extensions:
-        fnames = glob.glob(glob.escape(directory) + os.path.sep + "*." + extension)
+        pattern = "*" if extension is None else "*." + extension
+        fnames = glob.glob(glob.escape(directory) + os.path.sep + pattern)
         files = files + [fname for fname in fnames if os.path.isfile(fname)]
     if return_fullpaths:
         return files
-- 
2.43.0


From edca87796b554f8507afe780687fb34a5a1b7aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:09 +0000
Subject: [PATCH 62/77] fix: files were not found by extensions that contain a
 dot

---
 resippy/utils/file_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/utils/file_utils.py b/resippy/utils/file_utils.py
index 0b96de6..5c16adc 100644
--- a/resippy/utils/file_utils.py
+++ b/resippy/utils/file_utils.py
@@ -23,9 +23,9 @@ def get_all_files_in_dir(directory,                     # type: str
     sanitized_extensions = []
     if type(extensions) == (type([])):
         for extension in extensions:
-            sanitized_extensions.append(extension.replace(".", "").replace("*", ""))
+            sanitized_extensions.append(extension.lstrip("*."))
     elif type(extensions) == (type("")):
-        sanitized_extensions.append(extensions.replace(".", "").replace("*", ""))
+        sanitized_extensions.append(extensions.lstrip("*."))
     elif extensions is None:
         sanitized_extensions.append(None)
     else:
-- 
2.43.0


From 9dffa09d53bdfe5195b216dfb158f5124e56adb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:09 +0000
Subject: [PATCH 63/77] fix: empty lists of text could not be written to a file

---
 resippy/utils/file_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resippy/utils/file_utils.py b/resippy/utils/file_utils.py
index 5c16adc..46af8fe 100644
--- a/resippy/utils/file_utils.py
+++ b/resippy/utils/file_utils.py
@@ -79,7 +79,8 @@ def write_text_list_to_file(text_list,  # type: list
                             output_fname,  # type: str
                             ):              # type: (...) -> None
     text_list_with_newlines = [entry + '\n' for entry in text_list]
-    text_list_with_newlines[-1] = text_list[-1]
+    if text_list:
+        text_list_with_newlines[-1] = text_list[-1]
     with open(output_fname, 'w') as f:
         f.writelines(text_list_with_newlines)
 
-- 
2.43.0


From 8814d53145b88ec4baeddd2f7ad7c6586018566f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:09 +0000
Subject: [PATCH 64/77] fix: tables without rows or with a blank last line
 could not be read

---
 resippy/utils/csv_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/utils/csv_utils.py b/resippy/utils/csv_utils.py
index ff125e2..d8c51bb 100644
--- a/resippy/utils/csv_utils.py
+++ b/resippy/utils/csv_utils.py
@@ -13,8 +13,8 @@ class CsvUtils:
         with open(fname) as f:
             reader = csv.reader(f, delimiter=delimiter)
             header = next(reader) # skip header
-            data = [row for row in reader]
-            data = np.asarray(data)
+            data = [row for row in reader if row]
+            data = np.asarray(data, dtype=str).reshape((-1, len(header)))
         csv_dict = {}
         for i, header_name in enumerate(header):
             csv_dict[header_name] = data[:, i]
-- 
2.43.0


From f845a075bfbb609096156878ab1ea6fe139703dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:09 +0000
Subject: [PATCH 65/77] fix: lists of values of different types were converted
 to one type

---
 resippy/utils/numpy_and_array_utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/resippy/utils/numpy_and_array_utils.py b/resippy/utils/numpy_and_array_utils.py
index 77f7b3a..1219a38 100644
--- a/resippy/utils/numpy_and_array_utils.py
+++ b/resippy/utils/numpy_and_array_utils.py
@@ -1,17 +1,16 @@
-import numpy as np
 from numpy import ndarray
 from typing import Any
 
 
 def list_of_tuples_to_separate_lists(tuples,        # type: list
                                      ):             # type: (...) -> list
-    return np.array(tuples).transpose().tolist()
+    return [list(entry) for entry in zip(*tuples)]
 
 
 def separate_lists_to_list_of_tuples(lists,         # type: list
                                      ):             # type: (...) -> list
     list_of_tuples = []
-    for entry in np.transpose(lists):
+    for entry in zip(*lists):
         list_of_tuples.append(tuple(entry))
     return list_of_tuples
 
-- 
2.43.0


From 37eb1f5a232257b3fed27b246bfd97b1321d09e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:24 +0000
Subject: [PATCH 66/77] fix: the histograms of float32 images binned values
 differently than their joint histogram

---
 resippy/utils/image_utils/image_registration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/utils/image_utils/image_registration.py b/resippy/utils/image_utils/image_registration.py
index e4b2d1a..06a7cf0 100644
--- a/resippy/utils/image_utils/image_registration.py
+++ b/resippy/utils/image_utils/image_registration.py
@@ -15,9 +15,9 @@ class MMI:
 
         image1_flat = greyscale_image_1.ravel()
         image2_flat = greyscale_image_2.ravel()
-        hist1 = np.histogram(image1_flat, bins=nbins)[0]
-        hist2 = np.histogram(image2_flat, bins=nbins)[0]
         joint_histogram = np.histogram2d(image1_flat, image2_flat, bins=nbins)[0]
+        hist1 = joint_histogram.sum(axis=1)
+        hist2 = joint_histogram.sum(axis=0)
         mmi = cls._histogram_mmi(hist1, hist2, joint_histogram)
         return mmi
 
-- 
2.43.0


From 5dcdcd9b939d8a00c8e6805994e710b9da66b5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:42 +0000
Subject: [PATCH 67/77] fix: image chips to be scored were resized with
 scipy.misc.imresize, which no longer exists

---
 .../neural_net_model_scoring/keras_image_scoring.py           | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py b/resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py
index 5e04b8e..ab7fddb 100644
--- a/resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py
+++ b/resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py
@@ -1,7 +1,7 @@
 import numpy as np
 import resippy.utils.image_utils.image_chipper as image_chipper
 from keras.preprocessing.image import img_to_array
-import scipy.misc as scipy_misc
+import resippy.utils.image_utils.image_utils as image_utils
 from keras.models import Model
 
 
@@ -33,7 +33,7 @@ def chip_and_score_image(input_image,               # type: np.ndarray
 
     n_chips = len(image_chips)
     for i, chip in enumerate(image_chips):
-        chip = scipy_misc.imresize(chip, (target_chip_size_y, target_chip_size_x))
+        chip = image_utils.resize_image(chip, target_chip_size_y, target_chip_size_x)
         chip = img_to_array(chip)  # shape is (ny, nx, 3)
         chip = np.expand_dims(chip, axis=0)  # Now shape is (1 ,ny, nx, 3)
         if normalize_method == "divide_by_255":
-- 
2.43.0


From 9579db099d84de3dfa0a58263681019b4cfd43a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:42 +0000
Subject: [PATCH 68/77] fix: images could not be scored without a ledger

---
 .../neural_net_model_scoring/keras_image_scoring.py            | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py b/resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py
index ab7fddb..983827e 100644
--- a/resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py
+++ b/resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py
@@ -43,7 +43,8 @@ def chip_and_score_image(input_image,               # type: np.ndarray
 
         preds = trained_keras_model.predict(chip)
         scores.append(preds)
-        atk_chain_ledger.set_status('scoring image chips', (i / n_chips) * 100)
+        if atk_chain_ledger is not None:
+            atk_chain_ledger.set_status('scoring image chips', (i / n_chips) * 100)
 
     scores = np.squeeze(np.array(scores))
     if labels is not None and thing_to_find is not None:
-- 
2.43.0


From a71900f3155d213f80c449a8146134e3cf4c2dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:42 +0000
Subject: [PATCH 69/77] fix: the score of a label could not be asked for if an
 image is a single chip

---
 .../neural_net_model_scoring/keras_image_scoring.py             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py b/resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py
index 983827e..7025dcf 100644
--- a/resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py
+++ b/resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py
@@ -49,5 +49,5 @@ def chip_and_score_image(input_image,               # type: np.ndarray
     scores = np.squeeze(np.array(scores))
     if labels is not None and thing_to_find is not None:
         thing_to_find_index = labels.index(thing_to_find)
-        scores = scores[:, thing_to_find_index]
+        scores = np.reshape(scores, (n_chips, len(labels)))[:, thing_to_find_index]
     return scores, upper_left_yx_locs
-- 
2.43.0


From 6b4f1bf2d76c295553a9696cf718863243f034f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:08 +0000
Subject: [PATCH 70/77] fix: warping an image that was itself warped without a
 file name overwrote its own source

---
 resippy/image_objects/earth_overhead/geotiff/geotiff_image.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
index 43503e4..0014de4 100644
--- a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
+++ b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
@@ -158,7 +158,8 @@ class GeotiffImage(AbstractEarthOverheadImage):
                 dst_fname = "/vsimem/" + uuid.uuid4().hex + ".tif"
 
         if dst_fname is None:
-            dst_fname="/vsimem/tmp_gdalwarp_geotiff.vrt"
+            # a name of its own: the source may itself be such a VRT, which refers to its source by name
+            dst_fname = "/vsimem/" + uuid.uuid4().hex + ".vrt"
 
         dst_dataset = gdal.Warp(dst_fname, src_dataset, options=warp_ops)
         src_dataset = None
-- 
2.43.0


From 5dcd763124437e1e6ee7d5e92ca1177e0d49b3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:51 +0000
Subject: [PATCH 71/77] fix: a rotation matrix of an unknown order was all
 zeros

---
 resippy/utils/photogrammetry_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resippy/utils/photogrammetry_utils.py b/resippy/utils/photogrammetry_utils.py
index 937e6ef..343ba89 100644
--- a/resippy/utils/photogrammetry_utils.py
+++ b/resippy/utils/photogrammetry_utils.py
@@ -160,6 +160,8 @@ def create_M_matrix(omega_radians,      # type: float
             m_matrix = m_phi @ m_omega @ m_kappa
         elif order == 'ypr':
             m_matrix = m_omega @ m_phi @ m_kappa
+        else:
+            raise ValueError("rotation order not supported: " + str(order))
 
         return m_matrix
 
-- 
2.43.0


From badd6dd96bd073b9ae6abbfe5707c92989dd7a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:05 +0000
Subject: [PATCH 72/77] fix: the angles recovered from a rotation by phi = +-90
 degrees did not reproduce it

---
 resippy/utils/photogrammetry_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resippy/utils/photogrammetry_utils.py b/resippy/utils/photogrammetry_utils.py
index 343ba89..d9c0b4c 100644
--- a/resippy/utils/photogrammetry_utils.py
+++ b/resippy/utils/photogrammetry_utils.py
@@ -185,6 +185,10 @@ def solve_for_omega_phi_kappa(m_matrix,  # type: ndarray
     phi = np.arcsin(np.clip(m31, -1.0, 1.0))
     kappa = np.arctan2(-m21, m11)
     omega = np.arctan2(-m32, m33)
+    if np.hypot(m11, m21) < 1e-8:
+        # looking along the phi axis only a combination of omega and kappa is known: call all of it kappa
+        omega = 0.0
+        kappa = np.arctan2(m_matrix[0, 1], m_matrix[1, 1])
 
     return omega, phi, kappa
 
-- 
2.43.0


From 87a909f26d413e18ac6a8f61d9af0733a6ff3aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:05 +0000
Subject: [PATCH 73/77] fix: images of 64 bit integers with a no-data value
 could not be written

---
 .../earth_overhead/geotiff/geotiff_image.py           | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
index 0014de4..f133611 100644
--- a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
+++ b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
@@ -100,6 +100,13 @@ class GeotiffImage(AbstractEarthOverheadImage):
         band = self._dset.GetRasterBand(band_number + 1)
         return band.ReadAsArray()
 
+    def _get_gdal_nodata_val(self):  # type: (...) -> float
+        nodata_val = self.get_metadata().get_nodata_val()
+        # 64 bit integer bands only take integers
+        if gdal.GetDataTypeName(self.get_metadata().get_gdal_datatype()) in ("Int64", "UInt64"):
+            return int(nodata_val)
+        return float(nodata_val)
+
     def get_gdal_mem_datset(self):  # type: (...) -> gdal.Dataset
         driver = gdal.GetDriverByName('MEM')
         dtype = self.get_metadata().get_gdal_datatype()
@@ -117,7 +124,7 @@ class GeotiffImage(AbstractEarthOverheadImage):
         for band in range(self.get_metadata().get_n_bands()):
             dataset.GetRasterBand(band + 1).WriteArray(self.get_image_band(band))
             if self.get_metadata().get_nodata_val() is not None:
-                dataset.GetRasterBand(band + 1).SetNoDataValue(float(self.get_metadata().get_nodata_val()))
+                dataset.GetRasterBand(band + 1).SetNoDataValue(self._get_gdal_nodata_val())
         return dataset
 
     def write_to_disk(self,
@@ -141,7 +148,7 @@ class GeotiffImage(AbstractEarthOverheadImage):
         for band in range(self.get_metadata().get_n_bands()):
             dataset.GetRasterBand(band + 1).WriteArray(self.get_image_band(band))
             if self.get_metadata().get_nodata_val() is not None:
-                dataset.GetRasterBand(band + 1).SetNoDataValue(float(self.get_metadata().get_nodata_val()))
+                dataset.GetRasterBand(band + 1).SetNoDataValue(self._get_gdal_nodata_val())
         dataset.FlushCache()
         dataset = None
 
-- 
2.43.0


From 501a2d3623bf2c787fa265b04f8b26492c259dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:05 +0000
Subject: [PATCH 74/77] fix: writing an image to the file it was opened from
 destroyed its pixels

---
 .../image_objects/earth_overhead/geotiff/geotiff_image.py    | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
index f133611..8b1d10f 100644
--- a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
+++ b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
@@ -131,6 +131,9 @@ class GeotiffImage(AbstractEarthOverheadImage):
                       fname,  # type: str
                       compression="LZW"  # type: str
                       ):  # type: (...) -> None
+        # read before the file is created, which may be the one the image comes from
+        if self.get_image_data() is None:
+            self.set_image_data(self.read_all_image_data_from_disk())
         driver = gdal.GetDriverByName('GTiff')
         dtype = self.get_metadata().get_gdal_datatype()
         ops = ['COMPRESS=' + compression, "INTERLEAVE=BAND", "TILED=YES"]
@@ -143,8 +146,6 @@ class GeotiffImage(AbstractEarthOverheadImage):
             ops)
         dataset.SetGeoTransform(self.get_point_calculator().get_geot())
         dataset.SetProjection(self.get_point_calculator().get_gdal_projection_wkt())
-        if self.get_image_data() is None:
-            self.set_image_data(self.read_all_image_data_from_disk())
         for band in range(self.get_metadata().get_n_bands()):
             dataset.GetRasterBand(band + 1).WriteArray(self.get_image_band(band))
             if self.get_metadata().get_nodata_val() is not None:
-- 
2.43.0


From 846b6888c77c97a5eff4b893f59a5c76f3fc136d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:05 +0000
Subject: [PATCH 75/77] fix: warping an image ignored changes made to its
 pixels in memory

---
 resippy/image_objects/earth_overhead/geotiff/geotiff_image.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
index 8b1d10f..d0788df 100644
--- a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
+++ b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
@@ -159,7 +159,8 @@ class GeotiffImage(AbstractEarthOverheadImage):
                                dst_fname=None,  # type: str
                                ):               # type: (...) -> GeotiffImage
         src_dataset = image.get_dset()
-        if src_dataset is None:
+        if src_dataset is None or image.get_image_data() is not None:
+            # pixels in memory may have been edited since they were read
             src_dataset = image.get_gdal_mem_datset()
             if dst_fname is None:
                 # a VRT would only refer to the in-memory source dataset, which cannot be opened by name
-- 
2.43.0


From dacb055f2bd19eb052c3c48de3581fa812d40458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:43 +0000
Subject: [PATCH 76/77] fix: create_map_tiles always failed, it did not pass
 the image to the reprojection

---
 .../image_objects/earth_overhead/geotiff/geotiff_image.py   | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
index d0788df..bdc72e2 100644
--- a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
+++ b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
@@ -195,11 +195,11 @@ class GeotiffImage(AbstractEarthOverheadImage):
     def create_map_tiles(self, out_dir, gdalwarp_ops=None):
         # keep this import statement in here until all OS / pip related issues with installing gdal2tiles are resolved.
         import gdal2tiles
-        tmp_filename = "/tmp/tmp_gdalwarp.tif"
         gdal_warp_options = gdal.WarpOptions(dstSRS="EPSG:3857")
-        mem_fname = "/vsimem/tmp_gdalwarp_geotiff.vrt"
-        gtiff_3857 = self.gdalwarp_geotiff_image(gdal_warp_options, dst_fname=mem_fname) # type: GeotiffImage
+        mem_fname = "/vsimem/" + uuid.uuid4().hex + ".tif"
+        self.gdalwarp_geotiff_image(self, gdal_warp_options, dst_fname=mem_fname)
         gdal2tiles.generate_tiles(mem_fname, out_dir)
+        gdal.Unlink(mem_fname)
 
     def close_image(self):  # type: (...) -> None
         self._dset = None
-- 
2.43.0


From d89fbbde65aeb8cf2ea285b4fc0c39117a59d2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:17 +0000
Subject: [PATCH 77/77] fix: write GeoTIFF no-data values before the pixels, so
 that uncompressed bands of zeros stay zero

---
 resippy/image_objects/earth_overhead/geotiff/geotiff_image.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
index bdc72e2..df7aa25 100644
--- a/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
+++ b/resippy/image_objects/earth_overhead/geotiff/geotiff_image.py
@@ -147,9 +147,10 @@ class GeotiffImage(AbstractEarthOverheadImage):
         dataset.SetGeoTransform(self.get_point_calculator().get_geot())
         dataset.SetProjection(self.get_point_calculator().get_gdal_projection_wkt())
         for band in range(self.get_metadata().get_n_bands()):
-            dataset.GetRasterBand(band + 1).WriteArray(self.get_image_band(band))
+            # before the pixels: an uncompressed band of zeros is otherwise left out and read as no-data
             if self.get_metadata().get_nodata_val() is not None:
                 dataset.GetRasterBand(band + 1).SetNoDataValue(self._get_gdal_nodata_val())
+            dataset.GetRasterBand(band + 1).WriteArray(self.get_image_band(band))
         dataset.FlushCache()
         dataset = None
 
-- 
2.43.0

