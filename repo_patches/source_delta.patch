From 5f4ebd1c0ef746c91c4b18c89a9309cff7935703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:48 +0000
Subject: [PATCH 01/41] fix: unlabelled (0) pixels no longer count as the last
 land-cover class in sample quotas

---
 src/python/pycold/pyclassifier.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/pycold/pyclassifier.py b/src/python/pycold/pyclassifier.py
index 010b10f..b657682 100644
--- a/src/python/pycold/pyclassifier.py
+++ b/src/python/pycold/pyclassifier.py
@@ -113,7 +113,8 @@ def generate_sample_num(label, sample_parameters):
 
     """
     unique_category, unique_counts_category = np.unique(
-        label[label <= sample_parameters["total_landcover_category"]], return_counts=True
+        label[(label >= 1) & (label <= sample_parameters["total_landcover_category"])],
+        return_counts=True,
     )
     counts_category = np.array([0] * sample_parameters["total_landcover_category"])
     for x in range(len(unique_counts_category)):
-- 
2.43.0


From e3420f1935eb006819e3993283b4610c159223ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:32 +0000
Subject: [PATCH 02/41] fix: change-magnitude blocks are read by their column
 in the block grid, not by its height

---
 src/python/pycold/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/utils.py b/src/python/pycold/utils.py
index 2be7943..bbe763d 100644
--- a/src/python/pycold/utils.py
+++ b/src/python/pycold/utils.py
@@ -124,7 +124,7 @@ def assemble_cmmaps(
     ]
     for iblock in range(dataset_info.nblocks):
         current_block_y = int(np.floor(iblock / dataset_info.n_block_x)) + 1
-        current_block_x = iblock % dataset_info.n_block_y + 1
+        current_block_x = iblock % dataset_info.n_block_x + 1
         try:
             cm_block = np.load(
                 join(result_path, "{}_x{}_y{}.npy".format(prefix, current_block_x, current_block_y))
-- 
2.43.0


From 55f43254d082e33352880c897277b241e88196c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:46 +0000
Subject: [PATCH 03/41] fix: block results are assembled by the number of block
 rows, so non-square grids keep their shape

---
 src/python/pycold/imagetool/export_change_map.py | 4 ++--
 src/python/pycold/utils.py                       | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/python/pycold/imagetool/export_change_map.py b/src/python/pycold/imagetool/export_change_map.py
index a6c5353..662acbc 100644
--- a/src/python/pycold/imagetool/export_change_map.py
+++ b/src/python/pycold/imagetool/export_change_map.py
@@ -578,7 +578,7 @@ def main(
             ]
 
             results = np.hstack(tmp_map_blocks)
-            results = np.vstack(np.hsplit(results, config["n_block_x"]))
+            results = np.vstack(np.hsplit(results, config["n_block_y"]))
 
             for x in range(config["n_blocks"]):
                 os.remove(os.path.join(out_path, "tmp_map_block{}_{}.npy".format(x + 1, year)))
@@ -604,7 +604,7 @@ def main(
                 ]
 
                 results = np.hstack(tmp_map_blocks)
-                results = np.vstack(np.hsplit(results, config["n_block_x"]))
+                results = np.vstack(np.hsplit(results, config["n_block_y"]))
                 ninput = 0
                 for band_idx, band_name in enumerate(coefs_bands):
                     for coef_index, coef in enumerate(coefs):
diff --git a/src/python/pycold/utils.py b/src/python/pycold/utils.py
index bbe763d..2a78160 100644
--- a/src/python/pycold/utils.py
+++ b/src/python/pycold/utils.py
@@ -312,7 +312,7 @@ def assemble_array(array_list, n_block_x):
     """
     full_feature_array = np.hstack(array_list)
     full_feature_array = np.vstack(
-        np.hsplit(full_feature_array, n_block_x)
+        np.hsplit(full_feature_array, len(array_list) // n_block_x)
     )  # (nrows, ncols, nfeatures)
     return full_feature_array
 
-- 
2.43.0


From c3b55a798196d2b9502f9c8be921565e7a83ae8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:46 +0000
Subject: [PATCH 04/41] fix: GeoTIFFs are created with (columns, rows), so
 non-square tiles can be written

---
 src/python/pycold/imagetool/export_change_map.py | 8 ++++----
 src/python/pycold/utils.py                       | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/python/pycold/imagetool/export_change_map.py b/src/python/pycold/imagetool/export_change_map.py
index 662acbc..807de01 100644
--- a/src/python/pycold/imagetool/export_change_map.py
+++ b/src/python/pycold/imagetool/export_change_map.py
@@ -586,7 +586,7 @@ def main(
             outname = "{}_{}.tif".format(mode_string, method)
             outfile = os.path.join(out_path, outname)
             outdriver1 = gdal.GetDriverByName("GTiff")
-            outdata = outdriver1.Create(outfile, rows, cols, 1, gdal.GDT_Int16)
+            outdata = outdriver1.Create(outfile, cols, rows, 1, gdal.GDT_Int16)
             outdata.GetRasterBand(1).WriteArray(results)
             outdata.FlushCache()
             outdata.SetGeoTransform(trans)
@@ -612,7 +612,7 @@ def main(
                         outname = "{}_{}_{}_{}.tif".format(mode_string, method, band_name, coef)
                         outfile = os.path.join(out_path, outname)
                         outdriver1 = gdal.GetDriverByName("GTiff")
-                        outdata = outdriver1.Create(outfile, rows, cols, 1, gdal.GDT_Float32)
+                        outdata = outdriver1.Create(outfile, cols, rows, 1, gdal.GDT_Float32)
                         outdata.GetRasterBand(1).WriteArray(results[:, :, ninput])
                         outdata.FlushCache()
                         outdata.SetGeoTransform(trans)
@@ -637,7 +637,7 @@ def main(
         outname = "{}_{}.tif".format(mode_string, method)
         outfile = os.path.join(out_path, outname)
         outdriver1 = gdal.GetDriverByName("GTiff")
-        outdata = outdriver1.Create(outfile, rows, cols, 1, gdal.GDT_Int16)
+        outdata = outdriver1.Create(outfile, cols, rows, 1, gdal.GDT_Int16)
         outdata.GetRasterBand(1).WriteArray(recent_dist)
         outdata.FlushCache()
         outdata.SetGeoTransform(trans)
@@ -655,7 +655,7 @@ def main(
         outname = "{}_{}.tif".format(mode_string, method)
         outfile = os.path.join(out_path, outname)
         outdriver1 = gdal.GetDriverByName("GTiff")
-        outdata = outdriver1.Create(outfile, rows, cols, 1, gdal.GDT_Int16)
+        outdata = outdriver1.Create(outfile, cols, rows, 1, gdal.GDT_Int16)
         outdata.GetRasterBand(1).WriteArray(first_dist)
         outdata.FlushCache()
         outdata.SetGeoTransform(trans)
diff --git a/src/python/pycold/utils.py b/src/python/pycold/utils.py
index 2a78160..6c58b29 100644
--- a/src/python/pycold/utils.py
+++ b/src/python/pycold/utils.py
@@ -523,7 +523,7 @@ def generate_rowcolimage(ref_image_path, out_path):
     index = (i + 1) * 10000 + j + 1
 
     outdriver1 = gdal.GetDriverByName("GTiff")
-    outdata = outdriver1.Create(out_path, rows, cols, 1, gdal.GDT_Int32)
+    outdata = outdriver1.Create(out_path, cols, rows, 1, gdal.GDT_Int32)
     outdata.GetRasterBand(1).WriteArray(index)
     outdata.FlushCache()
     outdata.SetGeoTransform(trans)
-- 
2.43.0


From 2c43afa2fa9554762b4447e91711289b523af3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:46 +0000
Subject: [PATCH 05/41] fix: object-based reconstruction reads a block with the
 block's own pixel count

---
 src/python/pycold/ob_analyst.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/python/pycold/ob_analyst.py b/src/python/pycold/ob_analyst.py
index 7cb1b7b..6bca1fc 100644
--- a/src/python/pycold/ob_analyst.py
+++ b/src/python/pycold/ob_analyst.py
@@ -1106,7 +1106,9 @@ class ObjectAnalystHPC:
         if img_stack is None and img_dates_sorted is None:
             block_folder = join(self.stack_path, "block_x{}_y{}".format(block_x, block_y))
             img_stack, img_dates_sorted = read_blockdata(
-                block_folder, self.dataset_info.n_cols * self.dataset_info.n_rows, self.band_num + 1
+                block_folder,
+                self.dataset_info.block_width * self.dataset_info.block_height,
+                self.band_num + 1,
             )
         obia_breaks = self.get_allobiaresult_asarray(block_x, block_y)
         result_collect = []
-- 
2.43.0


From 58b54cbc3a8f3bbef647da8c2f669a57cb57033f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:59 +0000
Subject: [PATCH 06/41] fix: calendar dates become ordinals without pandas'
 Timestamp.toordinal, which refuses plain dates

---
 src/python/pycold/imagetool/export_change_map.py | 6 +++---
 src/python/pycold/utils.py                       | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/python/pycold/imagetool/export_change_map.py b/src/python/pycold/imagetool/export_change_map.py
index 807de01..c0799ea 100644
--- a/src/python/pycold/imagetool/export_change_map.py
+++ b/src/python/pycold/imagetool/export_change_map.py
@@ -477,7 +477,7 @@ def main(
                     results_block[break_year - year_lowbound][i_row][i_col] = (
                         current_dist_type * 1000
                         + curve["t_break"]
-                        - (pd.Timestamp.toordinal(datetime.date(break_year, 1, 1)))
+                        - (datetime.date(break_year, 1, 1).toordinal())
                         + 1
                     )
         else:
@@ -486,7 +486,7 @@ def main(
             current_dist_type = 0
             year_list_to_predict = list(range(year_lowbound, year_uppbound + 1))
             ordinal_day_list = [
-                pd.Timestamp.toordinal(datetime.date(year, 7, 1)) for year in year_list_to_predict
+                datetime.date(year, 7, 1).toordinal() for year in year_list_to_predict
             ]
             for count, curve in enumerate(cold_block):
                 if curve["pos"] != current_processing_pos:
@@ -527,7 +527,7 @@ def main(
                 results_block[break_year - year_lowbound][i_row][i_col] = (
                     current_dist_type * 1000
                     + curve["t_break"]
-                    - (pd.Timestamp.toordinal(datetime.date(break_year, 1, 1)))
+                    - (datetime.date(break_year, 1, 1).toordinal())
                     + 1
                 )
                 # e.g., 1315 means that disturbance happens at doy of 315
diff --git a/src/python/pycold/utils.py b/src/python/pycold/utils.py
index 6c58b29..7922c54 100644
--- a/src/python/pycold/utils.py
+++ b/src/python/pycold/utils.py
@@ -350,7 +350,7 @@ def read_data(path):
 
 
 def date2matordinal(year, month, day):
-    return pd.Timestamp.toordinal(dt.date(year, month, day))
+    return dt.date(year, month, day).toordinal()
 
 
 def matordinal2date(ordinal):
-- 
2.43.0


From a8264c6de3d830aafe60a4d152cdc5c2aac09c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:22 +0000
Subject: [PATCH 07/41] fix: afforestation is decided by the next segment of
 the same pixel only

---
 src/python/pycold/imagetool/export_change_map.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/python/pycold/imagetool/export_change_map.py b/src/python/pycold/imagetool/export_change_map.py
index c0799ea..0eaae88 100644
--- a/src/python/pycold/imagetool/export_change_map.py
+++ b/src/python/pycold/imagetool/export_change_map.py
@@ -198,7 +198,9 @@ def getcategory_cold(cold_plot, i_curve):
         and cold_plot[i_curve]["magnitude"][4] < -t_c
     ):
         if (
-            cold_plot[i_curve + 1]["coefs"][3, 1] > np.abs(cold_plot[i_curve]["coefs"][3, 1])
+            i_curve + 1 < len(cold_plot)
+            and cold_plot[i_curve + 1]["pos"] == cold_plot[i_curve]["pos"]
+            and cold_plot[i_curve + 1]["coefs"][3, 1] > np.abs(cold_plot[i_curve]["coefs"][3, 1])
             and cold_plot[i_curve + 1]["coefs"][2, 1] < -np.abs(cold_plot[i_curve]["coefs"][2, 1])
             and cold_plot[i_curve + 1]["coefs"][4, 1] < -np.abs(cold_plot[i_curve]["coefs"][4, 1])
         ):
@@ -217,7 +219,9 @@ def getcategory_obcold(cold_plot, i_curve, last_dist_type):
         and cold_plot[i_curve]["magnitude"][4] < -t_c
     ):
         if (
-            cold_plot[i_curve + 1]["coefs"][3, 1] > np.abs(cold_plot[i_curve]["coefs"][3, 1])
+            i_curve + 1 < len(cold_plot)
+            and cold_plot[i_curve + 1]["pos"] == cold_plot[i_curve]["pos"]
+            and cold_plot[i_curve + 1]["coefs"][3, 1] > np.abs(cold_plot[i_curve]["coefs"][3, 1])
             and cold_plot[i_curve + 1]["coefs"][2, 1] < -np.abs(cold_plot[i_curve]["coefs"][2, 1])
             and cold_plot[i_curve + 1]["coefs"][4, 1] < -np.abs(cold_plot[i_curve]["coefs"][4, 1])
         ):
-- 
2.43.0


From 5bb03ee13388760ff1d8db590fe6591ae9ba0a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:22 +0000
Subject: [PATCH 08/41] fix: a break in the last record of a block is exported

---
 src/python/pycold/imagetool/export_change_map.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/python/pycold/imagetool/export_change_map.py b/src/python/pycold/imagetool/export_change_map.py
index 0eaae88..988aaf2 100644
--- a/src/python/pycold/imagetool/export_change_map.py
+++ b/src/python/pycold/imagetool/export_change_map.py
@@ -497,11 +497,7 @@ def main(
                     current_processing_pos = curve["pos"]
                     current_dist_type = 0
 
-                if (
-                    curve["change_prob"] < 100
-                    or curve["t_break"] == 0
-                    or count == (len(cold_block) - 1)
-                ):  # last segment
+                if curve["change_prob"] < 100 or curve["t_break"] == 0:  # last segment
                     continue
 
                 i_col = (
-- 
2.43.0


From d2acd623449c4899f9892a0b4eb7cbd5c10a2b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:22 +0000
Subject: [PATCH 09/41] fix: S-CCD breaks of the last pixel of a block are
 exported

---
 src/python/pycold/imagetool/export_change_map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/imagetool/export_change_map.py b/src/python/pycold/imagetool/export_change_map.py
index 988aaf2..5d9b696 100644
--- a/src/python/pycold/imagetool/export_change_map.py
+++ b/src/python/pycold/imagetool/export_change_map.py
@@ -456,7 +456,7 @@ def main(
         if method == "SCCDOFFLINE":
             for count, plot in enumerate(cold_block):
                 for i_count, curve in enumerate(plot.rec_cg):
-                    if curve["t_break"] == 0 or count == (len(cold_block) - 1):  # last segment
+                    if curve["t_break"] == 0:  # last segment
                         continue
 
                     i_col = (
-- 
2.43.0


From c54ad30a82cacad2b0d6b2ffbdf956a70a26d80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:22 +0000
Subject: [PATCH 10/41] fix: S-CCD break maps are written like those of the
 other methods

---
 .../pycold/imagetool/export_change_map.py      | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/python/pycold/imagetool/export_change_map.py b/src/python/pycold/imagetool/export_change_map.py
index 5d9b696..064cfdb 100644
--- a/src/python/pycold/imagetool/export_change_map.py
+++ b/src/python/pycold/imagetool/export_change_map.py
@@ -556,15 +556,15 @@ def main(
                                 :
                             ] = feature_row[index]
 
-            # save the temp dataset out
-            for year in range(year_lowbound, year_uppbound + 1):
-                outfile = os.path.join(out_path, "tmp_map_block{}_{}.npy".format(iblock + 1, year))
-                np.save(outfile, results_block[year - year_lowbound])
-                if coefs is not None:
-                    outfile = os.path.join(
-                        out_path, "tmp_coefmap_block{}_{}.npy".format(iblock + 1, year)
-                    )
-                    np.save(outfile, results_block_coefs[:, :, :, year - year_lowbound])
+        # save the temp dataset out
+        for year in range(year_lowbound, year_uppbound + 1):
+            outfile = os.path.join(out_path, "tmp_map_block{}_{}.npy".format(iblock + 1, year))
+            np.save(outfile, results_block[year - year_lowbound])
+            if coefs is not None:
+                outfile = os.path.join(
+                    out_path, "tmp_coefmap_block{}_{}.npy".format(iblock + 1, year)
+                )
+                np.save(outfile, results_block_coefs[:, :, :, year - year_lowbound])
 
     # wait for all processes
     comm.Barrier()
-- 
2.43.0


From 69cd14328459df02165445419dea7081691d5059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:38 +0000
Subject: [PATCH 11/41] fix: the export tool restores S-CCD models with the
 fields they are saved with

---
 src/python/pycold/imagetool/export_change_map.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/python/pycold/imagetool/export_change_map.py b/src/python/pycold/imagetool/export_change_map.py
index 064cfdb..0102086 100644
--- a/src/python/pycold/imagetool/export_change_map.py
+++ b/src/python/pycold/imagetool/export_change_map.py
@@ -32,14 +32,15 @@ output_nrtmodel = np.dtype(
     [
         ("t_start_since1982", np.short),
         ("num_obs", np.short),
-        ("obs", np.short, (6, 5)),
-        ("obs_date_since1982", np.short, 5),
+        ("obs", np.short, (6, 8)),
+        ("obs_date_since1982", np.short, 8),
         ("covariance", np.float32, (6, 36)),
-        ("nrt_coefPs", np.float32, (6, 6)),
+        ("nrt_coefs", np.float32, (6, 6)),
         ("H", np.float32, 6),
         ("rmse_sum", np.uint32, 6),
-        ("cm_outputs", np.short),
-        ("cm_outputs_date", np.short),
+        ("norm_cm", np.short),
+        ("cm_angle", np.short),
+        ("conse_last", np.ubyte),
     ],
     align=True,
 )
-- 
2.43.0


From 9b5bb107df821c59aeba9c762b0beec378de98ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:38 +0000
Subject: [PATCH 12/41] fix: coefficient maps can be exported when a block has
 no record file

---
 src/python/pycold/imagetool/export_change_map.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/python/pycold/imagetool/export_change_map.py b/src/python/pycold/imagetool/export_change_map.py
index 0102086..410a86a 100644
--- a/src/python/pycold/imagetool/export_change_map.py
+++ b/src/python/pycold/imagetool/export_change_map.py
@@ -435,6 +435,11 @@ def main(
             for year in range(year_lowbound, year_uppbound + 1):
                 outfile = os.path.join(out_path, "tmp_map_block{}_{}.npy".format(iblock + 1, year))
                 np.save(outfile, results_block[year - year_lowbound])
+                if coefs is not None:
+                    outfile = os.path.join(
+                        out_path, "tmp_coefmap_block{}_{}.npy".format(iblock + 1, year)
+                    )
+                    np.save(outfile, results_block_coefs[:, :, :, year - year_lowbound])
             continue
         if method == "SCCDOFFLINE":
             file = open(os.path.join(reccg_path, filename), "rb")
-- 
2.43.0


From 0f2341367653b739365d24f066bb6e257aef738a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:42 +0000
Subject: [PATCH 13/41] fix: the thermal series is checked to be
 one-dimensional like the others

---
 src/python/pycold/colds.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/python/pycold/colds.py b/src/python/pycold/colds.py
index 14bdd61..e7c853c 100644
--- a/src/python/pycold/colds.py
+++ b/src/python/pycold/colds.py
@@ -79,6 +79,7 @@ def _validate_data(dates, ts_b, ts_g, ts_r, ts_n, ts_s1, ts_s2, ts_t, qas, break
     check_1d(ts_n, "ts_n")
     check_1d(ts_s1, "ts_s1")
     check_1d(ts_s2, "ts_s2")
+    check_1d(ts_t, "ts_t")
     check_1d(qas, "qas")
     if break_dates is not None:
         check_1d(break_dates, "break_dates")
-- 
2.43.0


From 409af0940602f366a392c645a4bace5e8634ddca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:42 +0000
Subject: [PATCH 14/41] fix: a negative output interval for change magnitudes
 is rejected

---
 src/python/pycold/colds.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/python/pycold/colds.py b/src/python/pycold/colds.py
index e7c853c..e5bde21 100644
--- a/src/python/pycold/colds.py
+++ b/src/python/pycold/colds.py
@@ -17,6 +17,7 @@ _parameter_constraints: dict = {
     "pos": [Interval(Integral, 0, None, closed="neither")],
     "starting_date": [Interval(Integral, 0, None, closed="left")],
     "n_cm": [Interval(Integral, 0, None, closed="left")],
+    "cm_output_interval": [Interval(Integral, 0, None, closed="left")],
     "conse": [Interval(Integral, 0, 12, closed="neither")],
     "b_output_cm": ["boolean"],
     "gap_days": [Interval(Real, 0.0, None, closed="left")],
-- 
2.43.0


From f06676e5401a4fe18bcec2f92d144e499b06e8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:42 +0000
Subject: [PATCH 15/41] fix: obcold_reconstruct is named in its own parameter
 errors

---
 src/python/pycold/colds.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/colds.py b/src/python/pycold/colds.py
index e5bde21..38e44d9 100644
--- a/src/python/pycold/colds.py
+++ b/src/python/pycold/colds.py
@@ -287,7 +287,7 @@ def obcold_reconstruct(
     ----------
     change records: the COLD outputs that characterizes each temporal segment
     """
-    _validate_params(func_name="sccd_detect", pos=pos, conse=conse, b_c2=b_c2)
+    _validate_params(func_name="obcold_reconstruct", pos=pos, conse=conse, b_c2=b_c2)
     dates, ts_b, ts_g, ts_r, ts_n, ts_s1, ts_s2, ts_t, qas, break_dates = _validate_data(
         dates, ts_b, ts_g, ts_r, ts_n, ts_s1, ts_s2, ts_t, qas, break_dates
     )
-- 
2.43.0


From 0ce8710739b993df388b2a5c6ac954eb18aa32b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:42 +0000
Subject: [PATCH 16/41] fix: sccd_detect no longer passes b_monitor_init as the
 predictability threshold

---
 src/python/pycold/colds.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/python/pycold/colds.py b/src/python/pycold/colds.py
index 38e44d9..d4efb4d 100644
--- a/src/python/pycold/colds.py
+++ b/src/python/pycold/colds.py
@@ -383,7 +383,6 @@ def sccd_detect(
         b_c2,
         b_pinpoint,
         gate_tcg,
-        b_monitor_init,
     )
 
 
-- 
2.43.0


From a1badeb5b4e25db0e23b9d0c5a021bec06ad4103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:42 +0000
Subject: [PATCH 17/41] fix: sccd_update works on a copy of the minimum rmse of
 the given state

---
 src/python/pycold/_colds_cython.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/_colds_cython.pyx b/src/python/pycold/_colds_cython.pyx
index 1add35a..7cdf097 100644
--- a/src/python/pycold/_colds_cython.pyx
+++ b/src/python/pycold/_colds_cython.pyx
@@ -484,7 +484,7 @@ cpdef _sccd_update(sccd_pack,
     else:
         nrt_model_new = np.empty(1, dtype=nrtmodel_dt)
 
-    min_rmse = sccd_pack.min_rmse
+    min_rmse = sccd_pack.min_rmse.copy()
 
     # memory view
     cdef Output_sccd [:] rec_cg_view = rec_cg_new
-- 
2.43.0


From cc15f8538c99e6c940227ef53e7e9c1430666495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:42 +0000
Subject: [PATCH 18/41] fix: sccd_update refuses a conse above the maximum of
 S-CCD as sccd_detect does

---
 src/python/pycold/_colds_cython.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/python/pycold/_colds_cython.pyx b/src/python/pycold/_colds_cython.pyx
index 7cdf097..8b037d8 100644
--- a/src/python/pycold/_colds_cython.pyx
+++ b/src/python/pycold/_colds_cython.pyx
@@ -456,6 +456,9 @@ cpdef _sccd_update(sccd_pack,
             nrt_queue: obs queue if queue mode, empty if monitor mode
     """
 
+    if conse > DEFAULT_CONSE:
+        raise RuntimeError("The inputted conse is longer than the maximum conse for S-CCD: {}".format(DEFAULT_CONSE))
+
     cdef int valid_num_scenes = qas.shape[0]
     # allocate memory for rec_cg
     # cdef int num_fc = 0
-- 
2.43.0


From 7a0274a28107ad48e598cafd8203e9d959333fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:42 +0000
Subject: [PATCH 19/41] fix: pinpoint output has the same type in void mode

---
 src/python/pycold/_colds_cython.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/_colds_cython.pyx b/src/python/pycold/_colds_cython.pyx
index 8b037d8..584e127 100644
--- a/src/python/pycold/_colds_cython.pyx
+++ b/src/python/pycold/_colds_cython.pyx
@@ -407,7 +407,7 @@ cpdef _sccd_detect(np.ndarray[np.int64_t, ndim=1, mode='c'] dates,
                                    SccdReccgPinpoint(pos, output_rec_cg_pinpoint)]
             elif nrt_mode == 0:  # void mode
                 return [SccdOutput(pos, np.array([]), min_rmse, nrt_mode, np.array([]),
-                                   np.array([])), output_rec_cg_pinpoint]
+                                   np.array([])), SccdReccgPinpoint(pos, output_rec_cg_pinpoint)]
             else:
                 raise RuntimeError("No correct nrt_mode (mode={}) returned for pos = {} ".format(nrt_mode, pos))
 
-- 
2.43.0


From ab26aaec395fb512f1787df0b2dbe905aa468314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:04 +0000
Subject: [PATCH 20/41] fix: quick_sort_index sorted the right part from ind -
 1, recursing without end on repeated keys

---
 src/cxx/utilities.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxx/utilities.c b/src/cxx/utilities.c
index c416b4c..ee47360 100644
--- a/src/cxx/utilities.c
+++ b/src/cxx/utilities.c
@@ -171,7 +171,7 @@ void quick_sort_index (int arr[], int *index,  int left, int right)
     }
     if (ind < right)
     {
-        quick_sort_index(arr, index,  ind - 1, right);
+        quick_sort_index(arr, index,  ind, right);
     }
 }
 
-- 
2.43.0


From 53297f86166f9f9be5c7f0e75731709198a733fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:11 +0000
Subject: [PATCH 21/41] fix: convert_year_doy_to_ordinal left the ordinal unset
 for 1973

---
 src/cxx/input.c | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/cxx/input.c b/src/cxx/input.c
index 9233688..4c1860e 100644
--- a/src/cxx/input.c
+++ b/src/cxx/input.c
@@ -113,20 +113,17 @@ int convert_year_doy_to_ordinal
         RETURN_ERROR ("Landsat data starts from 1973", FUNC_NAME, ERROR);
     }
 
-    if (year != LANDSAT_START_YEAR)
+    *jday = ORDINAL_DATE_LAST_DAY_1972;
+    for (i = LANDSAT_START_YEAR; i < year; i++)
     {
-        *jday = ORDINAL_DATE_LAST_DAY_1972;
-        for (i = LANDSAT_START_YEAR; i < year; i++)
+        status = is_leap_year(i);
+        if (status == TRUE)
         {
-            status = is_leap_year(i);
-            if (status == TRUE)
-            {
-                *jday += LEAP_YEAR_DAYS;
-            }
-            else
-            {
-                *jday += NON_LEAP_YEAR_DAYS;
-            }
+            *jday += LEAP_YEAR_DAYS;
+        }
+        else
+        {
+            *jday += NON_LEAP_YEAR_DAYS;
         }
     }
     *jday += doy;
-- 
2.43.0


From d8ca6958406615eac42f4d9fe4efd1ed3137462e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 22/41] fix: rounding no longer makes the mean angle of
 parallel vectors NaN

---
 src/cxx/misc.c | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/cxx/misc.c b/src/cxx/misc.c
index 97c4a0b..0ad5e4d 100644
--- a/src/cxx/misc.c
+++ b/src/cxx/misc.c
@@ -2990,7 +2990,12 @@ double MeanAngl
                 norm1 += v_diff[j][i] * v_diff[j][i];
                 norm2 += v_diff[j][i+1] * v_diff[j][i+1];
             }
-            tmp = acos(product / (sqrt(norm1) * sqrt(norm2)));
+            tmp = product / (sqrt(norm1) * sqrt(norm2));
+            if (tmp > 1)
+                tmp = 1;
+            else if (tmp < -1)
+                tmp = -1;
+            tmp = acos(tmp);
             angl_sum += (tmp * 180.0)/PI;
         }
         y = angl_sum/(i_count-1);
@@ -3030,7 +3035,12 @@ float MeanAngl_float
                 norm1 += v_diff[j][i] * v_diff[j][i];
                 norm2 += v_diff[j][i+1] * v_diff[j][i+1];
             }
-            tmp = acosf(product / (sqrtf(norm1) * sqrtf(norm2)));
+            tmp = product / (sqrtf(norm1) * sqrtf(norm2));
+            if (tmp > 1)
+                tmp = 1;
+            else if (tmp < -1)
+                tmp = -1;
+            tmp = acosf(tmp);
             angl_sum += (tmp * 180.0)/PI;
         }
         y = angl_sum/(i_count-1);
@@ -3071,7 +3081,12 @@ float MeanAngl_float_selective
                 norm1 += v_diff[lasso_bands[j]][i] * v_diff[lasso_bands[j]][i];
                 norm2 += v_diff[lasso_bands[j]][i+1] * v_diff[lasso_bands[j]][i+1];
             }
-            tmp = acosf(product / (sqrtf(norm1) * sqrtf(norm2)));
+            tmp = product / (sqrtf(norm1) * sqrtf(norm2));
+            if (tmp > 1)
+                tmp = 1;
+            else if (tmp < -1)
+                tmp = -1;
+            tmp = acosf(tmp);
             angl_sum += (tmp * 180.0)/PI;
         }
         y = angl_sum/(i_count-1);
-- 
2.43.0


From cae4e2065661aa4362b460e9779fd2dcc1080aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 23/41] fix: matlab_unique of no observation is no observation

---
 src/cxx/misc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxx/misc.c b/src/cxx/misc.c
index 0ad5e4d..3f88382 100644
--- a/src/cxx/misc.c
+++ b/src/cxx/misc.c
@@ -1202,7 +1202,7 @@ void matlab_unique
             clry[b][k_new] = clry[b][k];
         k_new++;
     }
-    *new_nums = k_new;
+    *new_nums = (nums > 0) ? k_new : 0;
 }
 
 
-- 
2.43.0


From d974d79453a11cdb0a099c765f1da606cd0eb12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 24/41] fix: pixels with few clear observations store thermal
 values with their own observation

---
 src/cxx/cold.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cxx/cold.c b/src/cxx/cold.c
index 8ff799a..c81b15f 100644
--- a/src/cxx/cold.c
+++ b/src/cxx/cold.c
@@ -5183,10 +5183,10 @@ int inefficientobs_procedure
                         clry[k][n_clr] = (float)buf_s2[i];
                     else if(k == 6){
                         if (b_c2 == TRUE){
-                            clry[k][n_sn] = 0;
+                            clry[k][n_clr] = 0;
                         }
                         else{
-                            clry[k][n_sn] = (float)(buf_t[i] * 10 - 27320);
+                            clry[k][n_clr] = (float)(buf_t[i] * 10 - 27320);
                         }
                    }
                 }
-- 
2.43.0


From 74967d99089d899343ae52b8c99246438c91dbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:30 +0000
Subject: [PATCH 25/41] fix: the green series of pixels with few clear
 observations stays in order of date

---
 src/cxx/cold.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/cxx/cold.c b/src/cxx/cold.c
index c81b15f..86a4930 100644
--- a/src/cxx/cold.c
+++ b/src/cxx/cold.c
@@ -5206,8 +5206,16 @@ int inefficientobs_procedure
 
         n_clr = 0;
         float band2_median; // probably not good practice to declare here....
-        quick_sort_float(clry[1], 0, end - 1);
-        matlab_2d_float_median(clry, 1, end, &band2_median);
+        if (end > 0)
+        {
+            /* the median is taken from a sorted copy, so that clry stays in order of date */
+            for (i = 0; i < end; i++)
+            {
+                temp_v_dif[1][i] = clry[1][i];
+            }
+            quick_sort_float(temp_v_dif[1], 0, end - 1);
+            matlab_2d_float_median(temp_v_dif, 1, end, &band2_median);
+        }
 
         n_clr = 0;
         for (i = 0; i < end; i++)
-- 
2.43.0


From 90b7e7751716d76836661555e45c061d2a4809bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 26/41] fix: each band of a snow pixel is fitted against the
 dates of its own valid values

---
 src/cxx/cold.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/cxx/cold.c b/src/cxx/cold.c
index 86a4930..4675d4f 100644
--- a/src/cxx/cold.c
+++ b/src/cxx/cold.c
@@ -4868,6 +4868,7 @@ int inefficientobs_procedure
     int i_start;
     int i_span;
     int *clrx;                       /* clear pixel curve in X direction (date)    */
+    int *clrx_span;                  /* dates of the unsaturated values of a band  */
     float **clry;                    /* clear pixel curve in Y direction (spectralbands)    */
     float **fit_cft;                 /* Fitted coefficients 2-D array.        */
     float *rmse;                     /* Root Mean Squared Error array.        */
@@ -5008,6 +5009,11 @@ int inefficientobs_procedure
         /*                                                        */
         /**********************************************************/
 
+        clrx_span = malloc(end * sizeof(int));
+        if (clrx_span == NULL)
+        {
+            RETURN_ERROR("ERROR allocating clrx_span memory", FUNC_NAME, FAILURE);
+        }
 
         for (k = 0; k < TOTAL_IMAGE_BANDS; k++)  //
         {
@@ -5018,7 +5024,7 @@ int inefficientobs_procedure
                 {
                     if (clry[k][i] > 0.0 && clry[k][i] < 10000.0)
                     {
-                        clrx[i_span] = clrx[i];
+                        clrx_span[i_span] = clrx[i];
                         clry[k][i_span] = clry[k][i];
                         i_span++;
                     }
@@ -5031,7 +5037,7 @@ int inefficientobs_procedure
                 }
                 else
                 {
-                    status = auto_ts_fit_float(clrx, clry, k, k, 0, i_span-1, MIN_NUM_C,
+                    status = auto_ts_fit_float(clrx_span, clry, k, k, 0, i_span-1, MIN_NUM_C,
                              fit_cft, &rmse[k], temp_v_dif);
 
                     if (status != SUCCESS)
@@ -5047,13 +5053,13 @@ int inefficientobs_procedure
                     //printf("clry: %f\n", (float)clry[k][i]);
                     if (clry[k][i] > -9320 && clry[k][i] < 7070)
                     {
-                        clrx[i_span] = clrx[i];
+                        clrx_span[i_span] = clrx[i];
                         clry[k][i_span] = clry[k][i];
                         i_span++;
                     }
                  }
 
-                status = auto_ts_fit_float(clrx, clry, k, k, 0, i_span-1, MIN_NUM_C,
+                status = auto_ts_fit_float(clrx_span, clry, k, k, 0, i_span-1, MIN_NUM_C,
                          fit_cft, &rmse[k], temp_v_dif);
 
                 if (status != SUCCESS)
@@ -5062,6 +5068,7 @@ int inefficientobs_procedure
 
               }
         }
+        free(clrx_span);
 
 
         /**********************************************************/
-- 
2.43.0


From 3cdd4a4517b1805c7c77cf50d3fb0de778b4c32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:54 +0000
Subject: [PATCH 27/41] fix: obcold computes the snow percentage it passes on
 for pixels with few clear observations

---
 src/cxx/cold.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cxx/cold.c b/src/cxx/cold.c
index 4675d4f..ca6acf5 100644
--- a/src/cxx/cold.c
+++ b/src/cxx/cold.c
@@ -5516,6 +5516,8 @@ int obcold_reconstruction_procedure
         RETURN_ERROR("Error for preprocessing.", FUNC_NAME, ERROR);
     }
 
+    sn_pct = (float) sn_sum / (float) (sn_sum + clear_sum + 0.01);
+
     for (i = 0; i < valid_num_scenes; i++)
     {
         if ((fmask_buf[i] < 2) && (id_range[i] == 1))
-- 
2.43.0


From 249a1257acf6b4ae88901db7c3cf3ca4bd4c6083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:49 +0000
Subject: [PATCH 28/41] fix: snow pixels with too few valid thermal values get
 no thermal model instead of crashing

---
 src/cxx/cold.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/cxx/cold.c b/src/cxx/cold.c
index ca6acf5..44f9605 100644
--- a/src/cxx/cold.c
+++ b/src/cxx/cold.c
@@ -5059,13 +5059,19 @@ int inefficientobs_procedure
                     }
                  }
 
-                status = auto_ts_fit_float(clrx_span, clry, k, k, 0, i_span-1, MIN_NUM_C,
-                         fit_cft, &rmse[k], temp_v_dif);
-
-                if (status != SUCCESS)
-                    RETURN_ERROR ("Calling auto_ts_fit_float\n",
-                           FUNC_NAME, EXIT_FAILURE);
+                if (i_span < MIN_NUM_C * N_TIMES){
+                    for(i = 0; i < MAX_NUM_C; i++) // not enough thermal values for a model
+                        fit_cft[k][i] = 0;
+                }
+                else
+                {
+                    status = auto_ts_fit_float(clrx_span, clry, k, k, 0, i_span-1, MIN_NUM_C,
+                             fit_cft, &rmse[k], temp_v_dif);
 
+                    if (status != SUCCESS)
+                        RETURN_ERROR ("Calling auto_ts_fit_float\n",
+                               FUNC_NAME, EXIT_FAILURE);
+                }
               }
         }
         free(clrx_span);
-- 
2.43.0


From abeb8fd85ac783a8b4bef14be9ab4ffb744b1fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:17 +0000
Subject: [PATCH 29/41] fix: allocating a 2-D array of a negative or too large
 size fails instead of wrapping around

---
 src/cxx/2d_array.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/cxx/2d_array.c b/src/cxx/2d_array.c
index 4827011..de10cbf 100644
--- a/src/cxx/2d_array.c
+++ b/src/cxx/2d_array.c
@@ -7,6 +7,10 @@
 #include "utilities.h"
 #include "defines.h"
 
+/* The largest size of the data of an array: the header and the row pointers
+   still fit in a size_t with it */
+#define MAX_DATA_SIZE (((size_t) -1) / 4)
+
 
 /* The 2D_ARRAY maintains a 2D array that can be sized at run-time. */
 typedef struct lsrd_2d_array
@@ -76,7 +80,17 @@ void **allocate_2d_array
     int row;
     LSRD_2D_ARRAY *array;
     size_t size;
-    int data_start_index;
+    size_t row_size;
+    size_t data_start_index;
+
+    /* The arithmetic below must neither go negative nor wrap around */
+    if (rows < 0 || columns < 0
+        || (columns > 0 && member_size > MAX_DATA_SIZE / columns)
+        || (rows > 0 && columns * member_size > MAX_DATA_SIZE / rows))
+    {
+        RETURN_ERROR ("Invalid size of the array", "allocate_2d_array", NULL);
+    }
+    row_size = columns * member_size;
 
     /* Calculate the size needed for the array memory. The size includes the
        size of the base structure, an array of pointers to the rows in the
@@ -84,7 +98,7 @@ void **allocate_2d_array
        (2 * sizeof(void*)) to account for different memory alignment rules
        on some machine architectures. */
     size = sizeof (*array) + (rows * sizeof (void *))
-        + (rows * columns * member_size) + 2 * sizeof (void *);
+        + (rows * row_size) + 2 * sizeof (void *);
 
     /* Allocate the structure */
     array = malloc (size);
@@ -117,7 +131,7 @@ void **allocate_2d_array
     for (row = 0; row < rows; row++)
     {
         array->row_array_ptr[row] = array->data_ptr
-            + row * columns * member_size;
+            + row * row_size;
     }
 
     return array->row_array_ptr;
-- 
2.43.0


From 5a205c8a1282517b73e5232f1b9390e0014a89bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:17 +0000
Subject: [PATCH 30/41] fix: a failed lasso solve returns no solutions instead
 of an unset number of them

---
 src/cxx/misc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cxx/misc.c b/src/cxx/misc.c
index 3f88382..9605ef8 100644
--- a/src/cxx/misc.c
+++ b/src/cxx/misc.c
@@ -2697,6 +2697,9 @@ int c_glmnet
         cl[i][1] = INFINITY;
     }
 
+    // the solver returns nothing on an error
+    *lmu = 0;
+
     //printf("step1 \n");
     elnet_(&ka, &parm, &no, &ni, x, y, w, jd, vp,  &ne, &nx,
            &nlam, &flmin, ulam, &thr, &isd,
-- 
2.43.0


From 1ee22156db4371193111ea008687ec43bfde4f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:31 +0000
Subject: [PATCH 31/41] fix: looking up an observation among none returns index
 0 instead of an unset value

---
 src/cxx/utilities.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxx/utilities.c b/src/cxx/utilities.c
index ee47360..be335a5 100644
--- a/src/cxx/utilities.c
+++ b/src/cxx/utilities.c
@@ -1115,7 +1115,7 @@ int find_index_clrx
     int i;
     bool find_success = FALSE;
     int min_abs_diff = 9999999;
-    int minabsdiff_i_record ;
+    int minabsdiff_i_record = 0;
     for(i = 0; i < end; i++){
         if (clrx[i] == input_ordinal_date){
            find_success = TRUE;
-- 
2.43.0


From 0c5861cba15267b721968c73f21085eb571a3bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:31 +0000
Subject: [PATCH 32/41] fix: obcold counts the observations of a segment
 without the first one after its break

---
 src/cxx/cold.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxx/cold.c b/src/cxx/cold.c
index 44f9605..09793c3 100644
--- a/src/cxx/cold.c
+++ b/src/cxx/cold.c
@@ -5796,7 +5796,7 @@ int obcold_reconstruction_procedure
             rec_cg[*num_fc].t_end = clrx[i_break - 1];
 
             // rec_cg[*num_fc].t_confirmed = 0;
-            rec_cg[*num_fc].num_obs = i_break - i_last_break + 1;
+            rec_cg[*num_fc].num_obs = i_break - i_last_break;
             rec_cg[*num_fc].category = 0 + update_num_c;
 
             /* note that each time we calculate change magnitude for the last curve, not current curve*/
-- 
2.43.0


From 6aac1f3eab18143aaff52b08f5a818510f2324a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:31 +0000
Subject: [PATCH 33/41] fix: obcold stops at the forty segments the output
 holds

---
 src/cxx/cold.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cxx/cold.c b/src/cxx/cold.c
index 09793c3..3848ecd 100644
--- a/src/cxx/cold.c
+++ b/src/cxx/cold.c
@@ -5613,7 +5613,8 @@ int obcold_reconstruction_procedure
         }
 
 
-        for(j = 0; j < break_num + 1; j++) // break_num + 1 is because the segment = break_num + 1
+        // break_num + 1 is because the segment = break_num + 1; rec_cg holds at most NUM_FC segments
+        for(j = 0; j < break_num + 1 && *num_fc < NUM_FC; j++)
         {
             if (j == break_num) // last break, using last_obs + 1 as break
                 i_break_tmp = end;
-- 
2.43.0


From 47b93293e34a46390daa06c818f77e3e160a173c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:36 +0000
Subject: [PATCH 34/41] fix: count the observations of the segment fitted
 before the first model

---
 src/cxx/cold.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxx/cold.c b/src/cxx/cold.c
index 3848ecd..8b73311 100644
--- a/src/cxx/cold.c
+++ b/src/cxx/cold.c
@@ -3704,7 +3704,7 @@ int stand_procedure
                     rec_cg[*num_fc].category = 10 + MIN_NUM_C;
                     rec_cg[*num_fc].change_prob = 100;
                     rec_cg[*num_fc].t_start = clrx[i_dense-1];
-                    rec_cg[*num_fc].num_obs = i_start - i_dense + 1;  //SY 09182018
+                    rec_cg[*num_fc].num_obs = i_start - i_dense;
 
 //                    if ((i_start - 1 + adj_conse) < end)
 //                        rec_cg[*num_fc].t_confirmed = clrx[i_start + adj_conse - 1];
-- 
2.43.0


From 28332ebba6d3d0877bbef75f02bfee9b75d17e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:36 +0000
Subject: [PATCH 35/41] fix: stop at the capacity of rec_cg instead of
 reallocating the caller's buffer

---
 src/cxx/cold.c | 55 ++++++++------------------------------------------
 1 file changed, 8 insertions(+), 47 deletions(-)

diff --git a/src/cxx/cold.c b/src/cxx/cold.c
index 8b73311..ed4eeda 100644
--- a/src/cxx/cold.c
+++ b/src/cxx/cold.c
@@ -2976,7 +2976,8 @@ int stand_procedure
     /*                                                            */
     /**************************************************************/
     // printf("dd_step1\n");
-    while (i <= end - adj_conse)
+    /* rec_cg holds at most NUM_FC segments */
+    while ((i <= end - adj_conse) && (*num_fc < NUM_FC))
     {
         /**********************************************************/
         /*                                                        */
@@ -3754,21 +3755,6 @@ int stand_procedure
                     /**********************************************/
 
                     *num_fc = *num_fc + 1;
-                    if (*num_fc >= NUM_FC)
-                    {
-                        /******************************************/
-                        /*                                        */
-                        /* Reallocate memory for rec_cg.          */
-                        /*                                        */
-                        /******************************************/
-
-                        rec_cg = realloc(rec_cg, (*num_fc + 1) * sizeof(Output_t));
-                        if (rec_cg == NULL)
-                        {
-                            RETURN_ERROR("ERROR allocating rec_cg memory",
-                                         FUNC_NAME, FAILURE);
-                        }
-                    }
                 }
             } /* end of initializing model */
 
@@ -4353,21 +4339,6 @@ int stand_procedure
 
                     *num_fc = *num_fc + 1;
 
-                    if (*num_fc >= NUM_FC)
-                    {
-                        /******************************************/
-                        /*                                        */
-                        /* Reallocate memory for rec_cg.          */
-                        /*                                        */
-                        /******************************************/
-
-                        rec_cg = realloc(rec_cg, (*num_fc + 1) * sizeof(Output_t));
-                        if (rec_cg == NULL)
-                        {
-                            RETURN_ERROR("ERROR allocating rec_cg memory",
-                                                 FUNC_NAME, FAILURE);
-                        }
-                    }
 
                     /**********************************************/
                     /*                                            */
@@ -4428,7 +4399,12 @@ int stand_procedure
     /*                                                            */
     /**************************************************************/
     // printf("main part finished \n");
-    if (bl_train == 1)
+    if (*num_fc >= NUM_FC)
+    {
+        /* rec_cg is full: the rest of the series gets no segment */
+        *num_fc = *num_fc - 1;
+    }
+    else if (bl_train == 1)
     {
 
         /**********************************************************/
@@ -4704,21 +4680,6 @@ int stand_procedure
              }
 
             //*num_fc = *num_fc + 1;
-            if (*num_fc >= NUM_FC)
-            {
-                /**************************************************/
-                /*                                                */
-                /* Reallocate memory for rec_cg.                  */
-                /*                                                */
-                /**************************************************/
-
-                rec_cg = realloc(rec_cg, (*num_fc + 1) * sizeof(Output_t));
-                if (rec_cg == NULL)
-                {
-                    RETURN_ERROR("ERROR allocating rec_cg memory",
-                                 FUNC_NAME, FAILURE);
-                }
-            }
         }else{
            *num_fc = *num_fc - 1;
         }
-- 
2.43.0


From 985e67da6dbed2f4aa2811196977023596612d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:29 +0000
Subject: [PATCH 36/41] fix: a full S-CCD queue keeps the newest observation

---
 src/cxx/s_ccd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxx/s_ccd.c b/src/cxx/s_ccd.c
index 82fd1f0..5e62d3e 100644
--- a/src/cxx/s_ccd.c
+++ b/src/cxx/s_ccd.c
@@ -2506,7 +2506,7 @@ int step3_processing_end(
         *num_obs_queue = *n_clr - prev_i_break;
         if (*num_obs_queue > MAX_OBS_QUEUE)
         {
-            istart_queue = *n_clr - 1 - MAX_OBS_QUEUE;
+            istart_queue = *n_clr - MAX_OBS_QUEUE;
             *num_obs_queue = MAX_OBS_QUEUE;
         }
         else
-- 
2.43.0


From d95527d8d4e8fa70677e4440e97390379eddc52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:29 +0000
Subject: [PATCH 37/41] fix: padding of the monitoring model does not re-enter
 the series

---
 src/cxx/s_ccd.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cxx/s_ccd.c b/src/cxx/s_ccd.c
index 5e62d3e..a2ff664 100644
--- a/src/cxx/s_ccd.c
+++ b/src/cxx/s_ccd.c
@@ -167,6 +167,9 @@ int sccd(
         //  if monitor mode, will append output_nrtmodel default conse-1 obs
         for (k = 0; k < DEFAULT_CONSE_SCCD; k++)
         {
+            /* entries beyond conse are padding (no later date) */
+            if ((k > 0) && (nrt_model->obs_date_since1982[k] <= nrt_model->obs_date_since1982[k - 1]))
+                break;
             for (i_b = 0; i_b < TOTAL_IMAGE_BANDS_SCCD; i_b++)
             {
                 clry[i_b][k] = nrt_model->obs[i_b][k];
-- 
2.43.0


From 00fa7052a9d4663729dba8d465909ea44bcd9b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:06 +0000
Subject: [PATCH 38/41] fix: a pinpoint record holds observations of the series
 only

---
 src/cxx/s_ccd.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cxx/s_ccd.c b/src/cxx/s_ccd.c
index a2ff664..77ab5b5 100644
--- a/src/cxx/s_ccd.c
+++ b/src/cxx/s_ccd.c
@@ -1880,11 +1880,12 @@ int step2_KF_ChangeDetection(
                     rec_cg_pinpoint[current_pinpoint].norm_cm[conse_last - 1] = (short int)min_cm;
                     for (k = 0; k < DEFAULT_CONSE_SCCD; k++)
                     {
+                        /* the series may end before DEFAULT_CONSE_SCCD observations */
                         for (i_b = 0; i_b < TOTAL_IMAGE_BANDS_SCCD; i_b++)
                         {
-                            rec_cg_pinpoint[current_pinpoint].obs[i_b][k] = (short int)clry[i_b][cur_i + k];
+                            rec_cg_pinpoint[current_pinpoint].obs[i_b][k] = (cur_i + k < *n_clr) ? (short int)clry[i_b][cur_i + k] : 0;
                         }
-                        rec_cg_pinpoint[current_pinpoint].obs_date_since1982[k] = (short int)(clrx[cur_i + k] - ORDINAL_LANDSAT4_LAUNCH);
+                        rec_cg_pinpoint[current_pinpoint].obs_date_since1982[k] = (cur_i + k < *n_clr) ? (short int)(clrx[cur_i + k] - ORDINAL_LANDSAT4_LAUNCH) : 0;
                     }
                     for (i_b = 0; i_b < TOTAL_IMAGE_BANDS_SCCD; i_b++)
                     {
-- 
2.43.0


From e2ad878bee3ee3848a05d25a5821934250f9218d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:59 +0000
Subject: [PATCH 39/41] fix: the noise of every band is set for a series of at
 most one observation

---
 src/cxx/misc.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/cxx/misc.c b/src/cxx/misc.c
index 9605ef8..50e2011 100644
--- a/src/cxx/misc.c
+++ b/src/cxx/misc.c
@@ -109,18 +109,20 @@ int adjust_median_variogram
        for(i = 0; i < dim1_len; i++)
        {
            output_array[i] = 0;
+       }
        *date_vario = 0;
+       *max_neighdate_diff = 0;
        return (SUCCESS);
-       }
     }
     if (dim2_len == 1)
     {
         for (i = 0; i < dim1_len; i++)
         {
             output_array[i] = array[i][dim2_start];
-            *date_vario = clrx[dim2_start];
-            return (SUCCESS);
         }
+        *date_vario = clrx[dim2_start];
+        *max_neighdate_diff = 0;
+        return (SUCCESS);
     }
 
     var = (float*)malloc((dim2_len-1) * sizeof(float));
-- 
2.43.0


From 4380e530d141106f69e84ac3a519132546691a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:38 +0000
Subject: [PATCH 40/41] fix: the first S-CCD break is measured on observations
 of its segment only

---
 src/cxx/s_ccd.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cxx/s_ccd.c b/src/cxx/s_ccd.c
index 77ab5b5..896ae44 100644
--- a/src/cxx/s_ccd.c
+++ b/src/cxx/s_ccd.c
@@ -1347,7 +1347,8 @@ int step1_cold_initialize(
             }
         }
 
-        ini_conse = conse;
+        /* only observations of this segment: there may be fewer than conse */
+        ini_conse = min(conse, *i_start - *i_dense);
 
         v_dif_magg = (float **)allocate_2d_array(TOTAL_IMAGE_BANDS_SCCD,
                                                  ini_conse, sizeof(float));
-- 
2.43.0


From 41b9578f8c4fe11f13f2fb7ec4d33162411ec169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:41 +0000
Subject: [PATCH 41/41] fix: S-CCD no longer writes segments and pinpoints
 beyond the NUM_FC records it is given

---
 src/cxx/s_ccd.c | 53 +++++++++++++++++++++++++++----------------------
 1 file changed, 29 insertions(+), 24 deletions(-)

diff --git a/src/cxx/s_ccd.c b/src/cxx/s_ccd.c
index 896ae44..3c02d3d 100644
--- a/src/cxx/s_ccd.c
+++ b/src/cxx/s_ccd.c
@@ -1842,7 +1842,8 @@ int step2_KF_ChangeDetection(
                 current_pinpoint = *num_fc_pinpoint - 1;
             }
 
-            if (break_mag > CM_outputs[current_CM_n])
+            /* rec_cg_pinpoint holds at most NUM_FC records */
+            if (break_mag > CM_outputs[current_CM_n] && current_pinpoint < NUM_FC)
             // if ((*num_fc_pinpoint == 0) | (clrx[cur_i] - rec_cg_pinpoint[*num_fc_pinpoint - 1].t_break > AVE_DAYS_IN_A_YEAR))// must has a gap of 1 year with the last pinpoint break
             {
                 for (conse_last = 1; conse_last <= conse; conse_last++)
@@ -1977,34 +1978,38 @@ int step2_KF_ChangeDetection(
             tmp = MAX_SHORT;
         *norm_cm_scale100 = tmp;
 
-        for (i_b = 0; i_b < TOTAL_IMAGE_BANDS_SCCD; i_b++)
+        /* rec_cg holds at most NUM_FC segments */
+        if (*num_curve < NUM_FC)
         {
-            rec_cg[*num_curve].rmse[i_b] = sqrtf((float)rmse_band[i_b]);
-        }
+            for (i_b = 0; i_b < TOTAL_IMAGE_BANDS_SCCD; i_b++)
+            {
+                rec_cg[*num_curve].rmse[i_b] = sqrtf((float)rmse_band[i_b]);
+            }
 
-        rec_cg[*num_curve].num_obs = *num_obs_processed;
-        rec_cg[*num_curve].t_start = t_start;
+            rec_cg[*num_curve].num_obs = *num_obs_processed;
+            rec_cg[*num_curve].t_start = t_start;
 
-        for (i_b = 0; i_b < TOTAL_IMAGE_BANDS_SCCD; i_b++)
-        {
-            quick_sort_float(v_dif_mag[i_b], 0, conse - 1);
-            matlab_2d_float_median(v_dif_mag, i_b, conse,
-                                   &tmp);
-            rec_cg[*num_curve].magnitude[i_b] = (float)tmp;
-            for (k = 0; k < SCCD_NUM_C; k++)
+            for (i_b = 0; i_b < TOTAL_IMAGE_BANDS_SCCD; i_b++)
             {
-                /**********************************/
-                /*                                */
-                /* Record fitted coefficients.    */
-                /*                                */
-                /**********************************/
-                rec_cg[*num_curve].coefs[i_b][k] = fit_cft[i_b][k];
-            }
-        } // for(i_b = 0; i_b < TOTAL_IMAGE_BANDS_SCCD; i_b++)
+                quick_sort_float(v_dif_mag[i_b], 0, conse - 1);
+                matlab_2d_float_median(v_dif_mag, i_b, conse,
+                                       &tmp);
+                rec_cg[*num_curve].magnitude[i_b] = (float)tmp;
+                for (k = 0; k < SCCD_NUM_C; k++)
+                {
+                    /**********************************/
+                    /*                                */
+                    /* Record fitted coefficients.    */
+                    /*                                */
+                    /**********************************/
+                    rec_cg[*num_curve].coefs[i_b][k] = fit_cft[i_b][k];
+                }
+            } // for(i_b = 0; i_b < TOTAL_IMAGE_BANDS_SCCD; i_b++)
 
-        /* record break  */
-        rec_cg[*num_curve].t_break = clrx[cur_i];
-        *num_curve = *num_curve + 1;
+            /* record break  */
+            rec_cg[*num_curve].t_break = clrx[cur_i];
+            *num_curve = *num_curve + 1;
+        }
         // *num_obs_processed = *num_obs_processed + 1;
 
         /**********************************************/
-- 
2.43.0

