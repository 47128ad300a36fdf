From 2afbe3ac48730b76924d715a1be3ea45438c2c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:44 +0000
Subject: [PATCH 01/32] fix: honour a circle radius or fill factor of exactly
 zero

---
 src/sorcha/modules/PPApplyFOVFilter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sorcha/modules/PPApplyFOVFilter.py b/src/sorcha/modules/PPApplyFOVFilter.py
index 325f928..e15de35 100755
--- a/src/sorcha/modules/PPApplyFOVFilter.py
+++ b/src/sorcha/modules/PPApplyFOVFilter.py
@@ -71,10 +71,10 @@ def PPApplyFOVFilter(observations, sconfigs, module_rngs, visits=None, footprint
 
     if sconfigs.fov.camera_model == "circle":
         verboselog("FOV is circular...")
-        if sconfigs.fov.circle_radius:
+        if sconfigs.fov.circle_radius is not None:
             verboselog("Circle radius is set. Applying circular footprint filter...")
             observations = PPCircleFootprint(observations, sconfigs.fov.circle_radius)
-        if sconfigs.fov.fill_factor:
+        if sconfigs.fov.fill_factor is not None:
             verboselog("Fill factor is set. Removing random observations to mimic chip gaps.")
             observations = PPSimpleSensorArea(observations, module_rngs, sconfigs.fov.fill_factor)
 
-- 
2.43.0


From 9ca2b07354476d5cddc61fecc6530184b26b5af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:44 +0000
Subject: [PATCH 02/32] fix: drop observations by position in
 PPSimpleSensorArea

---
 src/sorcha/modules/PPApplyFOVFilter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sorcha/modules/PPApplyFOVFilter.py b/src/sorcha/modules/PPApplyFOVFilter.py
index e15de35..223d4de 100755
--- a/src/sorcha/modules/PPApplyFOVFilter.py
+++ b/src/sorcha/modules/PPApplyFOVFilter.py
@@ -184,7 +184,7 @@ def PPSimpleSensorArea(ephemsdf, module_rngs, fillfactor=0.9):
     fillArray = np.zeros(n) + fillfactor
     dropObs = np.where(randomNum > fillArray)[0]
 
-    ephemsOut = ephemsdf.drop(dropObs)
+    ephemsOut = ephemsdf.drop(ephemsdf.index[dropObs])
     ephemsOut = ephemsOut.reset_index(drop=True)
 
     return ephemsOut
-- 
2.43.0


From 958984e5263fc6ddf290d977136b40c265c83eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:42 +0000
Subject: [PATCH 03/32] fix: select HDF5 rows of requested objects by position,
 not by repeated index label

---
 src/sorcha/readers/HDF5Reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sorcha/readers/HDF5Reader.py b/src/sorcha/readers/HDF5Reader.py
index 4d51a87..34dd94b 100755
--- a/src/sorcha/readers/HDF5Reader.py
+++ b/src/sorcha/readers/HDF5Reader.py
@@ -94,8 +94,8 @@ class HDF5DataReader(ObjectDataReader):
         """
         self._build_id_map()
         row_match = self.obj_id_table["ObjID"].isin(obj_ids)
-        match_inds = self.obj_id_table[row_match].index
-        res_df = pd.read_hdf(self.filename, where="index=match_inds")  # noqa: F841
+        # Select by row position: index labels repeat when a file was written in several chunks.
+        res_df = pd.read_hdf(self.filename, where=row_match.values)
         return res_df
 
     def _process_and_validate_input_table(self, input_table, **kwargs):
-- 
2.43.0


From 3b131a06388a3505d6d6ebeb3dfaa0e51baf0b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:17 +0000
Subject: [PATCH 04/32] fix: shift the sky-tile snapshots towards earlier times
 whenever the visit is earlier

---
 src/sorcha/ephemeris/pixel_dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sorcha/ephemeris/pixel_dict.py b/src/sorcha/ephemeris/pixel_dict.py
index 157eec8..790ea01 100644
--- a/src/sorcha/ephemeris/pixel_dict.py
+++ b/src/sorcha/ephemeris/pixel_dict.py
@@ -301,7 +301,7 @@ class PixelDict:
             if abs(jd_tdb - self.t0) <= 1.5 * self.picket_interval:
                 # Can compute just one new set and shift the others
 
-                if jd_tdb <= self.tm:
+                if jd_tdb < self.t0:
                     # shift earlier
                     self.tp = self.t0
                     self.r_obs_p = self.r_obs_0
-- 
2.43.0


From fa334242464e7e525e8e512ae186e4cb4d92c0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:17 +0000
Subject: [PATCH 05/32] fix: keep the sky tiles an object crosses, not only
 their neighbours

---
 src/sorcha/ephemeris/pixel_dict.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sorcha/ephemeris/pixel_dict.py b/src/sorcha/ephemeris/pixel_dict.py
index 790ea01..22420a7 100644
--- a/src/sorcha/ephemeris/pixel_dict.py
+++ b/src/sorcha/ephemeris/pixel_dict.py
@@ -281,7 +281,9 @@ class PixelDict:
             pixels = list(set(pixels))
 
             # Add the neighboring pixels
-            pixels = set(hp.get_all_neighbours(self.nside, pixels, nest=self.nested).flatten())
+            pixels = set(pixels).union(
+                hp.get_all_neighbours(self.nside, pixels, nest=self.nested).flatten()
+            )
 
             # Add the pixels that the object traverse, and the neighbors, to the pixel_dict
             for pix in pixels:
-- 
2.43.0


From 2ac299f236e5fe05eb4c64a4326ea662590e370b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:09 +0000
Subject: [PATCH 06/32] fix: observing filters without visits no longer break
 faint-object culling

---
 src/sorcha/modules/PPFaintObjectCullingFilter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sorcha/modules/PPFaintObjectCullingFilter.py b/src/sorcha/modules/PPFaintObjectCullingFilter.py
index b1fdb61..e9a766e 100644
--- a/src/sorcha/modules/PPFaintObjectCullingFilter.py
+++ b/src/sorcha/modules/PPFaintObjectCullingFilter.py
@@ -91,7 +91,8 @@ def PPFaintObjectCullingFilter(
             )
 
         # 2 is a fairly arbitrary value added to give a threshold
-        drop_df[filt] = app_mag > max_five_sigma[filt] + 2
+        # (nothing can be detected in a filter that has no visits)
+        drop_df[filt] = app_mag > max_five_sigma.get(filt, -np.inf) + 2
 
     # if the object's apparent magnitude fulfils the condition in the above loop for all filters, drop it
     objects_to_drop = drop_df.loc[drop_df[observing_filters].all(axis=1), "ObjID"].tolist()
-- 
2.43.0


From 4ca7adad8cd0660964561e3570f64515431158dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:23 +0000
Subject: [PATCH 07/32] fix: read object identifiers as text so that names like
 007 match between files and chunks

---
 src/sorcha/readers/CSVReader.py        | 6 ++++++
 src/sorcha/readers/ObjectDataReader.py | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sorcha/readers/CSVReader.py b/src/sorcha/readers/CSVReader.py
index 9e633a0..749d241 100755
--- a/src/sorcha/readers/CSVReader.py
+++ b/src/sorcha/readers/CSVReader.py
@@ -198,6 +198,7 @@ class CSVDataReader(ObjectDataReader):
         if self.sep == "whitespace":
             res_df = pd.read_csv(
                 self.filename,
+                dtype={"ObjID": str},
                 sep="\\s+",
                 skiprows=skip_rows,
                 nrows=block_size,
@@ -205,6 +206,7 @@ class CSVDataReader(ObjectDataReader):
         else:
             res_df = pd.read_csv(
                 self.filename,
+                dtype={"ObjID": str},
                 delimiter=",",
                 skiprows=skip_rows,
                 nrows=block_size,
@@ -220,6 +222,7 @@ class CSVDataReader(ObjectDataReader):
         if self.sep == "whitespace":
             self.obj_id_table = pd.read_csv(
                 self.filename,
+                dtype={"ObjID": str},
                 sep="\\s+",
                 usecols=["ObjID"],
                 header=self.header_row,
@@ -227,6 +230,7 @@ class CSVDataReader(ObjectDataReader):
         else:
             self.obj_id_table = pd.read_csv(
                 self.filename,
+                dtype={"ObjID": str},
                 delimiter=",",
                 usecols=["ObjID"],
                 header=self.header_row,
@@ -262,12 +266,14 @@ class CSVDataReader(ObjectDataReader):
             if self.sep == "whitespace":
                 res_df = pd.read_csv(
                     self.filename,
+                    dtype={"ObjID": str},
                     sep="\\s+",
                     skiprows=(lambda x: skipped_row[x]),
                 )
             else:
                 res_df = pd.read_csv(
                     self.filename,
+                    dtype={"ObjID": str},
                     delimiter=",",
                     skiprows=(lambda x: skipped_row[x]),
                 )
diff --git a/src/sorcha/readers/ObjectDataReader.py b/src/sorcha/readers/ObjectDataReader.py
index 19247fd..2766da9 100755
--- a/src/sorcha/readers/ObjectDataReader.py
+++ b/src/sorcha/readers/ObjectDataReader.py
@@ -147,7 +147,7 @@ class ObjectDataReader(abc.ABC):
         """
         # Check that the ObjID column exists and convert it to a string.
         try:
-            input_table["ObjID"] = input_table["ObjID"].astype(str)
+            input_table["ObjID"] = input_table["ObjID"].astype(str).str.strip()
         except KeyError:
             pplogger = logging.getLogger(__name__)
             err_str = f"ERROR: Unable to find ObjID column headings ({self.get_reader_info()})."
-- 
2.43.0


From 9dc0ff1dec95be35d7c2208eb5b52919f1fd066f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:57 +0000
Subject: [PATCH 08/32] fix: keep object identifiers as text when joining the
 ephemeris to the orbits

---
 src/sorcha/ephemeris/simulation_driver.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/sorcha/ephemeris/simulation_driver.py b/src/sorcha/ephemeris/simulation_driver.py
index 4615485..c89dd94 100644
--- a/src/sorcha/ephemeris/simulation_driver.py
+++ b/src/sorcha/ephemeris/simulation_driver.py
@@ -1,5 +1,4 @@
 from dataclasses import dataclass
-from collections import defaultdict
 from csv import writer
 from io import StringIO
 
@@ -157,7 +156,7 @@ def create_ephemeris(orbits_df, pointings_df, args, sconfigs):
         "Obs_Sun_vz_km_s",
         "phase_deg",
     )
-    column_types = defaultdict(ObjID=str, FieldID=str).setdefault(float)
+    column_types = {"ObjID": str}
     in_memory_csv.writerow(column_names)
 
     # t_picket is the last time at which the sky positions of all the objects
-- 
2.43.0


From 504617fe184420c44d5c04a37d9523d4936772b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:57 +0000
Subject: [PATCH 09/32] fix: search for candidates within the field of view
 plus its buffer

---
 src/sorcha/ephemeris/simulation_driver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sorcha/ephemeris/simulation_driver.py b/src/sorcha/ephemeris/simulation_driver.py
index c89dd94..8db8600 100644
--- a/src/sorcha/ephemeris/simulation_driver.py
+++ b/src/sorcha/ephemeris/simulation_driver.py
@@ -188,7 +188,7 @@ def create_ephemeris(orbits_df, pointings_df, args, sconfigs):
         # compute a new set
 
         desigs = pixdict.get_designations(
-            pointing["fieldJD_TDB"], pointing["fieldRA_deg"], pointing["fieldDec_deg"], ang_fov
+            pointing["fieldJD_TDB"], pointing["fieldRA_deg"], pointing["fieldDec_deg"], ang_fov_buffer
         )
         unit_vectors = pixdict.interpolate_unit_vectors(desigs, pointing["fieldJD_TDB"])
         visit_vector = get_vec(pointing, "visit_vector")
-- 
2.43.0


From bbc8fd773f599b9556065d389353757f0662263f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:57 +0000
Subject: [PATCH 10/32] fix: accept observatory coordinates that are exactly
 zero

---
 src/sorcha/ephemeris/simulation_parsing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sorcha/ephemeris/simulation_parsing.py b/src/sorcha/ephemeris/simulation_parsing.py
index 7407a63..ac1a4bb 100644
--- a/src/sorcha/ephemeris/simulation_parsing.py
+++ b/src/sorcha/ephemeris/simulation_parsing.py
@@ -339,9 +339,9 @@ class Observatory:
         """
         returned_tuple = (None, None, None)
         if (
-            obs_location.get("Longitude", False)
-            and obs_location.get("cos", False)
-            and obs_location.get("sin", False)
+            obs_location.get("Longitude") is not None
+            and obs_location.get("cos") is not None
+            and obs_location.get("sin") is not None
         ):
             longitude = obs_location["Longitude"] * np.pi / 180.0
             x = obs_location["cos"] * np.cos(longitude)
-- 
2.43.0


From 276349667c3a5f18a72eb52014482388781d0996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:39 +0000
Subject: [PATCH 11/32] fix: refuse nan as a configuration value

---
 src/sorcha/utilities/sorchaConfigs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sorcha/utilities/sorchaConfigs.py b/src/sorcha/utilities/sorchaConfigs.py
index de7ea22..95eb517 100644
--- a/src/sorcha/utilities/sorchaConfigs.py
+++ b/src/sorcha/utilities/sorchaConfigs.py
@@ -1397,7 +1397,8 @@ def cast_as_float(value, key):
     """
 
     try:
-        float(value)
+        if np.isnan(float(value)):
+            raise ValueError
     except ValueError:
         logging.error(f"ERROR: expected a float for config parameter {key}. Check value in config file.")
         sys.exit(f"ERROR: expected a float for config parameter {key}. Check value in config file.")
-- 
2.43.0


From 661c893b4dded6f47a1f797f0a2cc9b8ff24f51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:10 +0000
Subject: [PATCH 12/32] fix: report unsupported survey switches with their
 error message

---
 src/sorcha/utilities/sorchaConfigs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sorcha/utilities/sorchaConfigs.py b/src/sorcha/utilities/sorchaConfigs.py
index 95eb517..fa503b7 100644
--- a/src/sorcha/utilities/sorchaConfigs.py
+++ b/src/sorcha/utilities/sorchaConfigs.py
@@ -941,7 +941,7 @@ class expertConfigs:
                 self.trailing_losses_on, "trailing_losses_on", False
             )
             if self.randomization_on == True or self.vignetting_on == True or self.trailing_losses_on == True:
-                logging.ERROR(
+                logging.error(
                     "ERROR: DES simulation does not support trailing losses, vignetting and randomization."
                 )
                 sys.exit(
@@ -953,7 +953,7 @@ class expertConfigs:
             )
             self.vignetting_on = cast_as_bool_or_set_default(self.vignetting_on, "vignetting_on", False)
             if self.vignetting_on == True:
-                logging.ERROR("ERROR: fov camera model 'visits_footprint' does not support vignetting.")
+                logging.error("ERROR: fov camera model 'visits_footprint' does not support vignetting.")
                 sys.exit("ERROR: fov camera model 'visits_footprint does not support vignetting.")
 
 
-- 
2.43.0


From a2c63bdb599a3a8b4ef0fcbac499914a34dfdc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:17 +0000
Subject: [PATCH 13/32] fix: orientation and anomaly of states lying exactly on
 an axis

---
 src/sorcha/ephemeris/orbit_conversion_utilities.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sorcha/ephemeris/orbit_conversion_utilities.py b/src/sorcha/ephemeris/orbit_conversion_utilities.py
index 02db9cb..6c821e0 100644
--- a/src/sorcha/ephemeris/orbit_conversion_utilities.py
+++ b/src/sorcha/ephemeris/orbit_conversion_utilities.py
@@ -424,7 +424,7 @@ def universal_cometary(mu, x, y, z, vx, vy, vz, epochMJD_TDB):
 
     incl = np.arccos(h_vec[2] / h)
 
-    if h_vec[0] != 0.0 and h_vec[1] != 0.0:
+    if h_vec[0] != 0.0 or h_vec[1] != 0.0:
         longnode = np.arctan2(h_vec[0], -h_vec[1])
     else:
         longnode = 0.0
@@ -435,7 +435,7 @@ def universal_cometary(mu, x, y, z, vx, vy, vz, epochMJD_TDB):
 
     q = p / (1 + e)
 
-    if esintrueanom != 0.0 and ecostrueanom != 0.0:
+    if esintrueanom != 0.0 or ecostrueanom != 0.0:
         trueanom = np.arctan2(esintrueanom, ecostrueanom)
     else:
         trueanom = 0.0
@@ -447,7 +447,7 @@ def universal_cometary(mu, x, y, z, vx, vy, vz, epochMJD_TDB):
     rcosu = pos[0] * cosnode + pos[1] * sinnode
     rsinu = (pos[1] * cosnode - pos[0] * sinnode) / np.cos(incl)  # should check zero
 
-    if rsinu != 0.0 and rcosu != 0.0:
+    if rsinu != 0.0 or rcosu != 0.0:
         u = np.arctan2(rsinu, rcosu)
     else:
         u = 0.0
-- 
2.43.0


From 40302b020baaccae49e5a8a9331b93e63ac63e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:04 +0000
Subject: [PATCH 14/32] fix: round output to zero decimals when zero decimals
 are configured

---
 src/sorcha/modules/PPOutput.py        | 4 ++--
 src/sorcha/utilities/sorchaConfigs.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sorcha/modules/PPOutput.py b/src/sorcha/modules/PPOutput.py
index ac7ed6a..c3e34da 100755
--- a/src/sorcha/modules/PPOutput.py
+++ b/src/sorcha/modules/PPOutput.py
@@ -205,7 +205,7 @@ def PPWriteOutput(cmd_args, sconfigs, observations_in, verbose=False):
                 "ERROR: at least one of the columns provided in output_columns does not seem to exist. Check docs and try again."
             )
 
-    if sconfigs.output.position_decimals:
+    if sconfigs.output.position_decimals is not None:
         for position_col in [
             "fieldRA_deg",
             "fieldDec_deg",
@@ -222,7 +222,7 @@ def PPWriteOutput(cmd_args, sconfigs, observations_in, verbose=False):
             except KeyError:
                 continue
 
-    if sconfigs.output.magnitude_decimals:
+    if sconfigs.output.magnitude_decimals is not None:
         for magnitude_col in [
             "PSFMag",
             "trailedSourceMag",
diff --git a/src/sorcha/utilities/sorchaConfigs.py b/src/sorcha/utilities/sorchaConfigs.py
index fa503b7..9a7a778 100644
--- a/src/sorcha/utilities/sorchaConfigs.py
+++ b/src/sorcha/utilities/sorchaConfigs.py
@@ -1728,7 +1728,7 @@ def PrintConfigsToLog(sconfigs, cmd_args):
         "Output files will be saved in path: " + cmd_args.outpath + " with filestem " + cmd_args.outfilestem
     )
     pplogger.info("Output files will be saved as format: " + sconfigs.output.output_format)
-    if sconfigs.output.position_decimals:
+    if sconfigs.output.position_decimals is not None:
         pplogger.info(
             "In the output, positions will be rounded to "
             + str(sconfigs.output.position_decimals)
@@ -1736,7 +1736,7 @@ def PrintConfigsToLog(sconfigs, cmd_args):
         )
     else:
         pplogger.info("In the output, positions will not be rounded")
-    if sconfigs.output.magnitude_decimals:
+    if sconfigs.output.magnitude_decimals is not None:
         pplogger.info(
             "In the output, magnitudes will be rounded to "
             + str(sconfigs.output.magnitude_decimals)
-- 
2.43.0


From ab5b2ad9197f3718d8cfc335ff2d95c0473b493d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:58 +0000
Subject: [PATCH 15/32] fix: write longer identifiers of later chunks to HDF5
 output

---
 src/sorcha/modules/PPOutput.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/sorcha/modules/PPOutput.py b/src/sorcha/modules/PPOutput.py
index c3e34da..fe06e3a 100755
--- a/src/sorcha/modules/PPOutput.py
+++ b/src/sorcha/modules/PPOutput.py
@@ -67,9 +67,15 @@ def PPOutWriteHDF5(pp_results, outf, keyname="sorcha_results"):
     # as long as the user isn't going to use PyTables to access the data this doesn't matter
     warnings.filterwarnings("ignore", category=NaturalNameWarning)
 
-    store = pd.HDFStore(outf)
-    store.append(keyname, pp_results, format="t", data_columns=True)
-    store.close()
+    with pd.HDFStore(outf) as store:
+        try:
+            store.append(keyname, pp_results, format="t", data_columns=True)
+        except ValueError:
+            if keyname not in store:
+                raise
+            # a table column only holds text as long as that of its first chunk: widen it by rewriting the table
+            pp_results = pd.concat([store[keyname], pp_results])
+            store.put(keyname, pp_results, format="t", data_columns=True)
 
     return
 
-- 
2.43.0


From b5528adeef3f6872f9041f7558a1695b7923efc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:58 +0000
Subject: [PATCH 16/32] fix: statistics only of the object and filter
 combinations that occur

---
 src/sorcha/modules/PPStats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sorcha/modules/PPStats.py b/src/sorcha/modules/PPStats.py
index a1efbde..f27d3dd 100644
--- a/src/sorcha/modules/PPStats.py
+++ b/src/sorcha/modules/PPStats.py
@@ -33,7 +33,7 @@ def stats(observations, statsfilename, outpath, sconfigs, return_only=False):
 
     statsfilepath = os.path.join(outpath, statsfilename + ".csv")
 
-    group_by = observations.groupby(["ObjID", "optFilter"], observed=False)
+    group_by = observations.groupby(["ObjID", "optFilter"], observed=True)
 
     mag = (
         group_by["trailedSourceMag"]
-- 
2.43.0


From 6e788c921900f4c6f29f494c57c11db1e23b499b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:07 +0000
Subject: [PATCH 17/32] fix: index only the columns present in the results
 database

---
 src/sorcha/modules/PPOutput.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/sorcha/modules/PPOutput.py b/src/sorcha/modules/PPOutput.py
index fe06e3a..5f936e9 100755
--- a/src/sorcha/modules/PPOutput.py
+++ b/src/sorcha/modules/PPOutput.py
@@ -132,9 +132,11 @@ def PPIndexSQLDatabase(outf, tablename="sorcha_results"):
     cnx = sqlite3.connect(outf)
 
     cur = cnx.cursor()
-    cur.execute("CREATE INDEX ObjID ON {} (ObjID)".format(tablename))
-    cur.execute("CREATE INDEX fieldMJD_TAI ON {} (fieldMJD_TAI)".format(tablename))
-    cur.execute("CREATE INDEX optFilter ON {} (optFilter)".format(tablename))
+    columns = [row[1] for row in cur.execute("PRAGMA table_info({})".format(tablename))]
+    # depending on the type of output selected, some of these columns may not exist
+    for column in ["ObjID", "fieldMJD_TAI", "optFilter"]:
+        if column in columns:
+            cur.execute("CREATE INDEX {0} ON {1} ({0})".format(column, tablename))
     cnx.commit()
 
 
-- 
2.43.0


From 367d7e0f07beb88474e9866ce771735e92c91964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:17 +0000
Subject: [PATCH 18/32] fix: return empty tables when no detection survives an
 in-memory run

---
 src/sorcha/des.py    | 4 ++--
 src/sorcha/sorcha.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sorcha/des.py b/src/sorcha/des.py
index eab6369..c1ede87 100644
--- a/src/sorcha/des.py
+++ b/src/sorcha/des.py
@@ -400,8 +400,8 @@ def runDESSimulation(args, sconfigs, return_only=False):
     pplogger.info("Sorcha process is completed.")
 
     if return_only:
-        result_observations = pd.concat(result_observations)
+        result_observations = pd.concat(result_observations) if result_observations else pd.DataFrame()
         if args.stats is not None:
-            result_stats = pd.concat(result_stats)
+            result_stats = pd.concat(result_stats) if result_stats else pd.DataFrame()
             return result_observations, result_stats
         return result_observations
diff --git a/src/sorcha/sorcha.py b/src/sorcha/sorcha.py
index b8a32de..9415155 100755
--- a/src/sorcha/sorcha.py
+++ b/src/sorcha/sorcha.py
@@ -402,8 +402,8 @@ def runLSSTSimulation(args, sconfigs, return_only=False):
     pplogger.info("Sorcha process is completed.")
 
     if return_only:
-        result_observations = pd.concat(result_observations)
+        result_observations = pd.concat(result_observations) if result_observations else pd.DataFrame()
         if args.stats is not None:
-            result_stats = pd.concat(result_stats)
+            result_stats = pd.concat(result_stats) if result_stats else pd.DataFrame()
             return result_observations, result_stats
         return result_observations
-- 
2.43.0


From 851f620a3af0257e499ae5aedf49787f2c094e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:35 +0000
Subject: [PATCH 19/32] fix: recognise every DES triplet, not only the last one
 closer on both sides

---
 src/sorcha/modules/DESDiscoveryFilter.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/sorcha/modules/DESDiscoveryFilter.py b/src/sorcha/modules/DESDiscoveryFilter.py
index a0e38d6..f14695b 100644
--- a/src/sorcha/modules/DESDiscoveryFilter.py
+++ b/src/sorcha/modules/DESDiscoveryFilter.py
@@ -140,8 +140,6 @@ def compute_triplet(times, thresh):
         returns true if triplet is formed
 
     """
-    first_pair = 999.0
-    second_pair = 999.0
     det = List()
 
     det.append(times[0])
@@ -154,14 +152,10 @@ def compute_triplet(times, thresh):
 
     n = len(det)
     for i in range(1, n - 1):
-        if det[i + 1] - det[i] < first_pair and det[i] - det[i - 1] < second_pair:
-            first_pair = det[i + 1] - det[i]
-            second_pair = det[i] - det[i - 1]
-
-    if first_pair < thresh and second_pair < thresh:
-        return True
-    else:
-        return False
+        if det[i + 1] - det[i] < thresh and det[i] - det[i - 1] < thresh:
+            return True
+
+    return False
 
 
 @numba.jit(
-- 
2.43.0


From 02bcd73ecc7e796dc1a2e627a992834263b954ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:37 +0000
Subject: [PATCH 20/32] fix: force removes all and only the files of the output
 stem

---
 src/sorcha/utilities/sorchaCommandLineParser.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/sorcha/utilities/sorchaCommandLineParser.py b/src/sorcha/utilities/sorchaCommandLineParser.py
index 9f476e9..8a0cecf 100644
--- a/src/sorcha/utilities/sorchaCommandLineParser.py
+++ b/src/sorcha/utilities/sorchaCommandLineParser.py
@@ -22,11 +22,14 @@ def warn_or_remove_file(filepath, force_remove, pplogger):
     pplogger : Logger
         Used to log the output.
     """
-    file_exists = glob.glob(filepath)
+    # special characters in the path are literal and "stem.other.csv" is not a file of "stem"
+    stem, extension = os.path.splitext(filepath)
+    file_exists = [fn for fn in glob.glob(glob.escape(stem) + extension) if os.path.splitext(fn)[0] == stem]
 
     if file_exists and force_remove:
         pplogger.info(f"Existing file found at {filepath}. -f flag set: deleting existing file.")
-        os.remove(file_exists[0])
+        for fn in file_exists:
+            os.remove(fn)
     elif file_exists and not force_remove:
         pplogger.error(
             f"ERROR: existing file found at output location {filepath}. Set -f flag to overwrite this file."
-- 
2.43.0


From 8416f2493dabd75fc294ea7fe45a4202c7511ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:14 +0000
Subject: [PATCH 21/32] fix: report a missing complex parameter file instead of
 a KeyError

---
 src/sorcha_cmdline/run.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sorcha_cmdline/run.py b/src/sorcha_cmdline/run.py
index 7cbc01f..a14f3bd 100644
--- a/src/sorcha_cmdline/run.py
+++ b/src/sorcha_cmdline/run.py
@@ -176,11 +176,11 @@ def execute(args):
         pplogger.error("ERROR: A+R simulation not enabled and no ephemerides file provided")
         sys.exit("ERROR: A+R simulation not enabled and no ephemerides file provided")
 
-    if sconfigs.lightcurve.lc_model and cmd_args["complex_physical_parameters"] is None:
+    if sconfigs.lightcurve.lc_model and cmd_args.get("complex_physical_parameters") is None:
         pplogger.error("ERROR: No complex physical parameter file provided for light curve model")
         sys.exit("ERROR: No complex physical parameter file provided for light curve model")
 
-    if sconfigs.activity.comet_activity and cmd_args["complex_physical_parameters"] is None:
+    if sconfigs.activity.comet_activity and cmd_args.get("complex_physical_parameters") is None:
         pplogger.error("ERROR: No complex physical parameter file provided for comet activity model")
         sys.exit("ERROR: No complex physical parameter file provided for comet activity model")
     if "SORCHA_SEED" in os.environ:
-- 
2.43.0


From e9b6e41752647528778690ff400e8809a4a35038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:41 +0000
Subject: [PATCH 22/32] fix: visits footprint: unwrap RA relative to the field
 centre, not only within the buffer of 0/360

The ephemeris buffer is an angle on the sky. At declination -60 a 1.5 degree
buffer spans 3 degrees of RA, so a field whose centre is more than the buffer
but less than the camera's RA extent from RA = 0 was not unwrapped, and all
sources on its CCDs across the boundary were dropped.
---
 src/sorcha/modules/PPVisitsFootprintFilter.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/sorcha/modules/PPVisitsFootprintFilter.py b/src/sorcha/modules/PPVisitsFootprintFilter.py
index b7bdd44..106176a 100644
--- a/src/sorcha/modules/PPVisitsFootprintFilter.py
+++ b/src/sorcha/modules/PPVisitsFootprintFilter.py
@@ -72,15 +72,14 @@ def PPVisitsFootprint(
             # ephermides wraps points around 0-360. however the ccd ra and decs supplied dont wrap around this point for a given camera footprint to reduce the complexity of creating shapes.
             # therefore to solve this priblem we use the radius from the ar simulations to decide if an object on-sky postion needs to be unwraped for a given camera footprint
 
-            # if the camera footprint is near the boundary i.e the radius of ephermers gen is wrapped round 360-0
             if ephermers_buffer < 180:
 
-                if any(points_df["fieldRA_deg"] + ephermers_buffer > 360):
-                    points_query[
-                        points_query[:, 0] < 180, 0
-                    ] += 360  # use a mask to unwrap points so they are in the same relative coordinates as the footprint
-                if any(points_df["fieldRA_deg"] - ephermers_buffer < 0):
-                    points_query[points_query[:, 0] > 180, 0] -= 360
+                # the buffer is an angle on the sky, which away from the equator spans more than that in RA, so
+                # bring every point within 180 degrees in RA of the centre of its own field instead of only
+                # unwrapping fields that lie within the buffer of the boundary.
+                ra_offset = points_query[:, 0] - points_df["fieldRA_deg"].to_numpy()
+                points_query[ra_offset < -180, 0] += 360
+                points_query[ra_offset > 180, 0] -= 360
             else:
                 logger.warning(
                     "Ephemides buffer is too big to account for wrap around. Your footprint will be inaccurate"
-- 
2.43.0


From 670b628c2d8c8b566e07740bff43198bd09a6d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:55 +0000
Subject: [PATCH 23/32] fix: meta kernel: one line per piece of a long cache
 path, no empty last piece

---
 src/sorcha/utilities/generate_meta_kernel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sorcha/utilities/generate_meta_kernel.py b/src/sorcha/utilities/generate_meta_kernel.py
index 4412d9b..3b871e4 100644
--- a/src/sorcha/utilities/generate_meta_kernel.py
+++ b/src/sorcha/utilities/generate_meta_kernel.py
@@ -63,6 +63,8 @@ def build_meta_kernel_file(auxconfigs, retriever: pooch.Pooch) -> None:
     # build meta_kernel file path
     meta_kernel_file_path = os.path.join(retriever.abspath, auxconfigs.meta_kernel)
     abspath = _split_kernel_path_str(str(retriever.abspath))
+    # SPICE accepts neither an empty last piece nor lines longer than 132 characters, so each piece gets its own line
+    abspath = abspath.removesuffix("+' '").replace("+' '", "+'\n    '")
 
     # build a meta_kernel.txt file
     with open(meta_kernel_file_path, "w") as meta_file:
-- 
2.43.0


From a5fb3180a71c061a3fdaad4668fd9627c434a68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:55 +0000
Subject: [PATCH 24/32] fix: create-sqlite: do not read the database being
 written as one of the results

---
 src/sorcha/utilities/createResultsSQLDatabase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sorcha/utilities/createResultsSQLDatabase.py b/src/sorcha/utilities/createResultsSQLDatabase.py
index 7fe2cdb..0c7f768 100644
--- a/src/sorcha/utilities/createResultsSQLDatabase.py
+++ b/src/sorcha/utilities/createResultsSQLDatabase.py
@@ -146,7 +146,7 @@ def create_results_database(args):
     else:
         stemname = ""
 
-    create_results_table(cnx_out, args.inputs, args.results, stemname)
+    create_results_table(cnx_out, args.output, args.results, stemname)
 
     create_inputs_table(cnx_out, args.inputs, "params")
     create_inputs_table(cnx_out, args.inputs, "orbits")
-- 
2.43.0


From 1f6e0eb1d4ef790aa59dcf883273899e482cfb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:55 +0000
Subject: [PATCH 25/32] fix: create-sqlite: find results below directories and
 stems with brackets or other glob characters

---
 src/sorcha/utilities/createResultsSQLDatabase.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sorcha/utilities/createResultsSQLDatabase.py b/src/sorcha/utilities/createResultsSQLDatabase.py
index 0c7f768..f0795d0 100644
--- a/src/sorcha/utilities/createResultsSQLDatabase.py
+++ b/src/sorcha/utilities/createResultsSQLDatabase.py
@@ -42,7 +42,9 @@ def create_results_table(cnx_out, filename, output_path, output_stem, table_name
 
     """
 
-    output_list = glob.glob(os.path.join(output_path, "**", output_stem + "*.db"), recursive=True)
+    output_list = glob.glob(
+        os.path.join(glob.escape(output_path), "**", glob.escape(output_stem) + "*.db"), recursive=True
+    )
 
     if filename in output_list:
         output_list.remove(filename)
@@ -104,7 +106,7 @@ def create_inputs_table(cnx_out, input_path, table_type):
 
     """
 
-    input_list = glob.glob(input_path + "/" + table_type + "*", recursive=True)
+    input_list = glob.glob(glob.escape(input_path) + "/" + table_type + "*", recursive=True)
 
     if not input_list:
         sys.exit("Could not find any " + table_type + " files in given inputs folder.")
-- 
2.43.0


From ab152a1551fe3562df0be1221bd5ee606daafc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:55 +0000
Subject: [PATCH 26/32] fix: create-sqlite: match result columns by name and
 refuse results with different columns

---
 src/sorcha/utilities/createResultsSQLDatabase.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sorcha/utilities/createResultsSQLDatabase.py b/src/sorcha/utilities/createResultsSQLDatabase.py
index f0795d0..0c1230d 100644
--- a/src/sorcha/utilities/createResultsSQLDatabase.py
+++ b/src/sorcha/utilities/createResultsSQLDatabase.py
@@ -69,10 +69,13 @@ def create_results_table(cnx_out, filename, output_path, output_stem, table_name
     sql_command = "INSERT into " + table_name + " VALUES " + questions
 
     for filename in output_list:
+        if sorted(get_column_names(filename)) != sorted(column_names):
+            sys.exit("Columns of " + filename + " differ from those of " + output_list[0] + ".")
+
         con = sqlite3.connect(filename)
         cur = con.cursor()
 
-        cur.execute("SELECT * FROM sorcha_results")
+        cur.execute("SELECT " + column_string + " FROM sorcha_results")
         output = cur.fetchall()
 
         for row in output:
-- 
2.43.0


From ab29c80bb727bd9a3d0739e2b7617a1ae7136b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:55 +0000
Subject: [PATCH 27/32] fix: check-logs: report an empty log as unsuccessful
 instead of crashing

---
 src/sorcha/utilities/check_output_logs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sorcha/utilities/check_output_logs.py b/src/sorcha/utilities/check_output_logs.py
index e9809ff..39b4339 100644
--- a/src/sorcha/utilities/check_output_logs.py
+++ b/src/sorcha/utilities/check_output_logs.py
@@ -53,7 +53,7 @@ def check_all_logs(log_files):
     for log_file in log_files:
         with open(log_file, "r") as f:
             lines = f.read().splitlines()
-            last_line = lines[-1]
+            last_line = lines[-1] if lines else ""
 
             if last_line[-29:] == "Sorcha process is completed. ":
                 good_log.append(True)
-- 
2.43.0


From 66317d238e0fae0fc5e6c0a052d611a62b375ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:55 +0000
Subject: [PATCH 28/32] fix: check-logs: apply the overwrite guard to the file
 that is written

---
 src/sorcha_cmdline/outputs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sorcha_cmdline/outputs.py b/src/sorcha_cmdline/outputs.py
index 880e2fc..366c670 100644
--- a/src/sorcha_cmdline/outputs.py
+++ b/src/sorcha_cmdline/outputs.py
@@ -46,6 +46,9 @@ def cmd_outputs_check_logs(args):  # pragma: no cover
         args.outpath = os.path.abspath(args.outpath)
         _ = FindDirectoryOrExit(os.path.dirname(args.outpath), "-o, --outpath")
 
+        if args.outpath[-4:] != ".csv":
+            args.outpath = args.outpath + ".csv"
+
         if os.path.exists(args.outpath) and not args.force:
             print(
                 "File already found at {}. Re-run with --force argument to overwrite existing output.".format(
@@ -56,9 +59,6 @@ def cmd_outputs_check_logs(args):  # pragma: no cover
         elif os.path.exists(args.outpath) and args.force:
             os.remove(args.outpath)
 
-        if args.outpath[-4:] != ".csv":
-            args.outpath = args.outpath + ".csv"
-
     return check_output_logs(args.filepath, args.outpath)
 
 
-- 
2.43.0


From fbbd509b2249597c94e0485c47b214be16254f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:05 +0000
Subject: [PATCH 29/32] fix: an auxiliary file named without its URL was
 downloaded from the default file's URL

---
 src/sorcha/utilities/sorchaConfigs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sorcha/utilities/sorchaConfigs.py b/src/sorcha/utilities/sorchaConfigs.py
index 9a7a778..834ae07 100644
--- a/src/sorcha/utilities/sorchaConfigs.py
+++ b/src/sorcha/utilities/sorchaConfigs.py
@@ -1069,8 +1069,8 @@ class auxiliaryConfigs:
 
     def __post_init__(self):
         """Automagically validates the auxiliary configs after initialisation."""
-        self._create_lists_auxiliary_configs()
         self._validate_auxiliary_configs()
+        self._create_lists_auxiliary_configs()
 
     def _validate_auxiliary_configs(self):
         """
-- 
2.43.0


From 961b6238379095099fc6991074278c99a86b23a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:05 +0000
Subject: [PATCH 30/32] fix: sorcha bootstrap --force downloaded or crashed on
 missing files it only had to delete

---
 src/sorcha/utilities/retrieve_ephemeris_data_files.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/sorcha/utilities/retrieve_ephemeris_data_files.py b/src/sorcha/utilities/retrieve_ephemeris_data_files.py
index 0f2377a..b4fdee0 100644
--- a/src/sorcha/utilities/retrieve_ephemeris_data_files.py
+++ b/src/sorcha/utilities/retrieve_ephemeris_data_files.py
@@ -46,9 +46,10 @@ def _remove_files(auxconfigs, retriever: pooch.Pooch) -> None:  # pragma: no cov
     """
 
     for file_name in auxconfigs.data_file_list:
-        file_path = retriever.fetch(file_name)
-        print(f"Deleting file: {file_path}")
-        os.remove(file_path)
+        file_path = os.path.join(retriever.abspath, file_name)
+        if os.path.exists(file_path):
+            print(f"Deleting file: {file_path}")
+            os.remove(file_path)
 
 
 def _check_for_existing_files(retriever: pooch.Pooch, file_list: list[str]) -> bool:  # pragma: no cover
-- 
2.43.0


From e1a9567a0480dbeb57a9410763c0661f8edd34b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:22 +0000
Subject: [PATCH 31/32] fix: cometary activity models crashed while logging an
 exception

---
 src/sorcha/activity/base_activity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sorcha/activity/base_activity.py b/src/sorcha/activity/base_activity.py
index 8db3bbf..de0e510 100644
--- a/src/sorcha/activity/base_activity.py
+++ b/src/sorcha/activity/base_activity.py
@@ -57,7 +57,7 @@ class AbstractCometaryActivity(ABC):
         exception : Exception
             The exception with a value string to appended to the error log
         """
-        self._log_error_message(str(exception.value))
+        self._log_error_message(str(exception))
 
     def _log_error_message(self, error_msg: str) -> None:
         """Log a specific error string to the error log file
-- 
2.43.0


From 81e864a38f1695fc0b11dfe3f52375df5d676de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:27 +0000
Subject: [PATCH 32/32] fix: the log misstated or left out the footprint,
 circle and activity settings in force

---
 src/sorcha/utilities/sorchaConfigs.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sorcha/utilities/sorchaConfigs.py b/src/sorcha/utilities/sorchaConfigs.py
index 834ae07..df345de 100644
--- a/src/sorcha/utilities/sorchaConfigs.py
+++ b/src/sorcha/utilities/sorchaConfigs.py
@@ -1529,9 +1529,9 @@ def PrintConfigsToLog(sconfigs, cmd_args):
         pplogger.info("The output ephemerides file is located " + cmd_args.output_ephemeris_file)
     pplogger.info("The survey selected is: " + cmd_args.surveyname)
 
-    if sconfigs.activity.comet_activity == "comet":
+    if sconfigs.activity.comet_activity is not None:
         pplogger.info("Cometary activity set to: " + str(sconfigs.activity.comet_activity))
-    elif sconfigs.activity.comet_activity == None:
+    else:
         pplogger.info("No cometary activity selected.")
 
     pplogger.info("Format of ephemerides file is: " + sconfigs.input.eph_format)
@@ -1580,21 +1580,21 @@ def PrintConfigsToLog(sconfigs, cmd_args):
                 pplogger.info("Loading default LSST footprint LSST_detector_corners_100123.csv")
             if cmd_args.surveyname.lower() == "des":
                 pplogger.info("Loading default DES footprint DES_ccd_corners.csv")
-        if sconfigs.fov.footprint_edge_threshold:
+        if sconfigs.fov.footprint_edge_threshold is not None:
             pplogger.info(
                 "The footprint edge threshold is "
                 + str(sconfigs.fov.footprint_edge_threshold)
                 + " arcseconds"
             )
         else:
-            pplogger.info("Default footprint edge threshold used (10px or 2 arcseconds).")
+            pplogger.info("No footprint edge threshold is applied.")
     elif sconfigs.fov.camera_model == "circle":
         pplogger.info("Footprint is circular.")
-        if sconfigs.fov.fill_factor:
+        if sconfigs.fov.fill_factor is not None:
             pplogger.info(
                 "The code will approximate chip gaps using filling factor: " + str(sconfigs.fov.fill_factor)
             )
-        elif sconfigs.fov.circle_radius:
+        if sconfigs.fov.circle_radius is not None:
             pplogger.info(
                 "A circular footprint will be applied with radius: " + str(sconfigs.fov.circle_radius)
             )
-- 
2.43.0

