From 4e661dfdd98d3dbb793cd6bd13ed6b9f379faf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:46 +0000
Subject: [PATCH 01/41] fix: apply the circular footprint and fill factor when
 they are set to zero

---
 src/sorcha/modules/PPApplyFOVFilter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sorcha/modules/PPApplyFOVFilter.py b/src/sorcha/modules/PPApplyFOVFilter.py
index 325f928..e15de35 100755
--- a/src/sorcha/modules/PPApplyFOVFilter.py
+++ b/src/sorcha/modules/PPApplyFOVFilter.py
@@ -71,10 +71,10 @@ def PPApplyFOVFilter(observations, sconfigs, module_rngs, visits=None, footprint
 
     if sconfigs.fov.camera_model == "circle":
         verboselog("FOV is circular...")
-        if sconfigs.fov.circle_radius:
+        if sconfigs.fov.circle_radius is not None:
             verboselog("Circle radius is set. Applying circular footprint filter...")
             observations = PPCircleFootprint(observations, sconfigs.fov.circle_radius)
-        if sconfigs.fov.fill_factor:
+        if sconfigs.fov.fill_factor is not None:
             verboselog("Fill factor is set. Removing random observations to mimic chip gaps.")
             observations = PPSimpleSensorArea(observations, module_rngs, sconfigs.fov.fill_factor)
 
-- 
2.43.0


From fe9fc8fc46d2859fc8cca760a8739709bdf96dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:56 +0000
Subject: [PATCH 02/41] fix: with -f, remove every existing output file of the
 stem, not only the first match

---
 src/sorcha/utilities/sorchaCommandLineParser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sorcha/utilities/sorchaCommandLineParser.py b/src/sorcha/utilities/sorchaCommandLineParser.py
index 9f476e9..d31d580 100644
--- a/src/sorcha/utilities/sorchaCommandLineParser.py
+++ b/src/sorcha/utilities/sorchaCommandLineParser.py
@@ -26,7 +26,8 @@ def warn_or_remove_file(filepath, force_remove, pplogger):
 
     if file_exists and force_remove:
         pplogger.info(f"Existing file found at {filepath}. -f flag set: deleting existing file.")
-        os.remove(file_exists[0])
+        for existing_file in file_exists:
+            os.remove(existing_file)
     elif file_exists and not force_remove:
         pplogger.error(
             f"ERROR: existing file found at output location {filepath}. Set -f flag to overwrite this file."
-- 
2.43.0


From fa92da6eed6f6e2d48eeedc585156f7bb62df741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:56 +0000
Subject: [PATCH 03/41] fix: report a missing complex physical parameters file
 instead of a KeyError

---
 src/sorcha_cmdline/run.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sorcha_cmdline/run.py b/src/sorcha_cmdline/run.py
index 7cbc01f..a14f3bd 100644
--- a/src/sorcha_cmdline/run.py
+++ b/src/sorcha_cmdline/run.py
@@ -176,11 +176,11 @@ def execute(args):
         pplogger.error("ERROR: A+R simulation not enabled and no ephemerides file provided")
         sys.exit("ERROR: A+R simulation not enabled and no ephemerides file provided")
 
-    if sconfigs.lightcurve.lc_model and cmd_args["complex_physical_parameters"] is None:
+    if sconfigs.lightcurve.lc_model and cmd_args.get("complex_physical_parameters") is None:
         pplogger.error("ERROR: No complex physical parameter file provided for light curve model")
         sys.exit("ERROR: No complex physical parameter file provided for light curve model")
 
-    if sconfigs.activity.comet_activity and cmd_args["complex_physical_parameters"] is None:
+    if sconfigs.activity.comet_activity and cmd_args.get("complex_physical_parameters") is None:
         pplogger.error("ERROR: No complex physical parameter file provided for comet activity model")
         sys.exit("ERROR: No complex physical parameter file provided for comet activity model")
     if "SORCHA_SEED" in os.environ:
-- 
2.43.0


From c927fc0fd1a39550e01a4b96423e4954ea05f36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:56 +0000
Subject: [PATCH 04/41] fix: find existing outputs whose stem contains glob
 characters

---
 src/sorcha/utilities/sorchaCommandLineParser.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/sorcha/utilities/sorchaCommandLineParser.py b/src/sorcha/utilities/sorchaCommandLineParser.py
index d31d580..4faaf12 100644
--- a/src/sorcha/utilities/sorchaCommandLineParser.py
+++ b/src/sorcha/utilities/sorchaCommandLineParser.py
@@ -86,7 +86,7 @@ def sorchaCommandLineParser(args):
     # if a value was provided, warn the user about overwriting if the file exists
     if cmd_args_dict["output_ephemeris_file"]:
         warn_or_remove_file(
-            os.path.join(cmd_args_dict["outpath"], cmd_args_dict["output_ephemeris_file"] + ".*"),
+            glob.escape(os.path.join(cmd_args_dict["outpath"], cmd_args_dict["output_ephemeris_file"])) + ".*",
             args.f,
             pplogger,
         )
@@ -98,7 +98,9 @@ def sorchaCommandLineParser(args):
 
     if cmd_args_dict["stats"] is not None:
         warn_or_remove_file(
-            os.path.join(cmd_args_dict["outpath"], cmd_args_dict["stats"] + ".csv"), args.f, pplogger
+            glob.escape(os.path.join(cmd_args_dict["outpath"], cmd_args_dict["stats"])) + ".csv",
+            args.f,
+            pplogger,
         )
 
     cmd_args_dict["ar_data_path"] = args.ar  # default value for args.ar is `None`.
@@ -106,7 +108,9 @@ def sorchaCommandLineParser(args):
         FindDirectoryOrExit(cmd_args_dict["ar_data_path"], "-ar, --ar_data_path")
 
     warn_or_remove_file(
-        os.path.join(cmd_args_dict["outpath"], cmd_args_dict["outfilestem"] + ".*"), args.f, pplogger
+        glob.escape(os.path.join(cmd_args_dict["outpath"], cmd_args_dict["outfilestem"])) + ".*",
+        args.f,
+        pplogger,
     )
 
     # Log all the command line settings to INFO.
-- 
2.43.0


From 3e1b0f1eb7afd7df9e9152bdbc3cec8e1b78014d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:12 +0000
Subject: [PATCH 05/41] fix: round output columns when zero decimals are
 configured

---
 src/sorcha/modules/PPOutput.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sorcha/modules/PPOutput.py b/src/sorcha/modules/PPOutput.py
index ac7ed6a..c3e34da 100755
--- a/src/sorcha/modules/PPOutput.py
+++ b/src/sorcha/modules/PPOutput.py
@@ -205,7 +205,7 @@ def PPWriteOutput(cmd_args, sconfigs, observations_in, verbose=False):
                 "ERROR: at least one of the columns provided in output_columns does not seem to exist. Check docs and try again."
             )
 
-    if sconfigs.output.position_decimals:
+    if sconfigs.output.position_decimals is not None:
         for position_col in [
             "fieldRA_deg",
             "fieldDec_deg",
@@ -222,7 +222,7 @@ def PPWriteOutput(cmd_args, sconfigs, observations_in, verbose=False):
             except KeyError:
                 continue
 
-    if sconfigs.output.magnitude_decimals:
+    if sconfigs.output.magnitude_decimals is not None:
         for magnitude_col in [
             "PSFMag",
             "trailedSourceMag",
-- 
2.43.0


From f04e6523bc2c566f3847e3eff372591492f220ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:33 +0000
Subject: [PATCH 06/41] fix: append chunks with longer text to an existing HDF5
 results table

---
 src/sorcha/modules/PPOutput.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/sorcha/modules/PPOutput.py b/src/sorcha/modules/PPOutput.py
index c3e34da..3a1a02f 100755
--- a/src/sorcha/modules/PPOutput.py
+++ b/src/sorcha/modules/PPOutput.py
@@ -67,9 +67,16 @@ def PPOutWriteHDF5(pp_results, outf, keyname="sorcha_results"):
     # as long as the user isn't going to use PyTables to access the data this doesn't matter
     warnings.filterwarnings("ignore", category=NaturalNameWarning)
 
-    store = pd.HDFStore(outf)
-    store.append(keyname, pp_results, format="t", data_columns=True)
-    store.close()
+    with pd.HDFStore(outf) as store:
+        try:
+            store.append(keyname, pp_results, format="t", data_columns=True)
+        except ValueError:
+            # PyTables fixes text widths and number types when the table is created: if this chunk has
+            # longer text (or floats where the earlier chunks had integers), rebuild the table to fit.
+            if keyname not in store or list(store[keyname].columns) != list(pp_results.columns):
+                raise
+            pp_results = pd.concat([store[keyname], pp_results])
+            store.put(keyname, pp_results, format="t", data_columns=True)
 
     return
 
-- 
2.43.0


From f376f824aa34301b6a2ef795a4aa5c38ff1533a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:27 +0000
Subject: [PATCH 07/41] fix: read object IDs as text so that they are kept
 verbatim

---
 src/sorcha/readers/CSVReader.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sorcha/readers/CSVReader.py b/src/sorcha/readers/CSVReader.py
index 9e633a0..f14ecdc 100755
--- a/src/sorcha/readers/CSVReader.py
+++ b/src/sorcha/readers/CSVReader.py
@@ -201,6 +201,7 @@ class CSVDataReader(ObjectDataReader):
                 sep="\\s+",
                 skiprows=skip_rows,
                 nrows=block_size,
+                dtype={"ObjID": str},
             )
         else:
             res_df = pd.read_csv(
@@ -208,6 +209,7 @@ class CSVDataReader(ObjectDataReader):
                 delimiter=",",
                 skiprows=skip_rows,
                 nrows=block_size,
+                dtype={"ObjID": str},
             )
 
         return res_df
@@ -223,6 +225,7 @@ class CSVDataReader(ObjectDataReader):
                 sep="\\s+",
                 usecols=["ObjID"],
                 header=self.header_row,
+                dtype={"ObjID": str},
             )
         else:
             self.obj_id_table = pd.read_csv(
@@ -230,6 +233,7 @@ class CSVDataReader(ObjectDataReader):
                 delimiter=",",
                 usecols=["ObjID"],
                 header=self.header_row,
+                dtype={"ObjID": str},
             )
 
         self.obj_id_table = self._validate_object_id_column(self.obj_id_table)
@@ -264,12 +268,14 @@ class CSVDataReader(ObjectDataReader):
                     self.filename,
                     sep="\\s+",
                     skiprows=(lambda x: skipped_row[x]),
+                    dtype={"ObjID": str},
                 )
             else:
                 res_df = pd.read_csv(
                     self.filename,
                     delimiter=",",
                     skiprows=(lambda x: skipped_row[x]),
+                    dtype={"ObjID": str},
                 )
         except IndexError as current_exc:
             # Check if there is a more understandable error we can raise.
-- 
2.43.0


From fd8f891550b58ace0b46baf42a6d6de2028cbf52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:27 +0000
Subject: [PATCH 08/41] fix: keep object IDs as text in generated ephemerides

---
 src/sorcha/ephemeris/simulation_driver.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/sorcha/ephemeris/simulation_driver.py b/src/sorcha/ephemeris/simulation_driver.py
index 4615485..ba0d2e4 100644
--- a/src/sorcha/ephemeris/simulation_driver.py
+++ b/src/sorcha/ephemeris/simulation_driver.py
@@ -1,5 +1,4 @@
 from dataclasses import dataclass
-from collections import defaultdict
 from csv import writer
 from io import StringIO
 
@@ -157,7 +156,6 @@ def create_ephemeris(orbits_df, pointings_df, args, sconfigs):
         "Obs_Sun_vz_km_s",
         "phase_deg",
     )
-    column_types = defaultdict(ObjID=str, FieldID=str).setdefault(float)
     in_memory_csv.writerow(column_names)
 
     # t_picket is the last time at which the sky positions of all the objects
@@ -222,7 +220,7 @@ def create_ephemeris(orbits_df, pointings_df, args, sconfigs):
     verboselog("Ephemeris generated.")
     # reset to the beginning of the in-memory CSV
     output.seek(0)
-    ephemeris_df = pd.read_csv(output, dtype=column_types)
+    ephemeris_df = pd.read_csv(output, dtype={"ObjID": str})
 
     # if the user has defined an output file name for the ephemeris results, write out to that file
     if ephemeris_csv_filename:
-- 
2.43.0


From 8eb96cc700e402d476162db61f445b6768a42653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:10 +0000
Subject: [PATCH 09/41] fix: read objects from HDF5 files by row number

---
 src/sorcha/readers/HDF5Reader.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sorcha/readers/HDF5Reader.py b/src/sorcha/readers/HDF5Reader.py
index 4d51a87..1ac0f56 100755
--- a/src/sorcha/readers/HDF5Reader.py
+++ b/src/sorcha/readers/HDF5Reader.py
@@ -1,3 +1,4 @@
+import numpy as np
 import pandas as pd
 
 from sorcha.readers.ObjectDataReader import ObjectDataReader
@@ -94,8 +95,11 @@ class HDF5DataReader(ObjectDataReader):
         """
         self._build_id_map()
         row_match = self.obj_id_table["ObjID"].isin(obj_ids)
-        match_inds = self.obj_id_table[row_match].index
-        res_df = pd.read_hdf(self.filename, where="index=match_inds")  # noqa: F841
+        # select by row number, as the index labels of a file written in chunks are not unique
+        match_inds = np.flatnonzero(row_match)
+        if len(match_inds) == 0:
+            return pd.read_hdf(self.filename, start=0, stop=0)
+        res_df = pd.read_hdf(self.filename, where=match_inds)
         return res_df
 
     def _process_and_validate_input_table(self, input_table, **kwargs):
-- 
2.43.0


From cdbdad57c7869b4c8584115c7897c53f227d3761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:58 +0000
Subject: [PATCH 10/41] fix: pass values from other sections to config sections
 that are absent

---
 src/sorcha/utilities/sorchaConfigs.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/sorcha/utilities/sorchaConfigs.py b/src/sorcha/utilities/sorchaConfigs.py
index de7ea22..d25ba02 100644
--- a/src/sorcha/utilities/sorchaConfigs.py
+++ b/src/sorcha/utilities/sorchaConfigs.py
@@ -1273,13 +1273,13 @@ class sorchaConfigs(basesorchaConfigs):
             ):
                 extra_args["survey_name"] = self.survey_name
 
-            if config_object.has_section(section):
-                if section == "SIMULATION":
-                    extra_args["_ephemerides_type"] = self.input.ephemerides_type
+            if section == "SIMULATION":
+                extra_args["_ephemerides_type"] = self.input.ephemerides_type
 
-                elif section == "SATURATION":
-                    extra_args["_observing_filters"] = self.filters.observing_filters
+            elif section == "SATURATION":
+                extra_args["_observing_filters"] = self.filters.observing_filters
 
+            if config_object.has_section(section):
                 if section == "EXPERT":
                     extra_args["camera_model"] = self.fov.camera_model
 
-- 
2.43.0


From c8099efaaeeea31847b871147a02b405cef1063a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:58 +0000
Subject: [PATCH 11/41] fix: logging.ERROR is not callable in the expert config
 checks

---
 src/sorcha/utilities/sorchaConfigs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sorcha/utilities/sorchaConfigs.py b/src/sorcha/utilities/sorchaConfigs.py
index d25ba02..22e0964 100644
--- a/src/sorcha/utilities/sorchaConfigs.py
+++ b/src/sorcha/utilities/sorchaConfigs.py
@@ -941,7 +941,7 @@ class expertConfigs:
                 self.trailing_losses_on, "trailing_losses_on", False
             )
             if self.randomization_on == True or self.vignetting_on == True or self.trailing_losses_on == True:
-                logging.ERROR(
+                logging.error(
                     "ERROR: DES simulation does not support trailing losses, vignetting and randomization."
                 )
                 sys.exit(
@@ -953,7 +953,7 @@ class expertConfigs:
             )
             self.vignetting_on = cast_as_bool_or_set_default(self.vignetting_on, "vignetting_on", False)
             if self.vignetting_on == True:
-                logging.ERROR("ERROR: fov camera model 'visits_footprint' does not support vignetting.")
+                logging.error("ERROR: fov camera model 'visits_footprint' does not support vignetting.")
                 sys.exit("ERROR: fov camera model 'visits_footprint does not support vignetting.")
 
 
-- 
2.43.0


From 5c3df747653839bb0d40fe14bf36bf989e1708ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:58 +0000
Subject: [PATCH 12/41] fix: faint object culling failed for an observing
 filter without pointings

---
 src/sorcha/modules/PPFaintObjectCullingFilter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sorcha/modules/PPFaintObjectCullingFilter.py b/src/sorcha/modules/PPFaintObjectCullingFilter.py
index b1fdb61..faed9d4 100644
--- a/src/sorcha/modules/PPFaintObjectCullingFilter.py
+++ b/src/sorcha/modules/PPFaintObjectCullingFilter.py
@@ -91,7 +91,8 @@ def PPFaintObjectCullingFilter(
             )
 
         # 2 is a fairly arbitrary value added to give a threshold
-        drop_df[filt] = app_mag > max_five_sigma[filt] + 2
+        # (an object cannot be detected in a filter which has no pointings)
+        drop_df[filt] = app_mag > max_five_sigma.get(filt, -np.inf) + 2
 
     # if the object's apparent magnitude fulfils the condition in the above loop for all filters, drop it
     objects_to_drop = drop_df.loc[drop_df[observing_filters].all(axis=1), "ObjID"].tolist()
-- 
2.43.0


From e38127cdfb838defcf12fc8af4339897052c90d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:58 +0000
Subject: [PATCH 13/41] fix: apply colour offsets to H columns read as integers

---
 src/sorcha/modules/PPApplyColourOffsets.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sorcha/modules/PPApplyColourOffsets.py b/src/sorcha/modules/PPApplyColourOffsets.py
index 2d87a94..f8d3308 100644
--- a/src/sorcha/modules/PPApplyColourOffsets.py
+++ b/src/sorcha/modules/PPApplyColourOffsets.py
@@ -52,6 +52,10 @@ def PPApplyColourOffsets(observations, function, othercolours, observing_filters
 
     H_col = "H_" + mainfilter
 
+    # H values given as integers are stored as such: the offsets are not whole numbers.
+    if H_col in observations.columns:
+        observations[H_col] = observations[H_col].astype(float)
+
     # save original H column: useful for other functions.
     observations["H_original"] = observations[H_col].copy()
 
-- 
2.43.0


From 07111f7ddd9cbaa8c336e0130dce577bf91c4a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:58 +0000
Subject: [PATCH 14/41] fix: return empty results when no observation survives

---
 src/sorcha/sorcha.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sorcha/sorcha.py b/src/sorcha/sorcha.py
index b8a32de..f593451 100755
--- a/src/sorcha/sorcha.py
+++ b/src/sorcha/sorcha.py
@@ -402,8 +402,9 @@ def runLSSTSimulation(args, sconfigs, return_only=False):
     pplogger.info("Sorcha process is completed.")
 
     if return_only:
-        result_observations = pd.concat(result_observations)
+        # there is nothing to concatenate if no observation survived
+        result_observations = pd.concat(result_observations) if result_observations else pd.DataFrame()
         if args.stats is not None:
-            result_stats = pd.concat(result_stats)
+            result_stats = pd.concat(result_stats) if result_stats else pd.DataFrame()
             return result_observations, result_stats
         return result_observations
-- 
2.43.0


From ff138fa4b4495b3df07c5e832f3ea6f4ee3ea42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:58 +0000
Subject: [PATCH 15/41] fix: reject a chunk size below one, which made the run
 loop forever

---
 src/sorcha/utilities/sorchaConfigs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sorcha/utilities/sorchaConfigs.py b/src/sorcha/utilities/sorchaConfigs.py
index 22e0964..1fc7ef1 100644
--- a/src/sorcha/utilities/sorchaConfigs.py
+++ b/src/sorcha/utilities/sorchaConfigs.py
@@ -56,6 +56,9 @@ class inputConfigs:
         check_value_in_list(self.eph_format, ["csv", "whitespace", "hdf5"], "eph_format")
         check_value_in_list(self.aux_format, ["comma", "whitespace", "csv"], "aux_format")
         self.size_serial_chunk = cast_as_int(self.size_serial_chunk, "size_serial_chunk")
+        if self.size_serial_chunk < 1:
+            logging.error("ERROR: size_serial_chunk is less than one.")
+            sys.exit("ERROR: size_serial_chunk is less than one.")
 
 
 @dataclass
-- 
2.43.0


From 397df5ae3f12ab6dcf8152fef51247701883200c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:38 +0000
Subject: [PATCH 16/41] fix: skip chunks without observations in the selected
 filters

---
 src/sorcha/sorcha.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/sorcha/sorcha.py b/src/sorcha/sorcha.py
index f593451..e010075 100755
--- a/src/sorcha/sorcha.py
+++ b/src/sorcha/sorcha.py
@@ -239,6 +239,15 @@ def runLSSTSimulation(args, sconfigs, return_only=False):
 
         observations = PPMatchPointingToObservations(observations, filterpointing)
 
+        # The observations of this chunk could all be in filters that are not of interest
+        if len(observations.index) == 0:
+            pplogger.info(
+                "WARNING: no observations of these objects in the selected filters. Skipping to next chunk..."
+            )
+            startChunk = startChunk + sconfigs.input.size_serial_chunk
+            loopCounter = loopCounter + 1
+            continue
+
         verboselog("Calculating apparent magnitudes...")
         observations = PPCalculateApparentMagnitude(
             observations,
-- 
2.43.0


From 8d59c8a765f76a33b452f5580e28322c041a7667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:53 +0000
Subject: [PATCH 17/41] fix: find the header again when blank lines precede it
 (CSV reader ID map)

---
 src/sorcha/readers/CSVReader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sorcha/readers/CSVReader.py b/src/sorcha/readers/CSVReader.py
index f14ecdc..3e0a94e 100755
--- a/src/sorcha/readers/CSVReader.py
+++ b/src/sorcha/readers/CSVReader.py
@@ -224,7 +224,7 @@ class CSVDataReader(ObjectDataReader):
                 self.filename,
                 sep="\\s+",
                 usecols=["ObjID"],
-                header=self.header_row,
+                skiprows=self.header_row,
                 dtype={"ObjID": str},
             )
         else:
@@ -232,7 +232,7 @@ class CSVDataReader(ObjectDataReader):
                 self.filename,
                 delimiter=",",
                 usecols=["ObjID"],
-                header=self.header_row,
+                skiprows=self.header_row,
                 dtype={"ObjID": str},
             )
 
-- 
2.43.0


From dda2a455149a7e3ffe8d1ec7d3055ffcadb83dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:18 +0000
Subject: [PATCH 18/41] fix: accept padded column names in orbit files, as in
 the other input files

---
 src/sorcha/readers/OrbitAuxReader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sorcha/readers/OrbitAuxReader.py b/src/sorcha/readers/OrbitAuxReader.py
index 05a1b43..06e804a 100755
--- a/src/sorcha/readers/OrbitAuxReader.py
+++ b/src/sorcha/readers/OrbitAuxReader.py
@@ -64,7 +64,7 @@ class OrbitAuxReader(CSVDataReader):
 
         """
         # Do standard CSV file processing
-        super()._process_and_validate_input_table(input_table, **kwargs)
+        input_table = super()._process_and_validate_input_table(input_table, **kwargs)
 
         if len(input_table) == 0:
             return input_table
-- 
2.43.0


From 2f46d54facedf1ebcf043bfc0c2e7dad6ef1ecd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:28 +0000
Subject: [PATCH 19/41] fix: write results with a custom list of columns that
 leaves out ObjID

---
 src/sorcha/modules/PPOutput.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/sorcha/modules/PPOutput.py b/src/sorcha/modules/PPOutput.py
index 3a1a02f..81d4dbc 100755
--- a/src/sorcha/modules/PPOutput.py
+++ b/src/sorcha/modules/PPOutput.py
@@ -61,7 +61,8 @@ def PPOutWriteHDF5(pp_results, outf, keyname="sorcha_results"):
 
     # pytables doesn't like the Pandas extension dtype StringDtype
     # converting the ObjID to 'str' type fixes this
-    pp_results = pp_results.astype({"ObjID": str})
+    if "ObjID" in pp_results.columns:  # a custom list of columns may leave it out
+        pp_results = pp_results.astype({"ObjID": str})
 
     # this suppresses a warning when ObjIDs begin with a number
     # as long as the user isn't going to use PyTables to access the data this doesn't matter
@@ -133,9 +134,11 @@ def PPIndexSQLDatabase(outf, tablename="sorcha_results"):
     cnx = sqlite3.connect(outf)
 
     cur = cnx.cursor()
-    cur.execute("CREATE INDEX ObjID ON {} (ObjID)".format(tablename))
-    cur.execute("CREATE INDEX fieldMJD_TAI ON {} (fieldMJD_TAI)".format(tablename))
-    cur.execute("CREATE INDEX optFilter ON {} (optFilter)".format(tablename))
+    # a custom list of output columns may leave some of these out
+    columns = [row[1] for row in cur.execute("PRAGMA table_info({})".format(tablename)).fetchall()]
+    for column in ["ObjID", "fieldMJD_TAI", "optFilter"]:
+        if column in columns:
+            cur.execute("CREATE INDEX {} ON {} ({})".format(column, tablename, column))
     cnx.commit()
 
 
-- 
2.43.0


From 375c4b057ccb764afc792b2580592ed7325ddf3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:15 +0000
Subject: [PATCH 20/41] fix: let the identity activity model be called as
 Sorcha calls activity models

---
 src/sorcha/activity/identity_activity.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/sorcha/activity/identity_activity.py b/src/sorcha/activity/identity_activity.py
index 70ed0de..14e69ab 100644
--- a/src/sorcha/activity/identity_activity.py
+++ b/src/sorcha/activity/identity_activity.py
@@ -20,15 +20,20 @@ class IdentityCometaryActivity(AbstractCometaryActivity):
     def __init__(self) -> None:
         super().__init__()
 
-    def compute(self, df: pd.DataFrame) -> pd.DataFrame:
-        """Returns numpy array of 0's with shape equal to the input dataframe
-        time column.
+    def compute(
+        self, df: pd.DataFrame, observing_filters=None, rho=None, delta=None, alpha=None
+    ) -> pd.DataFrame:
+        """Returns the ``observations`` dataframe unchanged.
 
         Parameters
         ----------
         df : pd.DataFrame
             The ``observations`` dataframe provided by ``Sorcha``.
 
+        observing_filters, rho, delta, alpha : optional
+            The photometric filters, heliocentric and geocentric distances and phase
+            angles ``Sorcha`` passes to every cometary activity model. Unused here.
+
         Returns
         -------
         pd.DataFrame
-- 
2.43.0


From a0bd232a72ddf0014d5a39af47f08b6dc3cfdb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 21/41] fix: never combine the results database with itself

---
 src/sorcha/utilities/createResultsSQLDatabase.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sorcha/utilities/createResultsSQLDatabase.py b/src/sorcha/utilities/createResultsSQLDatabase.py
index 7fe2cdb..1661822 100644
--- a/src/sorcha/utilities/createResultsSQLDatabase.py
+++ b/src/sorcha/utilities/createResultsSQLDatabase.py
@@ -44,8 +44,8 @@ def create_results_table(cnx_out, filename, output_path, output_stem, table_name
 
     output_list = glob.glob(os.path.join(output_path, "**", output_stem + "*.db"), recursive=True)
 
-    if filename in output_list:
-        output_list.remove(filename)
+    # the database being written is not one of its own inputs
+    output_list = [name for name in output_list if os.path.realpath(name) != os.path.realpath(filename)]
 
     if not output_list:
         sys.exit("Could not find any .db files using given filepath and stem.")
@@ -146,7 +146,7 @@ def create_results_database(args):
     else:
         stemname = ""
 
-    create_results_table(cnx_out, args.inputs, args.results, stemname)
+    create_results_table(cnx_out, args.output, args.results, stemname)
 
     create_inputs_table(cnx_out, args.inputs, "params")
     create_inputs_table(cnx_out, args.inputs, "orbits")
-- 
2.43.0


From 84d7aea62969fa026469a5a6804bc8fdf3fc4a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 22/41] fix: combine results by column name

---
 src/sorcha/utilities/createResultsSQLDatabase.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sorcha/utilities/createResultsSQLDatabase.py b/src/sorcha/utilities/createResultsSQLDatabase.py
index 1661822..35a2709 100644
--- a/src/sorcha/utilities/createResultsSQLDatabase.py
+++ b/src/sorcha/utilities/createResultsSQLDatabase.py
@@ -52,6 +52,10 @@ def create_results_table(cnx_out, filename, output_path, output_stem, table_name
 
     column_names = get_column_names(output_list[0])
 
+    for name in output_list:
+        if set(get_column_names(name)) != set(column_names):
+            sys.exit("ERROR: the results in " + name + " do not have the same columns as " + output_list[0])
+
     cur_out = cnx_out.cursor()
     cur_out.execute("DROP TABLE if exists " + table_name)
 
@@ -70,7 +74,7 @@ def create_results_table(cnx_out, filename, output_path, output_stem, table_name
         con = sqlite3.connect(filename)
         cur = con.cursor()
 
-        cur.execute("SELECT * FROM sorcha_results")
+        cur.execute("SELECT " + column_string + " FROM sorcha_results")
         output = cur.fetchall()
 
         for row in output:
-- 
2.43.0


From 96aba31b09c07d9a192668ac18920243127047d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 23/41] fix: keep object IDs as text in the combined results
 database

---
 src/sorcha/utilities/createResultsSQLDatabase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sorcha/utilities/createResultsSQLDatabase.py b/src/sorcha/utilities/createResultsSQLDatabase.py
index 35a2709..2ff86cd 100644
--- a/src/sorcha/utilities/createResultsSQLDatabase.py
+++ b/src/sorcha/utilities/createResultsSQLDatabase.py
@@ -117,7 +117,7 @@ def create_inputs_table(cnx_out, input_path, table_type):
     cur_out.execute("DROP TABLE if exists " + table_type)
 
     for filename in input_list:
-        df = pd.read_csv(filename, sep="\\s+")
+        df = pd.read_csv(filename, sep="\\s+", dtype={"ObjID": str})
 
         if "INDEX" in df.columns:
             df = df.rename(columns={"INDEX": "orig_index"})
-- 
2.43.0


From fb0f0f83aac85fd4a63fe8329fce8d4cb57c6e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 24/41] fix: report a run whose log file is empty as
 unsuccessful

---
 src/sorcha/utilities/check_output_logs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sorcha/utilities/check_output_logs.py b/src/sorcha/utilities/check_output_logs.py
index e9809ff..39b4339 100644
--- a/src/sorcha/utilities/check_output_logs.py
+++ b/src/sorcha/utilities/check_output_logs.py
@@ -53,7 +53,7 @@ def check_all_logs(log_files):
     for log_file in log_files:
         with open(log_file, "r") as f:
             lines = f.read().splitlines()
-            last_line = lines[-1]
+            last_line = lines[-1] if lines else ""
 
             if last_line[-29:] == "Sorcha process is completed. ":
                 good_log.append(True)
-- 
2.43.0


From 3b7a6606d3b2ea88b451ac1ee24fdb589297bdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 25/41] fix: look for an existing log report under the name it
 is written to

---
 src/sorcha_cmdline/outputs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sorcha_cmdline/outputs.py b/src/sorcha_cmdline/outputs.py
index 880e2fc..366c670 100644
--- a/src/sorcha_cmdline/outputs.py
+++ b/src/sorcha_cmdline/outputs.py
@@ -46,6 +46,9 @@ def cmd_outputs_check_logs(args):  # pragma: no cover
         args.outpath = os.path.abspath(args.outpath)
         _ = FindDirectoryOrExit(os.path.dirname(args.outpath), "-o, --outpath")
 
+        if args.outpath[-4:] != ".csv":
+            args.outpath = args.outpath + ".csv"
+
         if os.path.exists(args.outpath) and not args.force:
             print(
                 "File already found at {}. Re-run with --force argument to overwrite existing output.".format(
@@ -56,9 +59,6 @@ def cmd_outputs_check_logs(args):  # pragma: no cover
         elif os.path.exists(args.outpath) and args.force:
             os.remove(args.outpath)
 
-        if args.outpath[-4:] != ".csv":
-            args.outpath = args.outpath + ".csv"
-
     return check_output_logs(args.filepath, args.outpath)
 
 
-- 
2.43.0


From 7387e771775d8a178683baf4da2e864a60fcc27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:37 +0000
Subject: [PATCH 26/41] fix: find every triplet of nights in the DES discovery
 criterion

---
 src/sorcha/modules/DESDiscoveryFilter.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/sorcha/modules/DESDiscoveryFilter.py b/src/sorcha/modules/DESDiscoveryFilter.py
index a0e38d6..f14695b 100644
--- a/src/sorcha/modules/DESDiscoveryFilter.py
+++ b/src/sorcha/modules/DESDiscoveryFilter.py
@@ -140,8 +140,6 @@ def compute_triplet(times, thresh):
         returns true if triplet is formed
 
     """
-    first_pair = 999.0
-    second_pair = 999.0
     det = List()
 
     det.append(times[0])
@@ -154,14 +152,10 @@ def compute_triplet(times, thresh):
 
     n = len(det)
     for i in range(1, n - 1):
-        if det[i + 1] - det[i] < first_pair and det[i] - det[i - 1] < second_pair:
-            first_pair = det[i + 1] - det[i]
-            second_pair = det[i] - det[i - 1]
-
-    if first_pair < thresh and second_pair < thresh:
-        return True
-    else:
-        return False
+        if det[i + 1] - det[i] < thresh and det[i] - det[i - 1] < thresh:
+            return True
+
+    return False
 
 
 @numba.jit(
-- 
2.43.0


From 18fd30c9dcebf12df66f2690d3079ceb1aef632f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:06 +0000
Subject: [PATCH 27/41] fix: shift the sky-position cache towards the requested
 time

---
 src/sorcha/ephemeris/pixel_dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sorcha/ephemeris/pixel_dict.py b/src/sorcha/ephemeris/pixel_dict.py
index 157eec8..790ea01 100644
--- a/src/sorcha/ephemeris/pixel_dict.py
+++ b/src/sorcha/ephemeris/pixel_dict.py
@@ -301,7 +301,7 @@ class PixelDict:
             if abs(jd_tdb - self.t0) <= 1.5 * self.picket_interval:
                 # Can compute just one new set and shift the others
 
-                if jd_tdb <= self.tm:
+                if jd_tdb < self.t0:
                     # shift earlier
                     self.tp = self.t0
                     self.r_obs_p = self.r_obs_0
-- 
2.43.0


From d4974824e9b75dbb3695e886910ab3ceffe8e8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:15 +0000
Subject: [PATCH 28/41] fix: register the traversed pixels themselves, not only
 their neighbours

---
 src/sorcha/ephemeris/pixel_dict.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sorcha/ephemeris/pixel_dict.py b/src/sorcha/ephemeris/pixel_dict.py
index 790ea01..c024df9 100644
--- a/src/sorcha/ephemeris/pixel_dict.py
+++ b/src/sorcha/ephemeris/pixel_dict.py
@@ -281,7 +281,8 @@ class PixelDict:
             pixels = list(set(pixels))
 
             # Add the neighboring pixels
-            pixels = set(hp.get_all_neighbours(self.nside, pixels, nest=self.nested).flatten())
+            neighbours = hp.get_all_neighbours(self.nside, pixels, nest=self.nested).flatten()
+            pixels = set(pixels) | set(neighbours)
 
             # Add the pixels that the object traverse, and the neighbors, to the pixel_dict
             for pix in pixels:
-- 
2.43.0


From 7a8713acb4eff1d2a5d1301ebd43f50ffed582d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:09 +0000
Subject: [PATCH 29/41] fix: accept observatories at longitude zero or with a
 zero parallax constant

---
 src/sorcha/ephemeris/simulation_parsing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sorcha/ephemeris/simulation_parsing.py b/src/sorcha/ephemeris/simulation_parsing.py
index 7407a63..ac1a4bb 100644
--- a/src/sorcha/ephemeris/simulation_parsing.py
+++ b/src/sorcha/ephemeris/simulation_parsing.py
@@ -339,9 +339,9 @@ class Observatory:
         """
         returned_tuple = (None, None, None)
         if (
-            obs_location.get("Longitude", False)
-            and obs_location.get("cos", False)
-            and obs_location.get("sin", False)
+            obs_location.get("Longitude") is not None
+            and obs_location.get("cos") is not None
+            and obs_location.get("sin") is not None
         ):
             longitude = obs_location["Longitude"] * np.pi / 180.0
             x = obs_location["cos"] * np.cos(longitude)
-- 
2.43.0


From 92a73b03c1d6213c17ba0fb7e1772ebd91a3707a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:09 +0000
Subject: [PATCH 30/41] fix: keep angles defined when a dot product rounds
 above one

---
 src/sorcha/ephemeris/simulation_driver.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/sorcha/ephemeris/simulation_driver.py b/src/sorcha/ephemeris/simulation_driver.py
index ba0d2e4..ef3be3d 100644
--- a/src/sorcha/ephemeris/simulation_driver.py
+++ b/src/sorcha/ephemeris/simulation_driver.py
@@ -201,7 +201,7 @@ def create_ephemeris(orbits_df, pointings_df, args, sconfigs):
             v = sim_dict[k]
             sim, ex = v["sim"], v["ex"]
             uv /= np.linalg.norm(uv)
-            ang = np.arccos(np.dot(uv, visit_vector)) * 180 / np.pi
+            ang = np.arccos(np.clip(np.dot(uv, visit_vector), -1.0, 1.0)) * 180 / np.pi
             if ang < ang_fov_buffer:
                 (
                     ephem_geom_params.rho,
@@ -212,7 +212,8 @@ def create_ephemeris(orbits_df, pointings_df, args, sconfigs):
                 ) = integrate_light_time(sim, ex, pointing["fieldJD_TDB"] - ephem.jd_ref, r_obs, lt0=0.01)
                 ephem_geom_params.rho_hat = ephem_geom_params.rho / ephem_geom_params.rho_mag
 
-                ang_from_center = 180 / np.pi * np.arccos(np.dot(ephem_geom_params.rho_hat, visit_vector))
+                cos_from_center = np.clip(np.dot(ephem_geom_params.rho_hat, visit_vector), -1.0, 1.0)
+                ang_from_center = 180 / np.pi * np.arccos(cos_from_center)
                 if ang_from_center < ang_fov_buffer:
                     out_tuple = calculate_rates_and_geometry(pointing, ephem_geom_params)
                     in_memory_csv.writerow(out_tuple)
@@ -301,9 +302,8 @@ def calculate_rates_and_geometry(pointing: pd.DataFrame, ephem_geom_params: Ephe
     r_ast_sun = ephem_geom_params.r_ast - r_sun
     v_ast_sun = ephem_geom_params.v_ast - v_sun
     r_ast_obs = ephem_geom_params.r_ast - r_obs
-    phase_angle = np.arccos(
-        np.dot(r_ast_sun, r_ast_obs) / (np.linalg.norm(r_ast_sun) * np.linalg.norm(r_ast_obs))
-    )
+    cos_phase_angle = np.dot(r_ast_sun, r_ast_obs) / (np.linalg.norm(r_ast_sun) * np.linalg.norm(r_ast_obs))
+    phase_angle = np.arccos(np.clip(cos_phase_angle, -1.0, 1.0))
     obs_sun = r_obs - r_sun
     dobs_sundt = v_obs - v_sun
 
-- 
2.43.0


From 595dc6a9febe99fba2930b4d6e45f03875784b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:00 +0000
Subject: [PATCH 31/41] fix: angles of orbital elements when only one component
 vanishes

---
 src/sorcha/ephemeris/orbit_conversion_utilities.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sorcha/ephemeris/orbit_conversion_utilities.py b/src/sorcha/ephemeris/orbit_conversion_utilities.py
index 02db9cb..6c821e0 100644
--- a/src/sorcha/ephemeris/orbit_conversion_utilities.py
+++ b/src/sorcha/ephemeris/orbit_conversion_utilities.py
@@ -424,7 +424,7 @@ def universal_cometary(mu, x, y, z, vx, vy, vz, epochMJD_TDB):
 
     incl = np.arccos(h_vec[2] / h)
 
-    if h_vec[0] != 0.0 and h_vec[1] != 0.0:
+    if h_vec[0] != 0.0 or h_vec[1] != 0.0:
         longnode = np.arctan2(h_vec[0], -h_vec[1])
     else:
         longnode = 0.0
@@ -435,7 +435,7 @@ def universal_cometary(mu, x, y, z, vx, vy, vz, epochMJD_TDB):
 
     q = p / (1 + e)
 
-    if esintrueanom != 0.0 and ecostrueanom != 0.0:
+    if esintrueanom != 0.0 or ecostrueanom != 0.0:
         trueanom = np.arctan2(esintrueanom, ecostrueanom)
     else:
         trueanom = 0.0
@@ -447,7 +447,7 @@ def universal_cometary(mu, x, y, z, vx, vy, vz, epochMJD_TDB):
     rcosu = pos[0] * cosnode + pos[1] * sinnode
     rsinu = (pos[1] * cosnode - pos[0] * sinnode) / np.cos(incl)  # should check zero
 
-    if rsinu != 0.0 and rcosu != 0.0:
+    if rsinu != 0.0 or rcosu != 0.0:
         u = np.arctan2(rsinu, rcosu)
     else:
         u = 0.0
-- 
2.43.0


From 63b041dcd9c70441d1f56bd440f5e034f413460c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:00 +0000
Subject: [PATCH 32/41] fix: argument of latitude of polar orbits

---
 src/sorcha/ephemeris/orbit_conversion_utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sorcha/ephemeris/orbit_conversion_utilities.py b/src/sorcha/ephemeris/orbit_conversion_utilities.py
index 6c821e0..fbe4e42 100644
--- a/src/sorcha/ephemeris/orbit_conversion_utilities.py
+++ b/src/sorcha/ephemeris/orbit_conversion_utilities.py
@@ -445,7 +445,7 @@ def universal_cometary(mu, x, y, z, vx, vy, vz, epochMJD_TDB):
 
     # u is the argument of latitude
     rcosu = pos[0] * cosnode + pos[1] * sinnode
-    rsinu = (pos[1] * cosnode - pos[0] * sinnode) / np.cos(incl)  # should check zero
+    rsinu = (pos[1] * cosnode - pos[0] * sinnode) * np.cos(incl) + pos[2] * np.sin(incl)
 
     if rsinu != 0.0 or rcosu != 0.0:
         u = np.arctan2(rsinu, rcosu)
-- 
2.43.0


From 7c3c06f264fd8e4e81860e32505bd965da0f8cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:00 +0000
Subject: [PATCH 33/41] fix: keep the precision of long-period orbits before
 perihelion

---
 src/sorcha/ephemeris/orbit_conversion_utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sorcha/ephemeris/orbit_conversion_utilities.py b/src/sorcha/ephemeris/orbit_conversion_utilities.py
index fbe4e42..2e82d6e 100644
--- a/src/sorcha/ephemeris/orbit_conversion_utilities.py
+++ b/src/sorcha/ephemeris/orbit_conversion_utilities.py
@@ -248,7 +248,7 @@ def universal_cartesian(mu, q, e, incl, longnode, argperi, tp, epochMJD_TDB):
     if e < 1:
         a = q / (1 - e)
         per = 2 * np.pi / np.sqrt(mu / (a * a * a))
-        t = t % per
+        t = t - per * np.round(t / per)  # time from the nearest perihelion passage
 
     # Establish constants for Kepler's equation,
     # starting at pericenter:
-- 
2.43.0


From 3923301c2e7b97ea3f59767e743ccd1c5fa11536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:00 +0000
Subject: [PATCH 34/41] fix: recognise parabolic orbits within rounding

---
 src/sorcha/ephemeris/orbit_conversion_utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sorcha/ephemeris/orbit_conversion_utilities.py b/src/sorcha/ephemeris/orbit_conversion_utilities.py
index 2e82d6e..4cbcafd 100644
--- a/src/sorcha/ephemeris/orbit_conversion_utilities.py
+++ b/src/sorcha/ephemeris/orbit_conversion_utilities.py
@@ -458,7 +458,7 @@ def universal_cometary(mu, x, y, z, vx, vy, vz, epochMJD_TDB):
 
     # Branch on e at this point, until there's a better solution
     # Be careful with the e=1 transition.
-    if np.abs(e - 1) < 1e-15:
+    if np.abs(e - 1) < 1e-8:
         e = 1
     if e < 1:
         # elliptical
-- 
2.43.0


From fd3379242ecb4b5db36eea76022701184dbf2989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:54 +0000
Subject: [PATCH 35/41] fix: do not cull objects when a model does not bound
 its brightness

---
 src/sorcha/modules/PPFaintObjectCullingFilter.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sorcha/modules/PPFaintObjectCullingFilter.py b/src/sorcha/modules/PPFaintObjectCullingFilter.py
index faed9d4..44a0844 100644
--- a/src/sorcha/modules/PPFaintObjectCullingFilter.py
+++ b/src/sorcha/modules/PPFaintObjectCullingFilter.py
@@ -44,6 +44,12 @@ def PPFaintObjectCullingFilter(
 
     """
 
+    # models need not say how much brightness they can add: then no object can be ruled out
+    if (lightcurve_choice and not hasattr(LC_METHODS.get(lightcurve_choice), "maxBrightness")) or (
+        activity_choice and not hasattr(CA_METHODS.get(activity_choice), "maxBrightness")
+    ):
+        return aux_df
+
     # gets a dictionary of the maximum limiting magnitude in each filter
     max_five_sigma = (
         filterpointing.groupby("optFilter", observed=True)["fieldFiveSigmaDepth_mag"].max().to_dict()
-- 
2.43.0


From 0a567696eefb54db35b99d654f5fc359a12b8f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:28 +0000
Subject: [PATCH 36/41] fix: unwrap detections around the centre of their
 visit's footprint

---
 src/sorcha/modules/PPApplyFOVFilter.py        |  1 -
 src/sorcha/modules/PPVisitsFootprintFilter.py | 23 ++++---------------
 2 files changed, 5 insertions(+), 19 deletions(-)

diff --git a/src/sorcha/modules/PPApplyFOVFilter.py b/src/sorcha/modules/PPApplyFOVFilter.py
index e15de35..4c716dd 100755
--- a/src/sorcha/modules/PPApplyFOVFilter.py
+++ b/src/sorcha/modules/PPApplyFOVFilter.py
@@ -61,7 +61,6 @@ def PPApplyFOVFilter(observations, sconfigs, module_rngs, visits=None, footprint
             observations,
             sconfigs.fov.visits_query,
             visits,
-            ephermers_buffer=sconfigs.simulation.ar_ang_fov + sconfigs.simulation.ar_fov_buffer,
         )
 
         observations = observations.iloc[onSensor].copy()
diff --git a/src/sorcha/modules/PPVisitsFootprintFilter.py b/src/sorcha/modules/PPVisitsFootprintFilter.py
index b7bdd44..566d340 100644
--- a/src/sorcha/modules/PPVisitsFootprintFilter.py
+++ b/src/sorcha/modules/PPVisitsFootprintFilter.py
@@ -36,7 +36,7 @@ def PPVisitsFootprint(
     ra_name, dec_name, fieldId : str
         Column names in field_df for RA, Dec, and field ID respectively.
     ephermers_buffer : float
-        accounts for ar wraping RA points around 0-360, while yhe camera footprint doesnt to avoid the need to create complex shapes
+        no longer used: RA points are unwraped around the field centre, however large the camera footprint is in RA
     ccd_num : int
         number of ccds to check
     plot : boolen
@@ -66,26 +66,13 @@ def PPVisitsFootprint(
                 continue  # if no ccds skip
 
             points_query = np.array(
-                list(zip(points_df[ra_name], points_df[dec_name]))
+                list(zip(points_df[ra_name], points_df[dec_name])), dtype=float
             )  # number list of ra and of objects
 
             # ephermides wraps points around 0-360. however the ccd ra and decs supplied dont wrap around this point for a given camera footprint to reduce the complexity of creating shapes.
-            # therefore to solve this priblem we use the radius from the ar simulations to decide if an object on-sky postion needs to be unwraped for a given camera footprint
-
-            # if the camera footprint is near the boundary i.e the radius of ephermers gen is wrapped round 360-0
-            if ephermers_buffer < 180:
-
-                if any(points_df["fieldRA_deg"] + ephermers_buffer > 360):
-                    points_query[
-                        points_query[:, 0] < 180, 0
-                    ] += 360  # use a mask to unwrap points so they are in the same relative coordinates as the footprint
-                if any(points_df["fieldRA_deg"] - ephermers_buffer < 0):
-                    points_query[points_query[:, 0] > 180, 0] -= 360
-            else:
-                logger.warning(
-                    "Ephemides buffer is too big to account for wrap around. Your footprint will be inaccurate"
-                )
-                # this might casue issues with objects of massive ephermides (greater than 180). Maybe warn the user of the super extreme case?
+            # therefore the on-sky postions are moved into the same relative coordinates as the footprint: to within 180 degrees of the field centre
+            field_ra = points_df["fieldRA_deg"].to_numpy()
+            points_query[:, 0] += 360.0 * np.round((field_ra - points_query[:, 0]) / 360.0)
 
             # Kd tree using corners and centres of ccds
 
-- 
2.43.0


From 4310a4eaf56ea1370028cd1280131f79730535c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:28 +0000
Subject: [PATCH 37/41] fix: search the nearest CCDs by their distance on the
 sky

---
 src/sorcha/modules/PPVisitsFootprintFilter.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/sorcha/modules/PPVisitsFootprintFilter.py b/src/sorcha/modules/PPVisitsFootprintFilter.py
index 566d340..2acc33f 100644
--- a/src/sorcha/modules/PPVisitsFootprintFilter.py
+++ b/src/sorcha/modules/PPVisitsFootprintFilter.py
@@ -91,12 +91,13 @@ def PPVisitsFootprint(
                     (row["urcra"], row["urcdec"]),
                     (row["ulcra"], row["ulcdec"]),
                 ]
-            # Build KDTree with all points
-            ccd_tree = cKDTree(all_ccd_points)
+            # Build KDTree with all points, with ra shortened by cos(dec) so that it compares distances on the sky
+            sky_scale = np.array([np.cos(np.radians(np.mean(all_ccd_points[:, 1]))), 1.0])
+            ccd_tree = cKDTree(all_ccd_points * sky_scale)
 
             if len(rows) > 1:
                 k = min(ccd_num, len(all_ccd_points))
-                _, closest_point_indices = ccd_tree.query(points_query, k=k)
+                _, closest_point_indices = ccd_tree.query(points_query * sky_scale, k=k)
 
                 # Map back to unique ccd indices
                 unique_ccd_indices = set(point_to_ccd_map[i] for i in closest_point_indices.flatten())
-- 
2.43.0


From 79c9e76702f2f6ab88002a173efef49b1e7a2bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:00 +0000
Subject: [PATCH 38/41] fix: convert a detector's corners given in degrees
 before projecting them

---
 src/sorcha/modules/PPFootprintFilter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sorcha/modules/PPFootprintFilter.py b/src/sorcha/modules/PPFootprintFilter.py
index a61ba3d..5582828 100644
--- a/src/sorcha/modules/PPFootprintFilter.py
+++ b/src/sorcha/modules/PPFootprintFilter.py
@@ -217,7 +217,9 @@ class Detector:
         self.units = units
 
         if units == "degrees" or units == "deg":
-            self.deg2rad()
+            self.ra = deg2rad(self.ra)
+            self.dec = deg2rad(self.dec)
+            self.units = "radians"
 
         # generate focal plane coordinates
         # convert to xyz on unit sphere
-- 
2.43.0


From 41e8fbe29cf175df00e7e8770ebf148f13f9515a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:00 +0000
Subject: [PATCH 39/41] fix: read the built-in DES detector corners in degrees

---
 src/sorcha/modules/PPFootprintFilter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sorcha/modules/PPFootprintFilter.py b/src/sorcha/modules/PPFootprintFilter.py
index 5582828..aa4f7c8 100644
--- a/src/sorcha/modules/PPFootprintFilter.py
+++ b/src/sorcha/modules/PPFootprintFilter.py
@@ -544,6 +544,7 @@ class Footprint:
         # the center of the camera should be the origin
         # if the user doesn't provide their own version of the footprint,
         # we'll use the default LSST version that comes included.
+        units = "radians"
         if path:
             try:
                 allcornersdf = pd.read_csv(path)
@@ -558,6 +559,7 @@ class Footprint:
                     default_camera_config_file = "data/LSST_detector_corners_100123.csv"
                 if surveyname.lower() == "des":
                     default_camera_config_file = "data/DES_ccd_corners.csv"
+                    units = "degrees"
                 # stream = pkg_resources.resource_stream(__name__, default_camera_config_file)
                 # stream = importlib_resources.as_file( default_camera_config_file )
                 stream = importlib_resources.files(__name__).joinpath(default_camera_config_file)
@@ -582,6 +584,7 @@ class Footprint:
                     )
                 ),
                 det,
+                units,
             )
             for det, inds in det_to_inds.items()
         ]
-- 
2.43.0


From 9ef73748813c165a57367ec2932c09c5efad1fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:18 +0000
Subject: [PATCH 40/41] fix: DES runs skip chunks without observations in the
 selected filters

---
 src/sorcha/des.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/sorcha/des.py b/src/sorcha/des.py
index eab6369..241c00a 100644
--- a/src/sorcha/des.py
+++ b/src/sorcha/des.py
@@ -230,6 +230,15 @@ def runDESSimulation(args, sconfigs, return_only=False):
 
         observations = PPMatchPointingToObservations(observations, filterpointing)
 
+        # The observations of this chunk could all be in filters that are not of interest
+        if len(observations.index) == 0:
+            pplogger.info(
+                "WARNING: no observations of these objects in the selected filters. Skipping to next chunk..."
+            )
+            startChunk = startChunk + sconfigs.input.size_serial_chunk
+            loopCounter = loopCounter + 1
+            continue
+
         verboselog("Calculating apparent magnitudes...")
         observations = PPCalculateApparentMagnitude(
             observations,
-- 
2.43.0


From e5bbe7b655b934955151807ef00015f7008dcbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:18 +0000
Subject: [PATCH 41/41] fix: DES runs return empty results when no observation
 survives

---
 src/sorcha/des.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sorcha/des.py b/src/sorcha/des.py
index 241c00a..0472e0a 100644
--- a/src/sorcha/des.py
+++ b/src/sorcha/des.py
@@ -409,8 +409,9 @@ def runDESSimulation(args, sconfigs, return_only=False):
     pplogger.info("Sorcha process is completed.")
 
     if return_only:
-        result_observations = pd.concat(result_observations)
+        # there is nothing to concatenate if no observation survived
+        result_observations = pd.concat(result_observations) if result_observations else pd.DataFrame()
         if args.stats is not None:
-            result_stats = pd.concat(result_stats)
+            result_stats = pd.concat(result_stats) if result_stats else pd.DataFrame()
             return result_observations, result_stats
         return result_observations
-- 
2.43.0

