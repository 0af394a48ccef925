From a5a0e2566330a90be9930541948d21c992f7257c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:56 +0000
Subject: [PATCH 01/72] fix: honour max_n_steps_per_binary given to
 SimulationProperties

The name contains 'step', so the value was filed as an evolution step and the
default limit of 100 steps stayed in force.
---
 posydon/binary_evol/simulationproperties.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/posydon/binary_evol/simulationproperties.py b/posydon/binary_evol/simulationproperties.py
index c06675e..6cd5d5e 100644
--- a/posydon/binary_evol/simulationproperties.py
+++ b/posydon/binary_evol/simulationproperties.py
@@ -196,9 +196,10 @@ class SimulationProperties:
         # Set functions for evolution
         self.all_step_names = []  ## list of strings of all evolutionary steps
         for key, val in self.kwargs.items():
-            if "step" not in key:   # skip loading steps
+            # skip loading steps (the limit on the number of steps is no step)
+            if "step" not in key or key == 'max_n_steps_per_binary':
                 setattr(self, key, val)
-            elif "step" in key:
+            else:
                 self.all_step_names.append(key)
         self.steps_loaded = False
 
-- 
2.43.0


From b00ac2cbaffb51150cfca903a27c34b0b52a7681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:56 +0000
Subject: [PATCH 02/72] fix: send contact binaries to the CE step whichever
 star is listed first

(normal star, compact object, contact, oCE*) had no step while the same
binary with its stars swapped had one.
---
 posydon/binary_evol/flow_chart.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/posydon/binary_evol/flow_chart.py b/posydon/binary_evol/flow_chart.py
index bb859d0..eec8225 100644
--- a/posydon/binary_evol/flow_chart.py
+++ b/posydon/binary_evol/flow_chart.py
@@ -270,10 +270,9 @@ for s1 in STAR_STATES_NORMALSTAR:
         POSYDON_FLOW_CHART[(s1, s2, 'RLO1', 'oDoubleCE1')] = 'step_CE'
         POSYDON_FLOW_CHART[(s2, s1, 'RLO2', 'oCE2')] = 'step_CE'
         POSYDON_FLOW_CHART[(s2, s1, 'RLO2', 'oDoubleCE2')] = 'step_CE'
-        POSYDON_FLOW_CHART[(s2, s1, 'contact', 'oCE1')] = 'step_CE'
-        POSYDON_FLOW_CHART[(s2, s1, 'contact', 'oCE2')] = 'step_CE'
-        POSYDON_FLOW_CHART[(s2, s1, 'contact', 'oDoubleCE1')] = 'step_CE'
-        POSYDON_FLOW_CHART[(s2, s1, 'contact', 'oDoubleCE2')] = 'step_CE'
+        for e in ['oCE1', 'oCE2', 'oDoubleCE1', 'oDoubleCE2']:
+            POSYDON_FLOW_CHART[(s1, s2, 'contact', e)] = 'step_CE'
+            POSYDON_FLOW_CHART[(s2, s1, 'contact', e)] = 'step_CE'
 
 
 for b in BINARY_STATES_CC:
-- 
2.43.0


From 00eaed384276497f6dc2ac8417b67fe4be330cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:52 +0000
Subject: [PATCH 03/72] fix: allow restoring a binary with hook columns before
 it was evolved

restore() and reset() raised AttributeError when a hook declares extra columns
which it only creates at the start of the evolution.
---
 posydon/binary_evol/binarystar.py | 4 +++-
 posydon/binary_evol/singlestar.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/posydon/binary_evol/binarystar.py b/posydon/binary_evol/binarystar.py
index d89f12d..44b563e 100644
--- a/posydon/binary_evol/binarystar.py
+++ b/posydon/binary_evol/binarystar.py
@@ -378,7 +378,9 @@ class BinaryStar:
                 extra_columns = getattr(hook, 'extra_binary_col_names')
 
                 for col in extra_columns:
-                    setattr(self, col, getattr(self, col)[0:i+1])
+                    # hooks create their columns when the evolution starts
+                    if hasattr(self, col):
+                        setattr(self, col, getattr(self, col)[0:i+1])
 
         for star in (self.star_1, self.star_2):
             star.restore(i, hooks=self.properties.all_hooks_classes)
diff --git a/posydon/binary_evol/singlestar.py b/posydon/binary_evol/singlestar.py
index 9c84997..bf4e90b 100644
--- a/posydon/binary_evol/singlestar.py
+++ b/posydon/binary_evol/singlestar.py
@@ -415,7 +415,9 @@ class SingleStar:
                 extra_columns = getattr(hook, 'extra_star_col_names')
 
                 for col in extra_columns:
-                    setattr(self, col, getattr(self, col)[0:i+1])
+                    # hooks create their columns when the evolution starts
+                    if hasattr(self, col):
+                        setattr(self, col, getattr(self, col)[0:i+1])
 
 
     def to_df(self, **kwargs):
-- 
2.43.0


From 2c922410e49c7fc908ab9e27320e55c0f3b86ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:52 +0000
Subject: [PATCH 04/72] fix: use the simulation properties given to
 BinaryStar.reset

The instance was wrapped into a new SimulationProperties, as if it were the
flow, so that the binary could not be evolved any more.
---
 posydon/binary_evol/binarystar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/binary_evol/binarystar.py b/posydon/binary_evol/binarystar.py
index 44b563e..124fb20 100644
--- a/posydon/binary_evol/binarystar.py
+++ b/posydon/binary_evol/binarystar.py
@@ -397,7 +397,7 @@ class BinaryStar:
         """
         # If provided, update the simulation properties class
         if properties is not None:
-            self.properties = SimulationProperties(properties)
+            self.properties = properties
 
         # Use the restore function to move the binary back to its initial state
         self.restore(i=0)
-- 
2.43.0


From 2af5dd36aca5acab7e20620678b504d613185bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:10 +0000
Subject: [PATCH 05/72] fix: forget later supernovae when a binary is restored
 to an earlier state

---
 posydon/binary_evol/binarystar.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/posydon/binary_evol/binarystar.py b/posydon/binary_evol/binarystar.py
index 124fb20..3918c5c 100644
--- a/posydon/binary_evol/binarystar.py
+++ b/posydon/binary_evol/binarystar.py
@@ -385,6 +385,12 @@ class BinaryStar:
         for star in (self.star_1, self.star_2):
             star.restore(i, hooks=self.properties.all_hooks_classes)
 
+        ## only supernovae in the kept history have occurred (the formation of
+        ## a white dwarf is no supernova)
+        self.first_SN_already_occurred = any(
+            (event == 'CC1' and self.star_1.state_history[j+1] != 'WD')
+            or (event == 'CC2' and self.star_2.state_history[j+1] != 'WD')
+            for j, event in enumerate(self.event_history[:-1]))
 
     def reset(self, properties=None):
         """Reset the binary to its ZAMS state.
-- 
2.43.0


From 945ad5763227207d92f7899e62c3ae855abe08f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:44 +0000
Subject: [PATCH 06/72] fix: keep batch files that could not be combined into
 the population file

---
 posydon/popsyn/binarypopulation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/posydon/popsyn/binarypopulation.py b/posydon/popsyn/binarypopulation.py
index e3a4600..aa168e6 100644
--- a/posydon/popsyn/binarypopulation.py
+++ b/posydon/popsyn/binarypopulation.py
@@ -556,6 +556,7 @@ class BinaryPopulation:
             simulated_mass_single = 0.0
             simulated_mass_binaries = 0.0
             number_of_systems=0
+            combined_files = []
 
             for f in file_names:
                 # strings itemsize set by first append max value,
@@ -585,6 +586,7 @@ class BinaryPopulation:
 
                     store.append('oneline', oneline,
                                  min_itemsize=oneline_min_itemsize)
+                    combined_files.append(f)
 
                 except Exception:
                     print(traceback.format_exc(), flush=True)
@@ -608,7 +610,7 @@ class BinaryPopulation:
             store.append('mass_per_metallicity', tmp_df)
 
         # only remove the files once they've been written to the new file
-        for f in file_names:
+        for f in combined_files:
             os.remove(f)
 
     def close(self):
-- 
2.43.0


From 58f5512cd5e9db6c83cd4ef0d179a7a76d583968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:52 +0000
Subject: [PATCH 07/72] fix: do not try to rescue metallicities whose batches
 are complete

---
 posydon/CLI/popsyn/check.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/posydon/CLI/popsyn/check.py b/posydon/CLI/popsyn/check.py
index 519817f..33f5684 100644
--- a/posydon/CLI/popsyn/check.py
+++ b/posydon/CLI/popsyn/check.py
@@ -809,6 +809,9 @@ def check_popsyn_function(args):
         # Create rescue scripts
         rescue_scripts = []
         for _, status in batch_status.items():
+            # nothing to rescue where no batch is missing
+            if not status["missing_indices"]:
+                continue
             print_separator_line()
             print("\nGENERATING A RESCUE SCRIPT ....................")
             rescue_scripts.append(create_batch_rescue_script(args, status))
-- 
2.43.0


From 6bb71446a89152487a69891968eb923a7e7daa1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:52 +0000
Subject: [PATCH 08/72] fix: ignore the log of the merge job when looking for
 failed array tasks

---
 posydon/CLI/popsyn/check.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/posydon/CLI/popsyn/check.py b/posydon/CLI/popsyn/check.py
index 33f5684..d192654 100644
--- a/posydon/CLI/popsyn/check.py
+++ b/posydon/CLI/popsyn/check.py
@@ -419,7 +419,8 @@ def select_job_id(run_folder, str_met):
     int or None
         Selected job ID, or None if no logs found
     """
-    jobIDs = glob.glob(os.path.join(run_folder, f'{str_met}_logs/popsyn_*.out'))
+    # only the logs of the array tasks, not the one of the merge job
+    jobIDs = glob.glob(os.path.join(run_folder, f'{str_met}_logs/popsyn_*_*.out'))
 
     if len(jobIDs) == 0:
         print("\n\033[33mNo log files found. Cannot determine failure reasons.\033[0m")
-- 
2.43.0


From bf4831da449a9bfbe520a731cd869e8fd496cd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:53 +0000
Subject: [PATCH 09/72] fix: merge only the results of the array tasks, not
 stale batch files

A task stopped while it removed its batch files leaves some of them next to
its complete result; the merge then counted their systems twice.
---
 posydon/CLI/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/posydon/CLI/io.py b/posydon/CLI/io.py
index d9ec806..351001a 100644
--- a/posydon/CLI/io.py
+++ b/posydon/CLI/io.py
@@ -89,7 +89,8 @@ def create_merge_script_text(ini_file):
             synpop = BinaryPopulation(**ini_kw)
             path_to_batch = ini_kw["temp_directory"]
             tmp_files = [os.path.join(path_to_batch, f) for f in os.listdir(path_to_batch)
-                         if os.path.isfile(os.path.join(path_to_batch, f))]
+                         if os.path.isfile(os.path.join(path_to_batch, f))
+                         and f.startswith("evolution.combined.")]
             tmp_files = sorted(tmp_files, key=lambda x: int(x.split(".h5")[0].split(".")[-1]))
             synpop.combine_saved_files(str_met + "_Zsun_population.h5", tmp_files)
             print("done")
-- 
2.43.0


From e68ffb6045e97e217b721754150052bb7ead2931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:18 +0000
Subject: [PATCH 10/72] fix: derive the missing orbital period when rebuilding
 a binary from a table

---
 posydon/binary_evol/binarystar.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/posydon/binary_evol/binarystar.py b/posydon/binary_evol/binarystar.py
index 3918c5c..b8f986d 100644
--- a/posydon/binary_evol/binarystar.py
+++ b/posydon/binary_evol/binarystar.py
@@ -689,9 +689,9 @@ class BinaryStar:
             setattr(binary, 'separation_history', list(separation))
             setattr(binary, 'separation', list(separation)[-1])
         if ('orbital_period_history' not in bp_keys
-                and 'seperation_history' in bp_keys):
+                and 'separation_history' in bp_keys):
             period = orbital_period_from_separation(
-                            np.array(binary.seperation_history),
+                            np.array(binary.separation_history),
                             np.array(binary.star_1.mass_history),
                             np.array(binary.star_2.mass_history),)
             setattr(binary, 'orbital_period_history', list(period))
@@ -917,9 +917,9 @@ class BinaryStar:
             setattr(binary, 'separation_history', list(separation))
             setattr(binary, 'separation', list(separation)[-1])
         if ('orbital_period_history' not in bp_keys
-                and 'seperation_history' in bp_keys):
+                and 'separation_history' in bp_keys):
             period = orbital_period_from_separation(
-                            np.array(binary.seperation_history),
+                            np.array(binary.separation_history),
                             np.array(binary.star_1.mass_history),
                             np.array(binary.star_2.mass_history),)
             setattr(binary, 'orbital_period_history', list(period))
-- 
2.43.0


From 1b8c04a9587524ec480f7efa1cf64396e95b2e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:18 +0000
Subject: [PATCH 11/72] fix: accept the index 0 when rebuilding a binary from a
 table

---
 posydon/binary_evol/binarystar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/posydon/binary_evol/binarystar.py b/posydon/binary_evol/binarystar.py
index b8f986d..1a89508 100644
--- a/posydon/binary_evol/binarystar.py
+++ b/posydon/binary_evol/binarystar.py
@@ -661,7 +661,7 @@ class BinaryStar:
         history_length = set(hist_lengths).pop()
 
         if ('binary_index' in dataframe.index.name
-                and not kwargs.get('index', False)):
+                and kwargs.get('index', None) is None):
             binary_index = set(dataframe.index).pop()
         else:
             binary_index = kwargs.get('index', None)
@@ -889,7 +889,7 @@ class BinaryStar:
             star2_params['natal_kick_mean_anomaly'] = natal_kick_values[3]
 
         if ('binary_index' in oneline_df.index.name
-                and not kwargs.get('index', None)):
+                and kwargs.get('index', None) is None):
             binary_index = set(oneline_df.index).pop()
         else:
             binary_index = kwargs.get('index', None)
-- 
2.43.0


From 7607b0f780b1c3d18d4af2c64e7c08d961e48dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:18 +0000
Subject: [PATCH 12/72] fix: keep columns with '_i' inside their name when
 reading a one-line table

---
 posydon/binary_evol/binarystar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/binary_evol/binarystar.py b/posydon/binary_evol/binarystar.py
index 1a89508..bd4415a 100644
--- a/posydon/binary_evol/binarystar.py
+++ b/posydon/binary_evol/binarystar.py
@@ -832,7 +832,7 @@ class BinaryStar:
         for name in list(oneline_df.columns):
             if '_f' in name[-2:]:
                 continue    # ignore final values
-            param_name = name.split('_i')[0]
+            param_name = name[:-2] if name.endswith('_i') else name
 
             special_cases = ['natal_kick_array']
             if any([i in param_name for i in special_cases]):
-- 
2.43.0


From b2a165c68150bb7d62213edda1ff63901b06dba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:59 +0000
Subject: [PATCH 13/72] fix: restore binaries read from a table, where events
 may be missing values

---
 posydon/binary_evol/binarystar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/posydon/binary_evol/binarystar.py b/posydon/binary_evol/binarystar.py
index bd4415a..aa24cbf 100644
--- a/posydon/binary_evol/binarystar.py
+++ b/posydon/binary_evol/binarystar.py
@@ -388,8 +388,8 @@ class BinaryStar:
         ## only supernovae in the kept history have occurred (the formation of
         ## a white dwarf is no supernova)
         self.first_SN_already_occurred = any(
-            (event == 'CC1' and self.star_1.state_history[j+1] != 'WD')
-            or (event == 'CC2' and self.star_2.state_history[j+1] != 'WD')
+            (str(event) == 'CC1' and self.star_1.state_history[j+1] != 'WD')
+            or (str(event) == 'CC2' and self.star_2.state_history[j+1] != 'WD')
             for j, event in enumerate(self.event_history[:-1]))
 
     def reset(self, properties=None):
-- 
2.43.0


From f5357d6accea4617001d68d1b8f183adcb3fe16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:02 +0000
Subject: [PATCH 14/72] fix: define the delayed fallback for a CO core mass of
 exactly 11 Msun

---
 posydon/binary_evol/SN/step_SN.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/binary_evol/SN/step_SN.py b/posydon/binary_evol/SN/step_SN.py
index a003984..fbdbd23 100644
--- a/posydon/binary_evol/SN/step_SN.py
+++ b/posydon/binary_evol/SN/step_SN.py
@@ -1366,7 +1366,7 @@ class StepSN(object):
                 b = -11.0 * a + 1.0
                 f_fb = a * m_core + b
                 m_fb = f_fb * (m_collapsing - m_proto)
-            elif m_core > 11.0:
+            elif m_core >= 11.0:
                 f_fb = 1.0
                 m_fb = f_fb * (m_collapsing - m_proto)
             m_rembar = m_proto + m_fb
-- 
2.43.0


From 313122ad04486f862a3aae62fdb6663de4d042a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:02 +0000
Subject: [PATCH 15/72] fix: support the listed core-collapse mechanism
 direct_he_core

---
 posydon/binary_evol/SN/step_SN.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/posydon/binary_evol/SN/step_SN.py b/posydon/binary_evol/SN/step_SN.py
index fbdbd23..7546e01 100644
--- a/posydon/binary_evol/SN/step_SN.py
+++ b/posydon/binary_evol/SN/step_SN.py
@@ -1378,6 +1378,12 @@ class StepSN(object):
             f_fb = 1.0
             state = None
 
+        # direct collapse of the helium core and f_fb = 1. (no kicks)
+        elif self.mechanism == self.direct_collapse_hecore:
+            m_rembar = m_He_core
+            f_fb = 1.0
+            state = None
+
         # Collapse prescription from the results of
         # Sukhbold, T., Ertl, T., Woosley, S. E., Brown, J. M., & Janka, H. T. (2016). 821(1), 38.
         elif self.mechanism == self.Sukhbold16_engines:
-- 
2.43.0


From 937a3455e2f050917e7d9bc097826539ec911cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:28 +0000
Subject: [PATCH 16/72] fix: update the orbit of the collapsing star when
 supernova kicks are off

---
 posydon/binary_evol/SN/step_SN.py | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/posydon/binary_evol/SN/step_SN.py b/posydon/binary_evol/SN/step_SN.py
index 7546e01..875d596 100644
--- a/posydon/binary_evol/SN/step_SN.py
+++ b/posydon/binary_evol/SN/step_SN.py
@@ -487,16 +487,28 @@ class StepSN(object):
         else:
             # no kick, but still need to unset the event after CC
             # and update orbital period/separation
+            if binary.event == "CC1":
+                collapsed, companion = binary.star_1, binary.star_2
+            else:
+                collapsed, companion = binary.star_2, binary.star_1
             binary.event = None
-            new_separation = separation_evol_wind_loss(
-                    binary.star_1.mass, binary.star_1.mass_history[-1],
-                    binary.star_2.mass, binary.separation)
-            new_orbital_period = orbital_period_from_separation(
-                    new_separation, binary.star_1.mass, binary.star_2.mass)
-
-            binary.separation = new_separation
-            binary.orbital_period = new_orbital_period
-            binary.state = "detached"
+            if binary.state in ["disrupted", "initially_single_star",
+                                "merged"]:
+                # there is no orbit to update
+                pass
+            elif "massless_remnant" in [collapsed.state, companion.state]:
+                # the binary is disrupted when a massless_remnant formed
+                binary.separation = np.nan
+                binary.orbital_period = np.nan
+                binary.eccentricity = np.nan
+                binary.state = "disrupted"
+            else:
+                binary.separation = separation_evol_wind_loss(
+                    collapsed.mass, collapsed.mass_history[-1],
+                    companion.mass, binary.separation)
+                binary.orbital_period = orbital_period_from_separation(
+                    binary.separation, binary.star_1.mass, binary.star_2.mass)
+                binary.state = "detached"
 
         # Checks if the binary is not disrupted to compute the
         # inspiral time due to gravitational wave emission
-- 
2.43.0


From 0b6e3c98dee0020338316bc24d8bef857522da4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:39 +0000
Subject: [PATCH 17/72] fix: give a supernova step built without options a
 random generator

---
 posydon/binary_evol/SN/step_SN.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/posydon/binary_evol/SN/step_SN.py b/posydon/binary_evol/SN/step_SN.py
index 875d596..fb1e596 100644
--- a/posydon/binary_evol/SN/step_SN.py
+++ b/posydon/binary_evol/SN/step_SN.py
@@ -272,14 +272,13 @@ class StepSN(object):
                     raise ValueError(key + " is not a valid parameter name!")
             for varname in self.DEFAULT_KWARGS:
                 setattr(self, varname, kwargs.get(varname, self.DEFAULT_KWARGS[varname]))
-            self.RNG = kwargs.get("RNG")
-            if self.RNG is None:
-                self.RNG = np.random.default_rng()
-
         else:
             for varname in self.DEFAULT_KWARGS:
                 setattr(self, varname, self.DEFAULT_KWARGS[varname])
 
+        if self.RNG is None:
+            self.RNG = np.random.default_rng()
+
         # backward compatibility for kick
         if (self.kick_normalisation == 'asym_ej'
             or self.kick_normalisation == 'linear'):
-- 
2.43.0


From b72ccd6e5cf102a5e6d97d8d32bc93db7103934d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:52 +0000
Subject: [PATCH 18/72] fix: accept stars without a helium core when PISN is a
 number

---
 posydon/binary_evol/SN/step_SN.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/binary_evol/SN/step_SN.py b/posydon/binary_evol/SN/step_SN.py
index fb1e596..5aa0442 100644
--- a/posydon/binary_evol/SN/step_SN.py
+++ b/posydon/binary_evol/SN/step_SN.py
@@ -1108,7 +1108,7 @@ class StepSN(object):
             elif is_number(self.PISN) and m_He_core > self.PISN:
                 m_PISN = self.PISN
 
-            elif is_number(self.PISN) and 0.0 < m_He_core <= self.PISN:
+            elif is_number(self.PISN) and m_He_core <= self.PISN:
                 m_PISN = None
 
             else:
-- 
2.43.0


From e9bdbacee941df520ee58e601baa606f4c2f8406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:52 +0000
Subject: [PATCH 19/72] fix: keep the linear natal kick from becoming a
 negative speed

---
 posydon/binary_evol/SN/step_SN.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/posydon/binary_evol/SN/step_SN.py b/posydon/binary_evol/SN/step_SN.py
index 5aa0442..dbe5eb7 100644
--- a/posydon/binary_evol/SN/step_SN.py
+++ b/posydon/binary_evol/SN/step_SN.py
@@ -2180,7 +2180,8 @@ class StepSN(object):
             Vkick_ej = 211*(f_kin*beta*epsilon)**(1/2)*(alpha_ej/0.1)*(M_ej/0.1)*(M_NS/1.5)**(-1)
 
         elif self.kick_prescription == "linear":
-            M_ej = star.co_core_mass_history[-1]-star.mass        # Ejecta mass
+            # Ejecta mass, no ejecta if more than the CO core collapsed
+            M_ej = max(star.co_core_mass_history[-1]-star.mass, 0.0)
             M_rem = star.mass                                     # Neutron star mass
             alpha = 115                                           # alpha and beta are best-fit parameters
             beta = 15
-- 
2.43.0


From cb0394da51fc39725c6efec2a5fc0cf42ac73dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:10 +0000
Subject: [PATCH 20/72] fix: use the companion's own core radius after a double
 common envelope

---
 posydon/binary_evol/CE/step_CEE.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/posydon/binary_evol/CE/step_CEE.py b/posydon/binary_evol/CE/step_CEE.py
index dcbcd7f..036dc5f 100644
--- a/posydon/binary_evol/CE/step_CEE.py
+++ b/posydon/binary_evol/CE/step_CEE.py
@@ -435,10 +435,10 @@ class StepCEE(object):
         else:
             if comp_type == 'He_core':
                 mc2_f = comp_star.he_core_mass
-                rc2_f = donor.he_core_radius
+                rc2_f = comp_star.he_core_radius
             elif comp_type == 'CO_core':
                 mc2_f = comp_star.co_core_mass
-                rc2_f = donor.co_core_radius
+                rc2_f = comp_star.co_core_radius
             elif comp_type == 'not_giant_companion':
                 mc2_f = comp_star.mass
                 rc2_f = 10.**(comp_star.log_R)
-- 
2.43.0


From e4788aed19f9cbc8451798f0fcc4edbab65967f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:10 +0000
Subject: [PATCH 21/72] fix: eject mass from the donor alone when a common
 envelope with one giant merges

---
 posydon/binary_evol/CE/step_CEE.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/posydon/binary_evol/CE/step_CEE.py b/posydon/binary_evol/CE/step_CEE.py
index 036dc5f..e502890 100644
--- a/posydon/binary_evol/CE/step_CEE.py
+++ b/posydon/binary_evol/CE/step_CEE.py
@@ -1288,11 +1288,15 @@ class StepCEE(object):
                       const.Msun/(2. * separation_before_merger)
         E_orb_released_to_inner_RLOF = alpha_CE * (E_orb_initial - E_orb_final)
 
+        M_envelope_donor = m1_i  - mc1_i
+        M_envelope_companion = m2_i - mc2_i
+
         # We assume "lambda_from_profile_gravitational_plus_internal_minus_recombination"
         if not double_CE:
             Mejected_donor = \
                 calculate_Mejected_for_integrated_binding_energy(donor.profile,
                     E_orb_released_to_inner_RLOF, mc1_i, rc1_i, m1_i, radius1)
+            Mejected_comp = 0.0
 
         else: # in double_CE
 
@@ -1300,8 +1304,6 @@ class StepCEE(object):
             # ejection of each (common) envelope is the same as the ratio of
             # the initial envelope masses:
 
-            M_envelope_donor = m1_i  - mc1_i
-            M_envelope_companion = m2_i - mc2_i
             weight = M_envelope_donor / (M_envelope_donor + M_envelope_companion)
 
             Eorb_for_partial_ej_donor = E_orb_released_to_inner_RLOF * weight
-- 
2.43.0


From 91bdee13b8c6b16304b3f1dcb9a6365437a51514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:32 +0000
Subject: [PATCH 22/72] fix: weight the surface mixing of two merging helium
 stars by their own envelopes

---
 posydon/binary_evol/DT/step_merged.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/posydon/binary_evol/DT/step_merged.py b/posydon/binary_evol/DT/step_merged.py
index 55e697d..c06e344 100644
--- a/posydon/binary_evol/DT/step_merged.py
+++ b/posydon/binary_evol/DT/step_merged.py
@@ -642,11 +642,6 @@ class MergedStep(IsolatedStep):
                 else:
                     Pwarn("Unexpected combination of CO core masses during merging", "EvolutionWarning")
 
-                # add total and core masses
-                for key in ["mass", "he_core_mass", "c_core_mass", "o_core_mass", "co_core_mass"]:
-                    current = getattr(star_base, key) + getattr(comp, key)
-                    setattr(merged_star, key,current)
-
                 # weigheted mixing on the surface abundances based on the He-rich envelopes of the two stars
                 additional_parameter_to_mix = ['surface_h1', 'surface_he4', 'surface_c12', 'surface_n14', 'surface_o16']
                 for abundance_name in additional_parameter_to_mix:
@@ -656,6 +651,11 @@ class MergedStep(IsolatedStep):
                                                                                 mass_weight1="He-rich_envelope_mass",
                                                                                 mass_weight2="He-rich_envelope_mass"))
 
+                # add total and core masses
+                for key in ["mass", "he_core_mass", "c_core_mass", "o_core_mass", "co_core_mass"]:
+                    current = getattr(star_base, key) + getattr(comp, key)
+                    setattr(merged_star, key,current)
+
                 # Set parameters that are not expected to be meaningful after a merger to np.nan
                 self._apply_nan_attributes(merged_star)
 
-- 
2.43.0


From f835375ce76471f9d661c3b5c3606f23f5e43507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:14 +0000
Subject: [PATCH 23/72] fix: apply a boolean mask to the history rows it was
 made for

---
 posydon/popsyn/synthetic_population.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index 9e1afb8..ee9d40e 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -476,13 +476,16 @@ class History(DFInterface):
             # return empty if no values
             if len(key) == 0:
                 return pd.DataFrame()
+            mask = np.asarray(key).flatten()
             # We cannot use self.select because we're using a boolean mask across the entire table
             # This can be optimized by only selecting indices that are True instead of the entire table
             with pd.HDFStore(self.filename, mode="r") as store:
                 iterator = store.select("history", chunksize=self.chunksize)
                 out = []
-                for i, chunk in enumerate(iterator):
-                    out.append(chunk[key[i : i + self.chunksize]])
+                start = 0
+                for chunk in iterator:
+                    out.append(chunk[mask[start : start + len(chunk)]])
+                    start += len(chunk)
                 return pd.concat(out, axis=0)
 
         # single column
-- 
2.43.0


From 35f84820b2761b3bdc8e16085c5a935f83c40867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:14 +0000
Subject: [PATCH 24/72] fix: return an empty table when a selection of the
 population matches nothing

---
 posydon/popsyn/synthetic_population.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index ee9d40e..5c3ee93 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -285,6 +285,9 @@ class DFInterface:
             out = []
             for chunk in iterator:
                 out.append(chunk)
+            if len(out) == 0:
+                # no rows match: an empty table with the same columns
+                return store.select(key, start=0, stop=0, columns=columns)
             out = pd.concat(out, axis=0)
         return out
 
@@ -703,18 +706,15 @@ class Oneline(DFInterface):
         elif isinstance(key, int):
             return self.select(where=f"index == {key}")
         elif isinstance(key, list) and all(isinstance(x, int) for x in key):
-            return self.select(where=f"index in {key}")
+            return self._select_indices(key)
         elif isinstance(key, np.ndarray) and (key.dtype == int):
-            indices = key.tolist()
-            return self.select(where=f"index in {indices}")
+            return self._select_indices(key.tolist())
         elif isinstance(key, list) and all(isinstance(x, float) for x in key):
             raise ValueError("elements in list are not integers! Try casting to int.")
         elif isinstance(key, pd.DataFrame) and all(key.dtypes == bool):
-            indices = self.indices[key.to_numpy().flatten()].tolist()
-            return self.select(where=f"index in {indices}")
+            return self._select_indices(self.indices[key.to_numpy().flatten()].tolist())
         elif isinstance(key, np.ndarray) and key.dtype == bool:
-            indices = self.indices[key].tolist()
-            return self.select(where=f"index in {indices}")
+            return self._select_indices(self.indices[key].tolist())
         elif isinstance(key, str):
             if key in self.columns:
                 return self.select(columns=[key])
@@ -728,6 +728,12 @@ class Oneline(DFInterface):
         else:
             raise ValueError("Invalid key type!")
 
+    def _select_indices(self, indices):
+        """Select the rows of the given list of binary indices."""
+        if len(indices) == 0:
+            return self.select(start=0, stop=0)
+        return self.select(where=f"index in {indices}")
+
     def __len__(self):  # pragma: no cover
         """
         Get the number of systems in the oneline table.
-- 
2.43.0


From 1dfa84b8ac3ff9b731036ff8c846e88099207972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:25 +0000
Subject: [PATCH 25/72] fix: let an open-ended slice of a population reach its
 last system

---
 posydon/popsyn/synthetic_population.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index 5c3ee93..6683643 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -449,11 +449,10 @@ class History(DFInterface):
             else:
                 pre = key.start
             if key.stop is None:
-                chunk = self.number_of_systems
+                stop = max(self.indices, default=-1) + 1
             else:
-                chunk = key.stop - pre
-            indices = list(range(pre, pre + chunk))
-            return self.select(where=f'index in {indices}')
+                stop = key.stop
+            return self.select(where=f'index >= {pre} & index < {stop}')
 
         # single index
         elif isinstance(key, int):
@@ -697,11 +696,10 @@ class Oneline(DFInterface):
             else:
                 pre = key.start
             if key.stop is None:
-                chunk = self.number_of_systems
+                stop = max(self.indices, default=-1) + 1
             else:
-                chunk = key.stop - pre
-            indices = list(range(pre, pre + chunk))
-            return self.select(where=f'index in {indices}')
+                stop = key.stop
+            return self.select(where=f'index >= {pre} & index < {stop}')
 
         elif isinstance(key, int):
             return self.select(where=f"index == {key}")
-- 
2.43.0


From aeb53f28b840a8c77f21f4efba53702607021fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:25 +0000
Subject: [PATCH 26/72] fix: list the history lengths in the order of the
 systems in the file

---
 posydon/popsyn/synthetic_population.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index 6683643..ef9110e 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -385,8 +385,9 @@ class History(DFInterface):
                         "history_lengths not found in population file. Calculating history lengths..."
                     )
                 history_events = store.select_column("history", "index")
+                # keep the order of the file: chunks are read by position
                 tmp_df = pd.DataFrame(
-                    history_events.groupby(history_events).count(),
+                    history_events.groupby(history_events, sort=False).count(),
                 )
                 tmp_df.rename(columns={"index": "length"}, inplace=True)
                 self.lengths = tmp_df
-- 
2.43.0


From 7919fada73b1c6ccb6d5907bf6920c5ff9fb886c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:58 +0000
Subject: [PATCH 27/72] fix: write all tables of an exported selection in the
 same order of systems

---
 posydon/popsyn/synthetic_population.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index ef9110e..f28d63e 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -1233,6 +1233,12 @@ class Population(PopulationIO):
         if os.path.exists(filename) and not overwrite and not append:
             raise FileExistsError(f"{filename} already exists! Set overwrite or append to True to continue!")
 
+        # all tables are written in the order of the systems in this file
+        selected = set(selection)
+        ordered_selection = [i for i in self.indices.tolist() if i in selected]
+        if len(ordered_selection) < len(selected):
+            raise KeyError("Not all selected systems are in the population!")
+
         if overwrite:
             mode = 'w'
         elif append:
@@ -1290,6 +1296,8 @@ class Population(PopulationIO):
                     )
                 }
 
+            selection = ordered_selection
+
             if "metallicity" not in self.oneline.columns:
                 Pwarn("No metallicity column in oneline dataframe! Using the "
                       "metallicity of the population file and adding it to the"
-- 
2.43.0


From 12fe0da8af8d08ce45f0e88373313bb53eee3f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:58 +0000
Subject: [PATCH 28/72] fix: export the missing metallicity of the systems in
 solar units

---
 posydon/popsyn/synthetic_population.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index f28d63e..bdad61f 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -1321,7 +1321,8 @@ class Population(PopulationIO):
                 if "metallicity" in tmp_df.columns:
                     tmp_df["metallicity"] = tmp_df["metallicity"].astype("float")
                 else:
-                    tmp_df["metallicity"] = self.metallicities[0]
+                    # as everywhere in the oneline, in solar units
+                    tmp_df["metallicity"] = self.solar_metallicities[0]
                 tmp_df.rename(index=reindex, inplace=True)
                 store.append(
                     "oneline",
-- 
2.43.0


From 2b5b3174ef17bae0ca398c7fa2db02ac0e253528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:58 +0000
Subject: [PATCH 29/72] fix: count exported systems per metallicity without
 changing the source population

---
 posydon/popsyn/synthetic_population.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index bdad61f..1bf74d0 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -1311,6 +1311,7 @@ class Population(PopulationIO):
                 print("Writing selected systems to population file...")
 
             # write oneline of selected systems
+            exported_metallicities = []
             for i in tqdm(
                 range(0, len(selection), self.chunksize),
                 total=len(selection) // self.chunksize,
@@ -1323,6 +1324,7 @@ class Population(PopulationIO):
                 else:
                     # as everywhere in the oneline, in solar units
                     tmp_df["metallicity"] = self.solar_metallicities[0]
+                exported_metallicities.extend(tmp_df["metallicity"])
                 tmp_df.rename(index=reindex, inplace=True)
                 store.append(
                     "oneline",
@@ -1386,16 +1388,20 @@ class Population(PopulationIO):
                 )
 
             # write mass_per_metallicity
-            if "/mass_per_metallicity" in store.keys():
-                self_mass = self.mass_per_metallicity
+            self_mass = self.mass_per_metallicity.copy()
+            if len(self_mass) == 1:
                 self_mass["number_of_systems"] = len(selection)
+            else:
+                self_mass["number_of_systems"] = [
+                    exported_metallicities.count(met) for met in self_mass.index
+                ]
+
+            if "/mass_per_metallicity" in store.keys():
                 tmp_df = pd.concat([store["mass_per_metallicity"], self_mass])
                 mass_per_metallicity = tmp_df.groupby(tmp_df.index).sum()
                 store.put("mass_per_metallicity", mass_per_metallicity)
 
             else:
-                self_mass = self.mass_per_metallicity
-                self_mass["number_of_systems"] = len(selection)
                 store.put("mass_per_metallicity", self_mass)
 
         # write ini parameters
-- 
2.43.0


From 1f55d9059a8158a848889573bdc202ce8412ca26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:58 +0000
Subject: [PATCH 30/72] fix: give each transient the model weight of its own
 system

---
 posydon/popsyn/synthetic_population.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index 1bf74d0..b62ed00 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -1989,7 +1989,7 @@ class TransientPopulation(Population):
                                                     M_sim=M_sim,
                                                     simulation_parameters=simulation_parameters,
                                                     population_parameters=population_parameters)
-            weight_mapping = dict(zip(met_indices, calculated_weights))
+            weight_mapping = dict(zip(pop_data.index, calculated_weights))
             model_weights[model_weights_identifier] = (
                 model_weights.index.to_series().map(weight_mapping).fillna(model_weights[model_weights_identifier]))
 
-- 
2.43.0


From 85682180653640edbc8d54f81567b7c8cefdf384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:58 +0000
Subject: [PATCH 31/72] fix: keep the default star formation history when a
 user gives another

---
 posydon/popsyn/synthetic_population.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index b62ed00..ae6d263 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -2105,10 +2105,10 @@ class TransientPopulation(Population):
         # Set model to DEFAULT or provided MODEL parameters
         # Allows for partial model specification
         if MODEL_in is None:
-            MODEL = DEFAULT_SFH_MODEL
+            MODEL = DEFAULT_SFH_MODEL.copy()
         else:
             # write the DEFAULT_SFH_MODEL with updated parameters to MODEL.
-            MODEL = DEFAULT_SFH_MODEL
+            MODEL = DEFAULT_SFH_MODEL.copy()
             MODEL.update(MODEL_in)
 
         path_in_file = (
-- 
2.43.0


From a86b9eaf0f97ee8a475db7b73c36f8665cd2301d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:20 +0000
Subject: [PATCH 32/72] fix: weight all events of a transient population with
 several events per system

---
 posydon/popsyn/synthetic_population.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index ae6d263..5835e36 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -1857,6 +1857,11 @@ class TransientPopulation(Population):
                 ).columns
         return self._columns
 
+    def _number_of_events(self):
+        """Return the number of events, i.e. rows, of the transient population."""
+        with pd.HDFStore(self.filename, mode="r") as store:
+            return store.get_storer("transients/" + self.transient_name).nrows
+
     def select(self, where=None, start=None, stop=None, columns=None):
         """
         Select a subset of the transient population.
@@ -2147,7 +2152,8 @@ class TransientPopulation(Population):
             )
 
         get_redshift_from_cosmic_time = redshift_from_cosmic_time_interpolator()
-        indices = self.indices
+        # a system can have more than one event
+        number_of_events = self._number_of_events()
 
         met_edges = rates.edges_metallicity_bins
         # sample the SFH for only the events that are within the Hubble time
@@ -2169,7 +2175,7 @@ class TransientPopulation(Population):
         deltaT = rates.MODEL["delta_t"] * 10**6  # yr
 
         for i in tqdm(
-            range(0, len(indices), self.chunksize),
+            range(0, number_of_events, self.chunksize),
             desc="event loop",
             disable=not self.verbose,
         ):
@@ -2691,9 +2697,10 @@ class Rates(TransientPopulation):
                 ]
 
         # loop over the transient population and calculate the new weights, while writing to the file
+        number_of_events = self._number_of_events()
         for i in tqdm(
-            range(0, len(self), self.chunksize),
-            total=len(self) // self.chunksize,
+            range(0, number_of_events, self.chunksize),
+            total=number_of_events // self.chunksize,
             disable=not self.verbose,
         ):
             transient_pop_chunk = self.select(start=i, stop=i + self.chunksize)
-- 
2.43.0


From 662f2c960f67673c46d0bad04d6f63e11a5b1598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:20 +0000
Subject: [PATCH 33/72] fix: drop the rate density of cosmic weights that are
 computed anew

---
 posydon/popsyn/synthetic_population.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index 5835e36..2a3a912 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -2135,6 +2135,8 @@ class TransientPopulation(Population):
                     store.remove(path_in_file + "z_events")
                 if path_in_file + "birth" in store.keys(): # pragma: no branch
                     store.remove(path_in_file + "birth")
+                if path_in_file + "intrinsic_rate_density" in store.keys():
+                    store.remove(path_in_file + "intrinsic_rate_density")
 
         self._write_MODEL_data(self.filename, path_in_file, MODEL)
 
-- 
2.43.0


From cd6a75a86ea6b99a091d84c74b924e55dd0c7c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:52 +0000
Subject: [PATCH 34/72] fix: accept chunks of a population without any
 transient

---
 posydon/popsyn/synthetic_population.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index 2a3a912..ad32c08 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -1721,8 +1721,13 @@ class Population(PopulationIO):
             else:
                 formation_channels_chunk = None
 
+            previous = end
             syn_df = func(history_chunk, oneline_chunk, formation_channels_chunk)
 
+            # no events in this chunk
+            if len(syn_df) == 0:
+                continue
+
             # check if required columns are present
             if "time" not in syn_df.columns:
                 raise ValueError("Transient population requires a time column!")
@@ -1745,8 +1750,6 @@ class Population(PopulationIO):
                     min_itemsize=min_itemsize,
                 )
 
-            previous = end
-
         # it can happen that no systems are selected, in which case nothing has been appended to the file in the loop
         with pd.HDFStore(self.filename, mode="r") as store:
             if '/transients/'+transient_name not in store.keys():
-- 
2.43.0


From 4402334d3f35006783edff2241bebb3caaf12a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:20 +0000
Subject: [PATCH 35/72] fix: find formation channels of systems without an
 interpolation class

---
 posydon/popsyn/synthetic_population.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index ad32c08..6cf8592 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -1517,8 +1517,8 @@ class Population(PopulationIO):
 
             mask = pd.notna(interp_class_HMS_HMS["interp_class_HMS_HMS"].values)
             interp_class_HMS_HMS.loc[mask, "interp_class_HMS_HMS"] = (
-                interp_class_HMS_HMS[mask]
-                .apply(lambda x: HMS_HMS_event_dict[x["interp_class_HMS_HMS"]], axis=1)
+                interp_class_HMS_HMS.loc[mask, "interp_class_HMS_HMS"]
+                .apply(lambda x: HMS_HMS_event_dict[x])
                 .values
             )
             del mask
-- 
2.43.0


From 8827411e725eab15b59184a2366dc7a0441fd757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:25 +0000
Subject: [PATCH 36/72] fix: keep the mass-transfer cases following an
 undetermined one

---
 posydon/utils/common_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/posydon/utils/common_functions.py b/posydon/utils/common_functions.py
index d3e0a29..a735714 100644
--- a/posydon/utils/common_functions.py
+++ b/posydon/utils/common_functions.py
@@ -1727,7 +1727,7 @@ def cumulative_mass_transfer_flag(MT_cases, shift_cases=False):
                     corrected_MT_cases.append(case_1_min)
                 else:
                     corrected_MT_cases.append(MT)
-                if (MT>case_1_min): # update earliest possible MT case
+                if (case_1_min<MT<case_1_max): # update earliest possible case
                     case_1_min = MT
             elif (MT<=case_2_max):
                 # star 2 is donor
@@ -1735,7 +1735,7 @@ def cumulative_mass_transfer_flag(MT_cases, shift_cases=False):
                     corrected_MT_cases.append(case_2_min)
                 else:
                     corrected_MT_cases.append(MT)
-                if (MT>case_2_min): # update earliest possible MT case
+                if (case_2_min<MT<case_2_max): # update earliest possible case
                     case_2_min = MT
             else:
                 # unknown donor
-- 
2.43.0


From b97e13634f363a23fe32788ace8a2bec4e802707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:25 +0000
Subject: [PATCH 37/72] fix: recognize undetermined mass transfer from star 2

---
 posydon/utils/common_functions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/posydon/utils/common_functions.py b/posydon/utils/common_functions.py
index a735714..e151686 100644
--- a/posydon/utils/common_functions.py
+++ b/posydon/utils/common_functions.py
@@ -1622,9 +1622,10 @@ def cumulative_mass_transfer_numeric(MT_cases):
     result = []
 
     # if undetermined MT anywhere, report it at the beginning and forget it
-    if MT_CASE_UNDETERMINED in cases:
+    undetermined = (MT_CASE_UNDETERMINED, MT_CASE_UNDETERMINED + 10)
+    if any(case in undetermined for case in cases):
         result.append(MT_CASE_UNDETERMINED)
-        cases = [case for case in cases if case != MT_CASE_UNDETERMINED]
+        cases = [case for case in cases if case not in undetermined]
         if len(cases) == 0:
             return result
 
-- 
2.43.0


From a1f8da8f43b53a216bc89f885713131733ead358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:25 +0000
Subject: [PATCH 38/72] fix: flip_stars renames the donor of double common
 envelopes

---
 posydon/utils/common_functions.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/posydon/utils/common_functions.py b/posydon/utils/common_functions.py
index e151686..7b34754 100644
--- a/posydon/utils/common_functions.py
+++ b/posydon/utils/common_functions.py
@@ -1421,6 +1421,10 @@ def flip_stars(binary):
         setattr(binary, 'event', 'oCE2')
     elif event == 'oCE2':
         setattr(binary, 'event', 'oCE1')
+    if event == 'oDoubleCE1':
+        setattr(binary, 'event', 'oDoubleCE2')
+    elif event == 'oDoubleCE2':
+        setattr(binary, 'event', 'oDoubleCE1')
     if event == 'CC1':
         setattr(binary, 'event', 'CC2')
     elif event == 'CC2':
@@ -1446,6 +1450,10 @@ def flip_stars(binary):
     cond_oCE1 = event_history == 'oCE2'
     event_history[cond_oCE2] = 'oCE2'
     event_history[cond_oCE1] = 'oCE1'
+    cond_oDoubleCE2 = event_history == 'oDoubleCE1'
+    cond_oDoubleCE1 = event_history == 'oDoubleCE2'
+    event_history[cond_oDoubleCE2] = 'oDoubleCE2'
+    event_history[cond_oDoubleCE1] = 'oDoubleCE1'
     setattr(binary, 'event_history', event_history.tolist())
 
     for i in ['t_sync_rad_', 't_sync_conv_', 'rl_relative_overflow_']:
-- 
2.43.0


From 80429bf6c73e22f6b476481d3645b79a243e1440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:37 +0000
Subject: [PATCH 39/72] fix: flip_stars renames the donor of mass-transfer
 cases

---
 posydon/utils/common_functions.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/posydon/utils/common_functions.py b/posydon/utils/common_functions.py
index 7b34754..5d70e5e 100644
--- a/posydon/utils/common_functions.py
+++ b/posydon/utils/common_functions.py
@@ -1456,6 +1456,17 @@ def flip_stars(binary):
     event_history[cond_oDoubleCE1] = 'oDoubleCE1'
     setattr(binary, 'event_history', event_history.tolist())
 
+    # the last character of a mass-transfer case indicates the donor
+    def flip_case(case):
+        if isinstance(case, str) and case.startswith('case_'):
+            return case.translate(str.maketrans('12', '21'))
+        return case
+    setattr(binary, 'mass_transfer_case',
+            flip_case(getattr(binary, 'mass_transfer_case')))
+    setattr(binary, 'mass_transfer_case_history',
+            [flip_case(case)
+             for case in getattr(binary, 'mass_transfer_case_history')])
+
     for i in ['t_sync_rad_', 't_sync_conv_', 'rl_relative_overflow_']:
 
         value1 = getattr(binary, i+'1')
-- 
2.43.0


From c8b32989252fbaa5544304654c4bce56706f3bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:23 +0000
Subject: [PATCH 40/72] fix: do not turn phases without mass transfer into mass
 transfer

---
 posydon/utils/common_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/utils/common_functions.py b/posydon/utils/common_functions.py
index 5d70e5e..865ba06 100644
--- a/posydon/utils/common_functions.py
+++ b/posydon/utils/common_functions.py
@@ -1743,7 +1743,7 @@ def cumulative_mass_transfer_flag(MT_cases, shift_cases=False):
         for MT in MT_cases:
             if (MT<=case_1_max):
                 # star 1 is donor
-                if (MT<case_1_min): # replace MT case
+                if (MT_CASE_NO_RLO<MT<case_1_min): # replace MT case
                     corrected_MT_cases.append(case_1_min)
                 else:
                     corrected_MT_cases.append(MT)
-- 
2.43.0


From 2f3c58fa4fee593cce2de42192b0ecfd1195ef3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:11 +0000
Subject: [PATCH 41/72] fix: judge a double common envelope from the states at
 the requested time

---
 posydon/utils/common_functions.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/posydon/utils/common_functions.py b/posydon/utils/common_functions.py
index 865ba06..9be5515 100644
--- a/posydon/utils/common_functions.py
+++ b/posydon/utils/common_functions.py
@@ -1220,18 +1220,16 @@ def get_binary_state_and_event_and_mt_case(binary, interpolation_class=None,
             if rl_overflow1>=rl_overflow2:           # star 1 initiated CE
                 result = ['contact', 'oCE1', 'None']
                 # Check for double CE
-                comp_star = binary.star_2
-                if comp_star.state not in ["H-rich_Core_H_burning",
-                                           "stripped_He_Core_He_burning", "WD",
-                                           "NS", "BH"]:
+                if state2 not in ["H-rich_Core_H_burning",
+                                  "stripped_He_Core_He_burning", "WD",
+                                  "NS", "BH"]:
                     result[1] = "oDoubleCE1"
             else:                                   # star 2 initiated CE
                 result = ['contact', 'oCE2', 'None']
                 # Check for double CE
-                comp_star = binary.star_1
-                if comp_star.state not in ["H-rich_Core_H_burning",
-                                           "stripped_He_Core_He_burning", "WD",
-                                           "NS", "BH"]:
+                if state1 not in ["H-rich_Core_H_burning",
+                                  "stripped_He_Core_He_burning", "WD",
+                                  "NS", "BH"]:
                     result[1] = "oDoubleCE2"
             return result
     elif no_rlof:                                   # no MT in any star
-- 
2.43.0


From 70d50de6de1edaee4892c332bb6490a815396fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:08 +0000
Subject: [PATCH 42/72] fix: lower mass limit of the companion in flipped
 HMS-HMS binaries

---
 posydon/binary_evol/MESA/step_mesa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/binary_evol/MESA/step_mesa.py b/posydon/binary_evol/MESA/step_mesa.py
index bfaec1b..3cd83b0 100644
--- a/posydon/binary_evol/MESA/step_mesa.py
+++ b/posydon/binary_evol/MESA/step_mesa.py
@@ -1330,7 +1330,7 @@ class MS_MS_step(MesaGridStep):
               state_2 == 'H-rich_Core_H_burning' and
               event == 'ZAMS' and
               self.m1_min <= m2 <= self.m1_max and
-              np.max([self.q_min, 0.5/m1]) <= 1./mass_ratio <= self.q_max and
+              np.max([self.q_min, 0.5/m2]) <= 1./mass_ratio <= self.q_max and
               self.p_min <= p <= self.p_max):
             self.flip_stars_before_step = True
             super().__call__(self.binary)
-- 
2.43.0


From c7937adbce3a1d164d834b889c2b8b97db046840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:08 +0000
Subject: [PATCH 43/72] fix: redirect CO-HeMS RLO binaries with periods outside
 the grid

---
 posydon/binary_evol/MESA/step_mesa.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/posydon/binary_evol/MESA/step_mesa.py b/posydon/binary_evol/MESA/step_mesa.py
index 3cd83b0..85de730 100644
--- a/posydon/binary_evol/MESA/step_mesa.py
+++ b/posydon/binary_evol/MESA/step_mesa.py
@@ -1597,14 +1597,14 @@ class CO_HeMS_RLO_step(MesaGridStep):
         # period inside the grid, but m1 outside the grid with flipped stars
         elif ((self.flip_stars_before_step and
                self.p_min <= p <= self.p_max and
-               m1 < self.m2_min or m1 > self.m2_max)):
+               (m1 < self.m2_min or m1 > self.m2_max))):
             set_binary_to_failed(self.binary)
             raise GridError(f'The mass of m2 ({m1}) is outside the grid,'
                                 ' while the period is inside the grid.')
         # period inside the grid, but m2 outside the grid with flipped stars
         elif ((self.flip_stars_before_step and
                 self.p_min <= p <= self.p_max and
-                m2 < self.m1_min or m2 > self.m1_max)):
+                (m2 < self.m1_min or m2 > self.m1_max))):
             set_binary_to_failed(self.binary)
             raise GridError(f'The mass of m1 ({m2}) is outside the grid,'
                                 ' while the period is inside the grid.')
-- 
2.43.0


From dfc9e199facd86acd709d5ffbdad5294e4580b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:08 +0000
Subject: [PATCH 44/72] fix: check the grid limits of CO-HeMS binaries for the
 right stars

---
 posydon/binary_evol/MESA/step_mesa.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/posydon/binary_evol/MESA/step_mesa.py b/posydon/binary_evol/MESA/step_mesa.py
index 85de730..03b0d7b 100644
--- a/posydon/binary_evol/MESA/step_mesa.py
+++ b/posydon/binary_evol/MESA/step_mesa.py
@@ -1694,17 +1694,37 @@ class CO_HeMS_step(MesaGridStep):
             super().__call__(binary)
 
         # period inside the grid, but m1 outside the grid
-        elif (self.p_min <= p <= self.p_max) and (m1 < self.m1_min or m1 > self.m1_max):
+        elif (not self.flip_stars_before_step and
+              (self.p_min <= p <= self.p_max) and
+              (m1 < self.m1_min or m1 > self.m1_max)):
             set_binary_to_failed(self.binary)
             raise GridError(f'The mass of m1 ({m1}) is outside the grid,'
                              ' while the period is inside the grid.')
 
         # period inside the grid, but m2 outside the grid
-        elif (self.p_min <= p <= self.p_max) and (m2 < self.m2_min or m2 > self.m2_max):
+        elif (not self.flip_stars_before_step and
+              (self.p_min <= p <= self.p_max) and
+              (m2 < self.m2_min or m2 > self.m2_max)):
             set_binary_to_failed(self.binary)
             raise GridError(f'The mass of m2 ({m2}) is outside the grid,'
                              ' while the period is inside the grid.')
 
+        # period inside the grid, but m1 outside the grid (flipped stars)
+        elif (self.flip_stars_before_step and
+              (self.p_min <= p <= self.p_max) and
+              (m2 < self.m1_min or m2 > self.m1_max)):
+            set_binary_to_failed(self.binary)
+            raise GridError(f'The mass of m1 ({m2}) is outside the grid,'
+                             ' while the period is inside the grid.')
+
+        # period inside the grid, but m2 outside the grid (flipped stars)
+        elif (self.flip_stars_before_step and
+              (self.p_min <= p <= self.p_max) and
+              (m1 < self.m2_min or m1 > self.m2_max)):
+            set_binary_to_failed(self.binary)
+            raise GridError(f'The mass of m2 ({m1}) is outside the grid,'
+                             ' while the period is inside the grid.')
+
         else:
             self.binary.state = 'detached'
             self.binary.event = 'redirect_from_CO_HeMS'
-- 
2.43.0


From c68884a918cc71c442908e23242037d54beb9ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:56 +0000
Subject: [PATCH 45/72] fix: load the grid the boundaries come from for every
 stop method

---
 posydon/binary_evol/MESA/step_mesa.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/posydon/binary_evol/MESA/step_mesa.py b/posydon/binary_evol/MESA/step_mesa.py
index 03b0d7b..1ac755b 100644
--- a/posydon/binary_evol/MESA/step_mesa.py
+++ b/posydon/binary_evol/MESA/step_mesa.py
@@ -235,11 +235,9 @@ class MesaGridStep:
         z_str = convert_metallicity_to_string(self.metallicity)
         self.grid_name = os.path.join(self.grid_path, f"{z_str}_Zsun.h5")
 
-        # we load NN any time stop_at_max_time requested - regardless
-        # of interp method
-        if (self.stop_method == 'stop_at_max_time'
-                or self.interpolation_method == 'nearest_neighbour'):
-            self.load_psyTrackInterp()
+        # we always load NN - regardless of interp method - because the grid
+        # boundaries are inferred from it
+        self.load_psyTrackInterp()
 
         self.grid_name = self.grid_name.replace('_%d', '')
 
-- 
2.43.0


From 17d4e1c643c7c029a35fbdc373a7dd3754e83ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:56 +0000
Subject: [PATCH 46/72] fix: follow a run without saving its history or initial
 conditions

---
 posydon/binary_evol/MESA/step_mesa.py | 33 +++++++++++++--------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/posydon/binary_evol/MESA/step_mesa.py b/posydon/binary_evol/MESA/step_mesa.py
index 1ac755b..4a2527b 100644
--- a/posydon/binary_evol/MESA/step_mesa.py
+++ b/posydon/binary_evol/MESA/step_mesa.py
@@ -507,23 +507,22 @@ class MesaGridStep:
         if binary.state == 'initial_RLOF':
             return
 
-        if track_interpolation or self.save_initial_conditions:
-            len_binary_hist = len(getattr(binary, "time_history"))
-            length_binary_hist = len(cb_bh['age']) - 1
-            length_star_hist = len(cb_hs[0]['center_he4']) - 1
-            length_hist = min(length_binary_hist, length_star_hist)
-            empty_h = [None] * length_hist
-            MESA_history_bug_fix = False
-            if length_binary_hist != length_star_hist:
-                MESA_history_bug_fix = True
-                Pwarn(
-                    'The MESA star_history and binary_history do not match: '
-                    'lenght %i != %i. This will cause errors, e.g. '
-                    'get_binary_state_and_event_and_mt_case take '
-                    'star.mdot_history - star.lg_wind_mdot. To '
-                    'avoid the code breaking, we append np.nan '
-                    'to the missing values.' %
-                    (length_binary_hist, length_star_hist), "ReplaceValueWarning")
+        len_binary_hist = len(getattr(binary, "time_history"))
+        length_binary_hist = len(cb_bh['age']) - 1
+        length_star_hist = len(cb_hs[0]['center_he4']) - 1
+        length_hist = min(length_binary_hist, length_star_hist)
+        empty_h = [None] * length_hist
+        MESA_history_bug_fix = False
+        if length_binary_hist != length_star_hist:
+            MESA_history_bug_fix = True
+            Pwarn(
+                'The MESA star_history and binary_history do not match: '
+                'lenght %i != %i. This will cause errors, e.g. '
+                'get_binary_state_and_event_and_mt_case take '
+                'star.mdot_history - star.lg_wind_mdot. To '
+                'avoid the code breaking, we append np.nan '
+                'to the missing values.' %
+                (length_binary_hist, length_star_hist), "ReplaceValueWarning")
 
         # update properties
         for key in BINARYPROPERTIES:
-- 
2.43.0


From 17984ec19c0c4d8d0c2060826164331333d7fc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:56 +0000
Subject: [PATCH 47/72] fix: apply the Eddington limit to the history of the
 accretion rate

---
 posydon/binary_evol/MESA/step_mesa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/binary_evol/MESA/step_mesa.py b/posydon/binary_evol/MESA/step_mesa.py
index 4a2527b..0610ed7 100644
--- a/posydon/binary_evol/MESA/step_mesa.py
+++ b/posydon/binary_evol/MESA/step_mesa.py
@@ -843,7 +843,7 @@ class MesaGridStep:
                            for i in range(-length_hist-1, -1)]
                 history_of_attribute = np.log10(10**cb_bh[key_bh][:-1] + tmp_h)
                 history_of_attribute = [
-                    y if x > y else x
+                    np.log10(y) if 10**x > y else x
                     for x, y in zip(history_of_attribute, tmp_edd)]
                 accretor.lg_mdot_history.extend(history_of_attribute)
 
-- 
2.43.0


From ed54ca7f844d585ecd7ee5afcba2518fa6d526bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:56 +0000
Subject: [PATCH 48/72] fix: follow a run which ends exactly at the maximum
 simulation time

---
 posydon/binary_evol/MESA/step_mesa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/binary_evol/MESA/step_mesa.py b/posydon/binary_evol/MESA/step_mesa.py
index 0610ed7..d6cc81a 100644
--- a/posydon/binary_evol/MESA/step_mesa.py
+++ b/posydon/binary_evol/MESA/step_mesa.py
@@ -396,7 +396,7 @@ class MesaGridStep:
             self.step(binary, interp_method=self.interpolation_method)
 
         if (self.stop_method == 'stop_at_max_time'
-                and binary.time >= binary.properties.max_simulation_time):
+                and binary.time > binary.properties.max_simulation_time):
 
             # self.flush_history = True # needed???
 
-- 
2.43.0


From c7d30867d576ca47bd00a33967938e986bd63b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:56 +0000
Subject: [PATCH 49/72] fix: states of a binary stopped in the middle of a run

---
 posydon/binary_evol/MESA/step_mesa.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/posydon/binary_evol/MESA/step_mesa.py b/posydon/binary_evol/MESA/step_mesa.py
index d6cc81a..f65a858 100644
--- a/posydon/binary_evol/MESA/step_mesa.py
+++ b/posydon/binary_evol/MESA/step_mesa.py
@@ -1137,7 +1137,7 @@ class MesaGridStep:
                     star_obj = getattr(binary, star)
                     if key in ['state', 'profile', 'metallicity']:
                         interpolated_quanties[star][key] = getattr(
-                            star_obj, key + "_history")[-1]
+                            star_obj, key + "_history")[i]
                     else:
                         current_property = getattr(star_obj, key)
                         property_history = getattr(star_obj, key + '_history')
@@ -1157,7 +1157,7 @@ class MesaGridStep:
             for key in BINARYPROPERTIES:
                 if key in ['state', 'event', 'mass_transfer_case']:
                     interpolated_quanties['binary'][key] = getattr(
-                        binary, key + "_history")[-1]
+                        binary, key + "_history")[i]
                 elif key == 'time':
                     interpolated_quanties['binary'][key] = t
                 else:
-- 
2.43.0


From 183b13c72c97237820e2a1b2d62a61a76012f380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:14 +0000
Subject: [PATCH 50/72] fix: do not give the metallicity of one step to the
 following ones

---
 posydon/binary_evol/simulationproperties.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/posydon/binary_evol/simulationproperties.py b/posydon/binary_evol/simulationproperties.py
index 6cd5d5e..ea8248f 100644
--- a/posydon/binary_evol/simulationproperties.py
+++ b/posydon/binary_evol/simulationproperties.py
@@ -375,8 +375,8 @@ class SimulationProperties:
         for name, tup in self.kwargs.items():
             if isinstance(tup, tuple):
                 step_kwargs = tup[1]
-                metallicity = step_kwargs.get('metallicity', metallicity)
-                self.load_a_step(name, tup, metallicity=metallicity, RNG=RNG, verbose=verbose)
+                step_metallicity = step_kwargs.get('metallicity', metallicity)
+                self.load_a_step(name, tup, metallicity=step_metallicity, RNG=RNG, verbose=verbose)
 
         if verbose:
             if self.steps_loaded:
-- 
2.43.0


From 605c66f2214644ec10070c5803d8682986f9aeed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:14 +0000
Subject: [PATCH 51/72] fix: skip steps which are not provided when loading all
 steps

---
 posydon/binary_evol/simulationproperties.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/posydon/binary_evol/simulationproperties.py b/posydon/binary_evol/simulationproperties.py
index ea8248f..28651f0 100644
--- a/posydon/binary_evol/simulationproperties.py
+++ b/posydon/binary_evol/simulationproperties.py
@@ -374,6 +374,9 @@ class SimulationProperties:
         # for every other step, give it a metallicity and load each step
         for name, tup in self.kwargs.items():
             if isinstance(tup, tuple):
+                # skip steps which are not provided
+                if isinstance(tup[0], NullStep):
+                    continue
                 step_kwargs = tup[1]
                 step_metallicity = step_kwargs.get('metallicity', metallicity)
                 self.load_a_step(name, tup, metallicity=step_metallicity, RNG=RNG, verbose=verbose)
@@ -475,7 +478,8 @@ class SimulationProperties:
         # check if all steps have been loaded
         self.steps_loaded = all(hasattr(self, name)
                                 for name, tup in self.kwargs.items()
-                                if isinstance(tup, tuple))
+                                if isinstance(tup, tuple)
+                                and not isinstance(tup[0], NullStep))
 
     def check_step(self, metallicity, RNG, step_name, step_tup, verbose=False):
         """
-- 
2.43.0


From 788aeefeaafb6cbf7f887f5092e51f9bcb46557c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:14 +0000
Subject: [PATCH 52/72] fix: keep the configuration of a step when loading it

---
 posydon/binary_evol/simulationproperties.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/posydon/binary_evol/simulationproperties.py b/posydon/binary_evol/simulationproperties.py
index 28651f0..0886970 100644
--- a/posydon/binary_evol/simulationproperties.py
+++ b/posydon/binary_evol/simulationproperties.py
@@ -499,9 +499,9 @@ class SimulationProperties:
         step_name : str
             Name of the pipeline step being checked.
         step_kwargs : dict
-            Keyword arguments for the step. This dictionary may be modified
-            in-place to include validated metallicity and/or a TrackMatcher
-            instance.
+            Keyword arguments for the step. This dictionary is left unchanged,
+            the validated metallicity and/or a TrackMatcher instance are added
+            to the returned copy.
         verbose : bool, optional
             If True, print the keyword arguments used to construct the
             TrackMatcher.
@@ -522,6 +522,9 @@ class SimulationProperties:
         for repeated `(metallicity, step_name)` combinations.
         """
         step_func, step_kwargs = step_tup
+        # do not change the configuration the step is loaded from, e.g. to
+        # be able to reload it with another metallicity
+        step_kwargs = step_kwargs.copy()
         # copy these to track what was originally passed before adding defaults
         # in case we need to update a TrackMatcher for a step, this method only
         # cares about updating what it is told to, not everything.
-- 
2.43.0


From 2218b32672647c81093a4667e1bd5d07209e3360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:14 +0000
Subject: [PATCH 53/72] fix: find all hooks of an inifile

---
 posydon/popsyn/io.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/posydon/popsyn/io.py b/posydon/popsyn/io.py
index 810b6cc..9999e12 100644
--- a/posydon/popsyn/io.py
+++ b/posydon/popsyn/io.py
@@ -473,15 +473,8 @@ def simprop_kwargs_from_ini(path, only=None, verbose=False):
                      if 'extra' not in name]
             # do not take extra_pre_step options etc.
 
-            # loop to try and find all hooks classes
-            for h in range(1, len(names)):
-                valid_names = [name for name in names
-                               if int(name.split('_')[-1]) == h]
-
-                # if there are no options with the index, continue
-                if not valid_names:
-                    continue
-
+            # loop over the indices of all hooks classes
+            for h in sorted({int(name.split('_')[-1]) for name in names}):
                 import_and_name = sect_dict.pop('import_{}'.format(h))
                 package = sect_dict.pop('absolute_import_{}'.format(h), None)
                 class_kwargs = sect_dict.pop('kwargs_{}'.format(h), dict())
-- 
2.43.0


From 55d2a341d1b1d02154a965201a4a0235cfa31dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:27 +0000
Subject: [PATCH 54/72] fix: use the absolute import of a hook in an inifile

---
 posydon/popsyn/io.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/posydon/popsyn/io.py b/posydon/popsyn/io.py
index 9999e12..3b777db 100644
--- a/posydon/popsyn/io.py
+++ b/posydon/popsyn/io.py
@@ -479,9 +479,20 @@ def simprop_kwargs_from_ini(path, only=None, verbose=False):
                 package = sect_dict.pop('absolute_import_{}'.format(h), None)
                 class_kwargs = sect_dict.pop('kwargs_{}'.format(h), dict())
 
-                module = importlib.import_module(import_and_name[0],
-                                                 package=package)
-                cls = getattr(module, import_and_name[1])
+                if isinstance(package, (list, tuple)):
+                    # unpack user specified py file, and class name to import
+                    import_location, class_name = package
+                    absolute_import_location = os.path.abspath(import_location)
+                    spec = importlib.util.spec_from_file_location(
+                        absolute_import_location[1:].replace('/', '.').replace('.py', ''),
+                        location=absolute_import_location)
+                    module = importlib.util.module_from_spec(spec)
+                    spec.loader.exec_module(module)
+                    cls = getattr(module, class_name)
+                else:
+                    module = importlib.import_module(import_and_name[0],
+                                                     package=package)
+                    cls = getattr(module, import_and_name[1])
 
                 hooks_list.append((cls, class_kwargs))
 
-- 
2.43.0


From e483993cba90de7aa1cf57d1fc2f9ba481aab74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:48 +0000
Subject: [PATCH 55/72] fix: set up a population for a single metallicity
 outside a list

---
 posydon/popsyn/synthetic_population.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/posydon/popsyn/synthetic_population.py b/posydon/popsyn/synthetic_population.py
index 6cf8592..c4c3545 100644
--- a/posydon/popsyn/synthetic_population.py
+++ b/posydon/popsyn/synthetic_population.py
@@ -129,6 +129,7 @@ class PopulationRunner:
                 # overwrite the ini_kw verbose parameter
                 ini_kw["verbose"] = self.verbose
                 ini_kw['tqdm'] = self.verbose
+                ini_kw["metallicities"] = self.solar_metallicities
                 ini_kw["metallicity"] = MET
                 ini_kw["temp_directory"] = (
                     convert_metallicity_to_string(MET)
-- 
2.43.0


From 873e43f81b5c9387bfd4f76d1aedc492429d4e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:19 +0000
Subject: [PATCH 56/72] fix: equal-mass sampling no longer erases the primary
 mass of single stars

---
 posydon/popsyn/independent_sample.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/posydon/popsyn/independent_sample.py b/posydon/popsyn/independent_sample.py
index 16dd4f1..167ac05 100644
--- a/posydon/popsyn/independent_sample.py
+++ b/posydon/popsyn/independent_sample.py
@@ -371,7 +371,8 @@ def generate_secondary_masses(primary_masses,
         secondary_masses = primary_masses * mass_ratios
 
     if secondary_mass_scheme == 'q=1':
-        secondary_masses = primary_masses
+        # copy: the secondaries of single stars are removed in place later
+        secondary_masses = np.copy(primary_masses)
 
     return secondary_masses
 
-- 
2.43.0


From 11b9ad304794889fa36906d2d9cd994e9e8c7a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:19 +0000
Subject: [PATCH 57/72] fix: Sana+12 periods with both limits on the same side
 of the break

---
 posydon/popsyn/distributions.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/posydon/popsyn/distributions.py b/posydon/popsyn/distributions.py
index 67a9f64..bff8409 100644
--- a/posydon/popsyn/distributions.py
+++ b/posydon/popsyn/distributions.py
@@ -419,8 +419,13 @@ class Sana12Period():
 
         mask2 = m1 > self.mbreak
         beta = 1 - self.slope
-        A = np.log10(10**0.15)**(-self.slope) * (np.log10(10**0.15) - np.log10(self.p_min))
-        B = 1./beta * (np.log10(self.p_max)**beta - np.log10(10**0.15)**beta)
+        # the break at logP = 0.15 may lie outside of [p_min, p_max]
+        logp_low = np.minimum(np.log10(self.p_min), 0.15)
+        logp_mid_low = np.minimum(np.log10(self.p_max), 0.15)
+        logp_mid_high = np.maximum(np.log10(self.p_min), 0.15)
+        logp_high = np.maximum(np.log10(self.p_max), 0.15)
+        A = 0.15**(-self.slope) * (logp_mid_low - logp_low)
+        B = 1./beta * (logp_high**beta - logp_mid_high**beta)
         C = 1./(A + B)
         logp_valid = logp[mask2]
 
-- 
2.43.0


From b08a071a1df7b4a34968a871fe94d7c6f9fded9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:30 +0000
Subject: [PATCH 58/72] fix: draw masses of Chabrier2003 on a grid resolving
 low masses

---
 posydon/popsyn/IMFs.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/posydon/popsyn/IMFs.py b/posydon/popsyn/IMFs.py
index bfaace0..a0682e7 100644
--- a/posydon/popsyn/IMFs.py
+++ b/posydon/popsyn/IMFs.py
@@ -555,9 +555,11 @@ class Chabrier2003(IMFBase):
             rng = np.random.default_rng()
 
         # Create discretized PDF for inverse sampling
-        # Use more points near the transition for better accuracy
+        # Logarithmic spacing resolves the low-mass end
         n_points = 2000
-        m_grid = np.linspace(self.m_min, self.m_max, n_points)
+        m_grid = np.geomspace(self.m_min, self.m_max, n_points)
+        # keep the limits exact
+        m_grid[0], m_grid[-1] = self.m_min, self.m_max
         pdf_values = self.imf(m_grid)
 
         # Sample using inverse transform method
-- 
2.43.0


From 5b6c8fc2ec5bc6277ff784d38b33bed57a15fe6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:19 +0000
Subject: [PATCH 59/72] fix: draw one formation time per binary from a custom
 histogram

---
 posydon/popsyn/star_formation_history.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/posydon/popsyn/star_formation_history.py b/posydon/popsyn/star_formation_history.py
index b962ff6..ac91a2e 100644
--- a/posydon/popsyn/star_formation_history.py
+++ b/posydon/popsyn/star_formation_history.py
@@ -1110,7 +1110,8 @@ def get_formation_times(N_binaries, star_formation="constant", **kwargs): # prag
     if scenario in ["custom_linear_histogram", "custom_log10_histogram"]:
         custom_ages_file = kwargs.get("custom_ages_file")
         x, y = read_histogram_from_file(custom_ages_file)
-        current_binary_ages = histogram_sampler(x, y, rng=RNG)
+        current_binary_ages = np.atleast_1d(
+            histogram_sampler(x, y, size=N_binaries, rng=RNG))
         if "log10" in scenario:
             current_binary_ages = 10.0**current_binary_ages
         return max_time - current_binary_ages
-- 
2.43.0


From 61d863d64fee9de58a5bde6b50d3bb76d39c134d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:47 +0000
Subject: [PATCH 60/72] fix: draw masses of Kroupa2001 on a grid resolving the
 breaks

---
 posydon/popsyn/IMFs.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/posydon/popsyn/IMFs.py b/posydon/popsyn/IMFs.py
index a0682e7..75c8cfa 100644
--- a/posydon/popsyn/IMFs.py
+++ b/posydon/popsyn/IMFs.py
@@ -437,6 +437,11 @@ class Kroupa2001(IMFBase):
         # Use more points near the breaks for better accuracy
         n_points = 2000
         m_grid = np.linspace(self.m_min, self.m_max, n_points)
+        if self.m_min < self.m2break:
+            # resolve the masses up to (and somewhat above) the upper break
+            m_low = np.geomspace(self.m_min, 10.0 * self.m2break, n_points)
+            m_grid = np.union1d(m_grid, m_low[(m_low > self.m_min)
+                                              & (m_low < self.m_max)])
         pdf_values = self.imf(m_grid)
 
         # Sample using inverse transform method
-- 
2.43.0


From 46a93445821d6dc0551f32cb58ed84f1914d5c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:33 +0000
Subject: [PATCH 61/72] fix: share out star formation when a metallicity limit
 lies outside all bins

---
 posydon/popsyn/star_formation_history.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/posydon/popsyn/star_formation_history.py b/posydon/popsyn/star_formation_history.py
index ac91a2e..ccb7dff 100644
--- a/posydon/popsyn/star_formation_history.py
+++ b/posydon/popsyn/star_formation_history.py
@@ -194,8 +194,10 @@ class SFHBase(ABC):
                 Pwarn('Z_max is smaller than the highest metallicity bin.',
                       'SFHModelWarning')
                 # find the index of the last bin that is smaller than Z_max
-                last_bin_index = np.searchsorted(metallicity_bins, self.Z_max) - 1
-                fSFR[last_bin_index] = cdf_func(self.Z_max) - cdf_func(metallicity_bins[last_bin_index])
+                # (at least the first bin, if Z_max is below all bins)
+                last_bin_index = max(np.searchsorted(metallicity_bins, self.Z_max) - 1, 0)
+                fSFR[last_bin_index] = max(cdf_func(self.Z_max)
+                                           - cdf_func(metallicity_bins[last_bin_index]), 0.0)
                 fSFR[last_bin_index + 1:] = 0.0
 
         if self.Z_min is not None:
@@ -205,9 +207,12 @@ class SFHBase(ABC):
                 Pwarn('Z_min is larger than the lowest metallicity bin.',
                       'SFHModelWarning')
                 # find the index of the first bin that is larger than Z_min
-                first_bin_index = np.searchsorted(metallicity_bins, self.Z_min) -1
+                # (at most the last bin, if Z_min is above all bins)
+                first_bin_index = min(np.searchsorted(metallicity_bins, self.Z_min) - 1,
+                                      len(fSFR) - 1)
                 fSFR[:first_bin_index] = 0.0
-                fSFR[first_bin_index] = cdf_func(metallicity_bins[first_bin_index+1]) - cdf_func(self.Z_min)
+                fSFR[first_bin_index] = max(cdf_func(metallicity_bins[first_bin_index+1])
+                                            - cdf_func(self.Z_min), 0.0)
 
         # Check if in the same bin
         if self.Z_max is not None and self.Z_min is not None:
-- 
2.43.0


From a8dcbd6a87a16986b68cd897bd81604d4dc353c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:33 +0000
Subject: [PATCH 62/72] fix: no NaN from normalising when no star formation
 lies in the metallicity bins

---
 posydon/popsyn/star_formation_history.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/posydon/popsyn/star_formation_history.py b/posydon/popsyn/star_formation_history.py
index ccb7dff..343a85f 100644
--- a/posydon/popsyn/star_formation_history.py
+++ b/posydon/popsyn/star_formation_history.py
@@ -222,7 +222,10 @@ class SFHBase(ABC):
                 fSFR[:first_bin_index] = 0.0
 
         if self.normalise:
-            fSFR /= np.sum(fSFR)
+            total = np.sum(fSFR)
+            # without any star formation in the bins there is nothing to scale
+            if total > 0:
+                fSFR /= total
 
         return fSFR
 
-- 
2.43.0


From 98c63c689d02782e6be9fffd680e9c0d60f8ce65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:58 +0000
Subject: [PATCH 63/72] fix: do not drop rows in downsampling when the error is
 undefined

A single missing value in any column made all errors NaN, which reduced
the whole table to its first and last row.
---
 posydon/grids/downsampling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/posydon/grids/downsampling.py b/posydon/grids/downsampling.py
index a7922b3..f4d79a5 100644
--- a/posydon/grids/downsampling.py
+++ b/posydon/grids/downsampling.py
@@ -230,7 +230,8 @@ class TrackDownsampler:
                     keep_it = interval > abs(max_interval * (t[0] - t[-1]))
                 else:
                     keep_it = interval > max_interval
-            if e_max > tolerance:
+            # (an undefined error is never below the tolerance)
+            if not e_max <= tolerance:
                 keep_it = True
 
             if keep_it:
-- 
2.43.0


From 3923c6bb8632adff3c0c8139eae4e09840fa70e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:53 +0000
Subject: [PATCH 64/72] fix: keep lazily loaded values when the final values
 are written

Updating the final values closes and reopens the file: the initial values
of a lazily loaded grid became unusable, and overwriting a column failed
after the old values had been deleted, leaving a file without final values.
---
 posydon/grids/psygrid.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/posydon/grids/psygrid.py b/posydon/grids/psygrid.py
index 84f356b..6cef43e 100644
--- a/posydon/grids/psygrid.py
+++ b/posydon/grids/psygrid.py
@@ -1423,6 +1423,12 @@ class PSyGrid:
             raise TypeError("The final values have to be a ndarray or LazyHDF5 object."
                             "Instead, it is {}.".format(type(self.final_values)))
 
+        # closing the file invalidates everything loaded lazily
+        self.initial_values = self._in_memory(self.initial_values)
+        self.final_values = self._in_memory(self.final_values)
+        for model_name, values in self._SN_values.items():
+            self._SN_values[model_name] = self._in_memory(values)
+
         self._reload_hdf5_file(writeable=True)
         new_dtype = []
         for dtype in self.final_values.dtype.descr:
@@ -1438,6 +1444,11 @@ class PSyGrid:
                                  **self.compression_args)
         self._reload_hdf5_file(writeable=False)
 
+    @staticmethod
+    def _in_memory(values):
+        """Get values independent of the HDF5 file they were loaded from."""
+        return LazyHDF5(values[()]) if isinstance(values, LazyHDF5) else values
+
     def _reload_hdf5_file(self, writeable=False):
         """Close and reopen the hdf5 file.
 
-- 
2.43.0


From 0b9f22ff961832b115dcbd82d3ea8688b0495377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:53 +0000
Subject: [PATCH 65/72] fix: keep a run consisting of its He-depleted model
 only

Cutting massive stars at the end of core He burning emptied the histories
of a run whose only model is depleted, and the grid creation failed on it.
---
 posydon/grids/scrubbing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posydon/grids/scrubbing.py b/posydon/grids/scrubbing.py
index 1d44e8b..ca4d25f 100644
--- a/posydon/grids/scrubbing.py
+++ b/posydon/grids/scrubbing.py
@@ -275,7 +275,7 @@ def keep_till_central_abundance_He_C(bh, h1, h2,
     # the core mass at He depletion with the calculate_Patton20_values_at_He_depl
     # method used to calculate the core collapse properties with the
     # Patton&Sukhbold mechanism.
-    if len(bh) >= last_index+2:
+    if (len(bh) >= last_index+2) or (last_index == 0):
         last_index += 1
 
     new_bh = bh[:last_index]
-- 
2.43.0


From df6f1ec11f682759021926b0d8b17f9af51c9a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:18 +0000
Subject: [PATCH 66/72] fix: detached evolution records its final state once,
 not twice, when intermediate steps are requested

---
 posydon/binary_evol/DT/step_detached.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/posydon/binary_evol/DT/step_detached.py b/posydon/binary_evol/DT/step_detached.py
index 73907fd..17cc9e9 100644
--- a/posydon/binary_evol/DT/step_detached.py
+++ b/posydon/binary_evol/DT/step_detached.py
@@ -725,9 +725,9 @@ class detached_step:
 
                 # only update history if dt or n_o_steps_history is set
                 # such that history has more than one entry.
-                # Otherwise, this is updated later in BinaryStar.run_step()
+                # The last entry is added later in BinaryStar.run_step()
                 if len(history) > 1:
-                    getattr(obj, key + "_history").extend(history)
+                    getattr(obj, key + "_history").extend(history[:-1])
 
     def update_co_stars(self, t, primary, secondary):
 
@@ -771,7 +771,7 @@ class detached_step:
                 current = history[-1]
                 setattr(obj, key, current)
                 if len(history) > 1:
-                    getattr(obj, key + "_history").extend(history)
+                    getattr(obj, key + "_history").extend(history[:-1])
 
 class detached_evolution:
     """
-- 
2.43.0


From fada6a09529c6b167efec55df1aa959793ed30bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:18 +0000
Subject: [PATCH 67/72] fix: detached evolution samples its history within the
 evolved time span for any time step

---
 posydon/binary_evol/DT/step_detached.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/posydon/binary_evol/DT/step_detached.py b/posydon/binary_evol/DT/step_detached.py
index 17cc9e9..173fbfd 100644
--- a/posydon/binary_evol/DT/step_detached.py
+++ b/posydon/binary_evol/DT/step_detached.py
@@ -551,16 +551,15 @@ class detached_step:
 
         """
 
+        t_end = self.res.t[-1]
         if self.dt is not None and self.dt > 0:
-            t = np.arange(binary.time, self.res.t[-1] + self.dt/2.0, self.dt)[1:]
-            if t[-1] < self.res.t[-1]:
-                t = np.hstack([t, self.res.t[-1]])
+            # multiples of dt before the end (up to round-off), then the end
+            n_steps = int(np.ceil((t_end - binary.time) / self.dt - 1e-6))
+            t = binary.time + self.dt * np.arange(1, n_steps)
+            t = np.hstack([t, t_end])
         elif (self.n_o_steps_history is not None
                 and self.n_o_steps_history > 0):
-            t_step = (self.res.t[-1] - binary.time) / self.n_o_steps_history
-            t = np.arange(binary.time, self.res.t[-1] + t_step / 2.0, t_step)[1:]
-            if t[-1] < self.res.t[-1]:
-                t = np.hstack([t, self.res.t[-1]])
+            t = np.linspace(binary.time, t_end, self.n_o_steps_history + 1)[1:]
         else:  # self.dt is None and self.n_o_steps_history is None
             t = np.array([self.res.t[-1]])
 
-- 
2.43.0


From 4dddc5becd190073704a099430e459e47334a323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:18 +0000
Subject: [PATCH 68/72] fix: magnetic braking applies the same M15 and CARB
 torque to either star

---
 posydon/binary_evol/DT/magnetic_braking/prescriptions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/posydon/binary_evol/DT/magnetic_braking/prescriptions.py b/posydon/binary_evol/DT/magnetic_braking/prescriptions.py
index ae1aa05..0900d8d 100644
--- a/posydon/binary_evol/DT/magnetic_braking/prescriptions.py
+++ b/posydon/binary_evol/DT/magnetic_braking/prescriptions.py
@@ -183,7 +183,7 @@ def M15_braking(primary, secondary, verbose = False):
 
     if (Rossby_number_pri < 0.14):
         dOmega_mb_pri = (
-            T0_pri * (chi**2.6) * (omega1 / 2.6e-6) / MOI_1
+            T0_pri * (chi**2.6) * (omega1 / omega_sol) / MOI_1
             * np.clip((1.5 - m1) / (1.5 - 1.3), 0, 1)
         )
     else:
@@ -372,7 +372,7 @@ def CARB_braking(primary, secondary, verbose = False):
 
     dOmega_mb_pri = (
         (2./3.) * omega1 * mdot_1 * R_alfven_pri**2 / MOI_1
-        * np.clip((1.5 - m2) / (1.5 - 1.3), 0, 1)
+        * np.clip((1.5 - m1) / (1.5 - 1.3), 0, 1)
     )
 
     return -abs(dOmega_mb_sec), -abs(dOmega_mb_pri)
-- 
2.43.0


From 460d89474dafcb125f708bf8e8d0b2592700c354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:18 +0000
Subject: [PATCH 69/72] fix: unknown magnetic braking mode warns and leaves the
 spins alone instead of crashing

---
 posydon/binary_evol/DT/step_detached.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/posydon/binary_evol/DT/step_detached.py b/posydon/binary_evol/DT/step_detached.py
index 173fbfd..f0355b1 100644
--- a/posydon/binary_evol/DT/step_detached.py
+++ b/posydon/binary_evol/DT/step_detached.py
@@ -1382,7 +1382,7 @@ class detached_evolution:
 
         else:
             Pwarn("WARNING: Magnetic braking is not being calculated in the "
-                "detached step. The given magnetic_braking_mode string ",
+                "detached step. The given magnetic_braking_mode string "
                 f"'{self.magnetic_braking_mode}' does not match the available "
                 "built-in cases. To enable magnetic braking, please set "
                 "magnetc_braking_mode to one of the following strings: "
@@ -1390,6 +1390,7 @@ class detached_evolution:
                 "'G18' for Garraffo et al. 2018"
                 "'M15' for Matt et al. 2015"
                 "'CARB' for Van & Ivanova 2019", "UnsupportedModelWarning")
+            dOmega_mb_sec, dOmega_mb_pri = 0.0, 0.0
 
         #if self.verbose:
         #    print("magnetic_braking_mode = ", self.magnetic_braking_mode)
-- 
2.43.0


From 332b0252d12f9adc00d92bef0f0043edd7f7033f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:18 +0000
Subject: [PATCH 70/72] fix: compact objects born within contact merge at once
 instead of evolving backwards in time

---
 posydon/binary_evol/DT/double_CO.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/posydon/binary_evol/DT/double_CO.py b/posydon/binary_evol/DT/double_CO.py
index 780635e..42e1df8 100644
--- a/posydon/binary_evol/DT/double_CO.py
+++ b/posydon/binary_evol/DT/double_CO.py
@@ -192,7 +192,8 @@ class DoubleCO(detached_step):
         # dimensionless max-time limit
         tau_max = (self.max_time - t0_phys) / t_scale
 
-        s_contact = -np.log(alpha_contact)
+        # (already in contact if it starts closer than that)
+        s_contact = max(0.0, -np.log(alpha_contact))
 
         # --- max-time event: tau reaches tau_max before contact ---------------
         @_event(True, +1)
-- 
2.43.0


From a822f0c285ad63cc883f7350703dff6a3f97bb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:23 +0000
Subject: [PATCH 71/72] fix: CARB magnetic braking converts the field (G^4) to
 solar units with the fourth power of the year

---
 posydon/binary_evol/DT/magnetic_braking/prescriptions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/posydon/binary_evol/DT/magnetic_braking/prescriptions.py b/posydon/binary_evol/DT/magnetic_braking/prescriptions.py
index 0900d8d..d1b5fff 100644
--- a/posydon/binary_evol/DT/magnetic_braking/prescriptions.py
+++ b/posydon/binary_evol/DT/magnetic_braking/prescriptions.py
@@ -349,7 +349,7 @@ def CARB_braking(primary, secondary, verbose = False):
         R_alfven_div_R3_sec = (
             R2**4 * rot_ratio_sec**4 * tau_ratio_sec**4
             / (mdot_2**2 * v_mod2_sec)
-            * (const.rsol**2 * const.secyer / const.msol**2))
+            * (const.rsol**2 * const.secyer**4 / const.msol**2))
     else:
         R_alfven_div_R3_sec = 0.0
 
@@ -357,7 +357,7 @@ def CARB_braking(primary, secondary, verbose = False):
         R_alfven_div_R3_pri = (
             R1**4 * rot_ratio_pri**4 * tau_ratio_pri**4
             / (mdot_1**2 * v_mod2_pri)
-            * (const.rsol**2 * const.secyer / const.msol**2))
+            * (const.rsol**2 * const.secyer**4 / const.msol**2))
     else:
         R_alfven_div_R3_pri = 0.0
 
-- 
2.43.0


From bd1b1ee8134c4c4b9d387f64884d4928400a46d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:17 +0000
Subject: [PATCH 72/72] fix: root matching rejects points the solver stalls on
 that do not reproduce the star

---
 posydon/binary_evol/track_match.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/posydon/binary_evol/track_match.py b/posydon/binary_evol/track_match.py
index 9f47e91..e13dc5e 100644
--- a/posydon/binary_evol/track_match.py
+++ b/posydon/binary_evol/track_match.py
@@ -894,8 +894,10 @@ class TrackMatcher:
                         x0, method="hybr"
                         )
 
-        # if optimizer failed for some reason set solution as NaN
-        if not sol.success or sol.x[1] < 0:
+        # if optimizer failed for some reason set solution as NaN; it may also
+        # stall on a point that is no root, e.g. at the end of a track
+        is_root = np.all(np.abs(sol.fun) <= self.matching_tolerance)
+        if not sol.success or not is_root or sol.x[1] < 0:
             match_vals = np.array([np.nan, np.nan])
         else:
             match_vals = sol.x
-- 
2.43.0

