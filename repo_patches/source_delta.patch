From ee0bc751ade384229d175d2b048afab2f60c0063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:37 +0000
Subject: [PATCH 01/23] fix: Hamming and Hann azimuth windows were swapped

---
 dedop/proc/sar/algorithms/azimuth_processing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dedop/proc/sar/algorithms/azimuth_processing.py b/dedop/proc/sar/algorithms/azimuth_processing.py
index 7e4e869..c2bfd0e 100644
--- a/dedop/proc/sar/algorithms/azimuth_processing.py
+++ b/dedop/proc/sar/algorithms/azimuth_processing.py
@@ -60,10 +60,10 @@ class AzimuthProcessingAlgorithm(BaseAlgorithm):
             window[start:end] = 1.
         elif window_shape == AzimuthWindowingMethod.hamming:
             n = np.arange(width)
-            window[start:end] = .5 - .5 * np.cos((2. * self.cst.pi * n) / (width - 1))
+            window[start:end] = .54 - .46 * np.cos((2. * self.cst.pi * n) / (width - 1))
         elif window_shape == AzimuthWindowingMethod.hanning:
             n = np.arange(width)
-            window[start:end] = .54 - .46 * np.cos((2. * self.cst.pi * n) / (width - 1))
+            window[start:end] = .5 - .5 * np.cos((2. * self.cst.pi * n) / (width - 1))
         else:
             raise NotImplementedError(
                 "Unsupported Azimuth Windowing Method: {}".format(window_shape)
-- 
2.43.0


From da3327dbbb3b0da618463fde91e12ea5875075f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:27 +0000
Subject: [PATCH 02/23] fix: antenna weight interpolation mixed up weight and
 angle

The interpolation proportion was computed as the pointing angle minus the left
weight instead of minus the left table angle, so weights between table entries
were wrong (and not continuous at the entries).
---
 dedop/proc/sar/algorithms/multilooking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedop/proc/sar/algorithms/multilooking.py b/dedop/proc/sar/algorithms/multilooking.py
index 33aa647..ac1d249 100644
--- a/dedop/proc/sar/algorithms/multilooking.py
+++ b/dedop/proc/sar/algorithms/multilooking.py
@@ -212,7 +212,7 @@ class MultilookingAlgorithm(BaseAlgorithm):
             weight_right = self.chd.antenna_weights[index_right]
 
             # get proportion between the left & right weights
-            alpha = (angle - weight_left) / self.chd.antenna_angles_spacing
+            alpha = (angle - self.chd.antenna_angles[index_left]) / self.chd.antenna_angles_spacing
             # interpolate value
             selected_weight = weight_left + alpha * (weight_right - weight_left)
 
-- 
2.43.0


From 473a9e7cbb844495d6f4125014f9a8bee044d42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:02 +0000
Subject: [PATCH 03/23] fix: multilooking failed on a stack without any power

With every look blanked (or the first half of all beams empty) no finite value
is left for the Gaussian fit, and curve_fit reports that with a ValueError,
which aborted the processing instead of falling back to the default fit.
---
 dedop/proc/sar/algorithms/multilooking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedop/proc/sar/algorithms/multilooking.py b/dedop/proc/sar/algorithms/multilooking.py
index ac1d249..8034430 100644
--- a/dedop/proc/sar/algorithms/multilooking.py
+++ b/dedop/proc/sar/algorithms/multilooking.py
@@ -33,7 +33,7 @@ def gauss_fit(x: np.ndarray, y: np.ndarray) -> List[float]:
             fit_params, _ = curve_fit(
                 gauss, x, y
             )
-        except (RuntimeError, OptimizeWarning, TypeError):
+        except (RuntimeError, OptimizeWarning, TypeError, ValueError):
             return [1, 1, 1]
 
     return fit_params
-- 
2.43.0


From 0506d5464544b853c3a8317a2fb2cfae4af2139b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:31 +0000
Subject: [PATCH 04/23] fix: altitude at the south pole was negative twice the
 earth radius

The near-pole correction of the scalar conversion used z instead of |z|, unlike
the array version right below it.
---
 dedop/proc/geo/ecef2lla.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedop/proc/geo/ecef2lla.py b/dedop/proc/geo/ecef2lla.py
index cbe6279..1953751 100644
--- a/dedop/proc/geo/ecef2lla.py
+++ b/dedop/proc/geo/ecef2lla.py
@@ -88,7 +88,7 @@ def ecef2lla(ecef: Sequence[float], cst: ConstantsFile) -> Tuple[float, float, f
 
     if isinstance(alt, numbers.Number):
         if abs(x)<1 and abs(y)<1:
-            alt = z - b
+            alt = abs(z) - b
     else:
         k = logical_and(abs(x)<1, abs(y)<1)
         alt[k] = abs(z[k]) - b
-- 
2.43.0


From e1f908df0fed88cbb7693746a092310a17bb8989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:38 +0000
Subject: [PATCH 05/23] fix: project the centre-of-gravity offset with the
 pitch in radians (it is stored in degrees)

---
 dedop/data/input/l1a/l1a_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedop/data/input/l1a/l1a_dataset.py b/dedop/data/input/l1a/l1a_dataset.py
index de315a4..f16eb39 100644
--- a/dedop/data/input/l1a/l1a_dataset.py
+++ b/dedop/data/input/l1a/l1a_dataset.py
@@ -166,7 +166,7 @@ class L1ADataset(InputDataset):
         # construct waveform
         waveform = (self.get_value(L1AVariables.i_meas_ku_l1a_echo_sar_ku, index) +
                     1j * self.get_value(L1AVariables.q_meas_ku_l1a_echo_sar_ku, index)) / scale_factor
-        zcog = np.cos(self.get_value(L1AVariables.pitch_sat_pointing_l1a_echo_sar_ku, index)) *\
+        zcog = np.cos(radians(self.get_value(L1AVariables.pitch_sat_pointing_l1a_echo_sar_ku, index))) *\
                self.get_value(L1AVariables.cog_cor_l1a_echo_sar_ku, index)
         range = self.get_value(L1AVariables.range_ku_l1a_echo_sar_ku, index) + zcog
 
-- 
2.43.0


From 998229d9ad099e9bafac1a82f78dbc50edbcd3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:50 +0000
Subject: [PATCH 06/23] fix: include the last record inside the region of
 interest

---
 dedop/data/input/l1a/l1a_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedop/data/input/l1a/l1a_dataset.py b/dedop/data/input/l1a/l1a_dataset.py
index f16eb39..40d1a2d 100644
--- a/dedop/data/input/l1a/l1a_dataset.py
+++ b/dedop/data/input/l1a/l1a_dataset.py
@@ -116,7 +116,7 @@ class L1ADataset(InputDataset):
             self._roi_filter = roi_filter
             indexes = np.argwhere(roi_filter)
             self._start_index = indexes.min()
-            self._final_index = indexes.max()
+            self._final_index = indexes.max() + 1
         else:
             self._roi_filter = None
             self._start_index = 0
-- 
2.43.0


From 0e6bcfdc86916c45cea8816466a8518f52b28cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:03 +0000
Subject: [PATCH 07/23] fix: a parameter redeclared by a derived class could be
 hidden by its base class

---
 dedop/util/parameter.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/dedop/util/parameter.py b/dedop/util/parameter.py
index c697c13..ea6a737 100644
--- a/dedop/util/parameter.py
+++ b/dedop/util/parameter.py
@@ -55,12 +55,10 @@ class Parameter:
 
     @staticmethod
     def get_parameter(clazz, name):
-        if hasattr(clazz, 'parameters') and name in clazz.parameters:
-            return clazz.parameters[name]
-        for base in clazz.__bases__:
-            parameter = Parameter.get_parameter(base, name)
-            if parameter:
-                return parameter
+        for base in clazz.__mro__:
+            parameters = base.__dict__.get('parameters', {})
+            if name in parameters:
+                return parameters[name]
         return None
 
     @staticmethod
@@ -77,9 +75,6 @@ class Parameter:
 
     @staticmethod
     def _collect_parameters_from_class(clazz, parameters):
-        if clazz != object:
-            for base in clazz.__bases__:
-                parameters = Parameter._collect_parameters_from_class(base, parameters)
-            if hasattr(clazz, 'parameters'):
-                parameters.update(clazz.parameters)
+        for base in reversed(clazz.__mro__):
+            parameters.update(base.__dict__.get('parameters', {}))
         return parameters
-- 
2.43.0


From 76b14f9f33141da49d25a2bc3384b81ec9fd4053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:40 +0000
Subject: [PATCH 08/23] fix: an unusable configuration value was silently
 replaced by the parameter default

---
 dedop/proc/sar/base_algorithm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dedop/proc/sar/base_algorithm.py b/dedop/proc/sar/base_algorithm.py
index d2f8574..3b9506d 100644
--- a/dedop/proc/sar/base_algorithm.py
+++ b/dedop/proc/sar/base_algorithm.py
@@ -1,5 +1,6 @@
 from ...util.parameter import Parameter
 from ...conf import ConstantsFile, CharacterisationFile, ConfigurationFile
+from ...conf.auxiliary_errors import MissingParameterError
 
 
 @Parameter('n_looks_stack', data_type=int)
@@ -36,5 +37,5 @@ class BaseAlgorithm:
                 setattr(self, param.name, param.value_set)
             try:
                 setattr(self, param.name, getattr(self.cnf, param.name))
-            except:
+            except (AttributeError, MissingParameterError):
                 setattr(self, param.name, param.default_value)
\ No newline at end of file
-- 
2.43.0


From be492e0b3289c0b2ebc90b24e5613ef0e6f0c392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:46 +0000
Subject: [PATCH 09/23] fix: reject empty names and names that lead out of
 their parent directory in workspace operations

---
 dedop/ui/workspace_manager.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/dedop/ui/workspace_manager.py b/dedop/ui/workspace_manager.py
index 9fdb6ec..db8317e 100644
--- a/dedop/ui/workspace_manager.py
+++ b/dedop/ui/workspace_manager.py
@@ -115,6 +115,7 @@ class WorkspaceManager:
         """
         if not workspace_name:
             raise WorkspaceError('no workspace name is specified')
+        self._assert_valid_names(workspace_name)
         workspace_dir = self.get_workspace_path(workspace_name)
         if os.path.isdir(workspace_dir) and os.listdir(workspace_dir):
             raise WorkspaceError('workspace "%s" already exists' % workspace_name)
@@ -126,6 +127,7 @@ class WorkspaceManager:
         :param workspace_name: workspace name to be deleted
         :raise: WorkspaceError: thrown when workspace not found or cannot delete the workspace
         """
+        self._assert_valid_names(workspace_name)
         self._assert_workspace_exists(workspace_name)
         dir_path = self.get_workspace_path(workspace_name)
         if os.path.exists(dir_path):
@@ -140,6 +142,7 @@ class WorkspaceManager:
         :param new_workspace_name: new workspace name
         :raise: WorkspaceError
         """
+        self._assert_valid_names(workspace_name, new_workspace_name)
         self._assert_workspace_exists(workspace_name)
         dir_path = self.get_workspace_path('')
         if os.path.exists(dir_path):
@@ -160,6 +163,7 @@ class WorkspaceManager:
         self._assert_workspace_exists(workspace_name)
         if not new_workspace_name:
             raise WorkspaceError("missing the new workspace name")
+        self._assert_valid_names(workspace_name, new_workspace_name)
         dir_path = self.get_workspace_path('')
         if os.path.exists(dir_path):
             try:
@@ -195,6 +199,7 @@ class WorkspaceManager:
         :param workspace_name: the workspace name where the config is to be created
         :param config_name: the name of the configuration to be added
         """
+        self._assert_valid_names(workspace_name, config_name)
         self._assert_workspace_exists(workspace_name)
         if self.config_exists(workspace_name, config_name):
             raise WorkspaceError('workspace "%s" already contains a configuration "%s"' % (workspace_name, config_name))
@@ -212,6 +217,7 @@ class WorkspaceManager:
         :param config_name: the name of the configuration to be removed
         :return:
         """
+        self._assert_valid_names(workspace_name, config_name)
         self._assert_workspace_exists(workspace_name)
         self._assert_config_exists(workspace_name, config_name)
         dir_path = self.get_workspace_path(workspace_name, _CONFIGS_DIR_NAME, config_name)
@@ -228,6 +234,7 @@ class WorkspaceManager:
         :param new_config_name: the name of the new configuration
         :raise: WorkspaceError
         """
+        self._assert_valid_names(workspace_name, config_name, new_config_name)
         self._assert_workspace_exists(workspace_name)
         self._assert_config_exists(workspace_name, config_name)
         dir_path = self.get_workspace_path(workspace_name, _CONFIGS_DIR_NAME, config_name)
@@ -245,6 +252,7 @@ class WorkspaceManager:
         :param new_config_name: the name of the new configuration
         :raise: WorkspaceError
         """
+        self._assert_valid_names(workspace_name, config_name, new_config_name)
         self._assert_workspace_exists(workspace_name)
         self._assert_config_exists(workspace_name, config_name)
         dir_path = self.get_workspace_path(workspace_name, _CONFIGS_DIR_NAME, config_name)
@@ -374,6 +382,7 @@ class WorkspaceManager:
         :param input_paths: path to the input files to be added
         :param monitor: to monitor the progress
         """
+        self._assert_valid_names(workspace_name)
         inputs_dir = self._ensure_dir_exists(self.get_inputs_path(workspace_name))
         with monitor.starting('adding inputs', len(input_paths)):
             for input_path in input_paths:
@@ -389,6 +398,7 @@ class WorkspaceManager:
         :param input_names: name of input files to be removed
         :param monitor: to monitor the progress
         """
+        self._assert_valid_names(workspace_name, *input_names)
         input_paths = [self.get_inputs_path(workspace_name, input_name) for input_name in input_names]
         with monitor.starting('removing inputs', len(input_paths)):
             for input_path in input_paths:
@@ -431,6 +441,7 @@ class WorkspaceManager:
         :param workspace_name: the workspace name in which the output files are located
         :param config_name: the config name with which the output files were created
         """
+        self._assert_valid_names(workspace_name, config_name)
         output_dir = self.get_outputs_path(workspace_name, config_name)
         if not os.path.exists(output_dir):
             raise WorkspaceError('output directory does not exist')
@@ -673,6 +684,16 @@ class WorkspaceManager:
         return name if len(name) <= max_len else (
             '...' + name[3 - max_len:] if mode == 'r' else name[:max_len - 3] + '...')
 
+    @staticmethod
+    def _assert_valid_names(*names):
+        """
+        Each name must denote a direct child of its parent directory: it must neither denote the
+        directory itself nor lead out of it.
+        """
+        for name in names:
+            if not name or name in (os.curdir, os.pardir) or os.path.basename(name) != name:
+                raise WorkspaceError('invalid name "%s"' % name)
+
     def _assert_workspace_exists(self, workspace_name):
         if not os.path.exists(self.get_workspace_path(workspace_name)):
             raise WorkspaceError('workspace "%s" does not exist' % workspace_name)
-- 
2.43.0


From bb93ee32a72b6597217ae3fe4bcc1e958395f5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:46 +0000
Subject: [PATCH 10/23] fix: rename_workspace does not move a workspace into an
 existing one

---
 dedop/ui/workspace_manager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dedop/ui/workspace_manager.py b/dedop/ui/workspace_manager.py
index db8317e..e40bcf2 100644
--- a/dedop/ui/workspace_manager.py
+++ b/dedop/ui/workspace_manager.py
@@ -164,6 +164,8 @@ class WorkspaceManager:
         if not new_workspace_name:
             raise WorkspaceError("missing the new workspace name")
         self._assert_valid_names(workspace_name, new_workspace_name)
+        if self.workspace_exists(new_workspace_name):
+            raise WorkspaceError('workspace "%s" already exists' % new_workspace_name)
         dir_path = self.get_workspace_path('')
         if os.path.exists(dir_path):
             try:
-- 
2.43.0


From abe39f6dee2c3bbc33b1a569b31174d16b6d0395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:46 +0000
Subject: [PATCH 11/23] fix: add_inputs fails for a workspace that does not
 exist

---
 dedop/ui/workspace_manager.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dedop/ui/workspace_manager.py b/dedop/ui/workspace_manager.py
index e40bcf2..b74f952 100644
--- a/dedop/ui/workspace_manager.py
+++ b/dedop/ui/workspace_manager.py
@@ -385,6 +385,7 @@ class WorkspaceManager:
         :param monitor: to monitor the progress
         """
         self._assert_valid_names(workspace_name)
+        self._assert_workspace_exists(workspace_name)
         inputs_dir = self._ensure_dir_exists(self.get_inputs_path(workspace_name))
         with monitor.starting('adding inputs', len(input_paths)):
             for input_path in input_paths:
-- 
2.43.0


From bbab54badf86de7d092a7c714e85159a7255a584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:46 +0000
Subject: [PATCH 12/23] fix: list a file once when several of the given
 patterns match it

---
 dedop/ui/workspace_manager.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dedop/ui/workspace_manager.py b/dedop/ui/workspace_manager.py
index b74f952..b8412a6 100644
--- a/dedop/ui/workspace_manager.py
+++ b/dedop/ui/workspace_manager.py
@@ -659,6 +659,7 @@ class WorkspaceManager:
                 for p in pattern:
                     if fnmatch.fnmatch(fn, p):
                         new_fn_list.append(fn)
+                        break
             fn_list = new_fn_list
         return sorted(fn_list)
 
-- 
2.43.0


From 26a47f46c3fd1453d62711925778d3fff70246b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:04 +0000
Subject: [PATCH 13/23] fix: get_workspaces lists the workspaces only, in
 sorted order

---
 dedop/ui/workspace_manager.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/dedop/ui/workspace_manager.py b/dedop/ui/workspace_manager.py
index b8412a6..f69b893 100644
--- a/dedop/ui/workspace_manager.py
+++ b/dedop/ui/workspace_manager.py
@@ -186,10 +186,8 @@ class WorkspaceManager:
     def get_workspaces(self) -> List[str]:
         workspaces_dir = self._workspaces_dir
         if os.path.exists(workspaces_dir):
-            workspaces = [
-                Workspace(os.path.join(workspaces_dir, name), name).to_json_dict() if name != '.current' else None
-                for name in os.listdir(workspaces_dir)]
-            return list(filter(None, workspaces))
+            return [Workspace(os.path.join(workspaces_dir, name), name).to_json_dict()
+                    for name in self.get_workspace_names()]
 
     def config_exists(self, workspace_name: str, config_name: str) -> bool:
         config_dir = self.get_config_path(workspace_name, config_name)
-- 
2.43.0


From c047b0de50fca29cde189223fb2bc1dd82b9b78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:06 +0000
Subject: [PATCH 14/23] fix: calibrate the first burst after a gap only once

---
 dedop/proc/sar/processor.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dedop/proc/sar/processor.py b/dedop/proc/sar/processor.py
index ab39662..e3416b5 100644
--- a/dedop/proc/sar/processor.py
+++ b/dedop/proc/sar/processor.py
@@ -201,9 +201,10 @@ class L1BProcessor(BaseProcessor):
                         monitor.progress(1)
 
                 if input_packet is not None:
-                    # apply calibrations
-                    self.cal1_algorithm(input_packet)
-                    self.cal2_algorithm(input_packet)
+                    # apply calibrations (the first packet after a gap has been calibrated when it was read)
+                    if not gap_resume:
+                        self.cal1_algorithm(input_packet)
+                        self.cal2_algorithm(input_packet)
 
                     # check if there is a gap (or if this is the first packet & prev_time has not been set)
                     if prev_time is None or input_packet.time_sar_ku - prev_time < self.gap_threshold:
-- 
2.43.0


From df0f900c42c183d47e9c035ad3bd5a5fffd4dc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:06 +0000
Subject: [PATCH 15/23] fix: a record skipped by the reader does not end the
 run or advance the surfaces

---
 dedop/proc/sar/processor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dedop/proc/sar/processor.py b/dedop/proc/sar/processor.py
index e3416b5..37d7032 100644
--- a/dedop/proc/sar/processor.py
+++ b/dedop/proc/sar/processor.py
@@ -199,6 +199,9 @@ class L1BProcessor(BaseProcessor):
                             raise Exception("insufficient input records")
                     else:
                         monitor.progress(1)
+                        if input_packet is None:
+                            # record skipped by the reader: this is not the end of the input
+                            continue
 
                 if input_packet is not None:
                     # apply calibrations (the first packet after a gap has been calibrated when it was read)
-- 
2.43.0


From 54ed87ab1dd4a2ba31d06765000419fc2c6885bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:06 +0000
Subject: [PATCH 16/23] fix: process the last segment after a gap instead of
 failing the run

---
 dedop/proc/sar/processor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dedop/proc/sar/processor.py b/dedop/proc/sar/processor.py
index 37d7032..1d7eb5d 100644
--- a/dedop/proc/sar/processor.py
+++ b/dedop/proc/sar/processor.py
@@ -196,7 +196,10 @@ class L1BProcessor(BaseProcessor):
                     except StopIteration:
                         input_packet = None
                         if not surface_processing:
-                            raise Exception("insufficient input records")
+                            if self.surfaces_count == len(self.surf_locs):
+                                raise Exception("insufficient input records")
+                            # the last segment after a gap is processed whatever its length
+                            surface_processing = True
                     else:
                         monitor.progress(1)
                         if input_packet is None:
-- 
2.43.0


From ae7e7066b06c1a4ed0966feadf19d524cd86a175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:06 +0000
Subject: [PATCH 17/23] fix: start every run with empty queues and focusing
 state

---
 dedop/proc/sar/processor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dedop/proc/sar/processor.py b/dedop/proc/sar/processor.py
index 1d7eb5d..da62b3e 100644
--- a/dedop/proc/sar/processor.py
+++ b/dedop/proc/sar/processor.py
@@ -133,6 +133,10 @@ class L1BProcessor(BaseProcessor):
         self.beam_angles_list_size_prev = -1
         self.beam_angles_trend_prev = -1
         self.surfaces_count = 0
+        # nothing of an earlier run may enter this one
+        self._surfaces.clear()
+        self._packets.clear()
+        self.surface_locations_algorithm.focus_found = False
 
         # find base name of input file
         l1a_base, _ = os.path.splitext(os.path.basename(l1a_file))
-- 
2.43.0


From f9edca5050ed923b51c743b36ba6d0df423d0466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:20 +0000
Subject: [PATCH 18/23] fix: the first surface of a run or after a gap takes
 its UTC reference from its own burst

---
 dedop/proc/sar/algorithms/surface_locations.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dedop/proc/sar/algorithms/surface_locations.py b/dedop/proc/sar/algorithms/surface_locations.py
index f71bb4c..01f0411 100644
--- a/dedop/proc/sar/algorithms/surface_locations.py
+++ b/dedop/proc/sar/algorithms/surface_locations.py
@@ -123,6 +123,11 @@ class SurfaceLocationAlgorithm(BaseAlgorithm):
 
         self.win_delay_surf = isp_record.win_delay_sar_ku
 
+        self.prev_tai = isp_record.time_sar_ku
+        self.prev_utc_days = isp_record.days
+        self.prev_utc_secs = isp_record.seconds
+        self.curr_day_length = self.cst.sec_in_day
+
     def focus_surface(self, surface_to_move: SurfaceData, previous_surface: SurfaceData) -> None:
         """
         move the location of a surface to the closest approach to the target position
-- 
2.43.0


From 605bae891de196ca9aa8288726c6a9463e6c8060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:36 +0000
Subject: [PATCH 19/23] fix: the end of the day belongs to the next UTC day

---
 dedop/data/output/l1b_writer.py  | 4 ++--
 dedop/data/output/l1bs_writer.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/dedop/data/output/l1b_writer.py b/dedop/data/output/l1b_writer.py
index ca199f2..8420d5e 100644
--- a/dedop/data/output/l1b_writer.py
+++ b/dedop/data/output/l1b_writer.py
@@ -847,7 +847,7 @@ class L1BWriterExtended(NetCDFWriter):
         time_interval = surface_location_data.time_surf - surface_location_data.prev_tai
         utc_secs = surface_location_data.prev_utc_secs + time_interval
 
-        if utc_secs > surface_location_data.curr_day_length:
+        if utc_secs >= surface_location_data.curr_day_length:
             utc_secs -= surface_location_data.curr_day_length
             utc_days = surface_location_data.prev_utc_days + 1
         else:
@@ -1569,7 +1569,7 @@ class L1BWriter(NetCDFWriter):
         time_interval = surface_location_data.time_surf - surface_location_data.prev_tai
         utc_secs = surface_location_data.prev_utc_secs + time_interval
 
-        if utc_secs > surface_location_data.curr_day_length:
+        if utc_secs >= surface_location_data.curr_day_length:
             utc_secs -= surface_location_data.curr_day_length
             utc_days = surface_location_data.prev_utc_days + 1
         else:
diff --git a/dedop/data/output/l1bs_writer.py b/dedop/data/output/l1bs_writer.py
index 5699eb3..78b05d0 100644
--- a/dedop/data/output/l1bs_writer.py
+++ b/dedop/data/output/l1bs_writer.py
@@ -634,7 +634,7 @@ class L1BSWriter(NetCDFWriter):
         time_interval = surface_location_data.time_surf - surface_location_data.prev_tai
         utc_secs = surface_location_data.prev_utc_secs + time_interval
 
-        if utc_secs > surface_location_data.curr_day_length:
+        if utc_secs >= surface_location_data.curr_day_length:
             utc_secs -= surface_location_data.curr_day_length
             utc_days = surface_location_data.prev_utc_days + 1
         else:
-- 
2.43.0


From 4d34386ef6350f522b029bdd15f673bddc229db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:44 +0000
Subject: [PATCH 20/23] fix: surfaces inside a leap second stay on the day that
 it ends

---
 dedop/proc/sar/algorithms/surface_locations.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dedop/proc/sar/algorithms/surface_locations.py b/dedop/proc/sar/algorithms/surface_locations.py
index 01f0411..b9bc0ac 100644
--- a/dedop/proc/sar/algorithms/surface_locations.py
+++ b/dedop/proc/sar/algorithms/surface_locations.py
@@ -126,7 +126,9 @@ class SurfaceLocationAlgorithm(BaseAlgorithm):
         self.prev_tai = isp_record.time_sar_ku
         self.prev_utc_days = isp_record.days
         self.prev_utc_secs = isp_record.seconds
-        self.curr_day_length = self.cst.sec_in_day
+        # a burst inside a leap second: the day that it ends is a second longer
+        self.curr_day_length = self.cst.sec_in_day + \
+            (isp_record.seconds >= self.cst.sec_in_day)
 
     def focus_surface(self, surface_to_move: SurfaceData, previous_surface: SurfaceData) -> None:
         """
@@ -329,5 +331,7 @@ class SurfaceLocationAlgorithm(BaseAlgorithm):
         self.prev_utc_secs = isp_prev.seconds
         self.curr_day_length = self.cst.sec_in_day +\
             (isp_curr.leap_secs_since_2000 - isp_prev.leap_secs_since_2000)
+        # a burst inside a leap second: the day that it ends is a second longer
+        self.curr_day_length += isp_curr.seconds >= self.cst.sec_in_day
 
         return True
-- 
2.43.0


From 9917cde830a51d94ee7c89a58c74ba3d877d1719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:56 +0000
Subject: [PATCH 21/23] fix: the satellite pointing angles of the L1B-S product
 are in degrees, as declared

---
 dedop/data/output/l1bs_writer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dedop/data/output/l1bs_writer.py b/dedop/data/output/l1bs_writer.py
index 78b05d0..8849794 100644
--- a/dedop/data/output/l1bs_writer.py
+++ b/dedop/data/output/l1bs_writer.py
@@ -667,9 +667,9 @@ class L1BSWriter(NetCDFWriter):
             meas_x_pos_l1bs_echo_sar_ku=surface_location_data.x_surf,
             meas_y_pos_l1bs_echo_sar_ku=surface_location_data.y_surf,
             meas_z_pos_l1bs_echo_sar_ku=surface_location_data.z_surf,
-            roll_sat_pointing_l1bs_echo_sar_ku=surface_location_data.roll_sat,
-            pitch_sat_pointing_l1bs_echo_sar_ku=surface_location_data.pitch_sat,
-            yaw_sat_pointing_l1bs_echo_sar_ku=surface_location_data.yaw_sat,
+            roll_sat_pointing_l1bs_echo_sar_ku=degrees(surface_location_data.roll_sat),
+            pitch_sat_pointing_l1bs_echo_sar_ku=degrees(surface_location_data.pitch_sat),
+            yaw_sat_pointing_l1bs_echo_sar_ku=degrees(surface_location_data.yaw_sat),
             roll_sral_mispointing_l1bs_echo_sar_ku=closest_burst.roll_sral_mispointing,
             pitch_sral_mispointing_l1bs_echo_sar_ku=closest_burst.pitch_sral_mispointing,
             yaw_sral_mispointing_l1bs_echo_sar_ku=closest_burst.yaw_sral_mispointing,
-- 
2.43.0


From 2ee7fec9a05ecbd2518bae133a12a7577308c05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:16 +0000
Subject: [PATCH 22/23] fix: look angles wrapped around in the extended L1B
 product (offset of the beam angles)

---
 dedop/data/output/l1b_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedop/data/output/l1b_writer.py b/dedop/data/output/l1b_writer.py
index 8420d5e..8f2d8df 100644
--- a/dedop/data/output/l1b_writer.py
+++ b/dedop/data/output/l1b_writer.py
@@ -699,7 +699,7 @@ class L1BWriterExtended(NetCDFWriter):
             comment="the useful values of the table are the first n_useful values where n_useful is"
                     "the number of waveforms summed in the stack",
             scale_factor=1.0e-06,
-            add_offset=1.57,
+            add_offset=0.00,
             units="rad",
             fill_value=32767
         )
-- 
2.43.0


From e5aa7a61e05381b1e7c958e2ae708c11abcff270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:30 +0000
Subject: [PATCH 23/23] fix: output compare resolves the second product by its
 own name; if omitted, the first one is used

---
 dedop/cli/main.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dedop/cli/main.py b/dedop/cli/main.py
index 93fb027..813608c 100644
--- a/dedop/cli/main.py
+++ b/dedop/cli/main.py
@@ -959,7 +959,8 @@ class ManageOutputsCommand(SubCommandCommand):
                 raise CommandError('First L1B product not found: %s' % l1b_path_1)
 
             l1b_filename_2 = command_args.l1b_filename_2
-            if os.path.dirname(l1b_filename_1):
+            l1b_filename_2 = l1b_filename_2 if l1b_filename_2 else l1b_filename_1
+            if os.path.dirname(l1b_filename_2):
                 l1b_path_2 = os.path.abspath(l1b_filename_2)
             else:
                 if not workspace_name_2:
-- 
2.43.0

