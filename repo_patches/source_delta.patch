From fc86963dc2949e81e72febd3e01413276dce0831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:48:20 +0000
Subject: [PATCH 1/7] fix: export unnamed controls to CSV without a KeyError

The CSV writer removed the "name" entry unconditionally, although the
entry only exists for controls that have a name.
---
 qctrlopencontrols/driven_controls/driven_control.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qctrlopencontrols/driven_controls/driven_control.py b/qctrlopencontrols/driven_controls/driven_control.py
index 7c7ee02..f87bb30 100644
--- a/qctrlopencontrols/driven_controls/driven_control.py
+++ b/qctrlopencontrols/driven_controls/driven_control.py
@@ -390,7 +390,7 @@ class DrivenControl:
 
         control_info = self._qctrl_expanded_export_content(coordinates=coordinates)
         if file_type == FileType.CSV.value:
-            _ = control_info.pop("name")
+            _ = control_info.pop("name", None)
             control_info["maximum_rabi_rate"] = [
                 self.maximum_rabi_rate
             ] * self.number_of_segments
-- 
2.43.0


From 05bf6940177b375440e4201c07a30879506f04f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:48:20 +0000
Subject: [PATCH 2/7] fix: do not export NaN amplitudes for controls without
 any drive

Normalizing to a maximum Rabi rate of zero divided zero by zero in both
export and export_to_file.
---
 .../driven_controls/driven_control.py             | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/qctrlopencontrols/driven_controls/driven_control.py b/qctrlopencontrols/driven_controls/driven_control.py
index f87bb30..f29b301 100644
--- a/qctrlopencontrols/driven_controls/driven_control.py
+++ b/qctrlopencontrols/driven_controls/driven_control.py
@@ -355,15 +355,14 @@ class DrivenControl:
         if self.name is not None:
             control_info["name"] = self.name
 
+        # a control without any drive has nothing to normalize
+        normalizer = self.maximum_rabi_rate if self.maximum_rabi_rate != 0 else 1
+
         if coordinates == Coordinate.CARTESIAN.value:
-            control_info["amplitude_x"] = list(
-                self.amplitude_x / self.maximum_rabi_rate
-            )
-            control_info["amplitude_y"] = list(
-                self.amplitude_y / self.maximum_rabi_rate
-            )
+            control_info["amplitude_x"] = list(self.amplitude_x / normalizer)
+            control_info["amplitude_y"] = list(self.amplitude_y / normalizer)
         else:
-            control_info["rabi_rates"] = list(self.rabi_rates / self.maximum_rabi_rate)
+            control_info["rabi_rates"] = list(self.rabi_rates / normalizer)
             control_info["azimuthal_angles"] = list(self.azimuthal_angles)
 
         return control_info
@@ -537,7 +536,7 @@ class DrivenControl:
             {"coordinates": coordinates},
         )
 
-        if dimensionless_rabi_rate:
+        if dimensionless_rabi_rate and self.maximum_rabi_rate != 0:
             normalizer = self.maximum_rabi_rate
         else:
             normalizer = 1
-- 
2.43.0


From ecfe077fccb6aa168f9c7051ff240b79411da698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:48:20 +0000
Subject: [PATCH 3/7] fix: print negative detunings of controls whose largest
 detuning is zero

The text form scaled detunings by their signed maximum, so a control with
detunings [-1, 0] was printed as if it had no detuning at all.
---
 qctrlopencontrols/driven_controls/driven_control.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qctrlopencontrols/driven_controls/driven_control.py b/qctrlopencontrols/driven_controls/driven_control.py
index f29b301..3de48a5 100644
--- a/qctrlopencontrols/driven_controls/driven_control.py
+++ b/qctrlopencontrols/driven_controls/driven_control.py
@@ -592,11 +592,11 @@ class DrivenControl:
             [str(azimuthal_angle / np.pi) for azimuthal_angle in self.azimuthal_angles]
         )
 
+        # detunings can be negative, so the largest of them is not always a usable scale
+        detuning_scale = np.amax(np.abs(self.detunings))
         pretty_detuning = ",".join(
             [
-                str(detuning / self.maximum_detuning)
-                if self.maximum_detuning != 0
-                else "0"
+                str(detuning / detuning_scale) if detuning_scale != 0 else "0"
                 for detuning in self.detunings
             ]
         )
@@ -612,7 +612,7 @@ class DrivenControl:
             "Azimuthal Angles = [{}] x pi".format(pretty_azimuthal_angles)
         )
         driven_control.append(
-            "Detunings = [{}] x {}".format(pretty_detuning, self.maximum_detuning)
+            "Detunings = [{}] x {}".format(pretty_detuning, detuning_scale)
         )
         driven_control.append(
             "Durations = [{}] x {}".format(pretty_durations, self.duration)
-- 
2.43.0


From 46dcec4a7ebe08a9f55c2cd24401b64f966f43bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:48:20 +0000
Subject: [PATCH 4/7] fix: reject simultaneous Rabi and negative detuning
 rotations

Only positive detuning rotations were considered, so a negative one at the
same offset as a Rabi rotation was silently dropped by the conversion.
---
 .../dynamic_decoupling_sequences/dynamic_decoupling_sequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py b/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py
index 8dff4c4..7dd237f 100644
--- a/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py
+++ b/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py
@@ -529,6 +529,6 @@ def _check_valid_operation(
     """
 
     rabi_rotation_index = set(np.where(rabi_rotations > 0.0)[0])
-    detuning_rotation_index = set(np.where(detuning_rotations > 0.0)[0])
+    detuning_rotation_index = set(np.where(detuning_rotations != 0.0)[0])
 
     return not rabi_rotation_index.intersection(detuning_rotation_index)
-- 
2.43.0


From 222d04622f5d461fc2f4b223f29a9a067657b626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:48:20 +0000
Subject: [PATCH 5/7] fix: detect overlapping pulses in short sequences

The gap check allowed an absolute error of 1e-8 s, so pulses overlapping by
several nanoseconds were accepted and stretched the resulting control. The
tolerance now scales with the sequence duration.
---
 .../dynamic_decoupling_sequence.py                            | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py b/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py
index 7dd237f..0f72ac2 100644
--- a/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py
+++ b/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py
@@ -444,7 +444,9 @@ def convert_dds_to_driven_control(
     if not np.all(
         np.logical_or(
             np.greater(gap_durations, minimum_segment_duration),
-            np.isclose(gap_durations, minimum_segment_duration),
+            np.isclose(
+                gap_durations, minimum_segment_duration, atol=1e-8 * sequence_duration
+            ),
         )
     ):
         raise ArgumentsValueError(
-- 
2.43.0


From 290e88e789e5998bb6a6364931578a11259fea99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:48:20 +0000
Subject: [PATCH 6/7] fix: keep the pulses of sequences shorter than 1e-8 s

Pulse timings were compared to zero with an absolute tolerance to recognise
free evolutions, which discarded every pulse of a short enough sequence. The
general code already converts a free evolution to a single idle segment.
---
 .../dynamic_decoupling_sequence.py                     | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py b/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py
index 0f72ac2..72bda62 100644
--- a/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py
+++ b/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py
@@ -466,16 +466,6 @@ def convert_dds_to_driven_control(
             },
         )
 
-    if np.allclose(pulse_start_ends, 0.0):
-        # the original sequence should be a free evolution
-        return DrivenControl(
-            rabi_rates=[0.0],
-            azimuthal_angles=[0.0],
-            detunings=[0.0],
-            durations=[sequence_duration],
-            name=name,
-        )
-
     control_rabi_rates = np.zeros((operations.shape[1] * 2,))
     control_azimuthal_angles = np.zeros((operations.shape[1] * 2,))
     control_detunings = np.zeros((operations.shape[1] * 2,))
-- 
2.43.0


From cfb2c1ea7d2d08c2a571caa3f0c7bcdf727e21f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:48:38 +0000
Subject: [PATCH 7/7] fix: build XY-concatenated sequences of order three and
 above correctly

An inner sequence of even order ends with a free evolution instead of a Y
pulse. The merging of adjacent pulses assumed a trailing Y pulse and so
overwrote free evolutions, which lost pulses and displaced the others.
---
 .../dynamic_decoupling_sequences/predefined.py              | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qctrlopencontrols/dynamic_decoupling_sequences/predefined.py b/qctrlopencontrols/dynamic_decoupling_sequences/predefined.py
index 8167239..0ae25a7 100644
--- a/qctrlopencontrols/dynamic_decoupling_sequences/predefined.py
+++ b/qctrlopencontrols/dynamic_decoupling_sequences/predefined.py
@@ -1232,6 +1232,12 @@ def _concatenation_xy(concatenation_sequence) -> np.ndarray:
 
     if concatenation_sequence == 1:
         return np.array([1, -1, 1, -2, 1, -1, 1, -2])
+    if concatenation_sequence % 2 == 1:
+        # even orders end with a free evolution, so there are no pulses to merge
+        inner = _concatenation_xy(concatenation_sequence - 1)
+        return np.concatenate(
+            (inner, [-1], inner, [-2], inner, [-1], inner, [-2]), axis=0
+        )
     cumulations = np.concatenate(
         (_concatenation_xy(concatenation_sequence - 1), np.array([-1])), axis=0
     )
-- 
2.43.0

