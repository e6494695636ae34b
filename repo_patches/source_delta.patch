From adc54c8c27e5a3ae354479ab879b6a1d4f226f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:48:52 +0000
Subject: [PATCH 1/6] fix: allow CSV export of controls without a name

The name field is only present in the exported content when the control has
a name, so exporting an unnamed control to CSV raised KeyError.
---
 qctrlopencontrols/driven_controls/driven_control.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qctrlopencontrols/driven_controls/driven_control.py b/qctrlopencontrols/driven_controls/driven_control.py
index 7c7ee02..f87bb30 100644
--- a/qctrlopencontrols/driven_controls/driven_control.py
+++ b/qctrlopencontrols/driven_controls/driven_control.py
@@ -390,7 +390,7 @@ class DrivenControl:
 
         control_info = self._qctrl_expanded_export_content(coordinates=coordinates)
         if file_type == FileType.CSV.value:
-            _ = control_info.pop("name")
+            _ = control_info.pop("name", None)
             control_info["maximum_rabi_rate"] = [
                 self.maximum_rabi_rate
             ] * self.number_of_segments
-- 
2.43.0


From f5baab85b29ce75b8299a0b663d6e4c790922607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:48:52 +0000
Subject: [PATCH 2/6] fix: export zeros instead of NaN for controls without
 Rabi drive

Normalizing by a maximum Rabi rate of zero wrote NaN to the file, which is
not valid JSON. Such controls now export zero amplitudes.
---
 qctrlopencontrols/driven_controls/driven_control.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/qctrlopencontrols/driven_controls/driven_control.py b/qctrlopencontrols/driven_controls/driven_control.py
index f87bb30..8d996a6 100644
--- a/qctrlopencontrols/driven_controls/driven_control.py
+++ b/qctrlopencontrols/driven_controls/driven_control.py
@@ -355,15 +355,14 @@ class DrivenControl:
         if self.name is not None:
             control_info["name"] = self.name
 
+        # without any drive there is nothing to normalize (and 0 / 0 is not a number)
+        normalizer = self.maximum_rabi_rate if self.maximum_rabi_rate != 0 else 1.0
+
         if coordinates == Coordinate.CARTESIAN.value:
-            control_info["amplitude_x"] = list(
-                self.amplitude_x / self.maximum_rabi_rate
-            )
-            control_info["amplitude_y"] = list(
-                self.amplitude_y / self.maximum_rabi_rate
-            )
+            control_info["amplitude_x"] = list(self.amplitude_x / normalizer)
+            control_info["amplitude_y"] = list(self.amplitude_y / normalizer)
         else:
-            control_info["rabi_rates"] = list(self.rabi_rates / self.maximum_rabi_rate)
+            control_info["rabi_rates"] = list(self.rabi_rates / normalizer)
             control_info["azimuthal_angles"] = list(self.azimuthal_angles)
 
         return control_info
-- 
2.43.0


From 70b71f00fa3cbfe6f1421cc029117c7c2ce087fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:48:52 +0000
Subject: [PATCH 3/6] fix: reject pulses combining Rabi and negative detuning
 rotations

Only positive detuning rotations were considered, so a negative one was
silently dropped from the converted control.
---
 .../dynamic_decoupling_sequences/dynamic_decoupling_sequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py b/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py
index 8dff4c4..7dd237f 100644
--- a/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py
+++ b/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py
@@ -529,6 +529,6 @@ def _check_valid_operation(
     """
 
     rabi_rotation_index = set(np.where(rabi_rotations > 0.0)[0])
-    detuning_rotation_index = set(np.where(detuning_rotations > 0.0)[0])
+    detuning_rotation_index = set(np.where(detuning_rotations != 0.0)[0])
 
     return not rabi_rotation_index.intersection(detuning_rotation_index)
-- 
2.43.0


From e5c70c979ae3a757c602a15ba8a94985975983a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:48:52 +0000
Subject: [PATCH 4/6] fix: keep the pulses of sequences shorter than ten
 nanoseconds

Pulse times were compared to zero with an absolute tolerance, so every
pulse of a very short sequence was dropped as if it was a free evolution.
Free evolutions are already handled by the general code.
---
 .../dynamic_decoupling_sequence.py                     | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py b/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py
index 7dd237f..d2f9e5c 100644
--- a/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py
+++ b/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py
@@ -464,16 +464,6 @@ def convert_dds_to_driven_control(
             },
         )
 
-    if np.allclose(pulse_start_ends, 0.0):
-        # the original sequence should be a free evolution
-        return DrivenControl(
-            rabi_rates=[0.0],
-            azimuthal_angles=[0.0],
-            detunings=[0.0],
-            durations=[sequence_duration],
-            name=name,
-        )
-
     control_rabi_rates = np.zeros((operations.shape[1] * 2,))
     control_azimuthal_angles = np.zeros((operations.shape[1] * 2,))
     control_detunings = np.zeros((operations.shape[1] * 2,))
-- 
2.43.0


From fb4b71395b568a21d46395dc62fcd6216f7ebfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:48:52 +0000
Subject: [PATCH 5/6] fix: reject overlapping pulses in short sequences

The gaps between pulses were compared with an absolute tolerance of 1e-8
seconds, which accepted overlapping pulses in sequences of that time scale.
The tolerance is now relative to the sequence duration.
---
 .../dynamic_decoupling_sequence.py                          | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py b/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py
index d2f9e5c..b57cb35 100644
--- a/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py
+++ b/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py
@@ -444,7 +444,11 @@ def convert_dds_to_driven_control(
     if not np.all(
         np.logical_or(
             np.greater(gap_durations, minimum_segment_duration),
-            np.isclose(gap_durations, minimum_segment_duration),
+            np.isclose(
+                gap_durations,
+                minimum_segment_duration,
+                atol=1e-8 * sequence_duration,
+            ),
         )
     ):
         raise ArgumentsValueError(
-- 
2.43.0


From 243e124bf41eafc6e8832538eb5dc94b7ea3d582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:06:24 +0000
Subject: [PATCH 6/6] fix: let ArgumentsValueError be copied, pickled and sent
 between processes

The exception took two required arguments but passed only its message to
the base class, so unpickling or copying it raised TypeError.  A rejected
call inside a process pool therefore broke the pool instead of reporting
the error.
---
 qctrlopencontrols/exceptions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qctrlopencontrols/exceptions.py b/qctrlopencontrols/exceptions.py
index 7fdd3c1..de6dd3b 100644
--- a/qctrlopencontrols/exceptions.py
+++ b/qctrlopencontrols/exceptions.py
@@ -54,3 +54,7 @@ class ArgumentsValueError(QctrlError):
             for key in self.extras:
                 self.message += "\n" + str(key) + "=" + repr(self.extras[key])
         super().__init__(self.message)
+
+    def __reduce__(self):
+        # rebuilt from the constructor's arguments, not from the message alone
+        return (type(self), (self.description, self.arguments, self.extras))
-- 
2.43.0

