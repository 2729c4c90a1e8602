From 072bed6cd36ae6b1731fa2c13ae3dcfa798cbd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:14 +0000
Subject: [PATCH 01/68] fix: do not add an endless sequencer row for multiples
 of 4096 pulses

---
 malcolm/modules/ADPandABlocks/doublebuffer.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/malcolm/modules/ADPandABlocks/doublebuffer.py b/malcolm/modules/ADPandABlocks/doublebuffer.py
index 55ce577..d61d891 100644
--- a/malcolm/modules/ADPandABlocks/doublebuffer.py
+++ b/malcolm/modules/ADPandABlocks/doublebuffer.py
@@ -62,9 +62,13 @@ class SequencerRows:
             MAX_REPEATS, trigger, position, half_duration, live, dead, trim
         )
         self._rows.extend([row] * complete_rows)
-        self._rows.append(
-            self._seq_row(remaining, trigger, position, half_duration, live, dead, trim)
-        )
+        # A row with zero repeats runs forever, so only add one if it was asked for
+        if remaining or not complete_rows:
+            self._rows.append(
+                self._seq_row(
+                    remaining, trigger, position, half_duration, live, dead, trim
+                )
+            )
         self._duration += count * (2 * half_duration - trim)
 
     def split(self, count: int) -> SequencerRows:
-- 
2.43.0


From a857c659e3798e53470eb3a4aee2771cece65ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:22 +0000
Subject: [PATCH 02/68] fix: keep sequencer row duration in ticks when
 splitting a table

---
 malcolm/modules/ADPandABlocks/doublebuffer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malcolm/modules/ADPandABlocks/doublebuffer.py b/malcolm/modules/ADPandABlocks/doublebuffer.py
index d61d891..6d46d7c 100644
--- a/malcolm/modules/ADPandABlocks/doublebuffer.py
+++ b/malcolm/modules/ADPandABlocks/doublebuffer.py
@@ -112,7 +112,7 @@ class SequencerRows:
             time2=final_self_row.time2 - SEQ_TABLE_SWITCH_DELAY
         )
         self._duration -= SEQ_TABLE_SWITCH_DELAY
-        self._duration -= remainder.duration
+        self._duration -= remainder._duration
         return remainder
 
     def extend(self, other: SequencerRows) -> None:
-- 
2.43.0


From 6f18dafea0d1d2e7ec1963253cbc4d798a0e6a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:01 +0000
Subject: [PATCH 03/68] fix: count the word that holds bit 32n of a PandA table
 row

---
 malcolm/modules/pandablocks/parts/pandatablepart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malcolm/modules/pandablocks/parts/pandatablepart.py b/malcolm/modules/pandablocks/parts/pandatablepart.py
index 9313e6d..d58fc5b 100644
--- a/malcolm/modules/pandablocks/parts/pandatablepart.py
+++ b/malcolm/modules/pandablocks/parts/pandatablepart.py
@@ -89,7 +89,7 @@ class PandATablePart(PandAFieldPart):
         # Work out how many ints per row
         # TODO: this should be in the block data
         max_bits_hi = max(f.bits_hi for f in self.field_data.values())
-        self.ints_per_row = int((max_bits_hi + 31) / 32)
+        self.ints_per_row = max_bits_hi // 32 + 1
         # Superclass will make the attribute for us
         super().__init__(client, meta, block_name, field_name)
 
-- 
2.43.0


From 44f7a0251022736e43a05f6cea0bb0d865fdb29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:01 +0000
Subject: [PATCH 04/68] fix: do not drop bits of narrow PandA table columns
 when shifting them

---
 malcolm/modules/pandablocks/parts/pandatablepart.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/malcolm/modules/pandablocks/parts/pandatablepart.py b/malcolm/modules/pandablocks/parts/pandatablepart.py
index d58fc5b..148a711 100644
--- a/malcolm/modules/pandablocks/parts/pandatablepart.py
+++ b/malcolm/modules/pandablocks/parts/pandatablepart.py
@@ -113,8 +113,8 @@ class PandATablePart(PandAFieldPart):
                 indexes = [field_data.labels.index(v) for v in column_value]
                 column_value = np.array(indexes, dtype=np.uint32)
             else:
-                # Array, unwrap to get the numpy array
-                column_value = column_value.seq
+                # Array, unwrap to get the numpy array, wide enough to be shifted
+                column_value = column_value.seq.astype(np.uint32)
             # Left shift the value so it is aligned with the int columns
             _, mask = get_nbits_mask(field_data)
             shifted_column = (column_value & mask) << field_data.bits_lo % 32
-- 
2.43.0


From dcc17affeffe2481c60bd06d43e27ad2fb3721b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:01 +0000
Subject: [PATCH 05/68] fix: read negative values of PandA table columns back
 with their sign

---
 malcolm/modules/pandablocks/parts/pandatablepart.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/malcolm/modules/pandablocks/parts/pandatablepart.py b/malcolm/modules/pandablocks/parts/pandatablepart.py
index 148a711..a869553 100644
--- a/malcolm/modules/pandablocks/parts/pandatablepart.py
+++ b/malcolm/modules/pandablocks/parts/pandatablepart.py
@@ -146,6 +146,11 @@ class PandATablePart(PandAFieldPart):
             elif nbits == 1:
                 column_value = shifted_column.astype(bool)
             else:
+                if field_data.signed:
+                    # Extend the sign bit to the width of the column type
+                    sign_bit = 1 << (nbits - 1)
+                    shifted_column = shifted_column.astype(np.int64)
+                    shifted_column = (shifted_column ^ sign_bit) - sign_bit
                 # View as the correct type
                 dtype = self.meta.elements[column_name].dtype
                 column_value = shifted_column.astype(dtype)
-- 
2.43.0


From bfb883ac5a14baf1bc95fbeeefb2514177fb0b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:45 +0000
Subject: [PATCH 06/68] fix: decide whether a resumed run ends Armed or
 Finished after any seek

---
 .../scanning/controllers/runnablecontroller.py        | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/malcolm/modules/scanning/controllers/runnablecontroller.py b/malcolm/modules/scanning/controllers/runnablecontroller.py
index 9ec3086..1f74b4a 100644
--- a/malcolm/modules/scanning/controllers/runnablecontroller.py
+++ b/malcolm/modules/scanning/controllers/runnablecontroller.py
@@ -525,16 +525,17 @@ class RunnableController(builtin.controllers.ManagerController):
         will return in Fault state. If the user disables then it will return in
         Disabled state.
         """
-
-        if self.configured_steps.value < self.total_steps.value:
-            next_state = ss.ARMED
-        else:
-            next_state = ss.FINISHED
         try:
             self.transition(ss.RUNNING)
             hook = RunHook
             going = True
             while going:
+                # Pausing may have moved us to a different part of the scan, so
+                # decide this each time
+                if self.configured_steps.value < self.total_steps.value:
+                    next_state = ss.ARMED
+                else:
+                    next_state = ss.FINISHED
                 try:
                     self.do_run(hook)
                     self.abortable_transition(next_state)
-- 
2.43.0


From 45a0fc49662c8df0288ce0f64b5a76e23e8a0ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:46 +0000
Subject: [PATCH 07/68] fix: disabling a block while it is configuring or
 running ends in Disabled

---
 .../modules/scanning/controllers/runnablecontroller.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/malcolm/modules/scanning/controllers/runnablecontroller.py b/malcolm/modules/scanning/controllers/runnablecontroller.py
index 1f74b4a..909c2cd 100644
--- a/malcolm/modules/scanning/controllers/runnablecontroller.py
+++ b/malcolm/modules/scanning/controllers/runnablecontroller.py
@@ -451,8 +451,9 @@ class RunnableController(builtin.controllers.ManagerController):
             self.do_configure(state, params)
             self.abortable_transition(ss.ARMED)
         except AbortedError:
-            assert self.abort_queue, "No abort queue"
-            self.abort_queue.put(None)
+            if self.abort_queue:
+                # If disabled there may be no one waiting for us
+                self.abort_queue.put(None)
             raise
         except Exception as e:
             self.go_to_error_state(e)
@@ -540,8 +541,9 @@ class RunnableController(builtin.controllers.ManagerController):
                     self.do_run(hook)
                     self.abortable_transition(next_state)
                 except AbortedError:
-                    assert self.abort_queue, "No abort queue"
-                    self.abort_queue.put(None)
+                    if self.abort_queue:
+                        # If disabled there may be no one waiting for us
+                        self.abort_queue.put(None)
                     # Wait for a response on the resume_queue
                     assert self.resume_queue, "No resume queue"
                     should_resume = self.resume_queue.get()
-- 
2.43.0


From 95f3d12be65a7e2b6250cc78eb5b255af1564141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:50 +0000
Subject: [PATCH 08/68] fix: drop every finished future from a wait after a
 nested wait

When a subscription callback waited for other futures, replies to the outer
wait that it consumed were removed from the list while iterating over it, so
every second one stayed and the outer wait never returned.
---
 malcolm/core/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malcolm/core/context.py b/malcolm/core/context.py
index 8821c77..73aa348 100644
--- a/malcolm/core/context.py
+++ b/malcolm/core/context.py
@@ -399,7 +399,7 @@ class Context:
             # some futures that aren't known to it. This means that some of
             # our futures list are now concluded, so filter them out. If we
             # didn't do this we would hang forever
-            for future in futures:
+            for future in list(futures):
                 if future not in self._requests:
                     futures.remove(future)
         elif isinstance(response, Return):
-- 
2.43.0


From c7800cd2a66eb2d1395adf1527b3be08bec5bd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:38 +0000
Subject: [PATCH 09/68] fix: subscribe to elements of a mapping

A subscription to a path below the elements of a TableMeta or MapMeta looked
its data up with getattr, so it was told there was nothing there.
---
 malcolm/core/notifier.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/malcolm/core/notifier.py b/malcolm/core/notifier.py
index b3499ff..ac022be 100644
--- a/malcolm/core/notifier.py
+++ b/malcolm/core/notifier.py
@@ -46,6 +46,14 @@ def freeze(o):
     return o
 
 
+def get_child(data: Any, name: str) -> Any:
+    """Get the child of a Model or mapping, None if it doesn't have one"""
+    if isinstance(data, dict):
+        return data.get(name, None)
+    else:
+        return getattr(data, name, None)
+
+
 class Notifier(Loggable):
     """Object that can service callbacks on given endpoints"""
 
@@ -208,7 +216,7 @@ class NotifierNode:
         child_change_dict: Dict[str, List] = {}
         # Reflect change of data to children
         for name in self.children:
-            child_data = getattr(data, name, None)
+            child_data = get_child(data, name)
             if child_data is None:
                 # Deletion
                 child_change_dict[name] = [[]]
@@ -235,7 +243,7 @@ class NotifierNode:
             # Recurse down
             name = path[0]
             if name not in self.children:
-                self.children[name] = NotifierNode(getattr(self.data, name, None), self)
+                self.children[name] = NotifierNode(get_child(self.data, name), self)
             ret += self.children[name].handle_subscribe(request, path[1:])
         else:
             # This is for us
-- 
2.43.0


From 3e5b0cee5cb1b3b9a33306e4f6457d956d2a737a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:17 +0000
Subject: [PATCH 10/68] fix: give subscribers to a table value the current
 columns

A change to some of the columns of a table, or a change of the whole table
followed by one of a column in the same set of squashed changes, left the old
table in the notifier tree, so Updates for the table value were out of date.
---
 malcolm/core/notifier.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/malcolm/core/notifier.py b/malcolm/core/notifier.py
index ac022be..ab9fdeb 100644
--- a/malcolm/core/notifier.py
+++ b/malcolm/core/notifier.py
@@ -188,8 +188,14 @@ class NotifierNode:
             # This is for one of our children
             name = path[0]
             if name in self.children:
+                # Other squashed changes, or a change to part of an immutable
+                # child, may have replaced the data it holds
+                data = get_child(self.data, name)
+                self.children[name].data = data
                 if len(change) == 2:
-                    child_change = [path[1:], change[1]]
+                    if len(path) > 1:
+                        data = change[1]
+                    child_change = [path[1:], data]
                 else:
                     child_change = [path[1:]]
                 child_changes.setdefault(name, []).append(child_change)
-- 
2.43.0


From df94eccd331af98625c30126644f06463b9bfda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:47 +0000
Subject: [PATCH 11/68] fix: refuse values that are not numbers in number
 attributes

---
 malcolm/core/models.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/malcolm/core/models.py b/malcolm/core/models.py
index 92d2db5..df2ab51 100644
--- a/malcolm/core/models.py
+++ b/malcolm/core/models.py
@@ -683,6 +683,8 @@ class NumberMeta(VMeta):
         if value is None:
             value = 0
         cast = self._np_type(value)
+        # numpy makes an array of anything that is not a single number
+        assert isinstance(cast, self._np_type), f"Expected {self.dtype}, got {value!r}"
         return cast
 
     def doc_type_string(self) -> str:
@@ -745,9 +747,13 @@ def to_np_array(dtype, value: Any) -> Any:
         # If Array wraps a numpy array of the correct type we are done
         return value
     else:
-        if isinstance(value, Sequence):
+        if value is not None and not isinstance(value, np.ndarray):
+            if isinstance(value, str) or not isinstance(value, Sequence):
+                # A single value gives an array of length one
+                value = [value]
             # Cast to numpy array
             value = np.array(value, dtype=dtype)
+            assert value.ndim == 1, f"Expected a 1D array, got {value!r}"
         return to_array(Array[dtype], value)
 
 
-- 
2.43.0


From ba02152edd564743826bb42179938be8b5827153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:03 +0000
Subject: [PATCH 12/68] fix: leave a point with its exit velocity and enter the
 next with its entry velocity

---
 malcolm/modules/pmac/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/malcolm/modules/pmac/util.py b/malcolm/modules/pmac/util.py
index cb7972b..ccb5a44 100644
--- a/malcolm/modules/pmac/util.py
+++ b/malcolm/modules/pmac/util.py
@@ -253,8 +253,8 @@ def profile_between_points(
     must equal 'distance'. The class VelocityProfile implements the math
     to achieve this.
     """
-    start_velocities = point_velocities(axis_mapping, point)
-    end_velocities = point_velocities(axis_mapping, next_point, entry=False)
+    start_velocities = point_velocities(axis_mapping, point, entry=False)
+    end_velocities = point_velocities(axis_mapping, next_point)
 
     p = None
     new_min_time = 0
-- 
2.43.0


From 97c0c71553313b48eace4bb7a84521edcead0b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:28 +0000
Subject: [PATCH 13/68] fix: guess a duration that is long enough for axes that
 move backwards

---
 malcolm/modules/pmac/parts/pmacchildpart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malcolm/modules/pmac/parts/pmacchildpart.py b/malcolm/modules/pmac/parts/pmacchildpart.py
index 4a0f803..ab350ad 100644
--- a/malcolm/modules/pmac/parts/pmacchildpart.py
+++ b/malcolm/modules/pmac/parts/pmacchildpart.py
@@ -278,7 +278,7 @@ class PmacChildPart(builtin.parts.ChildPart):
         duration = 0.0
         for axis_name, motor_info in axis_mapping.items():
             # Distance between two points
-            distance = (
+            distance = abs(
                 second_point.positions[axis_name] - first_point.positions[axis_name]
             )
             # So calculate time taken between two points based on max velocity
-- 
2.43.0


From 789ac176535c25cb380ce2ffe4d8f3baca07d485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:28 +0000
Subject: [PATCH 14/68] fix: keep a duration that is already aligned with the
 servo frequency

---
 malcolm/modules/pmac/parts/pmacchildpart.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/malcolm/modules/pmac/parts/pmacchildpart.py b/malcolm/modules/pmac/parts/pmacchildpart.py
index ab350ad..6c7c2b9 100644
--- a/malcolm/modules/pmac/parts/pmacchildpart.py
+++ b/malcolm/modules/pmac/parts/pmacchildpart.py
@@ -195,8 +195,9 @@ class PmacChildPart(builtin.parts.ChildPart):
     def get_aligned_duration_with_servo_frequency(
         frequency: float, duration: float
     ) -> float:
-        # convert half an exposure to multiple of servo ticks, rounding up
-        ticks = np.ceil(frequency * 0.5 * duration)
+        # convert half an exposure to multiple of servo ticks, rounding up unless it
+        # only differs from one by the precision of a float
+        ticks = np.ceil(frequency * 0.5 * duration - 1e-6)
         if not np.isclose(frequency, 3200):
             # -0.002 for some observed jitter in the servo frequency if I10
             # isn't a whole number of 1/4 us move timer ticks
-- 
2.43.0


From 960b17c6c279500eb43c080b4c17504a6789c537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:03 +0000
Subject: [PATCH 15/68] fix: let a MotorInfo be shown in the message that
 refuses a scan

---
 malcolm/modules/pmac/infos.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/malcolm/modules/pmac/infos.py b/malcolm/modules/pmac/infos.py
index d12e389..f5a3038 100644
--- a/malcolm/modules/pmac/infos.py
+++ b/malcolm/modules/pmac/infos.py
@@ -68,6 +68,8 @@ class MotorInfo(Info):
         self.units = units
         self.user_high_limit = user_high_limit
         self.user_low_limit = user_low_limit
+        self.dial_high_limit = dial_high_limit
+        self.dial_low_limit = dial_low_limit
         # Check if soft limits are disabled
         if dial_high_limit == 0.0 and dial_low_limit == 0.0:
             self.soft_limits_enabled = False
-- 
2.43.0


From e576a4779a671433190b31125c1d2d22532704db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:20 +0000
Subject: [PATCH 16/68] fix: show a raw motor that is in no coordinate system
 as such when connecting

---
 malcolm/modules/pmac/parts/rawmotorsinkportspart.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/malcolm/modules/pmac/parts/rawmotorsinkportspart.py b/malcolm/modules/pmac/parts/rawmotorsinkportspart.py
index b3ccdc0..19838b3 100644
--- a/malcolm/modules/pmac/parts/rawmotorsinkportspart.py
+++ b/malcolm/modules/pmac/parts/rawmotorsinkportspart.py
@@ -75,7 +75,7 @@ class RawMotorSinkPortsPart(Part):
             for axis in CS_AXIS_NAMES + ["I"]:
                 choices.append(f"{choice},{axis}")
         self.cs_attr.meta.set_choices(choices)
-        self.port = self.port_choices[ca_values[2]]
+        self._update_value(ca_values[2], 0)
         self._update_value(ca_values[3], 1)
         self._update_value(ca_values[4], 2)
         # Setup monitor on rbvs
@@ -136,5 +136,5 @@ class RawMotorSinkPortsPart(Part):
         ca.util.catools.caput(self.pvs, (port_index, axis), wait=True)
         # now do a caget
         values = ca.util.catools.caget(self.rbvs, format=ca.util.catools.FORMAT_TIME)
-        self.port = self.port_choices[values[0]]
+        self._update_value(values[0], 0)
         self._update_value(values[1], 1)
-- 
2.43.0


From e40c303d9813f1306c424b5f7bbd12de345bf997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:02 +0000
Subject: [PATCH 17/68] fix: start the beam selector at the step that was asked
 for, and count its steps

---
 malcolm/modules/pmac/parts/beamselectorpart.py | 6 +++++-
 malcolm/modules/pmac/parts/pmacchildpart.py    | 7 ++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/malcolm/modules/pmac/parts/beamselectorpart.py b/malcolm/modules/pmac/parts/beamselectorpart.py
index 77ef297..32305df 100644
--- a/malcolm/modules/pmac/parts/beamselectorpart.py
+++ b/malcolm/modules/pmac/parts/beamselectorpart.py
@@ -42,6 +42,9 @@ class BeamSelectorPart(PmacChildPart):
     time of a particular detector before moving.
     """
 
+    # One point for each position
+    points_per_step = 2
+
     def __init__(
         self,
         name: APartName,
@@ -219,7 +222,8 @@ class BeamSelectorPart(PmacChildPart):
 
         # Double the number of points so we have 2 points per complete cycle
         static_axis = StaticPointGenerator(size=static_axis.size * 2)
-        steps_to_do *= 2
+        completed_steps *= self.points_per_step
+        steps_to_do *= self.points_per_step
 
         # Create a linear scan axis to handle motion between the positions
         selector_axis = LineGenerator(
diff --git a/malcolm/modules/pmac/parts/pmacchildpart.py b/malcolm/modules/pmac/parts/pmacchildpart.py
index 6c7c2b9..9d9cf63 100644
--- a/malcolm/modules/pmac/parts/pmacchildpart.py
+++ b/malcolm/modules/pmac/parts/pmacchildpart.py
@@ -72,6 +72,9 @@ AMri = builtin.parts.AMri
 
 
 class PmacChildPart(builtin.parts.ChildPart):
+    # How many points of our generator make one step of the scan
+    points_per_step = 1
+
     def __init__(
         self, name: APartName, mri: AMri, initial_visibility: AIV = False
     ) -> None:
@@ -445,7 +448,9 @@ class PmacChildPart(builtin.parts.ChildPart):
         if scanned > 0:
             # Only report progress if we are triggering for every point
             if self.output_triggers == scanning.infos.MotionTrigger.EVERY_POINT:
-                completed_steps = self.completed_steps_lookup[scanned - 1]
+                completed_steps = (
+                    self.completed_steps_lookup[scanned - 1] // self.points_per_step
+                )
                 self.registrar.report(scanning.infos.RunProgressInfo(completed_steps))
             # Keep PROFILE_POINTS trajectory points in front
             if (
-- 
2.43.0


From dac13ae875b7cf1bf8d6880bf584cce8ce3d9dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:17 +0000
Subject: [PATCH 18/68] fix: refuse a Put or Post to anything below a field but
 its value

---
 malcolm/core/controller.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/malcolm/core/controller.py b/malcolm/core/controller.py
index 132aee4..dbb4afa 100644
--- a/malcolm/core/controller.py
+++ b/malcolm/core/controller.py
@@ -192,6 +192,12 @@ class Controller(Hookable):
         assert isinstance(
             attribute, AttributeModel
         ), f"Cannot Put to {attribute.path} which is a {type(attribute)}"
+        # Only the value of an Attribute can be Put to
+        if list(request.path[2:]) not in ([], ["value"]):
+            raise FieldError(
+                f"Cannot Put to {'.'.join(request.path)}, only to the value of "
+                f"Attribute '{attribute_name}'"
+            )
         self.check_field_writeable(attribute)
 
         put_function = self.get_put_function(attribute_name)
@@ -249,6 +255,11 @@ class Controller(Hookable):
         assert isinstance(
             method, MethodModel
         ), f"Cannot Post to {method.path} which is a {type(method)}"
+        if len(request.path) > 2:
+            raise FieldError(
+                f"Cannot Post to {'.'.join(request.path)}, only to Method "
+                f"'{method_name}'"
+            )
         self.check_field_writeable(method)
 
         post_function = self.get_post_function(method_name)
-- 
2.43.0


From 98068b76f38363a137121f131ce16c15d046e062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:56 +0000
Subject: [PATCH 19/68] fix: keep the old design if writing the new one fails

---
 malcolm/modules/builtin/controllers/managercontroller.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/malcolm/modules/builtin/controllers/managercontroller.py b/malcolm/modules/builtin/controllers/managercontroller.py
index 6204648..af7c996 100644
--- a/malcolm/modules/builtin/controllers/managercontroller.py
+++ b/malcolm/modules/builtin/controllers/managercontroller.py
@@ -445,8 +445,12 @@ class ManagerController(StatefulController):
         filename = self._validated_config_filename(design)
         if filename.startswith("/tmp"):
             self.log.warning(f"Saving to tmp directory {filename}")
-        with open(filename, "w") as f:
+        # Write to a temporary file first so that a failure while writing doesn't
+        # lose the design that was there before
+        tmp_filename = filename + ".tmp"
+        with open(tmp_filename, "w") as f:
             f.write(text)
+        os.replace(tmp_filename, filename)
         # Run a sync command to make sure we flush this file to disk
         subprocess.call("sync")
         self._mark_clean(design)
-- 
2.43.0


From 0265bb403ecd2a2331e5d244cbf35520c8c1e3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:56 +0000
Subject: [PATCH 20/68] fix: compare settings with what was last saved or
 loaded when working out if modified

---
 malcolm/modules/builtin/parts/childpart.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/malcolm/modules/builtin/parts/childpart.py b/malcolm/modules/builtin/parts/childpart.py
index f212570..41b96ac 100644
--- a/malcolm/modules/builtin/parts/childpart.py
+++ b/malcolm/modules/builtin/parts/childpart.py
@@ -12,7 +12,7 @@ from typing import (
     Union,
 )
 
-from annotypes import Anno, add_call_types
+from annotypes import Anno, add_call_types, serialize_object
 
 from malcolm.compat import OrderedDict
 from malcolm.core import (
@@ -237,9 +237,17 @@ class ChildPart(Part):
             # ones that need to change
             to_set = {}
             for k, (attr, v) in params.items():
-                if attr.value != v:
+                if not self._same_value(attr.value, v):
                     to_set[k] = v
             child.put_attribute_values(to_set)
+        # Forget about modifications from what was saved or loaded before
+        still_modified = set()
+        for params in iterations.values():
+            for k, (attr, v) in params.items():
+                if not self._same_value(attr.value, v):
+                    still_modified.add(k)
+        for k in set(self.modified_messages) - still_modified:
+            self.modified_messages.pop(k)
         if init and "design" in child:
             # We might not have cleared the changes so report here
             self.send_modified_info_if_not_equal("design", child.design.value)
@@ -254,6 +262,8 @@ class ChildPart(Part):
                 if isinstance(attr, Attribute) and get_config_tag(attr.meta.tags):
                     part_structure[k] = attr.value
         self.saved_structure = part_structure
+        # Nothing is modified from what we just saved
+        self.modified_messages.clear()
         return part_structure
 
     @add_call_types
@@ -342,11 +352,15 @@ class ChildPart(Part):
         elif not isinstance(response, Return):
             self.log.warning("Got unexpected response {response}")
 
+    def _same_value(self, a: Any, b: Any) -> bool:
+        # A value loaded from file is in its serialized form, so compare those
+        return serialize_object(a) == serialize_object(b)
+
     def send_modified_info_if_not_equal(self, name, new_value):
         # If we did a save or load then we will have an original value,
         # otherwise it will be None
         original_value = self.saved_structure.get(name, None)
-        if original_value == new_value:
+        if self._same_value(original_value, new_value):
             message = None
         else:
             message = "%s.%s.value = %s not %s" % (
-- 
2.43.0


From 05d494c3aee59397c64591ad192e7db3292f4553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:20 +0000
Subject: [PATCH 21/68] fix: give an exported method its arguments and return
 what the child returns

---
 malcolm/modules/builtin/controllers/managercontroller.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/malcolm/modules/builtin/controllers/managercontroller.py b/malcolm/modules/builtin/controllers/managercontroller.py
index af7c996..63fb9fe 100644
--- a/malcolm/modules/builtin/controllers/managercontroller.py
+++ b/malcolm/modules/builtin/controllers/managercontroller.py
@@ -368,9 +368,9 @@ class ManagerController(StatefulController):
                     ret["setter"] = setter
                 else:
 
-                    def setter_star_args(*args):
+                    def setter_star_args(**kwargs):
                         context = Context(self.process)
-                        context.post(path, *args)
+                        return context.post(path, kwargs)
 
                     ret["setter"] = setter_star_args
 
-- 
2.43.0


From 5014893577dba694228f1c4b878605c1ab5336de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:22 +0000
Subject: [PATCH 22/68] fix: apply changes of a table column or of an entry of
 a mapping to a model

---
 malcolm/core/models.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/malcolm/core/models.py b/malcolm/core/models.py
index df2ab51..2bb5c17 100644
--- a/malcolm/core/models.py
+++ b/malcolm/core/models.py
@@ -130,9 +130,23 @@ class Model(Serializable):
 
     def apply_change(self, path: List[str], *args: Any) -> None:
         """Take a single change from a Delta and apply it to this model"""
-        if len(path) > 1:
+        child = self[path[0]] if len(path) > 1 else None
+        if isinstance(child, dict):
+            # This is for a mapping
+            if len(path) > 2:
+                # This is for a Model in the mapping
+                child[path[1]].apply_change(path[2:], *args)
+            else:
+                # An entry of the mapping is added, replaced or removed
+                mapping = OrderedDict(child)
+                if args:
+                    mapping[path[1]] = args[0]
+                else:
+                    mapping.pop(path[1])
+                getattr(self, f"set_{path[0]}")(mapping)
+        elif len(path) > 1:
             # This is for a child
-            self[path[0]].apply_change(path[1:], *args)
+            child.apply_change(path[1:], *args)
         else:
             # This is for us
             assert (
@@ -385,6 +399,14 @@ class NTTable(AttributeModel):
 
     __slots__: List[str] = []
 
+    def apply_change(self, path, *args: Any) -> None:
+        if len(path) == 2 and path[0] == "value" and args:
+            # Only one column changed
+            columns = {k: self.value[k] for k in self.value.call_types}
+            columns[path[1]] = args[0]
+            path, args = ["value"], (columns,)
+        super().apply_change(path, *args)
+
     def set_value_alarm_ts(self, value: AValue, alarm: Alarm, ts: TimeStamp) -> None:
         with self.notifier.changes_squashed:
             # Assume they are of the right format
-- 
2.43.0


From c4f7fe35a72b74c92aa6b88c7b5f525ac86ba5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:41 +0000
Subject: [PATCH 23/68] fix: keep an export in step when the child replaces or
 removes its field

---
 .../builtin/controllers/managercontroller.py  | 36 +++++++++++++------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/malcolm/modules/builtin/controllers/managercontroller.py b/malcolm/modules/builtin/controllers/managercontroller.py
index 63fb9fe..029fc8c 100644
--- a/malcolm/modules/builtin/controllers/managercontroller.py
+++ b/malcolm/modules/builtin/controllers/managercontroller.py
@@ -345,6 +345,16 @@ class ManagerController(StatefulController):
         label = camel_to_title(export_name)
         ret = {}
 
+        def set_export_meta(export):
+            if isinstance(export, AttributeModel):
+                # Strip out tags that we shouldn't export
+                # TODO: need to strip out port tags too...
+                export.meta.set_tags(
+                    without_config_tags(without_group_tags(export.meta.tags))
+                )
+            # Regenerate label
+            export.meta.set_label(label)
+
         def update_field(response):
             if not isinstance(response, Delta):
                 # Return or Error is the end of our subscription, log and ignore
@@ -359,12 +369,6 @@ class ManagerController(StatefulController):
                         context = Context(self.process)
                         context.put(path, v)
 
-                    # Strip out tags that we shouldn't export
-                    # TODO: need to strip out port tags too...
-                    export.meta.set_tags(
-                        without_config_tags(without_group_tags(export.meta.tags))
-                    )
-
                     ret["setter"] = setter
                 else:
 
@@ -374,14 +378,26 @@ class ManagerController(StatefulController):
 
                     ret["setter"] = setter_star_args
 
-                # Regenerate label
-                export.meta.set_label(label)
+                set_export_meta(export)
                 ret["export"] = export
             else:
                 # Subsequent calls, update it
+                export = ret["export"]
                 with self.changes_squashed:
-                    for change in response.changes:
-                        ret["export"].apply_change(*change)
+                    for change_path, *data in response.changes:
+                        if change_path:
+                            export.apply_change(change_path, *data)
+                        elif data:
+                            # The field was replaced, meta has to come first as
+                            # it validates the rest
+                            for name in sorted(export, key=lambda n: n != "meta"):
+                                export.apply_change([name], data[0][name])
+                        else:
+                            # The field was removed, we will be told that it is
+                            # not exportable any more
+                            continue
+                        if change_path[:1] in ([], ["meta"]):
+                            set_export_meta(export)
 
         subscription = Subscribe(path=path, delta=True)
         subscription.set_callback(update_field)
-- 
2.43.0


From fff7b2458033fad2f0dcfc80e3b08ebcab298808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:41 +0000
Subject: [PATCH 24/68] fix: refuse to export a field under a name that is
 already used

---
 malcolm/modules/builtin/controllers/managercontroller.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/malcolm/modules/builtin/controllers/managercontroller.py b/malcolm/modules/builtin/controllers/managercontroller.py
index 029fc8c..f9dd619 100644
--- a/malcolm/modules/builtin/controllers/managercontroller.py
+++ b/malcolm/modules/builtin/controllers/managercontroller.py
@@ -193,10 +193,17 @@ class ManagerController(StatefulController):
 
     def set_exports(self, value):
         # Validate
+        used_names = {"meta"}
+        for part_fields in self.field_registry.fields.values():
+            used_names.update(field[0] for field in part_fields)
         for export_name in value.export:
             assert CAMEL_RE.match(
                 export_name
             ), f"Field {export_name!r} is not camelCase"
+            assert (
+                export_name not in used_names
+            ), f"Field {export_name!r} already exists in the Block"
+            used_names.add(export_name)
         with self.changes_squashed:
             self.exports.set_value(value)
             self.update_modified()
-- 
2.43.0


From 2821ae73ddaf36486796dede9858b30942986d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:41 +0000
Subject: [PATCH 25/68] fix: disconnect from a part when it is hidden by the
 first layout that lists it

---
 malcolm/modules/builtin/parts/childpart.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/malcolm/modules/builtin/parts/childpart.py b/malcolm/modules/builtin/parts/childpart.py
index 41b96ac..8be4620 100644
--- a/malcolm/modules/builtin/parts/childpart.py
+++ b/malcolm/modules/builtin/parts/childpart.py
@@ -120,6 +120,8 @@ class ChildPart(Part):
         self.visible: Optional[bool] = initial_visibility
         # {part_name: visible} saying whether part_name is visible
         self.part_visibility: Dict[str, bool] = {}
+        # Whether we have been asked for our layout yet
+        self.laid_out = False
         # {attr_name: attr_value} of last saved/loaded structure
         self.saved_structure: Mapping[str, Any] = {}
         # {attr_name: modified_message} of current values
@@ -191,10 +193,13 @@ class ChildPart(Part):
                 self.y = layout.y[i]
                 self.visible = visible
             else:
-                was_visible = self.part_visibility.get(name, False)
+                # After the initial layout a part can be visible without having
+                # appeared in a table
+                was_visible = self.part_visibility.get(name, self.laid_out)
                 if was_visible and not visible:
                     self.sever_sink_ports(context, ports, name)
                 self.part_visibility[name] = visible
+        self.laid_out = True
         # If this is the first call work out which parts are visible if not
         # specified in the initial layout table
         if first_call:
-- 
2.43.0


From f68acc4ff3eed9bdd7fe920f4601d37f95aab19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:00 +0000
Subject: [PATCH 26/68] fix: follow a child's config field again after it was
 removed and added back

---
 malcolm/modules/builtin/parts/childpart.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/malcolm/modules/builtin/parts/childpart.py b/malcolm/modules/builtin/parts/childpart.py
index 8be4620..3815a9d 100644
--- a/malcolm/modules/builtin/parts/childpart.py
+++ b/malcolm/modules/builtin/parts/childpart.py
@@ -130,6 +130,7 @@ class ChildPart(Part):
         self.child_controller: Optional[Controller] = None
         # {id: Subscribe} for subscriptions to config tagged fields
         self.config_subscriptions: Dict[int, Subscribe] = {}
+        self.last_subscription_id = 0
         # {attr_name: PortInfo}
         self.port_infos: Dict[str, PortInfo] = {}
 
@@ -297,9 +298,10 @@ class ChildPart(Part):
             return
 
         # Remove any existing subscription that is not in the new fields
-        for subscribe in self.config_subscriptions.values():
+        for subscribe in list(self.config_subscriptions.values()):
             attr_name = subscribe.path[-2]
             if attr_name not in new_fields:
+                self.config_subscriptions.pop(subscribe.id)
                 unsubscribe = Unsubscribe(subscribe.id)
                 unsubscribe.set_callback(subscribe.callback)
                 spawned.append(self.child_controller.handle_request(unsubscribe))
@@ -333,10 +335,9 @@ class ChildPart(Part):
                 # If we are config tagged then subscribe so we can calculate
                 # if we are modified
                 if self._unmanaged_attr(field) and get_config_tag(tags):
-                    if self.config_subscriptions:
-                        new_id = max(self.config_subscriptions) + 1
-                    else:
-                        new_id = 1
+                    # Never reuse an id, there might still be updates for it
+                    self.last_subscription_id += 1
+                    new_id = self.last_subscription_id
                     subscribe = Subscribe(id=new_id, path=[self.mri, field, "value"])
                     subscribe.set_callback(self.update_part_modified)
                     self.config_subscriptions[new_id] = subscribe
@@ -351,9 +352,11 @@ class ChildPart(Part):
 
     def update_part_modified(self, response: Response) -> None:
         if isinstance(response, Update):
-            subscribe = self.config_subscriptions[response.id]
-            name = subscribe.path[-2]
-            self.send_modified_info_if_not_equal(name, response.value)
+            subscribe = self.config_subscriptions.get(response.id, None)
+            # The field might have been removed
+            if subscribe:
+                name = subscribe.path[-2]
+                self.send_modified_info_if_not_equal(name, response.value)
         elif not isinstance(response, Return):
             self.log.warning("Got unexpected response {response}")
 
-- 
2.43.0


From 8dad6d1b834285c6b616696b44fd47fc818664b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:34 +0000
Subject: [PATCH 27/68] fix: add and remove fields of a proxy when the server
 does

---
 malcolm/modules/web/controllers/websocketclientcomms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/malcolm/modules/web/controllers/websocketclientcomms.py b/malcolm/modules/web/controllers/websocketclientcomms.py
index b8a9bd3..abf1e03 100644
--- a/malcolm/modules/web/controllers/websocketclientcomms.py
+++ b/malcolm/modules/web/controllers/websocketclientcomms.py
@@ -198,10 +198,10 @@ class WebsocketClientComms(builtin.controllers.ClientComms):
         elif len(path) == 1 and path[0] not in ("health", "meta"):
             if len(change) == 1:
                 # Delete a field
-                block.remove_endpoint(path[1])
+                block.remove_endpoint(path[0])
             else:
                 # Change a single field of the block
-                block.set_endpoint_data(path[1], change[1])
+                block.set_endpoint_data(path[0], change[1])
         else:
             block.apply_change(path, *change[1:])
 
-- 
2.43.0


From cfb86605473856ef1a649c2abc51e97bd6d86769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:12 +0000
Subject: [PATCH 28/68] fix: show all the changes of one delta from the server
 as one update of the proxy

---
 malcolm/modules/web/controllers/websocketclientcomms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malcolm/modules/web/controllers/websocketclientcomms.py b/malcolm/modules/web/controllers/websocketclientcomms.py
index abf1e03..d53bf84 100644
--- a/malcolm/modules/web/controllers/websocketclientcomms.py
+++ b/malcolm/modules/web/controllers/websocketclientcomms.py
@@ -181,7 +181,7 @@ class WebsocketClientComms(builtin.controllers.ClientComms):
         self, response: Response, block: BlockModel, done_queue: Queue
     ) -> None:
         try:
-            with self.changes_squashed:
+            with block.notifier.changes_squashed:
                 for change in response.changes:
                     self._handle_change(block, change)
         except Exception:
-- 
2.43.0


From adbd1661e897ac4f0dd52976a846345049dd0271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:12 +0000
Subject: [PATCH 29/68] fix: answer a request to a server that can't be sent
 instead of leaving it waiting

---
 .../web/controllers/websocketclientcomms.py       | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/malcolm/modules/web/controllers/websocketclientcomms.py b/malcolm/modules/web/controllers/websocketclientcomms.py
index d53bf84..7147043 100644
--- a/malcolm/modules/web/controllers/websocketclientcomms.py
+++ b/malcolm/modules/web/controllers/websocketclientcomms.py
@@ -269,6 +269,15 @@ class WebsocketClientComms(builtin.controllers.ClientComms):
         request.id = self._next_id
         self._next_id += 1
         self._request_lookup[request.id] = request
-        message = json_encode(request)
-        self.log.debug("Sending message %s", message)
-        self._conn.write_message(message)
+        try:
+            message = json_encode(request)
+            self.log.debug("Sending message %s", message)
+            if self._conn is None:
+                raise ResponseError("Server disconnected")
+            self._conn.write_message(message)
+        except Exception as e:
+            # It will never get a response, so give it one
+            self.log.debug("Sending %s failed", request, exc_info=True)
+            if self._request_lookup.pop(request.id, None):
+                response = Error(id=request.id, message=ResponseError(str(e)))
+                cothread.Callback(request.callback, response)
-- 
2.43.0


From 766aab4a6bb6931507273600c992c13511d6f57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:12 +0000
Subject: [PATCH 30/68] fix: wait for the connection when connecting to a
 server again

---
 malcolm/modules/web/controllers/websocketclientcomms.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/malcolm/modules/web/controllers/websocketclientcomms.py b/malcolm/modules/web/controllers/websocketclientcomms.py
index 7147043..e99e79a 100644
--- a/malcolm/modules/web/controllers/websocketclientcomms.py
+++ b/malcolm/modules/web/controllers/websocketclientcomms.py
@@ -121,7 +121,9 @@ class WebsocketClientComms(builtin.controllers.ClientComms):
         with self._lock:
             if self.state.value != self.state_set.DISABLING:
                 self.transition(self.state_set.FAULT, "Server disconnected")
-        self._connected_queue.put(None)
+            else:
+                # _stop_client is waiting for us
+                self._connected_queue.put(None)
         for id in list(self._request_lookup):
             request = self._request_lookup.pop(id)
             response = Error(
-- 
2.43.0


From c5908e4618f93f2a97813cf47604c2d1a88b6ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:05 +0000
Subject: [PATCH 31/68] fix: let a web client use the id of a subscription
 again when it has ended or failed

---
 malcolm/modules/web/parts/websocketserverpart.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/malcolm/modules/web/parts/websocketserverpart.py b/malcolm/modules/web/parts/websocketserverpart.py
index fcc8914..fa660b4 100644
--- a/malcolm/modules/web/parts/websocketserverpart.py
+++ b/malcolm/modules/web/parts/websocketserverpart.py
@@ -110,7 +110,6 @@ class MalcWebSocketHandler(WebSocketHandler):
                 assert msg_id not in self._id_to_mri, (
                     "Duplicate subscription ID %d" % msg_id
                 )
-                self._id_to_mri[msg_id] = request.path[0]
             if isinstance(request, Unsubscribe):
                 mri = self._id_to_mri[msg_id]
             else:
@@ -118,6 +117,11 @@ class MalcWebSocketHandler(WebSocketHandler):
             if isinstance(request, (Put, Post)) and not self._writeable:
                 raise ValueError(f"Put/Post is forbidden from {self.request.remote_ip}")
             self._registrar.report(builtin.infos.RequestInfo(request, mri))
+            if isinstance(request, Subscribe):
+                self._id_to_mri[msg_id] = mri
+            elif isinstance(request, Unsubscribe):
+                # The id can be used again
+                self._id_to_mri.pop(msg_id)
         except Exception as e:
             log.exception("Error handling message:\n%s", message)
             error = Error(msg_id, e)
-- 
2.43.0


From 8bcb66a40c73028295cca44adc1b55691fb57208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:05 +0000
Subject: [PATCH 32/68] fix: answer web clients that connect with IPV6

---
 malcolm/modules/web/parts/websocketserverpart.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/malcolm/modules/web/parts/websocketserverpart.py b/malcolm/modules/web/parts/websocketserverpart.py
index fa660b4..4c18f92 100644
--- a/malcolm/modules/web/parts/websocketserverpart.py
+++ b/malcolm/modules/web/parts/websocketserverpart.py
@@ -84,11 +84,16 @@ class MalcWebSocketHandler(WebSocketHandler):
             if ipv4_ip == "::1":
                 # Special case IPV6 loopback
                 ipv4_ip = "127.0.0.1"
-            remoteaddr = struct.unpack("!I", socket.inet_aton(ipv4_ip))[0]
             if self._validators:
                 # Work out if the remote ip is within the netmask of any of our
                 # interfaces. If not, Put and Post are forbidden
-                self._writeable = max(v(remoteaddr) for v in self._validators)
+                try:
+                    remoteaddr = struct.unpack("!I", socket.inet_aton(ipv4_ip))[0]
+                except OSError:
+                    # We only have IPV4 netmasks, so can't be within one
+                    self._writeable = False
+                else:
+                    self._writeable = max(v(remoteaddr) for v in self._validators)
             else:
                 self._writeable = True
             log.info(
-- 
2.43.0


From 9d82948019ee69c12e87360b2e0aef9550de6c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:05 +0000
Subject: [PATCH 33/68] fix: answer a web client with an error if the response
 can't be encoded

---
 malcolm/modules/web/parts/websocketserverpart.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/malcolm/modules/web/parts/websocketserverpart.py b/malcolm/modules/web/parts/websocketserverpart.py
index 4c18f92..db0403c 100644
--- a/malcolm/modules/web/parts/websocketserverpart.py
+++ b/malcolm/modules/web/parts/websocketserverpart.py
@@ -144,8 +144,12 @@ class MalcWebSocketHandler(WebSocketHandler):
 
     def _on_response(self, response: Response) -> None:
         # called from tornado thread
-        message = json_encode(response)
         try:
+            try:
+                message = json_encode(response)
+            except Exception as e:
+                log.exception("Error encoding response for id %s", response.id)
+                message = json_encode(Error(response.id, e))
             self.write_message(message)
         except WebSocketError:
             # The websocket is dead. If the response was a Delta or Update, then
-- 
2.43.0


From 1ba53e7638b97082327a5141950c7c08f29436ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:24 +0000
Subject: [PATCH 34/68] fix: decode PandA replies by line, as a packet can end
 in the middle of a character

---
 malcolm/modules/pandablocks/pandablocksclient.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/malcolm/modules/pandablocks/pandablocksclient.py b/malcolm/modules/pandablocks/pandablocksclient.py
index 14a576a..4beb91c 100644
--- a/malcolm/modules/pandablocks/pandablocksclient.py
+++ b/malcolm/modules/pandablocks/pandablocksclient.py
@@ -131,14 +131,16 @@ class PandABlocksClient:
                 log.exception("Exception sending message %s", message)
 
     def _get_lines(self):
-        buf = ""
+        buf = b""
         while True:
-            lines = buf.split("\n")
+            lines = buf.split(b"\n")
             for line in lines[:-1]:
-                yield line
+                # Only decode complete lines, as a packet might end in the middle
+                # of a character
+                yield line.decode("utf-8")
             buf = lines[-1]
             # Get something new from the socket
-            rx = self._socket.recv(4096).decode("utf-8")
+            rx = self._socket.recv(4096)
             if not rx:
                 break
             buf += rx
-- 
2.43.0


From c1508bbf7965efac82930f496137b95030c250cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:24 +0000
Subject: [PATCH 35/68] fix: refuse to set a PandA field to a value with a
 newline, which is another command

---
 malcolm/modules/pandablocks/pandablocksclient.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/malcolm/modules/pandablocks/pandablocksclient.py b/malcolm/modules/pandablocks/pandablocksclient.py
index 4beb91c..f78d7f7 100644
--- a/malcolm/modules/pandablocks/pandablocksclient.py
+++ b/malcolm/modules/pandablocks/pandablocksclient.py
@@ -355,6 +355,10 @@ class PandABlocksClient:
 
     def set_fields(self, field_values):
         queues = OrderedDict()
+        for field, value in field_values.items():
+            if "\n" in str(value):
+                # This would be taken as another command with a reply of its own
+                raise ValueError(f"Error setting {field} to {value!r}: has newline")
         for field, value in field_values.items():
             message = f"{field}={value}\n"
             queues[(field, value)] = self.send(message)
-- 
2.43.0


From cb8404c1d7d96294756ae9c669893b70abcba943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:24 +0000
Subject: [PATCH 36/68] fix: fail a PandA command that can't be sent without
 mixing up the other replies

---
 malcolm/modules/pandablocks/pandablocksclient.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/malcolm/modules/pandablocks/pandablocksclient.py b/malcolm/modules/pandablocks/pandablocksclient.py
index f78d7f7..9cc2a21 100644
--- a/malcolm/modules/pandablocks/pandablocksclient.py
+++ b/malcolm/modules/pandablocks/pandablocksclient.py
@@ -125,10 +125,13 @@ class PandABlocksClient:
             if message is self.STOP:
                 break
             try:
+                # Encode first, what can't be sent will not get a response
+                data = message.encode("utf-8")
                 self._response_queues.put(response_queue)
-                self._socket.sendall(message.encode("utf-8"))
-            except Exception:  # pylint:disable=broad-except
-                log.exception("Exception sending message %s", message)
+                self._socket.sendall(data)
+            except Exception as e:  # pylint:disable=broad-except
+                log.exception("Exception sending message %r", message)
+                response_queue.put(e)
 
     def _get_lines(self):
         buf = b""
-- 
2.43.0


From d158b1ca02ba606bfa6b16e6ce43c28884d24c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:24 +0000
Subject: [PATCH 37/68] fix: don't show a label that the PandA refused

---
 malcolm/modules/pandablocks/parts/pandalabelpart.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/malcolm/modules/pandablocks/parts/pandalabelpart.py b/malcolm/modules/pandablocks/parts/pandalabelpart.py
index 486c55f..40832d7 100644
--- a/malcolm/modules/pandablocks/parts/pandalabelpart.py
+++ b/malcolm/modules/pandablocks/parts/pandalabelpart.py
@@ -23,5 +23,6 @@ class PandALabelPart(builtin.parts.LabelPart):
         super().set_label(value, ts)
 
     def set_label(self, value, ts=None):
+        # The PandA might refuse this
+        self.client.set_field("*METADATA", self.metadata_field, value)
         super().set_label(value, ts)
-        self.client.set_field("*METADATA", self.metadata_field, self.attr.value)
-- 
2.43.0


From b862aa68a67f16ee46dded815d5f5fcb5c1f2a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:24 +0000
Subject: [PATCH 38/68] fix: ignore rows with unknown names when setting PandA
 bits

---
 malcolm/modules/pandablocks/parts/pandabussespart.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/malcolm/modules/pandablocks/parts/pandabussespart.py b/malcolm/modules/pandablocks/parts/pandabussespart.py
index cac6063..66e1e28 100644
--- a/malcolm/modules/pandablocks/parts/pandabussespart.py
+++ b/malcolm/modules/pandablocks/parts/pandabussespart.py
@@ -110,6 +110,9 @@ class PandABussesPart(Part):
             # If capture changed, set PCAP bits
             field_values = {}
             for bit in value.name:
+                if bit not in self._bit_indexes:
+                    # Row was ignored above
+                    continue
                 capture = column_changes["capture"][self._bit_indexes[bit]]
                 capture_field = self._bit_pcap_fields[bit]
                 if capture:
-- 
2.43.0


From 8605ef3a66519c784f2d72d73a06db1c644b0664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:22 +0000
Subject: [PATCH 39/68] fix: keep changes of PandA positions that arrive while
 setting others

---
 malcolm/modules/pandablocks/parts/pandabussespart.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/malcolm/modules/pandablocks/parts/pandabussespart.py b/malcolm/modules/pandablocks/parts/pandabussespart.py
index 66e1e28..97b079b 100644
--- a/malcolm/modules/pandablocks/parts/pandabussespart.py
+++ b/malcolm/modules/pandablocks/parts/pandabussespart.py
@@ -141,6 +141,13 @@ class PandABussesPart(Part):
                         value = value.value
                     field_values[field] = value
                 self._client.set_fields(field_values)
+                # Update what was set straight away, so that changes that come in
+                # while setting the next attribute are kept
+                new_value = make_updated_table(
+                    self.positions.value, {attr: column_changes.pop(attr)}
+                )
+                self.positions.set_value(new_value)
+        # The rest are not stored in the PandA
         new_value = make_updated_table(self.positions.value, column_changes)
         self.positions.set_value(new_value)
 
-- 
2.43.0


From 29cb55d148e37334c36b9601e0b47cfcfbcd0dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:09 +0000
Subject: [PATCH 40/68] fix: poll the PandA again when it is reset after a
 fault

---
 .../modules/pandablocks/controllers/pandamanagercontroller.py  | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/malcolm/modules/pandablocks/controllers/pandamanagercontroller.py b/malcolm/modules/pandablocks/controllers/pandamanagercontroller.py
index ad480c1..ddace08 100644
--- a/malcolm/modules/pandablocks/controllers/pandamanagercontroller.py
+++ b/malcolm/modules/pandablocks/controllers/pandamanagercontroller.py
@@ -110,6 +110,9 @@ class PandAManagerController(builtin.controllers.ManagerController):
         self.stop_poll_loop()
 
     def do_reset(self):
+        if self._poll_spawned and self._poll_spawned.ready():
+            # The poll loop failed, so connect again
+            self.stop_poll_loop()
         self.start_poll_loop()
         super().do_reset()
 
-- 
2.43.0


From 0e5a069e1f366b2fe3b7f0a08cd39b45c815cf35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:06 +0000
Subject: [PATCH 41/68] fix: add all of a list of controllers or none of them
 if one already exists

---
 malcolm/core/process.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/malcolm/core/process.py b/malcolm/core/process.py
index 7aba8f2..f9380fb 100644
--- a/malcolm/core/process.py
+++ b/malcolm/core/process.py
@@ -221,10 +221,14 @@ class Process(Loggable):
             timeout (float): Maximum amount of time to wait for each spawned
                 object. None means forever
         """
+        # Check them all first so that we add all of them or none
+        mris = set(self._controllers)
         for controller in controllers:
             assert (
-                controller.mri not in self._controllers
+                controller.mri not in mris
             ), f"Controller already exists for {controller.mri}"
+            mris.add(controller.mri)
+        for controller in controllers:
             self._controllers[controller.mri] = controller
             controller.setup(self)
         if self.state:
-- 
2.43.0


From 69b915b7758187357136b24e50c296ba8e4ceaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:06 +0000
Subject: [PATCH 42/68] fix: publish blocks when they have started, not before,
 and those added by others while starting

---
 malcolm/core/process.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/malcolm/core/process.py b/malcolm/core/process.py
index f9380fb..b79897d 100644
--- a/malcolm/core/process.py
+++ b/malcolm/core/process.py
@@ -81,20 +81,25 @@ class Process(Loggable):
         """
         assert self.state == STOPPED, "Process already started"
         self.state = STARTING
-        should_publish = self._start_controllers(self._controllers.values(), timeout)
-        if should_publish:
-            self._publish_controllers(timeout)
+        self._start_controllers(list(self._controllers.values()), timeout)
+        # From now on anything that is added publishes itself when it has started
         self.state = STARTED
+        if set(self._controllers) - self._unpublished:
+            self._publish_controllers(timeout)
 
     def _start_controllers(
         self, controller_list: List[Controller], timeout: float = None
     ) -> bool:
-        # Start just the given controller_list
+        # Start just the given controller_list, which can't be published until they
+        # have had a chance to say whether they should be
+        starting = set(c.mri for c in controller_list)
+        self._unpublished |= starting
         infos = self._run_hook(ProcessStartHook, controller_list, timeout=timeout)
         info: UnpublishedInfo
         new_unpublished = set()
         for info in UnpublishedInfo.filter_values(infos):
             new_unpublished.add(info.mri)
+        self._unpublished -= starting - new_unpublished
         self._unpublished |= new_unpublished
         if len(controller_list) > len(new_unpublished):
             return True
-- 
2.43.0


From 3776531bd4a29c88bed60516bb0553061f5082e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:06 +0000
Subject: [PATCH 43/68] fix: don't publish a proxy that failed to connect if it
 was told not to be published

---
 .../builtin/controllers/proxycontroller.py     | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/malcolm/modules/builtin/controllers/proxycontroller.py b/malcolm/modules/builtin/controllers/proxycontroller.py
index 9833813..ec56d5e 100644
--- a/malcolm/modules/builtin/controllers/proxycontroller.py
+++ b/malcolm/modules/builtin/controllers/proxycontroller.py
@@ -37,6 +37,20 @@ class ProxyController(BasicController):
         self.register_hooked(ProcessStartHook, self.init)
 
     def init(self) -> UUnpublishedInfos:
+        try:
+            self._sync()
+        except Exception as e:
+            if self.publish:
+                raise
+            # We need to return to tell the process not to publish us
+            self.log.exception("Failed to sync %s", self.mri)
+            self.health.set_value(str(e), alarm=Alarm.invalid(str(e)))
+        if not self.publish:
+            return UnpublishedInfo(self.mri)
+        else:
+            return None
+
+    def _sync(self) -> None:
         assert self.process, "No attached process"
         self.client_comms = self.process.get_controller(self.comms)
         # Wait until connected
@@ -44,10 +58,6 @@ class ProxyController(BasicController):
         wait_for_stateful_block_init(context, self.comms)
         # Tell the client comms to sync our block for us
         self.client_comms.sync_proxy(self.mri, self._block)
-        if not self.publish:
-            return UnpublishedInfo(self.mri)
-        else:
-            return None
 
     def get_post_function(self, method_name):
         return functools.partial(self.client_comms.send_post, self.mri, method_name)
-- 
2.43.0


From efe71b575b6bdde7e384350de544e26bc9be0921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:33 +0000
Subject: [PATCH 44/68] fix: write the file of demand positions to the Linux
 path when the writer runs on Windows

---
 malcolm/modules/ADCore/parts/hdfwriterpart.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/malcolm/modules/ADCore/parts/hdfwriterpart.py b/malcolm/modules/ADCore/parts/hdfwriterpart.py
index 3f6f810..3ea89c2 100644
--- a/malcolm/modules/ADCore/parts/hdfwriterpart.py
+++ b/malcolm/modules/ADCore/parts/hdfwriterpart.py
@@ -592,9 +592,8 @@ class HDFWriterPart(builtin.parts.ChildPart):
         # Check XML
         set_path = "/entry/%s_set"
         if self.remove_demand_positions_from_xml.value is not False:
-            self._hdf = _write_additional_hdf(
-                filename, generator, h5_file_dir, set_path
-            )
+            # We write this one, so it needs our path rather than the Windows one
+            self._hdf = _write_additional_hdf(filename, generator, file_dir, set_path)
         self._check_xml_is_valid(child)
         # Return the dataset information
         dataset_infos = list(
-- 
2.43.0


From 367fe2b4cdb052fc20e147443c880cf4ad9fce49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:33 +0000
Subject: [PATCH 45/68] fix: translate only the leading prefix of a file path
 for Windows, and refuse other directories that start with its letters

---
 malcolm/modules/ADCore/infos.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/malcolm/modules/ADCore/infos.py b/malcolm/modules/ADCore/infos.py
index 63a4cb7..dd68627 100644
--- a/malcolm/modules/ADCore/infos.py
+++ b/malcolm/modules/ADCore/infos.py
@@ -26,8 +26,9 @@ class FilePathTranslatorInfo(Info):
             "No or multiple FilePathTranslatorPart found: must have exactly "
             "1 if any part in the AD chain is running on Windows",
         )
-        assert filepath.startswith(
-            translator.path_prefix
+        # Compare whole path elements, so that /dls doesn't match /dls_sw
+        assert (filepath + "/").startswith(
+            translator.path_prefix.rstrip("/") + "/"
         ), "filepath %s does not start with expected prefix %s" % (
             filepath,
             translator.path_prefix,
@@ -37,15 +38,12 @@ class FilePathTranslatorInfo(Info):
         ), f"filepath {filepath} has unexpected colon (incompatible on Windows)"
 
         if translator.network_prefix != "":
-            win_path = filepath.replace(
-                translator.path_prefix,
-                translator.network_prefix + translator.path_prefix,
-            ).replace("/", "\\")
+            win_path = translator.network_prefix + filepath
         else:
-            win_path = filepath.replace(
-                translator.path_prefix, translator.windows_drive_letter + ":"
-            ).replace("/", "\\")
-        return win_path
+            # Only the start of the path is replaced, the prefix may appear again
+            relative = filepath[len(translator.path_prefix) :]
+            win_path = translator.windows_drive_letter + ":" + relative
+        return win_path.replace("/", "\\")
 
 
 class NDArrayDatasetInfo(Info):
-- 
2.43.0


From b01b4432815848138cc22002663b303e3738a85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:35 +0000
Subject: [PATCH 46/68] fix: keep the exposure asked for when arming a detector
 for the next part of a scan

---
 malcolm/modules/ADCore/parts/detectordriverpart.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/malcolm/modules/ADCore/parts/detectordriverpart.py b/malcolm/modules/ADCore/parts/detectordriverpart.py
index 71d9ffd..ef01fcb 100644
--- a/malcolm/modules/ADCore/parts/detectordriverpart.py
+++ b/malcolm/modules/ADCore/parts/detectordriverpart.py
@@ -242,7 +242,11 @@ class DetectorDriverPart(builtin.parts.ChildPart):
             self.configure_args_with_exposure,
         )
         registrar.hook(scanning.hooks.RunHook, self.on_run)
-        registrar.hook(scanning.hooks.PostRunArmedHook, self.on_post_run_armed)
+        registrar.hook(
+            scanning.hooks.PostRunArmedHook,
+            self.on_post_run_armed,
+            self.post_run_armed_args_with_exposure,
+        )
         registrar.hook(
             (scanning.hooks.PauseHook, scanning.hooks.AbortHook), self.on_abort
         )
@@ -331,6 +335,12 @@ class DetectorDriverPart(builtin.parts.ChildPart):
             need_keys.append("exposure")
         return need_keys
 
+    def post_run_armed_args_with_exposure(self, keys):
+        need_keys = list(self.on_post_run_armed.call_types)
+        if "exposure" in keys:
+            need_keys.append("exposure")
+        return need_keys
+
     # Allow CamelCase as fileDir parameter will be serialized
     # noinspection PyPep8Naming
     @add_call_types
@@ -463,6 +473,7 @@ class DetectorDriverPart(builtin.parts.ChildPart):
         part_info: scanning.hooks.APartInfo,
         generator: scanning.hooks.AGenerator,
         breakpoints: scanning.controllers.ABreakpoints = None,
+        **kwargs: Any,
     ) -> None:
         # We may need to set up the detector again based on two conditions:
         #   - breakpoints can be an uneven number of steps
@@ -477,6 +488,7 @@ class DetectorDriverPart(builtin.parts.ChildPart):
                 generator.duration,
                 part_info,
                 initial_configure=False,
+                **kwargs,
             )
             if self.is_hardware_triggered:
                 # We can now re-arm hardware-triggered detectors
-- 
2.43.0


From 4e5f862857d395245db57e41bdac91d5882c1200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:10 +0000
Subject: [PATCH 47/68] fix: give a detector with several frames per step
 breakpoints in frames

---
 malcolm/modules/scanning/parts/detectorchildpart.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/malcolm/modules/scanning/parts/detectorchildpart.py b/malcolm/modules/scanning/parts/detectorchildpart.py
index 3e7bfa6..a313346 100644
--- a/malcolm/modules/scanning/parts/detectorchildpart.py
+++ b/malcolm/modules/scanning/parts/detectorchildpart.py
@@ -287,6 +287,9 @@ class DetectorChildPart(builtin.parts.ChildPart):
             # Divide it down
             serialized["duration"] = float(serialized["duration"]) / frames
             generator = CompoundGenerator.from_dict(serialized)
+            # Breakpoints are in our steps, the detector needs them in frames
+            if breakpoints:
+                breakpoints = ABreakpoints([steps * frames for steps in breakpoints])
         kwargs = dict(
             generator=generator,
             axesToMove=axes_to_move,
-- 
2.43.0


From 348afd2301da36a0843e2a8478f094b57ba00555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:10 +0000
Subject: [PATCH 48/68] fix: seek a detector with several frames per step to
 the first frame of the step

---
 malcolm/modules/scanning/parts/detectorchildpart.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/malcolm/modules/scanning/parts/detectorchildpart.py b/malcolm/modules/scanning/parts/detectorchildpart.py
index a313346..fd81f48 100644
--- a/malcolm/modules/scanning/parts/detectorchildpart.py
+++ b/malcolm/modules/scanning/parts/detectorchildpart.py
@@ -385,7 +385,8 @@ class DetectorChildPart(builtin.parts.ChildPart):
         # Clear out the update_completed_steps and match_future subscriptions
         context.unsubscribe_all()
         child = context.block_view(self.mri)
-        child.pause(lastGoodStep=completed_steps)
+        # Our steps are frames_per_step steps for the detector
+        child.pause(lastGoodStep=completed_steps * self.frames_per_step)
 
     @add_call_types
     def on_abort(self, context: AContext) -> None:
-- 
2.43.0


From bde9bca3d5cbe1cd9b2778618b353672a390ab96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:04 +0000
Subject: [PATCH 49/68] fix: choose a duration for a scan with several frames
 per step, instead of adding the frames to it twice

---
 malcolm/modules/scanning/parts/detectorchildpart.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/malcolm/modules/scanning/parts/detectorchildpart.py b/malcolm/modules/scanning/parts/detectorchildpart.py
index fd81f48..cc2b9c0 100644
--- a/malcolm/modules/scanning/parts/detectorchildpart.py
+++ b/malcolm/modules/scanning/parts/detectorchildpart.py
@@ -229,6 +229,15 @@ class DetectorChildPart(builtin.parts.ChildPart):
                     if k == "exposure":
                         exposure = v
                         tweak_detectors = True
+                    elif k == "generator" and frames_per_step > 1:
+                        # The detector was given a generator with our frames added,
+                        # so only take its idea of how long a step should be
+                        new_duration = v.duration
+                        if not takes_frames_per_step:
+                            new_duration *= frames_per_step
+                        new_generator = CompoundGenerator.from_dict(generator.to_dict())
+                        new_generator.duration = new_duration
+                        ret.append(ParameterTweakInfo(k, new_generator))
                     else:
                         ret.append(ParameterTweakInfo(k, v))
         else:
-- 
2.43.0


From ef60265befb1715938c70de274293154aa8da9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:02 +0000
Subject: [PATCH 50/68] fix: notify the other subscribers of a change if one of
 them raises

---
 malcolm/core/notifier.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/malcolm/core/notifier.py b/malcolm/core/notifier.py
index ab9fdeb..b75ad60 100644
--- a/malcolm/core/notifier.py
+++ b/malcolm/core/notifier.py
@@ -128,12 +128,16 @@ class Notifier(Loggable):
             self._callback_responses(responses)
 
     def _callback_responses(self, responses: "CallbackResponses") -> None:
+        error = None
         for cb, response in responses:
             try:
                 cb(response)
-            except Exception:
+            except Exception as e:
                 self.log.exception(f"Exception notifying {response}")
-                raise
+                # The others still need to know
+                error = error or e
+        if error:
+            raise error
 
 
 class NotifierNode:
-- 
2.43.0


From afc1170d55fbd0305a43c5b8e9f05bcd27f44335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:55 +0000
Subject: [PATCH 51/68] fix: attributes of number and choice arrays are
 NTScalarArrays

---
 malcolm/core/models.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/malcolm/core/models.py b/malcolm/core/models.py
index 2bb5c17..ff9d305 100644
--- a/malcolm/core/models.py
+++ b/malcolm/core/models.py
@@ -803,6 +803,8 @@ class BooleanArrayMeta(VArrayMeta):
 class ChoiceArrayMeta(ChoiceMeta, VArrayMeta):
     """Meta object containing information for a choice array"""
 
+    attribute_class = NTScalarArray
+
     def validate(self, value: Any) -> Array[str]:
         """Check if the value is valid returns it"""
         if value is None:
@@ -840,6 +842,8 @@ class ChoiceArrayMeta(ChoiceMeta, VArrayMeta):
 class NumberArrayMeta(NumberMeta, VArrayMeta):
     """Meta object containing information for an array of numerical values"""
 
+    attribute_class = NTScalarArray
+
     def validate(self, value: Any) -> Array:
         """Check if the value is valid returns it"""
         return to_np_array(self._np_type, value)
-- 
2.43.0


From 4f8f7603deb85359b0a71e5472ca87f9c0b9224f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:58 +0000
Subject: [PATCH 52/68] fix: port tags whose value contains a colon can be read

---
 malcolm/core/tags.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malcolm/core/tags.py b/malcolm/core/tags.py
index eaeb961..87f8f46 100644
--- a/malcolm/core/tags.py
+++ b/malcolm/core/tags.py
@@ -40,7 +40,7 @@ class Widget(Enum):
         return f"widget:{self.value}"
 
 
-port_tag_re = re.compile(r"(source|sink)Port:(.*):(.*)")
+port_tag_re = re.compile(r"(source|sink)Port:([^:]*):(.*)")
 
 
 class Port(Enum):
-- 
2.43.0


From 9ebc25f5f7dc9ec6261d4dd2b55546dd1e00fe9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:47 +0000
Subject: [PATCH 53/68] fix: reopen the PVAccess channels of a block when the
 type of one of its structures changes

---
 malcolm/modules/pva/controllers/pvaconvert.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/malcolm/modules/pva/controllers/pvaconvert.py b/malcolm/modules/pva/controllers/pvaconvert.py
index 74a9587..493d9e4 100644
--- a/malcolm/modules/pva/controllers/pvaconvert.py
+++ b/malcolm/modules/pva/controllers/pvaconvert.py
@@ -146,5 +146,9 @@ def convert_value_to_dict(v: Value) -> Dict:
 def update_path(value: Value, path: List[str], update: Any) -> None:
     for p in path[:-1]:
         value = value[p]
-    _, update = convert_to_type_tuple_value(update)
+    spec, update = convert_to_type_tuple_value(update)
+    if isinstance(spec, tuple):
+        # Fields of a structure that went away or changed type can't be updated
+        typ = value.type()[path[-1]].aspy()
+        assert typ == spec, f"Type of {path} changed from {typ} to {spec}"
     value[path[-1]] = update
-- 
2.43.0


From 0c8fe52b6408d10fe7a76986be02daf1b2c61652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:47 +0000
Subject: [PATCH 54/68] fix: return the bare value of a method called through
 PVAccess

---
 malcolm/modules/pva/controllers/pvaclientcomms.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/malcolm/modules/pva/controllers/pvaclientcomms.py b/malcolm/modules/pva/controllers/pvaclientcomms.py
index bb5a447..ebd137e 100644
--- a/malcolm/modules/pva/controllers/pvaclientcomms.py
+++ b/malcolm/modules/pva/controllers/pvaclientcomms.py
@@ -163,4 +163,9 @@ class PvaClientComms(builtin.controllers.ClientComms):
 
         uri = uri.wrap(path=f"{mri}.{method_name}", kws=parameters, scheme="pva")
         value = self._ctxt.rpc(mri, uri, timeout=None)
-        return convert_value_to_dict(value)
+        ret = convert_value_to_dict(value)
+        if list(ret) == ["return"]:
+            # Method gave a bare value, the server wrapped it in a structure
+            return ret["return"]
+        # Empty structure means that nothing was returned
+        return ret or None
-- 
2.43.0


From e4febe31fff8847681887bc445a3dcabe9488bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:58 +0000
Subject: [PATCH 55/68] fix: update the labels of an NTTable served over
 PVAccess

---
 malcolm/modules/pva/controllers/pvaconvert.py | 23 +++++++++++--------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/malcolm/modules/pva/controllers/pvaconvert.py b/malcolm/modules/pva/controllers/pvaconvert.py
index 493d9e4..8cf389e 100644
--- a/malcolm/modules/pva/controllers/pvaconvert.py
+++ b/malcolm/modules/pva/controllers/pvaconvert.py
@@ -34,6 +34,11 @@ specifier_types = {v: k for k, v in type_specifiers.items()}
 type_specifiers.update({bool: "?", int: "l", float: "d"})
 
 
+def table_labels(elements: Any) -> List[str]:
+    """Labels of the columns of an NTTable, from the metas of its elements"""
+    return [elements[name]["label"] or name for name in elements]
+
+
 def convert_to_type_tuple_value(value: Any) -> Tuple[Any, Any]:
     # cheaper than a subclass check
     value_for_set: Any
@@ -67,16 +72,8 @@ def convert_to_type_tuple_value(value: Any) -> Tuple[Any, Any]:
         # Special case NTTable labels
         if typeid == NTTable.typeid:
             # Add labels for compatibility with epics normative types
-            labels = []
-            elements = value["meta"]["elements"]
-            for column_name in elements:
-                column_meta = elements[column_name]
-                if column_meta["label"]:
-                    labels.append(column_meta["label"])
-                else:
-                    labels.append(column_name)
             fields.append(("labels", "as"))
-            value_for_set["labels"] = labels
+            value_for_set["labels"] = table_labels(value["meta"]["elements"])
         for k in value:
             if k != "typeid":
                 t, v_set = convert_to_type_tuple_value(value[k])
@@ -144,7 +141,10 @@ def convert_value_to_dict(v: Value) -> Dict:
 
 
 def update_path(value: Value, path: List[str], update: Any) -> None:
+    table = None
     for p in path[:-1]:
+        if value.getID() == NTTable.typeid and p == "meta":
+            table = value
         value = value[p]
     spec, update = convert_to_type_tuple_value(update)
     if isinstance(spec, tuple):
@@ -152,3 +152,8 @@ def update_path(value: Value, path: List[str], update: Any) -> None:
         typ = value.type()[path[-1]].aspy()
         assert typ == spec, f"Type of {path} changed from {typ} to {spec}"
     value[path[-1]] = update
+    if table is not None:
+        # The labels might have been what changed
+        labels = table_labels(table["meta"]["elements"])
+        if labels != list(table["labels"]):
+            table["labels"] = labels
-- 
2.43.0


From 0d2ab95b348b1c66c6a4f98b78e4717e20256155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:37 +0000
Subject: [PATCH 56/68] fix: start the PVA server again when a disabled
 PvaServerComms is reset

disable stopped the server and nothing started it again, so the blocks stayed
unreachable over PVAccess although the comms block was Ready
---
 malcolm/modules/pva/controllers/pvaservercomms.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/malcolm/modules/pva/controllers/pvaservercomms.py b/malcolm/modules/pva/controllers/pvaservercomms.py
index 5ecad9e..d84704d 100644
--- a/malcolm/modules/pva/controllers/pvaservercomms.py
+++ b/malcolm/modules/pva/controllers/pvaservercomms.py
@@ -326,6 +326,13 @@ class PvaServerComms(builtin.controllers.ServerComms):
 
     def do_init(self):
         super().do_init()
+        self._start_server()
+
+    def do_reset(self):
+        super().do_reset()
+        self._start_server()
+
+    def _start_server(self):
         if self._pva_server is None:
             self.log.info("Starting PVA server")
             self._provider = DynamicProvider("PvaServerComms", self)
-- 
2.43.0


From 2c69d3308c9a75ce50783e5c00618c5d94c4134f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:25 +0000
Subject: [PATCH 57/68] fix: odin files of scans that do not fill whole rounds
 of blocks have the right length

---
 malcolm/modules/ADOdin/parts/odinwriterpart.py      | 2 +-
 malcolm/modules/xspress3/parts/xspresswriterpart.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/malcolm/modules/ADOdin/parts/odinwriterpart.py b/malcolm/modules/ADOdin/parts/odinwriterpart.py
index 807c516..b967952 100644
--- a/malcolm/modules/ADOdin/parts/odinwriterpart.py
+++ b/malcolm/modules/ADOdin/parts/odinwriterpart.py
@@ -95,7 +95,7 @@ def create_raw_dataset_infos(
 
 def files_shape(frames, block_size, file_count):
     # all files get at least per_file blocks
-    per_file = int(frames) / int(file_count * block_size)
+    per_file = int(frames) // int(file_count * block_size)
     # this is the remainder once per_file blocks have been distributed
     remainder = int(frames) % int(file_count * block_size)
 
diff --git a/malcolm/modules/xspress3/parts/xspresswriterpart.py b/malcolm/modules/xspress3/parts/xspresswriterpart.py
index 8403440..3f55139 100644
--- a/malcolm/modules/xspress3/parts/xspresswriterpart.py
+++ b/malcolm/modules/xspress3/parts/xspresswriterpart.py
@@ -109,7 +109,7 @@ def create_raw_dataset_infos(
 
 def files_shape(frames, block_size, file_count):
     # all files get at least per_file blocks
-    per_file = int(frames) / int(file_count * block_size)
+    per_file = int(frames) // int(file_count * block_size)
     # this is the remainder once per_file blocks have been distributed
     remainder = int(frames) % int(file_count * block_size)
 
-- 
2.43.0


From a01e13b3712e6869cdf861127c7fdc9400f50ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:25 +0000
Subject: [PATCH 58/68] fix: odin only shows the raw datasets its file has

---
 malcolm/modules/ADOdin/parts/odinwriterpart.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/malcolm/modules/ADOdin/parts/odinwriterpart.py b/malcolm/modules/ADOdin/parts/odinwriterpart.py
index b967952..4bb416e 100644
--- a/malcolm/modules/ADOdin/parts/odinwriterpart.py
+++ b/malcolm/modules/ADOdin/parts/odinwriterpart.py
@@ -73,7 +73,7 @@ def create_dataset_infos(
 def create_raw_dataset_infos(
     name: str, rank: int, filename: str, n_raw: int
 ) -> Iterator[Info]:
-    for i in range(n_raw + 1):
+    for i in range(n_raw):
         yield scanning.infos.DatasetProducedInfo(
             name=f"{name}.raw{i+1}",
             filename=filename,
@@ -82,7 +82,7 @@ def create_raw_dataset_infos(
             path="/raw" + str(i + 1),
             uniqueid="",
         )
-    for i in range(n_raw + 1):
+    for i in range(n_raw):
         yield scanning.infos.DatasetProducedInfo(
             name=f"{name}.uid{i+1}",
             filename=filename,
-- 
2.43.0


From c9cda31d9d00476aec71fedd417a5ebb1414a3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:25 +0000
Subject: [PATCH 59/68] fix: odin raw uid links point at the uid dataset
 whatever its name

---
 malcolm/modules/ADOdin/parts/odinwriterpart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malcolm/modules/ADOdin/parts/odinwriterpart.py b/malcolm/modules/ADOdin/parts/odinwriterpart.py
index 4bb416e..c90d661 100644
--- a/malcolm/modules/ADOdin/parts/odinwriterpart.py
+++ b/malcolm/modules/ADOdin/parts/odinwriterpart.py
@@ -200,7 +200,7 @@ def create_vds(generator, raw_name, vds_path, child, uid_name, sum_name):
         count = 1
         for f in files:
             vds["raw" + str(count)] = h5py.ExternalLink(f, "/data")
-            vds["uid" + str(count)] = h5py.ExternalLink(f, "/uid")
+            vds["uid" + str(count)] = h5py.ExternalLink(f, f"/{uid_name}")
             count += 1
 
     shape = (hdf_shape, 1, 1)
-- 
2.43.0


From 3ae3844c917b2b02fec3c52ebbb32688a138045c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:25 +0000
Subject: [PATCH 60/68] fix: xspress3 reports steps, not the frames of all of
 its writers

---
 malcolm/modules/xspress3/parts/xspresswriterpart.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/malcolm/modules/xspress3/parts/xspresswriterpart.py b/malcolm/modules/xspress3/parts/xspresswriterpart.py
index 3f55139..520f59f 100644
--- a/malcolm/modules/xspress3/parts/xspresswriterpart.py
+++ b/malcolm/modules/xspress3/parts/xspresswriterpart.py
@@ -488,6 +488,7 @@ class XspressWriterPart(builtin.parts.ChildPart):
         child.stop()
 
     def update_completed_steps(self, value: int) -> None:
-        completed_steps = value + self.unique_id_offset
+        # Every pair captures a frame for each step
+        completed_steps = value // self.num_pairs + self.unique_id_offset
         assert self.registrar, "No registrar"
         self.registrar.report(scanning.infos.RunProgressInfo(completed_steps))
-- 
2.43.0


From fc5b1674b864856684902f85432276aa8d744600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:41 +0000
Subject: [PATCH 61/68] fix: a CA table goes into alarm, is disconnected and
 recovers with its PVs

---
 malcolm/modules/ca/util.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/malcolm/modules/ca/util.py b/malcolm/modules/ca/util.py
index b5c0bc8..790f093 100644
--- a/malcolm/modules/ca/util.py
+++ b/malcolm/modules/ca/util.py
@@ -156,11 +156,7 @@ class CABase(Loggable):
         now = time.time()
         delta = now - self._update_after
         if value_index is not None and hasattr(self, "name_list"):
-            value_key = self.name_list[value_index]
-            self._local_value[value_key] = value
-            self._local_value.raw_stamp = getattr(value, "raw_stamp", (None, None))
-            self._local_value.ok = self._local_value.ok or value.ok
-            self._local_value.severity = max(self._local_value.severity, value.severity)
+            self._local_value.update_column(self.name_list[value_index], value)
             self._update_value(self._local_value)
         else:
             self._update_value(value)
@@ -278,6 +274,21 @@ class CATable(dict):
     severity = 0
     raw_stamp = (None, None)
 
+    def __init__(self):
+        super().__init__()
+        # {name: last update of the PV}
+        self.updates = {}
+
+    def update_column(self, name, value):
+        self.updates[name] = value
+        self.ok = all(v.ok for v in self.updates.values())
+        if value.ok:
+            # Keep the last good data of a disconnected PV
+            self[name] = value
+            self.raw_stamp = getattr(value, "raw_stamp", (None, None))
+        if self.ok:
+            self.severity = max(v.severity for v in self.updates.values())
+
 
 class WaveformTableAttribute(CABase):
     def __init__(
@@ -347,9 +358,7 @@ class WaveformTableAttribute(CABase):
         for ind, value in enumerate(ca_values):
             if self.on_connect:
                 self.on_connect(value)
-            self._local_value[self.name_list[ind]] = value
-            self._local_value.severity = max(self._local_value.severity, value.severity)
-            self._local_value.ok = self._local_value.ok or value.ok
+            self._local_value.update_column(self.name_list[ind], value)
         self._update_value(self._local_value)
         # now setup monitors for all the things
         self.monitor = catools.camonitor(
-- 
2.43.0


From 319a750b9981690e85627f63358c27f140fd819d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:42 +0000
Subject: [PATCH 62/68] fix: a CA table survives a change of the length of its
 PVs

---
 malcolm/modules/ca/util.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/malcolm/modules/ca/util.py b/malcolm/modules/ca/util.py
index 790f093..bd0660d 100644
--- a/malcolm/modules/ca/util.py
+++ b/malcolm/modules/ca/util.py
@@ -157,7 +157,11 @@ class CABase(Loggable):
         delta = now - self._update_after
         if value_index is not None and hasattr(self, "name_list"):
             self._local_value.update_column(self.name_list[value_index], value)
-            self._update_value(self._local_value)
+            # The PVs update one at a time, so if they have just changed length
+            # then wait for the rest of them
+            lengths = set(len(v) for v in self._local_value.values())
+            if len(lengths) == 1 or not self._local_value.ok:
+                self._update_value(self._local_value)
         else:
             self._update_value(value)
         # See how long to sleep for to make sure we don't get more than one
-- 
2.43.0


From 6ad905c3f5b03a2100b0b3ceb2afb37855671424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:42 +0000
Subject: [PATCH 63/68] fix: CA parts with throw=False can start while their PV
 is disconnected

---
 malcolm/modules/ca/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/malcolm/modules/ca/util.py b/malcolm/modules/ca/util.py
index bd0660d..6b29e8f 100644
--- a/malcolm/modules/ca/util.py
+++ b/malcolm/modules/ca/util.py
@@ -242,7 +242,7 @@ class CAAttribute(CABase):
             self.throw,
         )
 
-        if self.on_connect:
+        if self.on_connect and ca_values[0].ok:
             self.on_connect(ca_values[0])
         self._update_value(ca_values[0])
         # now setup monitor on rbv
@@ -360,7 +360,7 @@ class WaveformTableAttribute(CABase):
         )
 
         for ind, value in enumerate(ca_values):
-            if self.on_connect:
+            if self.on_connect and value.ok:
                 self.on_connect(value)
             self._local_value.update_column(self.name_list[ind], value)
         self._update_value(self._local_value)
-- 
2.43.0


From 8a03e22b195e67d03a6898d23731d7f17086f59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:42 +0000
Subject: [PATCH 64/68] fix: a CA action that was disconnected is shown again
 after it connects

---
 malcolm/modules/ca/parts/caactionpart.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/malcolm/modules/ca/parts/caactionpart.py b/malcolm/modules/ca/parts/caactionpart.py
index fb7b2ac..be665b2 100644
--- a/malcolm/modules/ca/parts/caactionpart.py
+++ b/malcolm/modules/ca/parts/caactionpart.py
@@ -80,6 +80,10 @@ class CAActionPart(Part):
         if self.message_pv:
             pvs.append(self.message_pv)
         ca_values = util.catools.caget(pvs, throw=self.throw)
+        hidden = tags.method_hidden()
+        if not self.throw:
+            # Might have been hidden last time, show unless we can't connect
+            self.method.meta.set_tags([t for t in self.method.meta.tags if t != hidden])
         # check connection is ok
         try:
             for v in ca_values:
@@ -91,9 +95,7 @@ class CAActionPart(Part):
             if self.throw:
                 raise e
             else:
-                self.method.meta.set_tags(
-                    list(self.method.meta.tags) + [tags.method_hidden()]
-                )
+                self.method.meta.set_tags(list(self.method.meta.tags) + [hidden])
 
     def wait_for_good_status(self, deadline):
         q = Queue()
-- 
2.43.0


From 0be49ea447d994286eb26f9ff8d0c36f82b38a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:13 +0000
Subject: [PATCH 65/68] fix: the first row of the PandA positions can be an
 axis of the kinematics

---
 malcolm/modules/ADPandABlocks/parts/kinematicssavupart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malcolm/modules/ADPandABlocks/parts/kinematicssavupart.py b/malcolm/modules/ADPandABlocks/parts/kinematicssavupart.py
index a8e2359..fd1cf07 100644
--- a/malcolm/modules/ADPandABlocks/parts/kinematicssavupart.py
+++ b/malcolm/modules/ADPandABlocks/parts/kinematicssavupart.py
@@ -187,7 +187,7 @@ class KinematicsSavuPart(builtin.parts.ChildPart):
                         self.use_min_max = False
 
             # Check there was a dataset for the axis
-            assert dataset_i, f"No value dataset for {scannable}"
+            assert dataset_i is not None, f"No value dataset for {scannable}"
 
         if self.use_min_max:
             dtypes["min"] = scanning.infos.DatasetType.POSITION_MIN
-- 
2.43.0


From 71ff3412376908815e35a1bbba1105d27f26930f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:40 +0000
Subject: [PATCH 66/68] fix: the scan runner can run a scan block of another
 process

The state of a proxied block has been deserialized, so it is never the
same object as the constant it was compared with
---
 malcolm/modules/scanning/parts/scanrunnerpart.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/malcolm/modules/scanning/parts/scanrunnerpart.py b/malcolm/modules/scanning/parts/scanrunnerpart.py
index e8b068c..0e348c5 100644
--- a/malcolm/modules/scanning/parts/scanrunnerpart.py
+++ b/malcolm/modules/scanning/parts/scanrunnerpart.py
@@ -342,7 +342,7 @@ class ScanRunnerPart(ChildPart):
 
     @staticmethod
     def scan_is_aborting(scan_block):
-        return scan_block.state.value is RunnableStates.ABORTING
+        return scan_block.state.value == RunnableStates.ABORTING
 
     def run_scan(
         self,
@@ -364,7 +364,7 @@ class ScanRunnerPart(ChildPart):
             self.context.sleep(0.1)
 
         # Run the scan and capture the outcome
-        if scan_block.state.value is not RunnableStates.READY:
+        if scan_block.state.value != RunnableStates.READY:
             scan_block.reset()
 
         # Configure first
-- 
2.43.0


From da58632ac28cfe58c701e33ad4700710116c997b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:40 +0000
Subject: [PATCH 67/68] fix: a scan file with a bad scan puts the scan runner
 in fault

---
 malcolm/modules/scanning/parts/scanrunnerpart.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/malcolm/modules/scanning/parts/scanrunnerpart.py b/malcolm/modules/scanning/parts/scanrunnerpart.py
index 0e348c5..8517aa1 100644
--- a/malcolm/modules/scanning/parts/scanrunnerpart.py
+++ b/malcolm/modules/scanning/parts/scanrunnerpart.py
@@ -219,10 +219,15 @@ class ScanRunnerPart(ChildPart):
         for item in parsed_yaml:
             key_name = list(item.keys())[0].upper()
             if key_name == EntryType.SCAN.name:
-                self.parse_scan(item["scan"])
+                try:
+                    self.parse_scan(item["scan"])
+                except Exception:
+                    self.set_runner_state(RunnerStates.FAULT)
+                    self.runner_status_message.set_value("Could not parse scan")
+                    raise
             else:
                 self.set_runner_state(RunnerStates.FAULT)
-                self.runner_status_message.value = "Unidentified key in YAML"
+                self.runner_status_message.set_value("Unidentified key in YAML")
                 raise ValueError(f"Unidentified object in YAML: {key_name}")
 
         # Count the number of scans configured
-- 
2.43.0


From 323aa0260377e6eda6701e3e322466bd052d455d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:59 +0000
Subject: [PATCH 68/68] fix: xmap takes the pixels of all the rows that it is
 armed for

---
 malcolm/modules/xmap/parts/xmapdriverpart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malcolm/modules/xmap/parts/xmapdriverpart.py b/malcolm/modules/xmap/parts/xmapdriverpart.py
index 4c532f9..2587aaf 100644
--- a/malcolm/modules/xmap/parts/xmapdriverpart.py
+++ b/malcolm/modules/xmap/parts/xmapdriverpart.py
@@ -41,7 +41,7 @@ class XmapDriverPart(ADCore.parts.DetectorDriverPart):
             pixelAdvanceMode="Gate",
             presetMode="No preset",
             ignoreGate="No",
-            pixelsPerRun=steps_to_do,
+            pixelsPerRun=num_images,
             autoPixelsPerBuffer="Manual",
             pixelsPerBuffer=1,
             binsInSpectrum=2048,
-- 
2.43.0

