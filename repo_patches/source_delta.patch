From ce1281fd43a9cbedbd950e21de84ee7ce019d177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:26 +0000
Subject: [PATCH 01/18] fix: express one less than the number of pixels raised
 IndexError

The test for separate first transfers was repeated after n_pixels had been
decremented, so it came out differently for express == n_pixels - 1.
---
 arcticpy/roe.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/arcticpy/roe.py b/arcticpy/roe.py
index f73794a..a625af0 100644
--- a/arcticpy/roe.py
+++ b/arcticpy/roe.py
@@ -522,7 +522,10 @@ class ROE(ROEAbstract):
 
         # Temporarily ignore the first pixel-to-pixel transfer, if it is to be
         # handled differently than the rest
-        if self.empty_traps_for_first_transfers and express < n_pixels:
+        separate_first_transfers = (
+            self.empty_traps_for_first_transfers and express < n_pixels
+        )
+        if separate_first_transfers:
             n_pixels -= 1
 
         # Initialise an array with enough pixels to contain the supposed image,
@@ -548,7 +551,7 @@ class ROE(ROEAbstract):
         # Add an extra (first) transfer for every pixel, the effect of which
         # will only ever be counted once, because it is physically different
         # from the other transfers (it sees only empty traps)
-        if self.empty_traps_for_first_transfers and express < n_pixels:
+        if separate_first_transfers:
             # Store current matrix, which is correct for one-too-few pixel-to-pixel transfers
             express_matrix_small = express_matrix
             # Create a new matrix for the full number of transfers
-- 
2.43.0


From 251b71a8e284c5997bd4552727fde1159c5f32db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:26 +0000
Subject: [PATCH 02/18] fix: charge injection with integer express multipliers
 raised NameError

roe.py used math and util without importing them.
---
 arcticpy/roe.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arcticpy/roe.py b/arcticpy/roe.py
index a625af0..a69ec3f 100644
--- a/arcticpy/roe.py
+++ b/arcticpy/roe.py
@@ -48,9 +48,12 @@ phase 2 is closer than phase 1:
 | Readout   
 +----------- 
 """
+import math
 import numpy as np
 from copy import deepcopy
 
+from arcticpy import util
+
 
 class ROEPhase(object):
     def __init__(
-- 
2.43.0


From b79e3ed0c8fc9c65790a204444998de886840605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:26 +0000
Subject: [PATCH 03/18] fix: charge injection kept the first image's number of
 transfers

The default was stored on the ROE object, so using it again for an image of
another size modelled the wrong number of transfers.
---
 arcticpy/roe.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/arcticpy/roe.py b/arcticpy/roe.py
index a69ec3f..94a7751 100644
--- a/arcticpy/roe.py
+++ b/arcticpy/roe.py
@@ -694,25 +694,27 @@ class ROEChargeInjection(ROE):
 
         window_range = range(pixels) if isinstance(pixels, int) else pixels
         n_pixels = max(window_range) + 1
-        if self.n_pixel_transfers is None:
-            self.n_pixel_transfers = n_pixels + offset
+        # Don't store the default, so that it isn't kept for the next image
+        n_pixel_transfers = self.n_pixel_transfers
+        if n_pixel_transfers is None:
+            n_pixel_transfers = n_pixels + offset
 
         # Set default express to all transfers and check no larger
         if express == 0:
-            express = self.n_pixel_transfers
+            express = n_pixel_transfers
         else:
-            express = min(express, self.n_pixel_transfers)
+            express = min(express, n_pixel_transfers)
 
         # Compute the multiplier factors
         express_matrix = np.zeros((express, n_pixels), dtype=self.express_matrix_dtype)
-        max_multiplier = self.n_pixel_transfers / express
+        max_multiplier = n_pixel_transfers / express
         if self.express_matrix_dtype == int:
             max_multiplier = math.ceil(max_multiplier)
             for i in reversed(range(express)):
                 express_matrix[i, :] = util.set_min_max(
                     max_multiplier,
                     0,
-                    self.n_pixel_transfers - sum(express_matrix[:, 0]),
+                    n_pixel_transfers - sum(express_matrix[:, 0]),
                 )
         else:
             express_matrix[:] = max_multiplier
-- 
2.43.0


From 3fb050e6cf967066275650664cfffef11ba2bbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:26 +0000
Subject: [PATCH 04/18] fix: charge injection with a window not starting at 0
 raised IndexError

The express matrix had a column for every pixel up to the end of the window
instead of one for every pixel in the window.
---
 arcticpy/roe.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/arcticpy/roe.py b/arcticpy/roe.py
index 94a7751..ae2f5d1 100644
--- a/arcticpy/roe.py
+++ b/arcticpy/roe.py
@@ -727,7 +727,14 @@ class ROEChargeInjection(ROE):
             express_matrix, time_window_range
         )
 
-        return express_matrix.astype(float), monitor_traps_matrix
+        # Keep only the spatial region of interest
+        express_matrix = express_matrix[:, window_range]
+        monitor_traps_matrix = monitor_traps_matrix[:, window_range]
+
+        return (
+            np.ascontiguousarray(express_matrix.astype(float)),
+            np.ascontiguousarray(monitor_traps_matrix),
+        )
 
     def save_trap_states_matrix_from_express_matrix(self, express_matrix):
         """
-- 
2.43.0


From c83adceea05bcc86815f908773561183dfbe361b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:26 +0000
Subject: [PATCH 05/18] fix: saving trap states with a single pixel raised
 UnboundLocalError

---
 arcticpy/roe.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arcticpy/roe.py b/arcticpy/roe.py
index ae2f5d1..b1d1767 100644
--- a/arcticpy/roe.py
+++ b/arcticpy/roe.py
@@ -621,6 +621,7 @@ class ROE(ROEAbstract):
 
         if not self.empty_traps_for_first_transfers:
             for express_index in range(n_express - 1):
+                row_index = 0
                 for row_index in range(n_pixels - 1):
                     if express_matrix[express_index + 1, row_index + 1] > 0:
                         break
-- 
2.43.0


From 69e16f512608b6782a6eb6985e34996249a2140a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:26 +0000
Subject: [PATCH 06/18] fix: integer trap-pumping multipliers could be negative

Rounding every multiplier and putting the whole remainder on the last could
make it negative, so that more than n_pumps pumps were modelled.
---
 arcticpy/roe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arcticpy/roe.py b/arcticpy/roe.py
index b1d1767..b65a0de 100644
--- a/arcticpy/roe.py
+++ b/arcticpy/roe.py
@@ -871,8 +871,8 @@ class ROETrapPumping(ROEAbstract):
         # Make sure all values are integers, but still add up to the desired
         # number of pumps
         if self.express_matrix_dtype == int:
-            express_multipliers = list(map(int, np.round(express_multipliers)))
-            express_multipliers[-1] += self.n_pumps - sum(express_multipliers)
+            n_pumps_done = np.round(np.cumsum([0.0] + express_multipliers))
+            express_multipliers = list(map(int, np.diff(n_pumps_done)))
 
         # Initialise an array
         express_matrix = np.zeros(
-- 
2.43.0


From 6c183e919106cc33d2ece583fb7e091e9d90bef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:59 +0000
Subject: [PATCH 07/18] fix: charge released before the first pixel was written
 out of bounds

---
 arcticpy/main_utils.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arcticpy/main_utils.pyx b/arcticpy/main_utils.pyx
index 7914981..52e8512 100644
--- a/arcticpy/main_utils.pyx
+++ b/arcticpy/main_utils.pyx
@@ -10,7 +10,7 @@ from arcticpy.trap_managers import AllTrapManager
 
 @cython.boundscheck(False)
 @cython.nonecheck(False)
-@cython.wraparound(False)
+@cython.wraparound(True)  # A pixel before the first one is in the zero padding
 def cy_clock_charge_in_one_direction(
     image_in,
     ccd,
-- 
2.43.0


From 26b5f2c4c91dd582ddb5bba357bb6ff6d02be413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:08 +0000
Subject: [PATCH 08/18] fix: a first capture with a cloud of no volume left
 stale fill fractions

---
 arcticpy/trap_managers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arcticpy/trap_managers.py b/arcticpy/trap_managers.py
index 295e298..4fa15ec 100644
--- a/arcticpy/trap_managers.py
+++ b/arcticpy/trap_managers.py
@@ -750,7 +750,7 @@ class TrapManager(object):
         # with the existing watermark levels:
 
         # First capture (no existing watermarks)
-        if max_watermark_index == -1 and n_free_electrons > 0:
+        if max_watermark_index == -1 and cloud_fractional_volume > 0:
             # Make the new watermark then can return immediately
             n_trapped_electrons_final = self._n_electrons_released_and_captured__first_capture(
                 n_free_electrons,
@@ -1067,7 +1067,7 @@ class TrapManagerInstantCapture(TrapManager):
         # with the existing watermark levels:
 
         # First capture (no existing watermarks)
-        if max_watermark_index == -1 and n_free_electrons > 0:
+        if max_watermark_index == -1 and cloud_fractional_volume > 0:
             # Make the new watermark then can return immediately
             n_trapped_electrons_final = self._n_electrons_captured__first_capture(
                 n_free_electrons,
-- 
2.43.0


From 5c00e78d24477a33fca5516142b3a61ac72496e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:17 +0000
Subject: [PATCH 09/18] fix: released charge rising above the top watermark
 made a negative volume

---
 arcticpy/trap_managers.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/arcticpy/trap_managers.py b/arcticpy/trap_managers.py
index 4fa15ec..179e3e8 100644
--- a/arcticpy/trap_managers.py
+++ b/arcticpy/trap_managers.py
@@ -647,8 +647,19 @@ class TrapManager(object):
             max_watermark_index=max_watermark_index,
         )
 
+        # The released charge has raised the cloud above all existing watermarks
+        if watermark_index_above_cloud > max_watermark_index:
+            # Initialise the new watermark, duplicated for the initial watermarks
+            self.watermarks[
+                watermark_index_above_cloud, 0
+            ] = cloud_fractional_volume - np.sum(self.watermarks[:, 0])
+            watermarks_initial[watermark_index_above_cloud, 0] = self.watermarks[
+                watermark_index_above_cloud, 0
+            ]
+            max_watermark_index += 1
+
         # Update the watermark volumes, duplicated for the initial watermarks
-        if cloud_fractional_volume > 0 and not cy_value_in_cumsum(
+        elif cloud_fractional_volume > 0 and not cy_value_in_cumsum(
             cloud_fractional_volume, self.watermarks[:, 0]
         ):
             self.watermarks = self.update_watermark_volumes_for_cloud_below_highest(
-- 
2.43.0


From b188a081bd46d9e5e357b563613c0c0ded5b6043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:57 +0000
Subject: [PATCH 10/18] fix: more electrons could be captured than were
 available

---
 arcticpy/trap_managers.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/arcticpy/trap_managers.py b/arcticpy/trap_managers.py
index 179e3e8..ce09e37 100644
--- a/arcticpy/trap_managers.py
+++ b/arcticpy/trap_managers.py
@@ -731,6 +731,7 @@ class TrapManager(object):
         # Initial watermarks and number of electrons in traps
         # watermarks_initial = deepcopy(self.watermarks)
         watermarks_initial = np.array(self.watermarks)
+        n_free_electrons_initial = max(n_free_electrons, 0)
         n_trapped_electrons_initial = self.n_trapped_electrons_from_watermarks(
             watermarks=self.watermarks
         )
@@ -831,11 +832,12 @@ class TrapManager(object):
         if n_trapped_electrons_final == n_trapped_electrons_initial:
             return 0
 
-        # Not enough available electrons to capture
-        enough = n_free_electrons / (
+        # Not enough available electrons to capture. (Any released above the cloud
+        # are already accounted for in the net change of the trapped electrons.)
+        enough = n_free_electrons_initial / (
             n_trapped_electrons_final - n_trapped_electrons_initial
         )
-        if 0 < enough < 1:
+        if n_trapped_electrons_final > n_trapped_electrons_initial and enough < 1:
             # For watermark fill fractions that increased, tweak them such that
             # the resulting increase instead matches the available electrons
             self.watermarks = self.updated_watermarks_from_capture_not_enough(
-- 
2.43.0


From f7e43658fc5c9adfc806ba489d907f8d517b5479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:37 +0000
Subject: [PATCH 11/18] fix: the watermark array could overflow

---
 arcticpy/trap_managers.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/arcticpy/trap_managers.py b/arcticpy/trap_managers.py
index ce09e37..09beb9d 100644
--- a/arcticpy/trap_managers.py
+++ b/arcticpy/trap_managers.py
@@ -365,6 +365,18 @@ class TrapManager(object):
         """ Reset the trap watermarks for the next run of release and capture. """
         self.watermarks.fill(0)
 
+    def make_space_for_new_watermarks(self):
+        """ Extend the watermark array if the next transfer could overflow it.
+        
+        e.g. if the traps are not emptied between columns, or for slow capture, 
+        there may be more transfers without resets than the max_n_transfers.
+        """
+        n_unused = np.sum(self.watermarks[:, 0] == 0)
+        if n_unused <= self.n_watermarks_per_transfer:
+            n_rows, n_columns = self.watermarks.shape
+            new_rows = np.zeros((n_rows + self.n_watermarks_per_transfer, n_columns))
+            self.watermarks = np.concatenate((self.watermarks, new_rows))
+
     def watermark_index_above_cloud_from_cloud_fractional_volume(
         self, cloud_fractional_volume, watermarks, max_watermark_index
     ):
@@ -728,6 +740,8 @@ class TrapManager(object):
             The updated watermarks. See 
             initial_watermarks_from_n_pixels_and_total_traps().
         """
+        self.make_space_for_new_watermarks()
+
         # Initial watermarks and number of electrons in traps
         # watermarks_initial = deepcopy(self.watermarks)
         watermarks_initial = np.array(self.watermarks)
@@ -1054,6 +1068,8 @@ class TrapManagerInstantCapture(TrapManager):
             The updated watermarks. See 
             initial_watermarks_from_n_pixels_and_total_traps().
         """
+        self.make_space_for_new_watermarks()
+
         # Save the initial watermarks and number of electrons in traps, in case
         # there aren't enough free electrons to fill all the identified traps
         watermarks_initial = deepcopy(self.watermarks)
-- 
2.43.0


From 9f385c70f7db02e713001df3577b637b0f968713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:52 +0000
Subject: [PATCH 12/18] fix: time-tracked traps failed when there were not
 enough electrons to capture

---
 arcticpy/trap_managers.py | 40 ++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/arcticpy/trap_managers.py b/arcticpy/trap_managers.py
index 09beb9d..b585822 100644
--- a/arcticpy/trap_managers.py
+++ b/arcticpy/trap_managers.py
@@ -878,6 +878,10 @@ class TrapManagerInstantCapture(TrapManager):
     def n_watermarks_per_transfer(self):
         return 1
 
+    def watermarks_as_fill_fractions(self, watermarks):
+        """ Return a copy of the watermarks that stores the fill fractions. """
+        return deepcopy(watermarks)
+
     def update_watermark_values_for_release(self, watermark_values, dwell_time):
         """ 
         Update trap watermarks for releasing electrons.
@@ -1072,7 +1076,7 @@ class TrapManagerInstantCapture(TrapManager):
 
         # Save the initial watermarks and number of electrons in traps, in case
         # there aren't enough free electrons to fill all the identified traps
-        watermarks_initial = deepcopy(self.watermarks)
+        watermarks_initial = self.watermarks_as_fill_fractions(self.watermarks)
         n_trapped_electrons_initial = self.n_trapped_electrons_from_watermarks(
             watermarks=self.watermarks
         )
@@ -1297,6 +1301,12 @@ class TrapManagerTrackTime(TrapManagerInstantCapture):
 
         return watermarks
 
+    def watermarks_as_fill_fractions(self, watermarks):
+        """ Return a copy of the watermarks that stores the fill fractions. """
+        return self.watermarks_converted_to_fill_fractions_from_elapsed_times(
+            watermarks=watermarks
+        )
+
     def n_trapped_electrons_from_watermarks(self, watermarks):
         """ Sum the total number of electrons currently held in traps.
 
@@ -1329,7 +1339,7 @@ class TrapManagerTrackTime(TrapManagerInstantCapture):
             
         watermarks_initial : np.ndarray
             The initial watermarks before capture, but with updated fractional 
-            volumes to match the current watermarks.
+            volumes to match the current watermarks. These store fill fractions.
             
         enough : float
             The ratio of available electrons to traps up to this fractional 
@@ -1342,33 +1352,25 @@ class TrapManagerTrackTime(TrapManagerInstantCapture):
             initial_watermarks_from_n_pixels_and_total_traps().
         """
         # Convert to fill fractions
-        for level in range(np.argmax(watermarks[:, 0] == 0)):
-            for i_trap, trap in enumerate(self.traps):
-                watermarks[level, i_trap] = trap.fill_fraction_from_time_elapsed(
-                    time_elapsed=watermarks[level, i_trap]
-                )
-                watermarks_initial[
-                    level, i_trap
-                ] = trap.fill_fraction_from_time_elapsed(
-                    time_elapsed=watermarks_initial[level, i_trap]
-                )
+        watermarks_old = self.watermarks_as_fill_fractions(watermarks)
 
         # Update the fill fractions in the standard way
-        watermarks = super(
+        watermarks_new = super(
             TrapManagerTrackTime, self
         ).updated_watermarks_from_capture_not_enough(
-            self,
-            watermarks=watermarks,
+            watermarks=watermarks_old.copy(),
             watermarks_initial=watermarks_initial,
             enough=enough,
         )
 
-        # Convert back to elapsed times
+        # Convert any that changed back to elapsed times
         for level in range(np.argmax(watermarks[:, 0] == 0)):
             for i_trap, trap in enumerate(self.traps):
-                watermarks[level, i_trap] = trap.time_elapsed_from_fill_fraction(
-                    fill_fraction=watermarks[level, i_trap]
-                )
+                fill_fraction = watermarks_new[level, 1 + i_trap]
+                if fill_fraction != watermarks_old[level, 1 + i_trap]:
+                    watermarks[level, 1 + i_trap] = trap.time_elapsed_from_fill_fraction(
+                        fill_fraction=fill_fraction
+                    )
 
         return watermarks
 
-- 
2.43.0


From 141615e4149fcb955d6f4153b4fe0f662c6da705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:23 +0000
Subject: [PATCH 13/18] fix: time-tracked traps did not collapse full
 watermarks

---
 arcticpy/trap_managers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/arcticpy/trap_managers.py b/arcticpy/trap_managers.py
index b585822..0dc0287 100644
--- a/arcticpy/trap_managers.py
+++ b/arcticpy/trap_managers.py
@@ -504,7 +504,10 @@ class TrapManager(object):
         # Find the first watermark that is not completely filled for all traps
         watermark_index_not_filled = min(
             [
-                np.argmax(watermarks[:, 1 + i_trap] != self.filled_watermark_value)
+                np.argmax(
+                    (watermarks[:, 1 + i_trap] != self.filled_watermark_value)
+                    | (watermarks[:, 0] == 0)
+                )
                 for i_trap in range(num_traps)
             ]
         )
-- 
2.43.0


From 1879bbcc4dab4db644f9be26040d3ff1a664270f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:23 +0000
Subject: [PATCH 14/18] fix: error message for the wrong number of trap
 densities raised NameError

---
 arcticpy/trap_managers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arcticpy/trap_managers.py b/arcticpy/trap_managers.py
index 0dc0287..ac0ad11 100644
--- a/arcticpy/trap_managers.py
+++ b/arcticpy/trap_managers.py
@@ -290,7 +290,7 @@ class TrapManager(object):
     def n_traps_per_pixel(self, values):
         if len(values) != len(self.traps):
             raise ValueError(
-                f"{len(value)} trap densities supplied, for {len(self.traps)} species of traps"
+                f"{len(values)} trap densities supplied, for {len(self.traps)} species of traps"
             )
         for i, value in enumerate(values):
             self.traps[i].density = float(value)
-- 
2.43.0


From f88e7d93fb19c8025460e0aee8ac9f7aefa0f378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:33 +0000
Subject: [PATCH 15/18] fix: the default well_bloom_level was a nested list

---
 arcticpy/ccd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arcticpy/ccd.py b/arcticpy/ccd.py
index 41485a1..8230f84 100644
--- a/arcticpy/ccd.py
+++ b/arcticpy/ccd.py
@@ -152,6 +152,8 @@ class CCD(object):
 
     @well_bloom_level.setter
     def well_bloom_level(self, value):
+        if value is None:
+            value = list(self.full_well_depth)
         if isinstance(value, list):
             if len(value) != self.n_phases:
                 raise ValueError(
@@ -159,8 +161,6 @@ class CCD(object):
                 )
             self._well_bloom_level = value
         else:
-            if value is None:
-                value = self.full_well_depth
             self._well_bloom_level = [value] * self.n_phases
 
     def cloud_fractional_volume_from_n_electrons_and_phase(
-- 
2.43.0


From 7582c5f6fdd81cbe05c18111bbc3b8fa29d87115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:50 +0000
Subject: [PATCH 16/18] fix: rounding could make a watermark of zero volume in
 the middle of the list, and so lose the levels above it

---
 arcticpy/trap_managers.py        |  6 +++---
 arcticpy/trap_managers_utils.pyx | 22 ++++++++++++++--------
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/arcticpy/trap_managers.py b/arcticpy/trap_managers.py
index ac0ad11..695cf35 100644
--- a/arcticpy/trap_managers.py
+++ b/arcticpy/trap_managers.py
@@ -667,7 +667,7 @@ class TrapManager(object):
             # Initialise the new watermark, duplicated for the initial watermarks
             self.watermarks[
                 watermark_index_above_cloud, 0
-            ] = cloud_fractional_volume - np.sum(self.watermarks[:, 0])
+            ] = cloud_fractional_volume - np.cumsum(self.watermarks[:, 0])[-1]
             watermarks_initial[watermark_index_above_cloud, 0] = self.watermarks[
                 watermark_index_above_cloud, 0
             ]
@@ -820,7 +820,7 @@ class TrapManager(object):
             # Initialise the new watermark, duplicated for the initial watermarks
             self.watermarks[
                 watermark_index_above_cloud, 0
-            ] = cloud_fractional_volume - np.sum(self.watermarks[:, 0])
+            ] = cloud_fractional_volume - np.cumsum(self.watermarks[:, 0])[-1]
             watermarks_initial[watermark_index_above_cloud, 0] = self.watermarks[
                 watermark_index_above_cloud, 0
             ]
@@ -1135,7 +1135,7 @@ class TrapManagerInstantCapture(TrapManager):
             # Initialise the new watermark, duplicated for the initial watermarks
             self.watermarks[
                 watermark_index_above_cloud, 0
-            ] = cloud_fractional_volume - np.sum(self.watermarks[:, 0])
+            ] = cloud_fractional_volume - np.cumsum(self.watermarks[:, 0])[-1]
             watermarks_initial[watermark_index_above_cloud, 0] = self.watermarks[
                 watermark_index_above_cloud, 0
             ]
diff --git a/arcticpy/trap_managers_utils.pyx b/arcticpy/trap_managers_utils.pyx
index 1d09cba..8ca2f0b 100644
--- a/arcticpy/trap_managers_utils.pyx
+++ b/arcticpy/trap_managers_utils.pyx
@@ -109,14 +109,15 @@ cpdef void cy_update_watermark_volumes_for_cloud_below_highest(
 ):
     """ See update_watermark_volumes_for_cloud_below_highest() """
 
-    # The volume and cumulative volume of the watermark around the cloud volume
+    # The volume of the watermark around the cloud volume, and the cumulative
+    # volume below it
     cdef np.float64_t watermark_fractional_volume = watermarks[watermark_index_above_cloud, 0]
     cdef np.float64_t cumulative_watermark_fractional_volume = 0.0
-    cdef np.float64_t old_fractional_volume = 0.0
+    cdef np.float64_t upper_fractional_volume = 0.0
     cdef np.int64_t i, j
 
     with nogil:
-        for i in range(0, watermark_index_above_cloud + 1, 1):
+        for i in range(0, watermark_index_above_cloud, 1):
             cumulative_watermark_fractional_volume += watermarks[i, 0]
 
         # Move one new empty watermark to the start of the list
@@ -132,10 +133,15 @@ cpdef void cy_update_watermark_volumes_for_cloud_below_highest(
                     watermarks[i, j] = watermarks[i + 1, j]
 
         # Update the new split watermarks' volumes
-        old_fractional_volume = watermark_fractional_volume
-        watermarks[watermark_index_above_cloud, 0] = cloud_fractional_volume - (
-            cumulative_watermark_fractional_volume - watermark_fractional_volume
+        watermarks[watermark_index_above_cloud, 0] = (
+            cloud_fractional_volume - cumulative_watermark_fractional_volume
         )
-        watermarks[watermark_index_above_cloud + 1, 0] = (
-            old_fractional_volume - watermarks[watermark_index_above_cloud, 0]
+        upper_fractional_volume = (
+            watermark_fractional_volume - watermarks[watermark_index_above_cloud, 0]
         )
+        # Neither may be rounded to zero, as for an inactive watermark
+        if upper_fractional_volume <= 0.0:
+            upper_fractional_volume = (
+                cumulative_watermark_fractional_volume + watermark_fractional_volume
+            ) - cloud_fractional_volume
+        watermarks[watermark_index_above_cloud + 1, 0] = upper_fractional_volume
-- 
2.43.0


From dea583cfd2c6f641deaee3e4160446a933c39a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:57 +0000
Subject: [PATCH 17/18] fix: Integrate continuum trap lifetimes in units of mu,
 so that the quadrature cannot miss the distribution

---
 arcticpy/traps.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/arcticpy/traps.py b/arcticpy/traps.py
index 582a1ec..164ece9 100644
--- a/arcticpy/traps.py
+++ b/arcticpy/traps.py
@@ -284,10 +284,15 @@ class TrapLifetimeContinuumAbstract(TrapInstantCapture):
             The fraction of filled traps.
         """
 
-        def integrand(release_timescale, time_elapsed, mu, sigma):
-            return self.distribution_of_traps_with_lifetime(
-                release_timescale, mu, sigma
-            ) * np.exp(-time_elapsed / release_timescale)
+        # Integrate over the release timescale in units of mu, such that the
+        # quadrature does not miss the distribution at large or small lifetimes
+        def integrand(timescale_ratio, time_elapsed, mu, sigma):
+            release_timescale = timescale_ratio * mu
+            return (
+                mu
+                * self.distribution_of_traps_with_lifetime(release_timescale, mu, sigma)
+                * np.exp(-time_elapsed / release_timescale)
+            )
 
         fill_fraction = integrate.quad(
             integrand,
@@ -345,9 +350,12 @@ class TrapLifetimeContinuumAbstract(TrapInstantCapture):
             The number of released electrons.
         """
 
-        def integrand(release_timescale, time_elapsed, dwell_time, mu, sigma):
+        # As for the fill fraction, in units of mu
+        def integrand(timescale_ratio, time_elapsed, dwell_time, mu, sigma):
+            release_timescale = timescale_ratio * mu
             return (
-                self.distribution_of_traps_with_lifetime(release_timescale, mu, sigma)
+                mu
+                * self.distribution_of_traps_with_lifetime(release_timescale, mu, sigma)
                 * np.exp(-time_elapsed / release_timescale)
                 * (1 - np.exp(-dwell_time / release_timescale))
             )
-- 
2.43.0


From d84f6a4b2104c49fa726083644b310e40574ad37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:50 +0000
Subject: [PATCH 18/18] fix: Bracket the elapsed time of continuum traps,
 instead of failing for fill fractions near 1

---
 arcticpy/traps.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/arcticpy/traps.py b/arcticpy/traps.py
index 164ece9..c1a8ff3 100644
--- a/arcticpy/traps.py
+++ b/arcticpy/traps.py
@@ -320,13 +320,23 @@ class TrapLifetimeContinuumAbstract(TrapInstantCapture):
         time_elapsed : float
             The time elapsed, in the same units as the trap timescales.
         """
-        # Crudely iterate to find the time that gives the required fill fraction
+        assert fill_fraction >= 0
+
+        # The fill fraction never rises with time, so bracket the time that gives
+        # the required fill fraction
         def find_time(time_elapsed):
             return self.fill_fraction_from_time_elapsed(time_elapsed) - fill_fraction
 
-        time_elapsed = optimize.fsolve(find_time, 0.1 * self.release_timescale_mu)[0]
+        if find_time(0) <= 0:
+            return 0.0
+
+        time_max = self.release_timescale_mu
+        while find_time(time_max) > 0:
+            time_max *= 2
+
+        time_elapsed = optimize.brentq(find_time, 0, time_max)
 
-        # Check solution (seems to be slightly unreliable for very small sigmas)
+        # Check solution
         assert abs(find_time(time_elapsed)) < 1e-7
 
         return time_elapsed
-- 
2.43.0

