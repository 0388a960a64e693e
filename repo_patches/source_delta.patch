From 9734139649c5bcbfa5dd039c8a87a75f8ae4caf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:51 +0000
Subject: [PATCH 01/33] fix: place Cartesian motifs on the lattice spanned by
 the row vectors

build_from multiplied the cell indices by the transposed lattice matrix, so any
lattice whose vector matrix is not symmetric was tiled at points which are not
lattice points.
---
 src/pylattica/core/periodic_structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylattica/core/periodic_structure.py b/src/pylattica/core/periodic_structure.py
index e364bc0..b5fede7 100644
--- a/src/pylattica/core/periodic_structure.py
+++ b/src/pylattica/core/periodic_structure.py
@@ -82,7 +82,7 @@ class PeriodicStructure:
         vec_coeffs = get_points_in_box([0 for _ in range(new_lattice.dim)], num_cells)
         for vec_coeff_set in vec_coeffs:
             if not frac_coords:  # convert lattice points to "cartesian coordinates"
-                point = lattice.matrix @ np.array(vec_coeff_set)
+                point = lattice.get_cartesian_coords(np.array(vec_coeff_set))
             else:
                 point = np.array(vec_coeff_set)
 
-- 
2.43.0


From 7f9551c3284a3dbcbd9a2f3137073c48851d6ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:44 +0000
Subject: [PATCH 02/33] fix: let batch_update apply a batch that only has site
 updates under SITES

---
 src/pylattica/core/simulation_state.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pylattica/core/simulation_state.py b/src/pylattica/core/simulation_state.py
index b6a92ab..5c49e2b 100644
--- a/src/pylattica/core/simulation_state.py
+++ b/src/pylattica/core/simulation_state.py
@@ -155,11 +155,11 @@ class SimulationState:
             The updates to apply as a batch.
         """
 
-        if GENERAL in update_batch:
+        if GENERAL in update_batch or SITES in update_batch:
             for site_id, updates in update_batch.get(SITES, {}).items():
                 self.set_site_state(site_id, updates)
 
-            self.set_general_state(update_batch[GENERAL])
+            self.set_general_state(update_batch.get(GENERAL, {}))
         else:
             for site_id, updates in update_batch.items():
                 self.set_site_state(site_id, updates)
-- 
2.43.0


From d37a89f004fca2de141188785060289a458978b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:45 +0000
Subject: [PATCH 03/33] fix: load the site and general updates of each step
 when deserializing a result

---
 src/pylattica/core/simulation_result.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pylattica/core/simulation_result.py b/src/pylattica/core/simulation_result.py
index 44d3440..676dc76 100644
--- a/src/pylattica/core/simulation_result.py
+++ b/src/pylattica/core/simulation_result.py
@@ -4,6 +4,7 @@ from typing import Dict, List
 
 from monty.serialization import dumpfn, loadfn
 import datetime
+from .constants import GENERAL, SITES
 from .simulation_state import SimulationState
 
 
@@ -25,7 +26,12 @@ class SimulationResult:
         diffs = res_dict["diffs"]
         res = cls(SimulationState.from_dict(res_dict["initial_state"]))
         for diff in diffs:
-            formatted = {int(k): v for k, v in diff.items() if k != "GENERAL"}
+            if SITES in diff or GENERAL in diff:
+                formatted = dict(diff)
+                if SITES in diff:
+                    formatted[SITES] = {int(k): v for k, v in diff[SITES].items()}
+            else:
+                formatted = {int(k): v for k, v in diff.items()}
             res.add_step(formatted)
         return res
 
-- 
2.43.0


From 2a937b51c3c5c860348f8b3ef085b79f6c2ce35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:45 +0000
Subject: [PATCH 04/33] fix: yield every step of a result, including the last,
 as its own state

---
 src/pylattica/core/simulation_result.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pylattica/core/simulation_result.py b/src/pylattica/core/simulation_result.py
index 676dc76..864c120 100644
--- a/src/pylattica/core/simulation_result.py
+++ b/src/pylattica/core/simulation_result.py
@@ -78,9 +78,10 @@ class SimulationResult:
             The list of steps
         """
         live_state = self.initial_state.copy()
+        yield live_state.copy()
         for diff in self._diffs:
-            yield live_state
             live_state.batch_update(diff)
+            yield live_state.copy()
 
     @property
     def last_step(self) -> SimulationState:
-- 
2.43.0


From 6457e7d39ddd3169d3d5383ad13a316c20a35744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:45 +0000
Subject: [PATCH 05/33] fix: keep the stored steps of a result isolated from
 their readers

---
 src/pylattica/core/simulation_result.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylattica/core/simulation_result.py b/src/pylattica/core/simulation_result.py
index 864c120..2aa0a6e 100644
--- a/src/pylattica/core/simulation_result.py
+++ b/src/pylattica/core/simulation_result.py
@@ -129,7 +129,7 @@ class SimulationResult:
 
         stored = self._stored_states.get(step_no)
         if stored is not None:
-            return stored
+            return stored.copy()
         else:
             state = self.initial_state.copy()
             for ud_idx in range(0, step_no):
-- 
2.43.0


From d85a4667e923b6e1c0637b6ddda79e042c93d0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:38 +0000
Subject: [PATCH 06/33] fix: let a step in which no update is made leave the
 state unchanged

---
 src/pylattica/core/runner/common.py             | 6 +++---
 src/pylattica/core/runner/synchronous_runner.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pylattica/core/runner/common.py b/src/pylattica/core/runner/common.py
index 2ef750d..48ae24e 100644
--- a/src/pylattica/core/runner/common.py
+++ b/src/pylattica/core/runner/common.py
@@ -2,12 +2,12 @@ from ..constants import GENERAL, SITES
 
 
 def merge_updates(new_updates, curr_updates=None, site_id=None):
-    if new_updates is None:
-        return curr_updates
-
     if curr_updates is None:
         curr_updates = {SITES: {}, GENERAL: {}}
 
+    if new_updates is None:
+        return curr_updates
+
     # if this is a total
     if SITES in new_updates or GENERAL in new_updates:
         curr_updates[SITES].update(new_updates.get(SITES, {}))
diff --git a/src/pylattica/core/runner/synchronous_runner.py b/src/pylattica/core/runner/synchronous_runner.py
index ab49ce7..79aff45 100644
--- a/src/pylattica/core/runner/synchronous_runner.py
+++ b/src/pylattica/core/runner/synchronous_runner.py
@@ -59,7 +59,7 @@ class SynchronousRunner(Runner):
 
             printif(verbose, f"Running in parallel using {PROCESSES} workers")
             num_sites = initial_state.size
-            chunk_size = math.ceil(num_sites / PROCESSES)
+            chunk_size = max(1, math.ceil(num_sites / PROCESSES))
             printif(
                 verbose,
                 f"Distributing {num_sites} update tasks to {PROCESSES} workers in chunks of {chunk_size}",
@@ -93,7 +93,7 @@ class SynchronousRunner(Runner):
             params.append([batch, updates])
 
         results = pool.starmap(_step_batch_parallel, params)
-        all_updates = None
+        all_updates = merge_updates(None)
         for batch_update_res in results:
             all_updates = merge_updates(all_updates, batch_update_res)
 
@@ -117,7 +117,7 @@ def _step_batch_parallel(id_batch: List[int], last_updates: dict):  # pragma: no
 def _step_batch(
     id_batch: List[int], previous_state: SimulationState, controller: BasicController
 ):
-    batch_updates = None
+    batch_updates = merge_updates(None)
     for site_id in id_batch:
         site_updates = controller.get_state_update(site_id, previous_state)
         batch_updates = merge_updates(site_updates, batch_updates, site_id)
-- 
2.43.0


From a1eb01863b83fef0352f10115c01edf458f83e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:38 +0000
Subject: [PATCH 07/33] fix: merge the updates of parallel batches in site
 order

---
 src/pylattica/core/runner/synchronous_runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylattica/core/runner/synchronous_runner.py b/src/pylattica/core/runner/synchronous_runner.py
index 79aff45..571ff92 100644
--- a/src/pylattica/core/runner/synchronous_runner.py
+++ b/src/pylattica/core/runner/synchronous_runner.py
@@ -95,7 +95,7 @@ class SynchronousRunner(Runner):
         results = pool.starmap(_step_batch_parallel, params)
         all_updates = merge_updates(None)
         for batch_update_res in results:
-            all_updates = merge_updates(all_updates, batch_update_res)
+            all_updates = merge_updates(batch_update_res, all_updates)
 
         return all_updates
 
-- 
2.43.0


From 53e6b35e6c4166df6c35e1751b800d4cf996a5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:38 +0000
Subject: [PATCH 08/33] fix: give every parallel batch the current state,
 whichever worker runs it

---
 .../core/runner/synchronous_runner.py         | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/pylattica/core/runner/synchronous_runner.py b/src/pylattica/core/runner/synchronous_runner.py
index 571ff92..b6f051c 100644
--- a/src/pylattica/core/runner/synchronous_runner.py
+++ b/src/pylattica/core/runner/synchronous_runner.py
@@ -50,7 +50,6 @@ class SynchronousRunner(Runner):
         if self.parallel:
             global mp_globals  # pylint: disable=global-variable-not-assigned
             mp_globals["controller"] = controller
-            mp_globals["initial_state"] = initial_state
 
             if self.workers is None:
                 PROCESSES = mp.cpu_count()
@@ -65,11 +64,11 @@ class SynchronousRunner(Runner):
                 f"Distributing {num_sites} update tasks to {PROCESSES} workers in chunks of {chunk_size}",
             )
             with mp.get_context("fork").Pool(PROCESSES) as pool:
-                updates = {}
                 for _ in tqdm(range(num_steps)):
                     updates = self._take_step_parallel(
-                        updates, pool, chunk_size=chunk_size
+                        live_state, pool, chunk_size=chunk_size
                     )
+                    live_state.batch_update(updates)
                     result.add_step(updates)
         else:
             printif(verbose, "Running in series.")
@@ -81,16 +80,18 @@ class SynchronousRunner(Runner):
         result.set_output(live_state)
         return result
 
-    def _take_step_parallel(self, updates: dict, pool, chunk_size) -> SimulationState:
+    def _take_step_parallel(
+        self, live_state: SimulationState, pool, chunk_size
+    ) -> SimulationState:
         params = []
-        site_ids = mp_globals["initial_state"].site_ids()
+        site_ids = live_state.site_ids()
         num_sites = len(site_ids)
         site_batches = [
             site_ids[i : i + chunk_size] for i in range(0, num_sites, chunk_size)
         ]
 
         for batch in site_batches:
-            params.append([batch, updates])
+            params.append([batch, live_state])
 
         results = pool.starmap(_step_batch_parallel, params)
         all_updates = merge_updates(None)
@@ -108,9 +109,9 @@ class SynchronousRunner(Runner):
         return updates
 
 
-def _step_batch_parallel(id_batch: List[int], last_updates: dict):  # pragma: no cover
-    state = mp_globals["initial_state"]
-    state.batch_update(last_updates)
+def _step_batch_parallel(
+    id_batch: List[int], state: SimulationState
+):  # pragma: no cover
     return _step_batch(id_batch, state, mp_globals["controller"])
 
 
-- 
2.43.0


From a603de1c2d22edb986b3552c69220288e6e646f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:31 +0000
Subject: [PATCH 09/33] fix: choose the random site among the site ids of the
 state

---
 src/pylattica/core/basic_controller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylattica/core/basic_controller.py b/src/pylattica/core/basic_controller.py
index 33d6e04..8fa253e 100644
--- a/src/pylattica/core/basic_controller.py
+++ b/src/pylattica/core/basic_controller.py
@@ -25,7 +25,7 @@ class BasicController(ABC):
         pass
 
     def get_random_site(self, state: SimulationState):
-        return random.randint(0, len(state.site_ids()) - 1)
+        return random.choice(state.site_ids())
 
     def instantiate_result(self, starting_state: SimulationState):
         return SimulationResult(starting_state=starting_state)
-- 
2.43.0


From a98bd4a17d41cc673853d2f9a48381f884d0be54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:42 +0000
Subject: [PATCH 10/33] fix: find sites by location within the rounding of
 locations, across cell boundaries

---
 src/pylattica/core/periodic_structure.py | 84 +++++++++++++++++-------
 1 file changed, 61 insertions(+), 23 deletions(-)

diff --git a/src/pylattica/core/periodic_structure.py b/src/pylattica/core/periodic_structure.py
index b5fede7..913dcd1 100644
--- a/src/pylattica/core/periodic_structure.py
+++ b/src/pylattica/core/periodic_structure.py
@@ -1,3 +1,4 @@
+from itertools import product
 from typing import Dict, Iterable, List, Tuple, Union
 
 import numpy as np
@@ -8,7 +9,12 @@ from .constants import LOCATION, SITE_CLASS, SITE_ID, OFFSET_PRECISION
 
 import copy
 
-VEC_OFFSET = 0.001
+# Site locations are rounded, so the rounded locations of two sites and the vector
+# between them agree to within one unit of the last decimal that is kept
+MAX_OFFSET = 10**-OFFSET_PRECISION * (1 - 1e-6)
+FRAC_TOLERANCE = 1e-9
+ROUNDING_TOLERANCE = 1e-6
+BIN_SIZE = 0.01
 DEFAULT_SITE_CLASS = "A"
 
 
@@ -115,7 +121,10 @@ class PeriodicStructure:
         self._sites = {}
         self.site_ids = []
         self._location_lookup = {}
-        self._offset_vector = np.array([VEC_OFFSET for _ in range(self.dim)])
+        self._periodic = np.array(lattice.periodic, dtype=int)
+        # site locations are indexed by the bin of the cell that they fall into
+        self._heights = 1 / np.linalg.norm(lattice.inv_matrix, axis=0)
+        self._num_bins = np.maximum(self._heights // BIN_SIZE, 1).astype(int)
 
     def as_dict(self):
         copied = copy.deepcopy(self._sites)
@@ -133,20 +142,55 @@ class PeriodicStructure:
         sites = {int(k): v for k, v in d["_sites"].items()}
 
         for _, site in sites.items():
-            struct.add_site(site[SITE_CLASS], site[LOCATION])
+            site_id = struct.add_site(site[SITE_CLASS], site[LOCATION])
+            # rounded locations can lie just outside of the cell
+            struct.get_site(site_id)[LOCATION] = np.array(site[LOCATION])
 
         return struct
 
-    def _get_rounded_coords(self, location: Iterable[float]) -> Iterable[float]:
-        return np.round(location, OFFSET_PRECISION)
-
-    def _coords_with_offset(self, location: Iterable[float]) -> Iterable[float]:
-        return self._get_rounded_coords(location + self._offset_vector)
+    def _periodized_coords(self, location: Iterable[float]) -> Iterable[float]:
+        # a location which is on the far face of the cell but for floating point noise
+        # belongs on the near face
+        frac = self.lattice.get_fractional_coords(location)
+        cells = np.floor(frac + FRAC_TOLERANCE) * self._periodic
+        coords = self.lattice.get_cartesian_coords(frac - cells)
+
+        # ties are all rounded up, so that rounding them does not change the vectors
+        # between sites, and floating point noise does not decide how to round them
+        scale = 10**OFFSET_PRECISION
+        return np.floor(coords * scale + 0.5 + ROUNDING_TOLERANCE) / scale + 0.0
+
+    def _bins_near(self, location: Iterable[float], margin: float) -> List[Tuple[int]]:
+        frac = self.lattice.get_fractional_coords(location)
+        lower = np.floor((frac - margin / self._heights) * self._num_bins)
+        upper = np.floor((frac + margin / self._heights) * self._num_bins)
+        return product(
+            *(
+                {b % num_bins if periodic else b for b in range(int(lb), int(ub) + 1)}
+                for lb, ub, num_bins, periodic in zip(
+                    lower, upper, self._num_bins, self._periodic
+                )
+            )
+        )
 
-    def _transformed_coords(self, location: Iterable[float]) -> Iterable[float]:
-        periodized_coords = self.lattice.get_periodized_cartesian_coords(location)
-        offset_periodized_coords = self._coords_with_offset(periodized_coords)
-        return offset_periodized_coords
+    def _find_site_id(self, location: Iterable[float]) -> int:
+        location = np.array(location)
+        found_id, found_offset = None, MAX_OFFSET
+
+        for site_bin in self._bins_near(location, MAX_OFFSET * self.dim):
+            for site_id in self._location_lookup.get(site_bin, []):
+                frac = self.lattice.get_fractional_coords(
+                    location - self._sites[site_id][LOCATION]
+                )
+                offset = np.abs(
+                    self.lattice.get_cartesian_coords(
+                        frac - np.round(frac) * self._periodic
+                    )
+                ).max()
+                if offset < found_offset:
+                    found_id, found_offset = site_id, offset
+
+        return found_id
 
     def add_site(self, site_class: str, location: Tuple[float]) -> int:
         """Adds a new site to the structure.
@@ -166,22 +210,17 @@ class PeriodicStructure:
         """
         new_site_id = len(self._sites)
 
-        periodized_coords = self._get_rounded_coords(
-            self.lattice.get_periodized_cartesian_coords(location)
-        )
-        offset_periodized_coords = tuple(self._transformed_coords(location))
-
-        assert (
-            self._location_lookup.get(offset_periodized_coords, None) is None
-        ), "That site is already occupied"
+        assert self._find_site_id(location) is None, "That site is already occupied"
 
+        periodized_coords = self._periodized_coords(location)
         self._sites[new_site_id] = {
             SITE_CLASS: site_class,
             LOCATION: periodized_coords,
             SITE_ID: new_site_id,
         }
 
-        self._location_lookup[offset_periodized_coords] = new_site_id
+        for site_bin in self._bins_near(periodized_coords, 0):
+            self._location_lookup.setdefault(site_bin, []).append(new_site_id)
         self.site_ids.append(new_site_id)
         return new_site_id
 
@@ -198,8 +237,7 @@ class PeriodicStructure:
         int
             A dictionary with keys "site_class", "location", and "id" representing the site.
         """
-        _transformed_coords = tuple(self._transformed_coords(location))
-        site_id = self._location_lookup.get(_transformed_coords)
+        site_id = self._find_site_id(location)
 
         if site_id is not None:
             return self.get_site(site_id)
-- 
2.43.0


From 201f4fa944de68bd625cf2156f096f51e3004080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:31 +0000
Subject: [PATCH 11/33] fix: measure the distance to the closest periodic image
 in skewed cells

---
 src/pylattica/core/lattice.py | 45 ++++++++++++++++++++++++++++++++++-
 1 file changed, 44 insertions(+), 1 deletion(-)

diff --git a/src/pylattica/core/lattice.py b/src/pylattica/core/lattice.py
index 8d081c3..d33f239 100644
--- a/src/pylattica/core/lattice.py
+++ b/src/pylattica/core/lattice.py
@@ -5,6 +5,7 @@ from typing import List, Tuple, Union
 import numpy as np
 from numpy.typing import ArrayLike
 from .constants import OFFSET_PRECISION
+import itertools
 import math
 
 
@@ -79,8 +80,10 @@ def pbc_diff_cart(cart_coords1: ArrayLike, cart_coords2: ArrayLike, lattice: Lat
     fcoords1 = lattice.get_fractional_coords(cart_coords1)
     fcoords2 = lattice.get_fractional_coords(cart_coords2)
     frac_dist = pbc_diff_frac_vec(fcoords1, fcoords2, lattice.periodic)
+    diff = lattice.get_cartesian_coords(frac_dist)
     return np.round(
-        np.linalg.norm(lattice.get_cartesian_coords(frac_dist)), OFFSET_PRECISION
+        np.linalg.norm(lattice.get_closest_images(diff), axis=-1).min(),
+        OFFSET_PRECISION,
     )
 
 
@@ -135,6 +138,9 @@ class Lattice:
 
         self._matrix: np.ndarray = mat
         self._inv_matrix: np.ndarray | None = None
+        self._image_vecs: np.ndarray | None = None
+        self._periodic_vecs: np.ndarray | None = None
+        self._projection: np.ndarray | None = None
 
         self.dim = len(vecs[0])
         self.vec_lengths = [np.linalg.norm(np.array(vec)) for vec in vecs]
@@ -188,6 +194,43 @@ class Lattice:
         """
         return np.dot(cart_coords, self.inv_matrix)
 
+    def get_closest_images(self, diff: ArrayLike) -> np.ndarray:
+        """Given a vector between two points, returns the vectors between the periodic
+        images of those points which can be the shortest one. In a cell with orthogonal
+        vectors, that is the one with the smallest fractional coordinates, but in a
+        skewed cell, it can be one of several others.
+
+        Parameters
+        ----------
+        diff : ArrayLike
+            The Cartesian vector between the points
+
+        Returns
+        -------
+        np.ndarray
+            The Cartesian vectors between those images of the points
+        """
+        if not any(self.periodic):
+            return np.array([diff])
+
+        if self._image_vecs is None:
+            self._periodic_vecs = self._matrix[np.array(self.periodic, dtype=bool)]
+            self._projection = np.linalg.pinv(self._periodic_vecs)
+            # a vector with fractional coordinates up to 0.5 is no longer than half of
+            # the longest diagonal, which bounds how far off the closest image can be
+            diagonals = [
+                np.linalg.norm(np.dot(signs, self._periodic_vecs))
+                for signs in itertools.product((-1, 1), repeat=sum(self.periodic))
+            ]
+            num_cells = np.floor(
+                0.5 + max(diagonals) / 2 * np.linalg.norm(self._projection, axis=0)
+            ).astype(int)
+            cells = itertools.product(*(range(-n, n + 1) for n in num_cells))
+            self._image_vecs = np.dot(list(cells), self._periodic_vecs)
+
+        frac = np.dot(diff, self._projection)
+        return diff - np.dot(np.round(frac), self._periodic_vecs) + self._image_vecs
+
     def get_periodized_cartesian_coords(self, cart_coords: ArrayLike) -> np.ndarray:
         """Given a set of Cartesian coordinates, returns the periodized version
         within this lattice.
-- 
2.43.0


From 9b0b4add20cbac2056336282992605985007ec79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:31 +0000
Subject: [PATCH 12/33] fix: leave motif neighbors out of the neighborhood
 where there is no site

---
 src/pylattica/core/neighborhood_builders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylattica/core/neighborhood_builders.py b/src/pylattica/core/neighborhood_builders.py
index 961754f..d2d6edc 100644
--- a/src/pylattica/core/neighborhood_builders.py
+++ b/src/pylattica/core/neighborhood_builders.py
@@ -246,7 +246,7 @@ class MotifNeighborhoodBuilder(NeighborhoodBuilder):
         for neighbor_vec in self._motif:
             loc = tuple(s + n for s, n in zip(location, neighbor_vec))
             nb_id = struct.id_at(loc)
-            if nb_id != curr_site[SITE_ID]:
+            if nb_id is not None and nb_id != curr_site[SITE_ID]:
                 nbs.append((nb_id, self.distances.get_dist(neighbor_vec)))
         return nbs
 
-- 
2.43.0


From 768b448883f4f3dcd2edc24fa6f53a7ae561219a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:31 +0000
Subject: [PATCH 13/33] fix: accept relative locations that are given as lists,
 as documented

---
 src/pylattica/core/distance_map.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pylattica/core/distance_map.py b/src/pylattica/core/distance_map.py
index cf330f1..47e36c3 100644
--- a/src/pylattica/core/distance_map.py
+++ b/src/pylattica/core/distance_map.py
@@ -69,7 +69,7 @@ class DistanceMap:
         """
         distances = {}
         for loc in relative_neighbor_locs:
-            distances[loc] = self._distance(np.zeros(len(loc)), np.array(loc))
+            distances[tuple(loc)] = self._distance(np.zeros(len(loc)), np.array(loc))
 
         return distances
 
@@ -86,7 +86,7 @@ class DistanceMap:
         float
             The distance of that neighbor.
         """
-        return self.distances.get(relative_loc)
+        return self.distances.get(tuple(relative_loc))
 
 
 class EuclideanDistanceMap(DistanceMap):
-- 
2.43.0


From 6094d20c7c0e0b99612f850a6e06eed4ba746abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:31 +0000
Subject: [PATCH 14/33] fix: let site classes have stochastic neighborhoods

---
 src/pylattica/core/neighborhood_builders.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pylattica/core/neighborhood_builders.py b/src/pylattica/core/neighborhood_builders.py
index d2d6edc..0f8ff63 100644
--- a/src/pylattica/core/neighborhood_builders.py
+++ b/src/pylattica/core/neighborhood_builders.py
@@ -73,7 +73,7 @@ class StochasticNeighborhoodBuilder(NeighborhoodBuilder):
         """
         self.builders = builders
 
-    def get(self, struct: PeriodicStructure) -> Neighborhood:
+    def get(self, struct: PeriodicStructure, site_class: str = None) -> Neighborhood:
         """For the provided structure, calculate the StochasticNeighborhood
         specified by the list of builders originally provided to this class.
 
@@ -81,13 +81,18 @@ class StochasticNeighborhoodBuilder(NeighborhoodBuilder):
         ----------
         struct : PeriodicStructure
             The structure for which the neighborhood should be calculated.
+        site_class : str, optional
+            Specify a single class of sites to calculate the neighborhood for,
+            by default None
 
         Returns
         -------
         Neighborhood
             The resulting StochasticNeighborhood
         """
-        return StochasticNeighborhood([b.get(struct) for b in self.builders])
+        return StochasticNeighborhood(
+            [b.get(struct, site_class=site_class) for b in self.builders]
+        )
 
 
 class DistanceNeighborhoodBuilder(NeighborhoodBuilder):
-- 
2.43.0


From 1db8c883521acd310cabb2fa58ae9bbb23c468ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:57 +0000
Subject: [PATCH 15/33] fix: keep the periodicity of lattices converted from
 and to pymatgen

---
 src/pylattica/atomic/pymatgen_struct_converter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pylattica/atomic/pymatgen_struct_converter.py b/src/pylattica/atomic/pymatgen_struct_converter.py
index 2870f77..4bd5a4c 100644
--- a/src/pylattica/atomic/pymatgen_struct_converter.py
+++ b/src/pylattica/atomic/pymatgen_struct_converter.py
@@ -30,7 +30,7 @@ class PymatgenStructureConverter:
         Lattice
             A pylattica lattice
         """
-        pyl_lat = PylLattice(pmg_lat.matrix)
+        pyl_lat = PylLattice(pmg_lat.matrix, periodic=tuple(pmg_lat.pbc))
         return pyl_lat
 
     def to_pylattica_structure_builder(
@@ -107,7 +107,7 @@ class PymatgenStructureConverter:
         PmgLattice
             The resulting pymatgen Lattice
         """
-        return PmgLattice(pyl_lat.vecs)
+        return PmgLattice(pyl_lat.vecs, pbc=pyl_lat.periodic)
 
     def to_pymatgen_structure(self, pyl_struct: PeriodicStructure) -> PmgStructure:
         """Converts a pylattica PeriodicStructure into a pymatgen
-- 
2.43.0


From d8a94e7121ff329d7ea934b8f81f94f376536bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:57 +0000
Subject: [PATCH 16/33] fix: restore the ids of sites whichever order they were
 saved in

---
 src/pylattica/core/periodic_structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylattica/core/periodic_structure.py b/src/pylattica/core/periodic_structure.py
index 913dcd1..05fcbd7 100644
--- a/src/pylattica/core/periodic_structure.py
+++ b/src/pylattica/core/periodic_structure.py
@@ -141,7 +141,7 @@ class PeriodicStructure:
         struct = cls(Lattice.from_dict(d["lattice"]))
         sites = {int(k): v for k, v in d["_sites"].items()}
 
-        for _, site in sites.items():
+        for _, site in sorted(sites.items()):
             site_id = struct.add_site(site[SITE_CLASS], site[LOCATION])
             # rounded locations can lie just outside of the cell
             struct.get_site(site_id)[LOCATION] = np.array(site[LOCATION])
-- 
2.43.0


From cd1fd1912372bf40df3898ea0f21310c8f1c1ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:47 +0000
Subject: [PATCH 17/33] fix: grow for enough steps to fill three dimensional
 structures

---
 src/pylattica/structures/square_grid/growth_setup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylattica/structures/square_grid/growth_setup.py b/src/pylattica/structures/square_grid/growth_setup.py
index 12ff005..be3b70f 100644
--- a/src/pylattica/structures/square_grid/growth_setup.py
+++ b/src/pylattica/structures/square_grid/growth_setup.py
@@ -81,5 +81,5 @@ class GrowthSetup:
         )
 
         runner = SynchronousRunner(parallel=True)
-        res = runner.run(simulation.state, controller, num_steps=size)
+        res = runner.run(simulation.state, controller, num_steps=size * self.dim)
         return Simulation(res.last_step, simulation.structure)
-- 
2.43.0


From 9a060e2d2e3d94b967090e84ab4d2212eb4ddebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:47 +0000
Subject: [PATCH 18/33] fix: draw the far faces of the shell of a 3D grid

---
 src/pylattica/visualization/square_grid_artist_3D.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pylattica/visualization/square_grid_artist_3D.py b/src/pylattica/visualization/square_grid_artist_3D.py
index 408c375..5a6e9df 100644
--- a/src/pylattica/visualization/square_grid_artist_3D.py
+++ b/src/pylattica/visualization/square_grid_artist_3D.py
@@ -24,7 +24,9 @@ class SquareGridArtist3D(StructureArtist):
 
         for site in self.structure.sites():
             loc = site[LOCATION]
-            if not shell_only or (loc[1] == 0 or loc[0] == size or loc[2] == size):
+            if not shell_only or (
+                loc[1] == 0 or loc[0] == size - 1 or loc[2] == size - 1
+            ):
                 site_id = site[SITE_ID]
                 site_state = state.get_site_state(site_id)
                 color = self.cell_artist.get_color_from_cell_state(site_state)
-- 
2.43.0


From 3ad21b5f525c45e8586ac6245595da94e1297c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:47 +0000
Subject: [PATCH 19/33] fix: assign each color of the palette to a single phase

---
 src/pylattica/visualization/colors.py  | 38 --------------------------
 src/pylattica/visualization/helpers.py |  2 +-
 2 files changed, 1 insertion(+), 39 deletions(-)

diff --git a/src/pylattica/visualization/colors.py b/src/pylattica/visualization/colors.py
index 75b85a9..8b80352 100644
--- a/src/pylattica/visualization/colors.py
+++ b/src/pylattica/visualization/colors.py
@@ -21,44 +21,6 @@ COLORS = [
     (250, 128, 114),
     (128, 0, 0),
     (255, 255, 0),
-    (0, 128, 0),
-    (32, 178, 170),
-    (128, 0, 0),
-    (0, 255, 0),
-    (255, 255, 255),
-    (128, 128, 0),
-    (0, 0, 128),
-    (34, 139, 34),
-    (221, 160, 221),
-    (210, 105, 30),
-    (188, 143, 143),
-    (112, 128, 144),
-    (240, 255, 240),
-    (32, 178, 170),
-    (0, 255, 127),
-    (47, 79, 79),
-    (30, 144, 255),
-    (138, 43, 226),
-    (186, 85, 211),
-    (199, 21, 133),
-    (255, 20, 147),
-    (250, 235, 215),
-    (160, 82, 45),
-    (244, 164, 96),
-    (176, 196, 222),
-    (205, 92, 92),
-    (255, 215, 0),
-    (85, 107, 47),
-    (0, 128, 0),
-    (143, 188, 143),
-    (255, 140, 0),
-    (255, 69, 0),
-    (250, 128, 114),
-    (128, 0, 0),
-    (255, 255, 0),
-    (0, 128, 0),
-    (32, 178, 170),
-    (128, 0, 0),
     (0, 255, 0),
     (255, 255, 255),
     (128, 128, 0),
diff --git a/src/pylattica/visualization/helpers.py b/src/pylattica/visualization/helpers.py
index 84330d1..442c88c 100644
--- a/src/pylattica/visualization/helpers.py
+++ b/src/pylattica/visualization/helpers.py
@@ -19,7 +19,7 @@ def color_map(phases: List[str]) -> Dict[str, Tuple[int, int, int]]:
     color_map: Dict[str, Tuple[int, int, int]] = {}
     c_idx: int = 0
     for p in phases:
-        color_map[p] = COLORS[c_idx]
+        color_map[p] = COLORS[c_idx % len(COLORS)]
         c_idx += 1
 
     return color_map
-- 
2.43.0


From 9d9293e80df3e1502aecf47722dfab2ab2e22c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:47 +0000
Subject: [PATCH 20/33] fix: plot the phase counts of the analyzed result

---
 src/pylattica/discrete/discrete_state_result_analyzer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pylattica/discrete/discrete_state_result_analyzer.py b/src/pylattica/discrete/discrete_state_result_analyzer.py
index 151d823..9a7c06f 100644
--- a/src/pylattica/discrete/discrete_state_result_analyzer.py
+++ b/src/pylattica/discrete/discrete_state_result_analyzer.py
@@ -106,8 +106,9 @@ class DiscreteResultAnalyzer:
         """In a jupyter notebook environment, plots the number of phases at each
         time step.
         """
-        xs = np.arange(len(self.steps))
-        ys = [step.phase_count for step in self.steps]
+        analyzer = DiscreteStepAnalyzer()
+        xs = np.arange(len(self._result))
+        ys = [analyzer.phase_count(step) for step in self._result.steps()]
         plt.plot(xs, ys)
 
     def _get_steps_to_plot(self) -> Tuple[List[int], List[SimulationState]]:
-- 
2.43.0


From 64ea8fc1039d7132d0b3546dcefbab3770dc739a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:30 +0000
Subject: [PATCH 21/33] fix: let the growth model be imported on its own

models.growth imports structures.square_grid, which imports models.growth:
importing models.growth before anything else raised an ImportError.
---
 src/pylattica/models/growth/growth_controller.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pylattica/models/growth/growth_controller.py b/src/pylattica/models/growth/growth_controller.py
index 4134200..c9326c3 100644
--- a/src/pylattica/models/growth/growth_controller.py
+++ b/src/pylattica/models/growth/growth_controller.py
@@ -4,7 +4,6 @@ from ...core.periodic_structure import PeriodicStructure
 from ...core.simulation_state import SimulationState
 from ...discrete import PhaseSet
 from ...discrete.state_constants import DISCRETE_OCCUPANCY, VACANT
-from ...structures.square_grid.neighborhoods import MooreNbHoodBuilder
 
 
 class GrowthController(BasicController):
@@ -19,6 +18,9 @@ class GrowthController(BasicController):
         self.phase_set: PhaseSet = phase_set
 
         if nb_builder is None:
+            # the square grid package imports this module when it is loaded
+            from ...structures.square_grid.neighborhoods import MooreNbHoodBuilder
+
             self.nb_builder = MooreNbHoodBuilder(1, dim=periodic_struct.dim)
         else:
             self.nb_builder = nb_builder
-- 
2.43.0


From 0b77ecb901e3df739cf0339dd99fbc42886114a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:10 +0000
Subject: [PATCH 22/33] fix: assign random sites to phases in the desired
 ratios

Floating point noise, or several phases with small amounts, left other phases
with far fewer sites than their ratio: 0.6, 0.3 and 0.1 of 10 sites gave 4, 4, 2.
---
 src/pylattica/structures/square_grid/grid_setup.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pylattica/structures/square_grid/grid_setup.py b/src/pylattica/structures/square_grid/grid_setup.py
index 6249596..83672cf 100644
--- a/src/pylattica/structures/square_grid/grid_setup.py
+++ b/src/pylattica/structures/square_grid/grid_setup.py
@@ -331,8 +331,14 @@ class DiscreteGridSetup:
         total_attempts = 0
         num_sites_planted = 0
 
-        ideal_num_site_list = normalized_ratios * num_sites_desired
-        ideal_num_sites = dict(zip(nuc_species, ideal_num_site_list))
+        # round the numbers of sites so that they add up to the desired number: the
+        # phases which lose most when rounding down get the sites that are left
+        ideal_num_site_list = np.round(normalized_ratios * num_sites_desired, 9)
+        num_site_list = np.floor(ideal_num_site_list).astype(int)
+        num_sites_left = num_sites_desired - num_site_list.sum()
+        losses = ideal_num_site_list - num_site_list
+        num_site_list[np.argsort(-losses, kind="stable")[:num_sites_left]] += 1
+        ideal_num_sites = dict(zip(nuc_species, num_site_list))
 
         nuc_identities = []
 
-- 
2.43.0


From adb1918b350ac3a18dbd5f4b25406aadfcb4b39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:04 +0000
Subject: [PATCH 23/33] fix: keep updates of different keys of a site made in
 the same step

---
 src/pylattica/core/runner/common.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pylattica/core/runner/common.py b/src/pylattica/core/runner/common.py
index 48ae24e..e5d8555 100644
--- a/src/pylattica/core/runner/common.py
+++ b/src/pylattica/core/runner/common.py
@@ -1,6 +1,12 @@
 from ..constants import GENERAL, SITES
 
 
+def _merge_site_updates(new_updates, curr_updates):
+    # Different visits may update different keys of the same site
+    for site_id, site_updates in new_updates.items():
+        curr_updates[site_id] = {**curr_updates.get(site_id, {}), **site_updates}
+
+
 def merge_updates(new_updates, curr_updates=None, site_id=None):
     if curr_updates is None:
         curr_updates = {SITES: {}, GENERAL: {}}
@@ -10,14 +16,14 @@ def merge_updates(new_updates, curr_updates=None, site_id=None):
 
     # if this is a total
     if SITES in new_updates or GENERAL in new_updates:
-        curr_updates[SITES].update(new_updates.get(SITES, {}))
+        _merge_site_updates(new_updates.get(SITES, {}), curr_updates[SITES])
         curr_updates[GENERAL].update(new_updates.get(GENERAL, {}))
     # if these updates only include site updates
     elif set(map(type, new_updates.keys())) == {int}:
-        curr_updates[SITES].update(new_updates)
+        _merge_site_updates(new_updates, curr_updates[SITES])
     # if these updates only apply to a single site
     elif site_id is not None:
-        curr_updates[SITES].update({site_id: new_updates})
+        _merge_site_updates({site_id: new_updates}, curr_updates[SITES])
     else:
         raise ValueError("Bad combination of arguments for merge_updates")
 
-- 
2.43.0


From ece8092afc73cc7d3ac969c72481138bc58aeb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:14 +0000
Subject: [PATCH 24/33] fix: analyze the steps that were added to a result
 after it was first analyzed

---
 src/pylattica/discrete/discrete_state_result_analyzer.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/pylattica/discrete/discrete_state_result_analyzer.py b/src/pylattica/discrete/discrete_state_result_analyzer.py
index 9a7c06f..97a147f 100644
--- a/src/pylattica/discrete/discrete_state_result_analyzer.py
+++ b/src/pylattica/discrete/discrete_state_result_analyzer.py
@@ -3,7 +3,6 @@ from typing import Dict, List, Tuple
 import matplotlib.pyplot as plt
 import numpy as np
 import plotly.graph_objects as go
-from functools import lru_cache
 
 from ..core import SimulationResult, SimulationState
 from .discrete_step_analyzer import DiscreteStepAnalyzer
@@ -25,7 +24,6 @@ class DiscreteResultAnalyzer:
         """
         self._result = result
 
-    @lru_cache
     def all_phases(self) -> List[str]:
         """Returns all of the phases present across the analyzed result.
 
-- 
2.43.0


From bccb9fbb4105dd5bd75b182b341f8204f0705974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:35 +0000
Subject: [PATCH 25/33] fix: keep the frames of an animation in memory, not in
 files of the working directory

to_gif wrote tmp_pylat_step_<i>.png into the working directory and removed
them afterwards: it overwrote and deleted files of these names, left them
behind when it failed, and two animations made at the same time mixed
their frames.
---
 src/pylattica/visualization/result_artist.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/pylattica/visualization/result_artist.py b/src/pylattica/visualization/result_artist.py
index 52c3c33..4a469dd 100644
--- a/src/pylattica/visualization/result_artist.py
+++ b/src/pylattica/visualization/result_artist.py
@@ -1,5 +1,5 @@
+import io
 import multiprocessing as mp
-import os
 import time
 import sys
 
@@ -110,15 +110,12 @@ class ResultArtist:
         """
         wait = kwargs.get("wait", 0.8)
         imgs = self._get_images(**kwargs)
-        img_names = []
-        for idx, img in enumerate(imgs):
-            fname = f"tmp_pylat_step_{idx}.png"
-            img.save(fname)
-            img_names.append(fname)
-
         reloaded_imgs = []
-        for fname in img_names:
-            reloaded_imgs.append(Image.open(fname))
+        for img in imgs:
+            buf = io.BytesIO()
+            img.save(buf, format="PNG")
+            buf.seek(0)
+            reloaded_imgs.append(Image.open(buf))
 
         reloaded_imgs[0].save(
             filename,
@@ -128,9 +125,6 @@ class ResultArtist:
             loop=0,
         )
 
-        for fname in img_names:
-            os.remove(fname)
-
 
 def _get_img_parallel(step, step_kwargs):
     return _dsr_globals["artist"].get_img(step, **step_kwargs)
-- 
2.43.0


From 808327cf74076ac2343f6bb77625466f797c264d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:37 +0000
Subject: [PATCH 26/33] fix: give the controller of a parallel run to its own
 workers only

The controller went to the workers through a module global that was set
before they were forked, so that of two parallel runs started at the same
time in different threads one could use the controller of the other.
---
 src/pylattica/core/runner/synchronous_runner.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/pylattica/core/runner/synchronous_runner.py b/src/pylattica/core/runner/synchronous_runner.py
index b6f051c..0e51a59 100644
--- a/src/pylattica/core/runner/synchronous_runner.py
+++ b/src/pylattica/core/runner/synchronous_runner.py
@@ -48,9 +48,6 @@ class SynchronousRunner(Runner):
         verbose: bool = False,
     ):
         if self.parallel:
-            global mp_globals  # pylint: disable=global-variable-not-assigned
-            mp_globals["controller"] = controller
-
             if self.workers is None:
                 PROCESSES = mp.cpu_count()
             else:
@@ -63,7 +60,9 @@ class SynchronousRunner(Runner):
                 verbose,
                 f"Distributing {num_sites} update tasks to {PROCESSES} workers in chunks of {chunk_size}",
             )
-            with mp.get_context("fork").Pool(PROCESSES) as pool:
+            with mp.get_context("fork").Pool(
+                PROCESSES, initializer=_init_worker, initargs=(controller,)
+            ) as pool:
                 for _ in tqdm(range(num_steps)):
                     updates = self._take_step_parallel(
                         live_state, pool, chunk_size=chunk_size
@@ -109,6 +108,11 @@ class SynchronousRunner(Runner):
         return updates
 
 
+def _init_worker(controller: BasicController):  # pragma: no cover
+    # only the worker's copy is set, as other threads may be running other controllers
+    mp_globals["controller"] = controller
+
+
 def _step_batch_parallel(
     id_batch: List[int], state: SimulationState
 ):  # pragma: no cover
-- 
2.43.0


From 6bb9b87b5657fb51471d01d5f06a38378c0ef083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:37 +0000
Subject: [PATCH 27/33] fix: give the artist of an animation to its own workers
 only

Like the controller of a parallel run, it went through a module global.
---
 src/pylattica/visualization/result_artist.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/pylattica/visualization/result_artist.py b/src/pylattica/visualization/result_artist.py
index 4a469dd..bf8cab2 100644
--- a/src/pylattica/visualization/result_artist.py
+++ b/src/pylattica/visualization/result_artist.py
@@ -41,10 +41,10 @@ class ResultArtist:
                 imgs.append(img)
         else:
             PROCESSES = mp.cpu_count()
-            global _dsr_globals  # pylint: disable=global-variable-not-assigned
-            _dsr_globals["artist"] = self._step_artist
 
-            with mp.get_context("fork").Pool(PROCESSES) as pool:
+            with mp.get_context("fork").Pool(
+                PROCESSES, initializer=_init_worker, initargs=(self._step_artist,)
+            ) as pool:
                 params = []
                 for idx in indices:
                     label = f"Step {idx}"
@@ -126,5 +126,10 @@ class ResultArtist:
         )
 
 
+def _init_worker(artist):  # pragma: no cover
+    # only the worker's copy is set, as other threads may be drawing with other artists
+    _dsr_globals["artist"] = artist
+
+
 def _get_img_parallel(step, step_kwargs):
     return _dsr_globals["artist"].get_img(step, **step_kwargs)
-- 
2.43.0


From 3fc1e05682d4938b1177dc92a552a73b1f2d6a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:07 +0000
Subject: [PATCH 28/33] fix: load a state from a dictionary without changing
 the dictionary

---
 src/pylattica/core/simulation_state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylattica/core/simulation_state.py b/src/pylattica/core/simulation_state.py
index 5c49e2b..d649cb9 100644
--- a/src/pylattica/core/simulation_state.py
+++ b/src/pylattica/core/simulation_state.py
@@ -25,7 +25,7 @@ class SimulationState:
 
     @classmethod
     def from_dict(cls, state_dict):
-        state = state_dict["state"]
+        state = dict(state_dict["state"])
         state[SITES] = {int(k): v for k, v in state[SITES].items()}
         return cls(state)
 
-- 
2.43.0


From d9ed9c3cb2f6541369e420bcb29f1cc919eddfd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:55 +0000
Subject: [PATCH 29/33] fix: load simulations from files that may not be
 written to

---
 src/pylattica/core/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylattica/core/simulation.py b/src/pylattica/core/simulation.py
index 0b590f8..6ff1567 100644
--- a/src/pylattica/core/simulation.py
+++ b/src/pylattica/core/simulation.py
@@ -42,7 +42,7 @@ class Simulation:
 
     @classmethod
     def from_file(cls, fname):
-        with open(fname, "r+", encoding="utf-8") as f:
+        with open(fname, "r", encoding="utf-8") as f:
             d = json.load(f)
             return cls.from_dict(d)
 
-- 
2.43.0


From a17b7c4bc97b3710ce8c86af7203e0c4e7656a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:21 +0000
Subject: [PATCH 30/33] fix: keep the file saved before when a result or
 simulation cannot be encoded

---
 src/pylattica/core/simulation.py        | 5 ++++-
 src/pylattica/core/simulation_result.py | 7 ++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/pylattica/core/simulation.py b/src/pylattica/core/simulation.py
index 6ff1567..21af8d3 100644
--- a/src/pylattica/core/simulation.py
+++ b/src/pylattica/core/simulation.py
@@ -31,8 +31,11 @@ class Simulation:
         return res
 
     def to_file(self, fname):
+        # encoded before the file is opened, as a simulation that cannot be encoded
+        # must not cost the file that was there
+        encoded = json.dumps(self.as_dict())
         with open(fname, "w+", encoding="utf-8") as f:
-            json.dump(self.as_dict(), f)
+            f.write(encoded)
 
     @classmethod
     def from_dict(cls, d):
diff --git a/src/pylattica/core/simulation_result.py b/src/pylattica/core/simulation_result.py
index 2aa0a6e..8369536 100644
--- a/src/pylattica/core/simulation_result.py
+++ b/src/pylattica/core/simulation_result.py
@@ -1,7 +1,9 @@
+import json
 import tqdm
 
 from typing import Dict, List
 
+from monty.json import MontyEncoder
 from monty.serialization import dumpfn, loadfn
 import datetime
 from .constants import GENERAL, SITES
@@ -157,5 +159,8 @@ class SimulationResult:
             date_string = now.strftime("%m-%d-%Y-%H-%M")
             fpath = f"{date_string}.json"
 
-        dumpfn(self, fpath)
+        # encoded before the file is opened, as a result that cannot be encoded
+        # must not cost the file that was there
+        encoded = json.loads(json.dumps(self, cls=MontyEncoder))
+        dumpfn(encoded, fpath)
         return fpath
-- 
2.43.0


From 1fb18b07ec34d3f49ec5c0b4413f39c2474fd35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:28 +0000
Subject: [PATCH 31/33] fix: draw and close the 3D artist's own figure, not
 pyplot's current one

---
 src/pylattica/visualization/square_grid_artist_3D.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pylattica/visualization/square_grid_artist_3D.py b/src/pylattica/visualization/square_grid_artist_3D.py
index 5a6e9df..535dc21 100644
--- a/src/pylattica/visualization/square_grid_artist_3D.py
+++ b/src/pylattica/visualization/square_grid_artist_3D.py
@@ -52,11 +52,11 @@ class SquareGridArtist3D(StructureArtist):
                 ax.voxels(data, facecolors=colors, edgecolor="k", linewidth=0.25)
 
         ax.legend()
-        plt.axis("off")
+        ax.set_axis_off()
         fig = ax.get_figure()
         buf = io.BytesIO()
         fig.savefig(buf)
-        plt.close()
+        plt.close(fig)
         buf.seek(0)
         img = Image.open(buf)
         return img
-- 
2.43.0


From 7ad1b5cca46634cde9c6f9fcf36d58305839f1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:49 +0000
Subject: [PATCH 32/33] fix: list the neighbors of a site in the same order
 every time

---
 src/pylattica/core/neighborhoods.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pylattica/core/neighborhoods.py b/src/pylattica/core/neighborhoods.py
index 6278dd7..cd4f232 100644
--- a/src/pylattica/core/neighborhoods.py
+++ b/src/pylattica/core/neighborhoods.py
@@ -40,7 +40,8 @@ class Neighborhood(AbstractNeighborhood):
         list[int]
             Either a list of site IDs, or a list of tuples of (site ID, connection weight)
         """
-        nbs = self._graph.neighbors(site_id)
+        # the graph lists neighbors in another order each time
+        nbs = sorted(self._graph.neighbors(site_id))
         if include_weights:
             weighted_nbs = [
                 (nb_id, self._graph.get_edge_data(site_id, nb_id)) for nb_id in nbs
-- 
2.43.0


From 474008284a193ec31d33dc09db0956f699b7680c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:49 +0000
Subject: [PATCH 33/33] fix: a site at an occupied place is refused under
 python -O, too

---
 src/pylattica/core/periodic_structure.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pylattica/core/periodic_structure.py b/src/pylattica/core/periodic_structure.py
index 05fcbd7..b4aceeb 100644
--- a/src/pylattica/core/periodic_structure.py
+++ b/src/pylattica/core/periodic_structure.py
@@ -210,7 +210,9 @@ class PeriodicStructure:
         """
         new_site_id = len(self._sites)
 
-        assert self._find_site_id(location) is None, "That site is already occupied"
+        # not an assert statement, which would be skipped by python -O
+        if self._find_site_id(location) is not None:
+            raise AssertionError("That site is already occupied")
 
         periodized_coords = self._periodized_coords(location)
         self._sites[new_site_id] = {
-- 
2.43.0

