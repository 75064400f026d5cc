From 549351b00620a7fac37a966daa1f68dcacc9f133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:04 +0000
Subject: [PATCH 01/36] fix: parallel workers compute each step from the
 complete current state

A worker process kept a private copy of the state and applied only the last
step's updates to it, so one that got no batch in a step missed that step for
good; and the run's output state was never updated in parallel mode.
---
 .../core/runner/synchronous_runner.py         | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/pylattica/core/runner/synchronous_runner.py b/src/pylattica/core/runner/synchronous_runner.py
index ab49ce7..030f27a 100644
--- a/src/pylattica/core/runner/synchronous_runner.py
+++ b/src/pylattica/core/runner/synchronous_runner.py
@@ -50,7 +50,6 @@ class SynchronousRunner(Runner):
         if self.parallel:
             global mp_globals  # pylint: disable=global-variable-not-assigned
             mp_globals["controller"] = controller
-            mp_globals["initial_state"] = initial_state
 
             if self.workers is None:
                 PROCESSES = mp.cpu_count()
@@ -65,11 +64,11 @@ class SynchronousRunner(Runner):
                 f"Distributing {num_sites} update tasks to {PROCESSES} workers in chunks of {chunk_size}",
             )
             with mp.get_context("fork").Pool(PROCESSES) as pool:
-                updates = {}
                 for _ in tqdm(range(num_steps)):
                     updates = self._take_step_parallel(
-                        updates, pool, chunk_size=chunk_size
+                        live_state, pool, chunk_size=chunk_size
                     )
+                    live_state.batch_update(updates)
                     result.add_step(updates)
         else:
             printif(verbose, "Running in series.")
@@ -81,16 +80,18 @@ class SynchronousRunner(Runner):
         result.set_output(live_state)
         return result
 
-    def _take_step_parallel(self, updates: dict, pool, chunk_size) -> SimulationState:
+    def _take_step_parallel(
+        self, state: SimulationState, pool, chunk_size
+    ) -> SimulationState:
         params = []
-        site_ids = mp_globals["initial_state"].site_ids()
+        site_ids = state.site_ids()
         num_sites = len(site_ids)
         site_batches = [
             site_ids[i : i + chunk_size] for i in range(0, num_sites, chunk_size)
         ]
 
         for batch in site_batches:
-            params.append([batch, updates])
+            params.append([batch, state])
 
         results = pool.starmap(_step_batch_parallel, params)
         all_updates = None
@@ -108,9 +109,9 @@ class SynchronousRunner(Runner):
         return updates
 
 
-def _step_batch_parallel(id_batch: List[int], last_updates: dict):  # pragma: no cover
-    state = mp_globals["initial_state"]
-    state.batch_update(last_updates)
+def _step_batch_parallel(
+    id_batch: List[int], state: SimulationState
+):  # pragma: no cover
     return _step_batch(id_batch, state, mp_globals["controller"])
 
 
-- 
2.43.0


From c804f4da54f0a402d19635fc6e8318f159b16cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:46 +0000
Subject: [PATCH 02/36] fix: steps() yields every step, the last included, as
 its own snapshot

---
 src/pylattica/core/simulation_result.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pylattica/core/simulation_result.py b/src/pylattica/core/simulation_result.py
index 44d3440..b91d92e 100644
--- a/src/pylattica/core/simulation_result.py
+++ b/src/pylattica/core/simulation_result.py
@@ -72,9 +72,10 @@ class SimulationResult:
             The list of steps
         """
         live_state = self.initial_state.copy()
+        yield live_state.copy()
         for diff in self._diffs:
-            yield live_state
             live_state.batch_update(diff)
+            yield live_state.copy()
 
     @property
     def last_step(self) -> SimulationState:
-- 
2.43.0


From 4afc9b703e19f86d2968231b3e113267dfc10ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:59 +0000
Subject: [PATCH 03/36] fix: batch_update accepts a batch with SITES and no
 GENERAL

---
 src/pylattica/core/simulation_state.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pylattica/core/simulation_state.py b/src/pylattica/core/simulation_state.py
index b6a92ab..5c49e2b 100644
--- a/src/pylattica/core/simulation_state.py
+++ b/src/pylattica/core/simulation_state.py
@@ -155,11 +155,11 @@ class SimulationState:
             The updates to apply as a batch.
         """
 
-        if GENERAL in update_batch:
+        if GENERAL in update_batch or SITES in update_batch:
             for site_id, updates in update_batch.get(SITES, {}).items():
                 self.set_site_state(site_id, updates)
 
-            self.set_general_state(update_batch[GENERAL])
+            self.set_general_state(update_batch.get(GENERAL, {}))
         else:
             for site_id, updates in update_batch.items():
                 self.set_site_state(site_id, updates)
-- 
2.43.0


From 695f98b73d320f317020358d9bc1e1ca86ad0c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:11 +0000
Subject: [PATCH 04/36] fix: loading a result keeps every step a runner
 recorded

A step in the {SITES, GENERAL} form, which is what the runners record, could
not be loaded back from a file, and its general updates were dropped.
---
 src/pylattica/core/simulation_result.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pylattica/core/simulation_result.py b/src/pylattica/core/simulation_result.py
index b91d92e..2ba0d87 100644
--- a/src/pylattica/core/simulation_result.py
+++ b/src/pylattica/core/simulation_result.py
@@ -4,6 +4,7 @@ from typing import Dict, List
 
 from monty.serialization import dumpfn, loadfn
 import datetime
+from .constants import GENERAL, SITES
 from .simulation_state import SimulationState
 
 
@@ -25,7 +26,13 @@ class SimulationResult:
         diffs = res_dict["diffs"]
         res = cls(SimulationState.from_dict(res_dict["initial_state"]))
         for diff in diffs:
-            formatted = {int(k): v for k, v in diff.items() if k != "GENERAL"}
+            if SITES in diff or GENERAL in diff:
+                formatted = {
+                    **diff,
+                    SITES: {int(k): v for k, v in diff.get(SITES, {}).items()},
+                }
+            else:
+                formatted = {int(k): v for k, v in diff.items()}
             res.add_step(formatted)
         return res
 
-- 
2.43.0


From 21c9a561197f92d15fadf4653e8b8cfa528c56e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:16 +0000
Subject: [PATCH 05/36] fix: Cartesian motifs are tiled along the lattice
 vectors

The cell origin was computed with the transposed lattice matrix, which put
sites in the wrong places for every lattice whose matrix is not symmetric.
---
 src/pylattica/core/periodic_structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylattica/core/periodic_structure.py b/src/pylattica/core/periodic_structure.py
index e364bc0..891e512 100644
--- a/src/pylattica/core/periodic_structure.py
+++ b/src/pylattica/core/periodic_structure.py
@@ -82,7 +82,7 @@ class PeriodicStructure:
         vec_coeffs = get_points_in_box([0 for _ in range(new_lattice.dim)], num_cells)
         for vec_coeff_set in vec_coeffs:
             if not frac_coords:  # convert lattice points to "cartesian coordinates"
-                point = lattice.matrix @ np.array(vec_coeff_set)
+                point = lattice.get_cartesian_coords(vec_coeff_set)
             else:
                 point = np.array(vec_coeff_set)
 
-- 
2.43.0


From 89929f04c3214b686799beeb3292067ecdca49a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:29 +0000
Subject: [PATCH 06/36] fix: a motif displacement that leads to no site gives
 no neighbor

---
 src/pylattica/core/neighborhood_builders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylattica/core/neighborhood_builders.py b/src/pylattica/core/neighborhood_builders.py
index 961754f..d2d6edc 100644
--- a/src/pylattica/core/neighborhood_builders.py
+++ b/src/pylattica/core/neighborhood_builders.py
@@ -246,7 +246,7 @@ class MotifNeighborhoodBuilder(NeighborhoodBuilder):
         for neighbor_vec in self._motif:
             loc = tuple(s + n for s, n in zip(location, neighbor_vec))
             nb_id = struct.id_at(loc)
-            if nb_id != curr_site[SITE_ID]:
+            if nb_id is not None and nb_id != curr_site[SITE_ID]:
                 nbs.append((nb_id, self.distances.get_dist(neighbor_vec)))
         return nbs
 
-- 
2.43.0


From ffca623b47078a8f511136a84f1e1b1d59f472e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:42 +0000
Subject: [PATCH 07/36] fix: MotifNeighborhoodBuilder accepts list
 displacements, as documented

---
 src/pylattica/core/neighborhood_builders.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pylattica/core/neighborhood_builders.py b/src/pylattica/core/neighborhood_builders.py
index d2d6edc..004275e 100644
--- a/src/pylattica/core/neighborhood_builders.py
+++ b/src/pylattica/core/neighborhood_builders.py
@@ -222,9 +222,9 @@ class MotifNeighborhoodBuilder(NeighborhoodBuilder):
         motif : Dict[str, List[List[float]]]
             See class docstring.
         """
-        self._motif = motif
+        self._motif = [tuple(vec) for vec in motif]
 
-        self.distances = EuclideanDistanceMap(motif)
+        self.distances = EuclideanDistanceMap(self._motif)
 
     def get_neighbors(self, curr_site: Dict, struct: PeriodicStructure) -> List[Tuple]:
         """Given a structure, constructs a NeighborGraph with site connections
-- 
2.43.0


From 45f3d6f5c1120e72a310a39367e5d804398edd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:55 +0000
Subject: [PATCH 08/36] fix: a stochastic neighborhood can be built for one
 site class

SiteClassNeighborhoodBuilder passes site_class to every builder it is given;
StochasticNeighborhoodBuilder did not take it, so the two could not be combined.
---
 src/pylattica/core/neighborhood_builders.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pylattica/core/neighborhood_builders.py b/src/pylattica/core/neighborhood_builders.py
index 004275e..5cca097 100644
--- a/src/pylattica/core/neighborhood_builders.py
+++ b/src/pylattica/core/neighborhood_builders.py
@@ -73,7 +73,7 @@ class StochasticNeighborhoodBuilder(NeighborhoodBuilder):
         """
         self.builders = builders
 
-    def get(self, struct: PeriodicStructure) -> Neighborhood:
+    def get(self, struct: PeriodicStructure, site_class: str = None) -> Neighborhood:
         """For the provided structure, calculate the StochasticNeighborhood
         specified by the list of builders originally provided to this class.
 
@@ -81,13 +81,18 @@ class StochasticNeighborhoodBuilder(NeighborhoodBuilder):
         ----------
         struct : PeriodicStructure
             The structure for which the neighborhood should be calculated.
+        site_class : str, optional
+            Specify a single class of sites to calculate the neighborhood for,
+            by default None
 
         Returns
         -------
         Neighborhood
             The resulting StochasticNeighborhood
         """
-        return StochasticNeighborhood([b.get(struct) for b in self.builders])
+        return StochasticNeighborhood(
+            [b.get(struct, site_class=site_class) for b in self.builders]
+        )
 
 
 class DistanceNeighborhoodBuilder(NeighborhoodBuilder):
-- 
2.43.0


From d689877efb73a096659fbcfa9e26a0b4877bca43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:12 +0000
Subject: [PATCH 09/36] fix: periodic distances are to the nearest image in
 skewed lattices too

---
 src/pylattica/core/lattice.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/pylattica/core/lattice.py b/src/pylattica/core/lattice.py
index 8d081c3..2ced6a4 100644
--- a/src/pylattica/core/lattice.py
+++ b/src/pylattica/core/lattice.py
@@ -5,6 +5,7 @@ from typing import List, Tuple, Union
 import numpy as np
 from numpy.typing import ArrayLike
 from .constants import OFFSET_PRECISION
+import itertools
 import math
 
 
@@ -79,9 +80,22 @@ def pbc_diff_cart(cart_coords1: ArrayLike, cart_coords2: ArrayLike, lattice: Lat
     fcoords1 = lattice.get_fractional_coords(cart_coords1)
     fcoords2 = lattice.get_fractional_coords(cart_coords2)
     frac_dist = pbc_diff_frac_vec(fcoords1, fcoords2, lattice.periodic)
-    return np.round(
-        np.linalg.norm(lattice.get_cartesian_coords(frac_dist)), OFFSET_PRECISION
+    dist = np.linalg.norm(lattice.get_cartesian_coords(frac_dist))
+
+    # In a skewed lattice, the nearest image need not be the one whose fractional
+    # coordinates are smallest, so check every image which could be any closer
+    reach = dist * np.linalg.norm(lattice.inv_matrix, axis=0)
+    shifts = itertools.product(
+        *(
+            range(math.ceil(-r - f), math.floor(r - f) + 1) if periodic else (0,)
+            for f, r, periodic in zip(frac_dist, reach, lattice.periodic)
+        )
     )
+    for shift in shifts:
+        image = lattice.get_cartesian_coords(frac_dist + np.array(shift))
+        dist = min(dist, np.linalg.norm(image))
+
+    return np.round(dist, OFFSET_PRECISION)
 
 
 class Lattice:
-- 
2.43.0


From ccb5a98a4b0b4885033174450b84cfae683ab5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:14 +0000
Subject: [PATCH 10/36] fix: a step for which no controller call returned
 updates is recorded as empty

merge_updates gave None for it, which crashed batch_update. Batches are now
also merged in site order, so the parallel and serial modes agree.
---
 src/pylattica/core/runner/asynchronous_runner.py | 5 ++++-
 src/pylattica/core/runner/synchronous_runner.py  | 7 ++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/pylattica/core/runner/asynchronous_runner.py b/src/pylattica/core/runner/asynchronous_runner.py
index fbfe19a..88ab2f2 100644
--- a/src/pylattica/core/runner/asynchronous_runner.py
+++ b/src/pylattica/core/runner/asynchronous_runner.py
@@ -2,6 +2,7 @@ from collections import deque
 
 from tqdm import tqdm
 
+from ..constants import GENERAL, SITES
 from ..basic_controller import BasicController
 from ..simulation_result import SimulationResult
 from ..simulation_state import SimulationState
@@ -83,7 +84,9 @@ class AsynchronousRunner(Runner):
             else:
                 state_updates = controller_response
 
-            state_updates = merge_updates(state_updates, site_id=site_id)
+            state_updates = merge_updates(
+                state_updates, {SITES: {}, GENERAL: {}}, site_id=site_id
+            )
             live_state.batch_update(state_updates)
             site_queue.extend(next_sites)
             result.add_step(state_updates)
diff --git a/src/pylattica/core/runner/synchronous_runner.py b/src/pylattica/core/runner/synchronous_runner.py
index 030f27a..92f5208 100644
--- a/src/pylattica/core/runner/synchronous_runner.py
+++ b/src/pylattica/core/runner/synchronous_runner.py
@@ -4,6 +4,7 @@ from typing import List
 
 from tqdm import tqdm
 
+from ..constants import GENERAL, SITES
 from ..basic_controller import BasicController
 from ..simulation_result import SimulationResult
 from ..simulation_state import SimulationState
@@ -94,9 +95,9 @@ class SynchronousRunner(Runner):
             params.append([batch, state])
 
         results = pool.starmap(_step_batch_parallel, params)
-        all_updates = None
+        all_updates = {SITES: {}, GENERAL: {}}
         for batch_update_res in results:
-            all_updates = merge_updates(all_updates, batch_update_res)
+            all_updates = merge_updates(batch_update_res, all_updates)
 
         return all_updates
 
@@ -118,7 +119,7 @@ def _step_batch_parallel(
 def _step_batch(
     id_batch: List[int], previous_state: SimulationState, controller: BasicController
 ):
-    batch_updates = None
+    batch_updates = {SITES: {}, GENERAL: {}}
     for site_id in id_batch:
         site_updates = controller.get_state_update(site_id, previous_state)
         batch_updates = merge_updates(site_updates, batch_updates, site_id)
-- 
2.43.0


From c22438ec99ccfc6e73596df7e83da2ddc91c2cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:31 +0000
Subject: [PATCH 11/36] fix: the default random site is one of the state's site
 IDs

It was an index into them, which is not a site ID when the IDs are not 0..n-1.
---
 src/pylattica/core/basic_controller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylattica/core/basic_controller.py b/src/pylattica/core/basic_controller.py
index 33d6e04..8fa253e 100644
--- a/src/pylattica/core/basic_controller.py
+++ b/src/pylattica/core/basic_controller.py
@@ -25,7 +25,7 @@ class BasicController(ABC):
         pass
 
     def get_random_site(self, state: SimulationState):
-        return random.randint(0, len(state.site_ids()) - 1)
+        return random.choice(state.site_ids())
 
     def instantiate_result(self, starting_state: SimulationState):
         return SimulationResult(starting_state=starting_state)
-- 
2.43.0


From d743b711d318fb2d7e48241d5fd3837a78b9b225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:49 +0000
Subject: [PATCH 12/36] fix: points on the cell boundary are wrapped despite
 rounding error

In a cell of 0.1 x 3, the location 0.3 was left at the far boundary, so the
site at 0 was not found there.
---
 src/pylattica/core/lattice.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pylattica/core/lattice.py b/src/pylattica/core/lattice.py
index 2ced6a4..f9af26d 100644
--- a/src/pylattica/core/lattice.py
+++ b/src/pylattica/core/lattice.py
@@ -8,6 +8,8 @@ from .constants import OFFSET_PRECISION
 import itertools
 import math
 
+PERIODIZE_TOLERANCE = 1e-9
+
 
 def periodize(frac_coords, periodic: Union[Tuple[bool], bool] = True):
     """Moves fractional coordinates into the unit cell.
@@ -28,7 +30,10 @@ def periodize(frac_coords, periodic: Union[Tuple[bool], bool] = True):
     if not isinstance(periodic, tuple):
         periodic = [periodic for _ in frac_coords]
 
-    return frac_coords - np.floor(frac_coords) * np.array(periodic, dtype=int)
+    # the tolerance keeps a point that is on the cell boundary up to rounding error
+    # from being left at the far side of the cell
+    cells = np.floor(np.add(frac_coords, PERIODIZE_TOLERANCE))
+    return frac_coords - cells * np.array(periodic, dtype=int)
 
 
 def pbc_diff_frac_vec(fcoords1: ArrayLike, fcoords2: ArrayLike, periodic):
-- 
2.43.0


From dec0755e54ab08d9299b55e776d9def247031c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:08 +0000
Subject: [PATCH 13/36] fix: get_step gives a snapshot whether or not the step
 was loaded

It returned the stored state itself after load_steps, so changing a retrieved
step changed the recorded history.
---
 src/pylattica/core/simulation_result.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylattica/core/simulation_result.py b/src/pylattica/core/simulation_result.py
index 2ba0d87..d464937 100644
--- a/src/pylattica/core/simulation_result.py
+++ b/src/pylattica/core/simulation_result.py
@@ -130,7 +130,7 @@ class SimulationResult:
 
         stored = self._stored_states.get(step_no)
         if stored is not None:
-            return stored
+            return stored.copy()
         else:
             state = self.initial_state.copy()
             for ud_idx in range(0, step_no):
-- 
2.43.0


From 098f43f1c87f4d0261338ecf110386687062f61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:31 +0000
Subject: [PATCH 14/36] fix: pymatgen conversion keeps the lattice's
 periodicity

---
 src/pylattica/atomic/pymatgen_struct_converter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pylattica/atomic/pymatgen_struct_converter.py b/src/pylattica/atomic/pymatgen_struct_converter.py
index 2870f77..057208c 100644
--- a/src/pylattica/atomic/pymatgen_struct_converter.py
+++ b/src/pylattica/atomic/pymatgen_struct_converter.py
@@ -30,7 +30,7 @@ class PymatgenStructureConverter:
         Lattice
             A pylattica lattice
         """
-        pyl_lat = PylLattice(pmg_lat.matrix)
+        pyl_lat = PylLattice(pmg_lat.matrix, pmg_lat.pbc)
         return pyl_lat
 
     def to_pylattica_structure_builder(
@@ -107,7 +107,7 @@ class PymatgenStructureConverter:
         PmgLattice
             The resulting pymatgen Lattice
         """
-        return PmgLattice(pyl_lat.vecs)
+        return PmgLattice(pyl_lat.vecs, pbc=pyl_lat.periodic)
 
     def to_pymatgen_structure(self, pyl_struct: PeriodicStructure) -> PmgStructure:
         """Converts a pylattica PeriodicStructure into a pymatgen
-- 
2.43.0


From 548e7cb672779dd73b9abaa8176c2e6aeaf45c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:51 +0000
Subject: [PATCH 15/36] fix: growth runs long enough to fill a three
 dimensional grid

---
 src/pylattica/structures/square_grid/growth_setup.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pylattica/structures/square_grid/growth_setup.py b/src/pylattica/structures/square_grid/growth_setup.py
index 12ff005..b39de31 100644
--- a/src/pylattica/structures/square_grid/growth_setup.py
+++ b/src/pylattica/structures/square_grid/growth_setup.py
@@ -4,6 +4,7 @@ from ...discrete import PhaseSet
 from ...models.growth import GrowthController
 from .grid_setup import DiscreteGridSetup
 
+import math
 from typing import Dict
 
 
@@ -81,5 +82,7 @@ class GrowthSetup:
         )
 
         runner = SynchronousRunner(parallel=True)
-        res = runner.run(simulation.state, controller, num_steps=size)
+        # the steps it takes to reach the farthest site along the grid directions
+        num_steps = math.ceil(size * self.dim / 2)
+        res = runner.run(simulation.state, controller, num_steps=num_steps)
         return Simulation(res.last_step, simulation.structure)
-- 
2.43.0


From 0743cee5b0c7aeaeb6521fcac8ce568ec12aba61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:10 +0000
Subject: [PATCH 16/36] fix: a loaded structure keeps its site IDs whatever
 order they are stored in

---
 src/pylattica/core/periodic_structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylattica/core/periodic_structure.py b/src/pylattica/core/periodic_structure.py
index 891e512..a28fef8 100644
--- a/src/pylattica/core/periodic_structure.py
+++ b/src/pylattica/core/periodic_structure.py
@@ -132,7 +132,7 @@ class PeriodicStructure:
         struct = cls(Lattice.from_dict(d["lattice"]))
         sites = {int(k): v for k, v in d["_sites"].items()}
 
-        for _, site in sites.items():
+        for _, site in sorted(sites.items()):
             struct.add_site(site[SITE_CLASS], site[LOCATION])
 
         return struct
-- 
2.43.0


From c7464565de33d61939404ddc25cb5b96ee35f89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:28 +0000
Subject: [PATCH 17/36] fix: draw rectangular grids with their own width and
 height

---
 .../visualization/square_grid_artist_2D.py         | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/pylattica/visualization/square_grid_artist_2D.py b/src/pylattica/visualization/square_grid_artist_2D.py
index 016779e..fe980b1 100644
--- a/src/pylattica/visualization/square_grid_artist_2D.py
+++ b/src/pylattica/visualization/square_grid_artist_2D.py
@@ -15,11 +15,13 @@ class SquareGridArtist2D(StructureArtist):
 
         legend = self.cell_artist.get_legend(state)
         legend_order = sorted(legend.keys())
-        state_size = int(self.structure.lattice.vec_lengths[0])
-        width = state_size + 6
+        x_size, y_size = (
+            int(extent) for extent in abs(self.structure.lattice.vecs).sum(axis=0)
+        )
+        width = x_size + 6
 
         legend_border_width = 5
-        height = max(state_size, len(legend) + 1)
+        height = max(y_size, len(legend) + 1)
         img = Image.new(
             "RGB",
             (width * cell_size + legend_border_width, height * cell_size),
@@ -34,7 +36,7 @@ class SquareGridArtist2D(StructureArtist):
             cell_state = state.get_site_state(site[SITE_ID])
             cell_color = self.cell_artist.get_color_from_cell_state(cell_state)
             p_x_start = int((loc[0]) * cell_size)
-            p_y_start = int((state_size - 1 - loc[1]) * cell_size)
+            p_y_start = int((y_size - 1 - loc[1]) * cell_size)
             for p_x in range(p_x_start, p_x_start + cell_size):
                 for p_y in range(p_y_start, p_y_start + cell_size):
                     pixels[p_x, p_y] = cell_color
@@ -45,12 +47,12 @@ class SquareGridArtist2D(StructureArtist):
 
         for p_y in range(height * cell_size):
             for p_x in range(0, legend_border_width):
-                x = state_size * cell_size + p_x
+                x = x_size * cell_size + p_x
                 pixels[x, p_y] = (255, 255, 255)
 
         for phase in legend_order:
             color = legend.get(phase)
-            p_col_start = state_size * cell_size + legend_border_width + legend_hoffset
+            p_col_start = x_size * cell_size + legend_border_width + legend_hoffset
             p_row_start = count * cell_size + legend_voffset
             for p_x in range(p_col_start, p_col_start + cell_size):
                 for p_y in range(p_row_start, p_row_start + cell_size):
-- 
2.43.0


From 1b6fa4c40c59a098d3ddbf641dc431318b2680d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:46 +0000
Subject: [PATCH 18/36] fix: no color is in the palette twice

Phases 16 and 23 of a color map had the same color, and so on.
---
 src/pylattica/visualization/colors.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pylattica/visualization/colors.py b/src/pylattica/visualization/colors.py
index 75b85a9..fb323a8 100644
--- a/src/pylattica/visualization/colors.py
+++ b/src/pylattica/visualization/colors.py
@@ -70,3 +70,6 @@ COLORS = [
     (112, 128, 144),
     (240, 255, 240),
 ]
+
+# each color once, so that phases only share a color when there are more of them
+COLORS = list(dict.fromkeys(COLORS))
-- 
2.43.0


From d551747e1e45aefee364a84d8d273f0972369ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:38 +0000
Subject: [PATCH 19/36] fix: a retrieved step shares no nested values with the
 recorded updates

Changing a list or dictionary inside a step from get_step changed the update
it came from, and with it every later retrieval of the step.
---
 src/pylattica/core/simulation_result.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylattica/core/simulation_result.py b/src/pylattica/core/simulation_result.py
index d464937..8702dcd 100644
--- a/src/pylattica/core/simulation_result.py
+++ b/src/pylattica/core/simulation_result.py
@@ -135,7 +135,7 @@ class SimulationResult:
             state = self.initial_state.copy()
             for ud_idx in range(0, step_no):
                 state.batch_update(self._diffs[ud_idx])
-            return state
+            return state.copy()
 
     def as_dict(self):
         return {
-- 
2.43.0


From 2293fefcf2377ed9f611c3c599e575d7b255fa10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:16 +0000
Subject: [PATCH 20/36] fix: updates of different keys of one site are all
 merged into a step

---
 src/pylattica/core/runner/common.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/pylattica/core/runner/common.py b/src/pylattica/core/runner/common.py
index 2ef750d..bc367a7 100644
--- a/src/pylattica/core/runner/common.py
+++ b/src/pylattica/core/runner/common.py
@@ -1,6 +1,11 @@
 from ..constants import GENERAL, SITES
 
 
+def _merge_site_updates(curr_sites, new_sites):
+    for site_id, site_updates in new_sites.items():
+        curr_sites[site_id] = {**curr_sites.get(site_id, {}), **site_updates}
+
+
 def merge_updates(new_updates, curr_updates=None, site_id=None):
     if new_updates is None:
         return curr_updates
@@ -10,14 +15,14 @@ def merge_updates(new_updates, curr_updates=None, site_id=None):
 
     # if this is a total
     if SITES in new_updates or GENERAL in new_updates:
-        curr_updates[SITES].update(new_updates.get(SITES, {}))
+        _merge_site_updates(curr_updates[SITES], new_updates.get(SITES, {}))
         curr_updates[GENERAL].update(new_updates.get(GENERAL, {}))
     # if these updates only include site updates
     elif set(map(type, new_updates.keys())) == {int}:
-        curr_updates[SITES].update(new_updates)
+        _merge_site_updates(curr_updates[SITES], new_updates)
     # if these updates only apply to a single site
     elif site_id is not None:
-        curr_updates[SITES].update({site_id: new_updates})
+        _merge_site_updates(curr_updates[SITES], {site_id: new_updates})
     else:
         raise ValueError("Bad combination of arguments for merge_updates")
 
-- 
2.43.0


From fb397fe7462b4492737a003a9e7b3a71ad5e73fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:19 +0000
Subject: [PATCH 21/36] fix: a parallel run of a state without sites does
 nothing, like a serial one

---
 src/pylattica/core/runner/synchronous_runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylattica/core/runner/synchronous_runner.py b/src/pylattica/core/runner/synchronous_runner.py
index 92f5208..eac058e 100644
--- a/src/pylattica/core/runner/synchronous_runner.py
+++ b/src/pylattica/core/runner/synchronous_runner.py
@@ -59,7 +59,7 @@ class SynchronousRunner(Runner):
 
             printif(verbose, f"Running in parallel using {PROCESSES} workers")
             num_sites = initial_state.size
-            chunk_size = math.ceil(num_sites / PROCESSES)
+            chunk_size = max(1, math.ceil(num_sites / PROCESSES))
             printif(
                 verbose,
                 f"Distributing {num_sites} update tasks to {PROCESSES} workers in chunks of {chunk_size}",
-- 
2.43.0


From de0a5ca0b8cf5ec5ccbf57b221a9b65ef058ed0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:14 +0000
Subject: [PATCH 22/36] fix: sites are found at locations that are not
 multiples of the lookup precision

---
 src/pylattica/core/periodic_structure.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pylattica/core/periodic_structure.py b/src/pylattica/core/periodic_structure.py
index a28fef8..d5898c8 100644
--- a/src/pylattica/core/periodic_structure.py
+++ b/src/pylattica/core/periodic_structure.py
@@ -8,7 +8,10 @@ from .constants import LOCATION, SITE_CLASS, SITE_ID, OFFSET_PRECISION
 
 import copy
 
-VEC_OFFSET = 0.001
+# locations are looked up by their rounded coordinates, moved by an offset that keeps
+# common fractions (1/16, 0.0005, ...) away from the points at which rounding flips
+VEC_OFFSET = 0.00013
+LOCATION_PRECISION = 9
 DEFAULT_SITE_CLASS = "A"
 
 
@@ -166,8 +169,8 @@ class PeriodicStructure:
         """
         new_site_id = len(self._sites)
 
-        periodized_coords = self._get_rounded_coords(
-            self.lattice.get_periodized_cartesian_coords(location)
+        periodized_coords = np.round(
+            self.lattice.get_periodized_cartesian_coords(location), LOCATION_PRECISION
         )
         offset_periodized_coords = tuple(self._transformed_coords(location))
 
-- 
2.43.0


From d8aa288efa1152ec9f647118b82489dce18baa28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:23 +0000
Subject: [PATCH 23/36] fix: stored locations are precise enough to be wrapped
 again

---
 src/pylattica/core/periodic_structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylattica/core/periodic_structure.py b/src/pylattica/core/periodic_structure.py
index d5898c8..5d3fcaf 100644
--- a/src/pylattica/core/periodic_structure.py
+++ b/src/pylattica/core/periodic_structure.py
@@ -11,7 +11,7 @@ import copy
 # locations are looked up by their rounded coordinates, moved by an offset that keeps
 # common fractions (1/16, 0.0005, ...) away from the points at which rounding flips
 VEC_OFFSET = 0.00013
-LOCATION_PRECISION = 9
+LOCATION_PRECISION = 12
 DEFAULT_SITE_CLASS = "A"
 
 
-- 
2.43.0


From 2ce529815a863679470d6c229ca67d93e4752f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:59 +0000
Subject: [PATCH 24/36] fix: every phase gets its share of random nuclei, to
 within one

---
 .../structures/square_grid/grid_setup.py      | 22 +++++++++----------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/pylattica/structures/square_grid/grid_setup.py b/src/pylattica/structures/square_grid/grid_setup.py
index 6249596..a64818a 100644
--- a/src/pylattica/structures/square_grid/grid_setup.py
+++ b/src/pylattica/structures/square_grid/grid_setup.py
@@ -17,8 +17,6 @@ from .structure_builders import (
     SimpleSquare3DStructureBuilder,
 )
 
-from itertools import cycle
-
 
 class DiscreteGridSetup:
     """A class for setting up states. Provides helper methods for creating starting
@@ -334,17 +332,17 @@ class DiscreteGridSetup:
         ideal_num_site_list = normalized_ratios * num_sites_desired
         ideal_num_sites = dict(zip(nuc_species, ideal_num_site_list))
 
-        nuc_identities = []
-
-        real_num_sites = {p: 0 for p in nuc_species}
-
-        spec_provider = cycle(nuc_species)
-        while len(nuc_identities) < num_sites_desired:
-            phase = next(spec_provider)
+        # every phase gets the whole part of its share (up to rounding errors),
+        # the phases with the largest remainders get the nuclei that are left
+        real_num_sites = {p: int(n + 1e-9) for p, n in ideal_num_sites.items()}
+        num_left = num_sites_desired - sum(real_num_sites.values())
+        by_remainder = sorted(
+            nuc_species, key=lambda p: real_num_sites[p] - ideal_num_sites[p]
+        )
+        for phase in by_remainder[:num_left]:
+            real_num_sites[phase] += 1
 
-            if real_num_sites.get(phase) < ideal_num_sites.get(phase):
-                nuc_identities.append(phase)
-                real_num_sites[phase] += 1
+        nuc_identities = [p for p in nuc_species for _ in range(real_num_sites[p])]
 
         while num_sites_planted < num_sites_desired:
             if total_attempts > 1000 * num_sites_desired:
-- 
2.43.0


From c9f8a5c2a1a3eaaa3f20dedc136c97a457f1702f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:19 +0000
Subject: [PATCH 25/36] fix: a site without a key does not match a searched
 value of None

---
 src/pylattica/core/analyzer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pylattica/core/analyzer.py b/src/pylattica/core/analyzer.py
index d9faa59..a760a62 100644
--- a/src/pylattica/core/analyzer.py
+++ b/src/pylattica/core/analyzer.py
@@ -97,7 +97,10 @@ class StateAnalyzer:
 
         def _criteria(site_state: Dict) -> bool:
             for state_key, state_val in search_pairs.items():
-                if site_state.get(state_key) != state_val:
+                if (
+                    state_key not in site_state
+                    or site_state[state_key] != state_val
+                ):
                     return False
             return True
 
-- 
2.43.0


From a132cfcd79f724d7250babe2d72bf8f7c49616d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:39 +0000
Subject: [PATCH 26/36] fix: frames of an animation are kept out of the working
 directory

---
 src/pylattica/visualization/result_artist.py | 39 ++++++++++----------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/src/pylattica/visualization/result_artist.py b/src/pylattica/visualization/result_artist.py
index 52c3c33..b2a9230 100644
--- a/src/pylattica/visualization/result_artist.py
+++ b/src/pylattica/visualization/result_artist.py
@@ -1,5 +1,6 @@
 import multiprocessing as mp
 import os
+import tempfile
 import time
 import sys
 
@@ -110,26 +111,24 @@ class ResultArtist:
         """
         wait = kwargs.get("wait", 0.8)
         imgs = self._get_images(**kwargs)
-        img_names = []
-        for idx, img in enumerate(imgs):
-            fname = f"tmp_pylat_step_{idx}.png"
-            img.save(fname)
-            img_names.append(fname)
-
-        reloaded_imgs = []
-        for fname in img_names:
-            reloaded_imgs.append(Image.open(fname))
-
-        reloaded_imgs[0].save(
-            filename,
-            save_all=True,
-            append_images=reloaded_imgs[1:],
-            duration=wait * 1000,
-            loop=0,
-        )
-
-        for fname in img_names:
-            os.remove(fname)
+        with tempfile.TemporaryDirectory() as tmp_dir:
+            img_names = []
+            for idx, img in enumerate(imgs):
+                fname = os.path.join(tmp_dir, f"tmp_pylat_step_{idx}.png")
+                img.save(fname)
+                img_names.append(fname)
+
+            reloaded_imgs = []
+            for fname in img_names:
+                reloaded_imgs.append(Image.open(fname))
+
+            reloaded_imgs[0].save(
+                filename,
+                save_all=True,
+                append_images=reloaded_imgs[1:],
+                duration=wait * 1000,
+                loop=0,
+            )
 
 
 def _get_img_parallel(step, step_kwargs):
-- 
2.43.0


From 9107e8ec98a45cca32da9fbf0ebbdb71ba163386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:57 +0000
Subject: [PATCH 27/36] fix: an artist without a color map draws black instead
 of failing

---
 src/pylattica/visualization/cell_artist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylattica/visualization/cell_artist.py b/src/pylattica/visualization/cell_artist.py
index 72cf652..687eab7 100644
--- a/src/pylattica/visualization/cell_artist.py
+++ b/src/pylattica/visualization/cell_artist.py
@@ -144,7 +144,7 @@ class DiscreteCellArtist(CellArtist):
         color_map : Dict[str, Tuple[int, int, int]]
             A mapping of phase name to color.
         """
-        self.color_map = color_map
+        self.color_map = color_map if color_map is not None else {}
         self._state_key = state_key
         self.legend = legend
 
-- 
2.43.0


From 02fb1fb9f1b1968f14a0c87bb79037201b275033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:00 +0000
Subject: [PATCH 28/36] fix: animation frames are not cut to the size of the
 first one

---
 src/pylattica/visualization/result_artist.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pylattica/visualization/result_artist.py b/src/pylattica/visualization/result_artist.py
index b2a9230..930efc6 100644
--- a/src/pylattica/visualization/result_artist.py
+++ b/src/pylattica/visualization/result_artist.py
@@ -111,11 +111,16 @@ class ResultArtist:
         """
         wait = kwargs.get("wait", 0.8)
         imgs = self._get_images(**kwargs)
+        # steps with more phases have longer legends, but a GIF only has the
+        # size of its first frame
+        size = tuple(max(extents) for extents in zip(*(img.size for img in imgs)))
         with tempfile.TemporaryDirectory() as tmp_dir:
             img_names = []
             for idx, img in enumerate(imgs):
                 fname = os.path.join(tmp_dir, f"tmp_pylat_step_{idx}.png")
-                img.save(fname)
+                frame = Image.new(img.mode, size)
+                frame.paste(img, (0, 0))
+                frame.save(fname)
                 img_names.append(fname)
 
             reloaded_imgs = []
-- 
2.43.0


From dd7edb3b295aeb5681de44621f4ead925a800289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 29/36] fix: phases of a result that has grown since are
 analyzed again

---
 src/pylattica/discrete/discrete_state_result_analyzer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pylattica/discrete/discrete_state_result_analyzer.py b/src/pylattica/discrete/discrete_state_result_analyzer.py
index 151d823..c4dd1e2 100644
--- a/src/pylattica/discrete/discrete_state_result_analyzer.py
+++ b/src/pylattica/discrete/discrete_state_result_analyzer.py
@@ -25,7 +25,6 @@ class DiscreteResultAnalyzer:
         """
         self._result = result
 
-    @lru_cache
     def all_phases(self) -> List[str]:
         """Returns all of the phases present across the analyzed result.
 
@@ -34,6 +33,11 @@ class DiscreteResultAnalyzer:
         List[str]
             A list of every phase present in any step of the result.
         """
+        # steps may still be added to the result
+        return self._phases_in_first_steps(len(self._result))
+
+    @lru_cache
+    def _phases_in_first_steps(self, _num_steps: int) -> List[str]:
         analyzer = DiscreteStepAnalyzer()
         phases = []
         for step in self._result.steps():
-- 
2.43.0


From 3c7bc4e90d5c770746a6a4a9793d425572c27484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:03 +0000
Subject: [PATCH 30/36] fix: the output of a result shares no values with its
 history

---
 src/pylattica/core/simulation_result.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylattica/core/simulation_result.py b/src/pylattica/core/simulation_result.py
index 8702dcd..3239369 100644
--- a/src/pylattica/core/simulation_result.py
+++ b/src/pylattica/core/simulation_result.py
@@ -100,7 +100,7 @@ class SimulationResult:
         return self.get_step(0)
 
     def set_output(self, step: SimulationState):
-        self.output = step
+        self.output = step.copy()
 
     def load_steps(self, interval=1):
         live_state = self.initial_state.copy()
-- 
2.43.0


From cc01e2388cb510ab0f902d9d3692091ccd171eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:02 +0000
Subject: [PATCH 31/36] fix: site-class neighborhoods can be parts of
 stochastic ones again

---
 src/pylattica/core/neighborhood_builders.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/pylattica/core/neighborhood_builders.py b/src/pylattica/core/neighborhood_builders.py
index 5cca097..1497bd6 100644
--- a/src/pylattica/core/neighborhood_builders.py
+++ b/src/pylattica/core/neighborhood_builders.py
@@ -271,7 +271,7 @@ class SiteClassNeighborhoodBuilder(NeighborhoodBuilder):
         """
         self._builders = nb_builders
 
-    def get(self, struct: PeriodicStructure) -> Neighborhood:
+    def get(self, struct: PeriodicStructure, site_class: str = None) -> Neighborhood:
         """Constructs the neighborhood of every site in the provided
         structure, conditional on the class of each site.
 
@@ -279,6 +279,9 @@ class SiteClassNeighborhoodBuilder(NeighborhoodBuilder):
         ----------
         struct : PeriodicStructure
             The structure for which the neigborhood should be calculated.
+        site_class : str, optional
+            Specify a single class of sites to calculate the neighborhood for,
+            by default None
 
         Returns
         -------
@@ -287,7 +290,8 @@ class SiteClassNeighborhoodBuilder(NeighborhoodBuilder):
         """
         nbhood_map = {}
         for sclass, builder in self._builders.items():
-            nbhood = builder.get(struct, site_class=sclass)
-            nbhood_map[sclass] = nbhood
+            if site_class is None or site_class == sclass:
+                nbhood = builder.get(struct, site_class=sclass)
+                nbhood_map[sclass] = nbhood
 
         return SiteClassNeighborhood(struct, nbhood_map)
-- 
2.43.0


From d1899f2fa155117fad203688434789b0f76c0e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:18 +0000
Subject: [PATCH 32/36] fix: states whose sites do not record their IDs can be
 analyzed

---
 src/pylattica/core/analyzer.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/pylattica/core/analyzer.py b/src/pylattica/core/analyzer.py
index a760a62..80dd846 100644
--- a/src/pylattica/core/analyzer.py
+++ b/src/pylattica/core/analyzer.py
@@ -47,14 +47,13 @@ class StateAnalyzer:
             state_criteria = []
 
         if self._structure is not None:
-            sites = self._structure.sites(site_class)
-            sites = [state.get_site_state(site[SITE_ID]) for site in sites]
+            site_ids = [site[SITE_ID] for site in self._structure.sites(site_class)]
         else:
-            sites = state.all_site_states()
+            site_ids = state.site_ids()
 
         matching_sites = []
-        for site in sites:
-            site_state = state.get_site_state(site[SITE_ID])
+        for site_id in site_ids:
+            site_state = state.get_site_state(site_id)
             meets_criteria = True
 
             for crit in state_criteria:
@@ -63,7 +62,7 @@ class StateAnalyzer:
                     break
 
             if meets_criteria:
-                matching_sites.append(site[SITE_ID])
+                matching_sites.append(site_id)
 
         return matching_sites
 
-- 
2.43.0


From 65b1f2021b7fed5372a60381ebc96812a631e1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:53 +0000
Subject: [PATCH 33/36] fix: draw three dimensional grids with their own
 extents

---
 src/pylattica/visualization/square_grid_artist_3D.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pylattica/visualization/square_grid_artist_3D.py b/src/pylattica/visualization/square_grid_artist_3D.py
index 408c375..a7e51b3 100644
--- a/src/pylattica/visualization/square_grid_artist_3D.py
+++ b/src/pylattica/visualization/square_grid_artist_3D.py
@@ -14,9 +14,10 @@ class SquareGridArtist3D(StructureArtist):
     def _draw_image(self, state: SimulationState, **kwargs):
         shell_only = kwargs.get("shell_only", False)
 
-        size = round(state.size ** (1 / 3))
-
-        shape = [size for _ in range(self.structure.dim)]
+        # not every grid is as large in every direction
+        shape = [
+            int(extent) for extent in abs(self.structure.lattice.vecs).sum(axis=0)
+        ]
         dataset = {}
 
         dataset["empty"] = np.ones(shape)
@@ -24,7 +25,7 @@ class SquareGridArtist3D(StructureArtist):
 
         for site in self.structure.sites():
             loc = site[LOCATION]
-            if not shell_only or (loc[1] == 0 or loc[0] == size or loc[2] == size):
+            if not shell_only or (loc[1] == 0 or loc[0] == shape[0] or loc[2] == shape[2]):
                 site_id = site[SITE_ID]
                 site_state = state.get_site_state(site_id)
                 color = self.cell_artist.get_color_from_cell_state(site_state)
-- 
2.43.0


From b41bbecb25cee65251f8fac807b1c6ca33398584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:12 +0000
Subject: [PATCH 34/36] fix: the shell of a three dimensional grid has all of
 its visible faces

---
 src/pylattica/visualization/square_grid_artist_3D.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pylattica/visualization/square_grid_artist_3D.py b/src/pylattica/visualization/square_grid_artist_3D.py
index a7e51b3..12a52e3 100644
--- a/src/pylattica/visualization/square_grid_artist_3D.py
+++ b/src/pylattica/visualization/square_grid_artist_3D.py
@@ -25,7 +25,9 @@ class SquareGridArtist3D(StructureArtist):
 
         for site in self.structure.sites():
             loc = site[LOCATION]
-            if not shell_only or (loc[1] == 0 or loc[0] == shape[0] or loc[2] == shape[2]):
+            if not shell_only or (
+                loc[1] == 0 or loc[0] == shape[0] - 1 or loc[2] == shape[2] - 1
+            ):
                 site_id = site[SITE_ID]
                 site_state = state.get_site_state(site_id)
                 color = self.cell_artist.get_color_from_cell_state(site_state)
-- 
2.43.0


From 69b643d16edeed98572dbd49d9a9b736065c2b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:17 +0000
Subject: [PATCH 35/36] fix: plot_phase_counts counts the phases of the steps
 of the result

---
 src/pylattica/discrete/discrete_state_result_analyzer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pylattica/discrete/discrete_state_result_analyzer.py b/src/pylattica/discrete/discrete_state_result_analyzer.py
index c4dd1e2..0ca3abc 100644
--- a/src/pylattica/discrete/discrete_state_result_analyzer.py
+++ b/src/pylattica/discrete/discrete_state_result_analyzer.py
@@ -1,7 +1,6 @@
 from typing import Dict, List, Tuple
 
 import matplotlib.pyplot as plt
-import numpy as np
 import plotly.graph_objects as go
 from functools import lru_cache
 
@@ -110,8 +109,9 @@ class DiscreteResultAnalyzer:
         """In a jupyter notebook environment, plots the number of phases at each
         time step.
         """
-        xs = np.arange(len(self.steps))
-        ys = [step.phase_count for step in self.steps]
+        analyzer = DiscreteStepAnalyzer()
+        xs, steps = self._get_steps_to_plot()
+        ys = [analyzer.phase_count(step) for step in steps]
         plt.plot(xs, ys)
 
     def _get_steps_to_plot(self) -> Tuple[List[int], List[SimulationState]]:
-- 
2.43.0


From 412e36aece6a457de6d57b4ef77683f363b3c573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:31 +0000
Subject: [PATCH 36/36] fix: the growth model can be imported first (circular
 import)

---
 src/pylattica/structures/square_grid/growth_setup.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pylattica/structures/square_grid/growth_setup.py b/src/pylattica/structures/square_grid/growth_setup.py
index b39de31..689b06a 100644
--- a/src/pylattica/structures/square_grid/growth_setup.py
+++ b/src/pylattica/structures/square_grid/growth_setup.py
@@ -1,7 +1,6 @@
 from ...core import SynchronousRunner, Simulation
 from ...core.neighborhood_builders import NeighborhoodBuilder
 from ...discrete import PhaseSet
-from ...models.growth import GrowthController
 from .grid_setup import DiscreteGridSetup
 
 import math
@@ -64,6 +63,9 @@ class GrowthSetup:
         Simulation
             The resulting Simulation.
         """
+        # imported here because the growth model itself uses the square grid
+        from ...models.growth import GrowthController
+
         setup = DiscreteGridSetup(self._phases, dim=self.dim)
 
         simulation = setup.setup_random_sites(
-- 
2.43.0

