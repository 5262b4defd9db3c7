From dfe47f8ef7414eafdb305c73509e9f76bdca7571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:58 +0000
Subject: [PATCH 01/36] fix: invalidate the cached data map whenever the
 neighbor data changes

---
 lattpy/data.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lattpy/data.py b/lattpy/data.py
index 4d5651d..874b6a0 100644
--- a/lattpy/data.py
+++ b/lattpy/data.py
@@ -350,6 +350,7 @@ class LatticeData:
         self.neighbors = neighbors
         self.distances = distances
         self.invalid_idx = num_sites
+        self._dmap = None
 
     def get_limits(self) -> np.ndarray:
         """Computes the geometric limits of the positions of the stored sites.
@@ -465,6 +466,7 @@ class LatticeData:
             self.paxes[i, i0:i1, : axes[i].shape[1]] = axes[i]
             self.pnvecs[i, i0:i1] = nvecs[i]
             self.pmask[i, i0:i1] = 1
+        self._dmap = None
 
     def sort(self, ax=None, indices=None, reverse=False):
         if ax is not None:
@@ -485,6 +487,7 @@ class LatticeData:
         for new, old in enumerate(indices):
             mask = old_neighbors == old
             self.neighbors[mask] = new
+        self._dmap = None
 
     def remove_periodic(self):
         mask = self.pmask
@@ -493,6 +496,7 @@ class LatticeData:
         self.pnvecs.fill(0)
         self.pmask.fill(0)
         self.paxes.fill(self.dim)
+        self._dmap = None
 
     def sort_neighbors(self):
         distances = self.distvals[self.distances]
@@ -503,6 +507,7 @@ class LatticeData:
         self.paxes = self.paxes[i, j]
         self.pnvecs = self.pnvecs[i, j]
         self.pmask = self.pmask[i, j]
+        self._dmap = None
 
     def add_neighbors(self, site, neighbors, distances):
         neighbors = np.atleast_2d(neighbors)
@@ -515,6 +520,7 @@ class LatticeData:
         # Add new neighbor data to unused slots
         self.neighbors[site, i0:i1] = neighbors
         self.distances[site, i0:i1] = distidx
+        self._dmap = None
 
     def append(self, *args, copy=False):
         neighbors1 = self.neighbors.copy()
-- 
2.43.0


From 267592f9ff0a2f44bdd292604474186c61ab9d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:36 +0000
Subject: [PATCH 02/36] fix: keep a distance level for invalid neighbors if all
 neighbor slots are used

---
 lattpy/data.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lattpy/data.py b/lattpy/data.py
index 874b6a0..5635c6b 100644
--- a/lattpy/data.py
+++ b/lattpy/data.py
@@ -305,6 +305,9 @@ class LatticeData:
         """
         logger.debug("Setting data")
         distvals, distidx = create_lookup_table(distances)
+        if not np.any(np.isinf(distvals)):
+            # All slots are used: add the distance level of invalid neighbors
+            distvals = np.append(distvals, np.inf)
 
         self.indices = indices
         self.positions = positions
@@ -316,7 +319,7 @@ class LatticeData:
         self.pmask = np.zeros_like(self.neighbors, dtype=bool)
 
         self.invalid_idx = self.num_sites
-        self.invalid_distidx = np.max(self.distances)
+        self.invalid_distidx = len(distvals) - 1
         self._dmap = None
 
     def remove(self, sites):
-- 
2.43.0


From 1c4609aaabf50316fa283019e6068fea058ac529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:36 +0000
Subject: [PATCH 03/36] fix: widen the lookup indices if there are more values
 than the data type can hold

---
 lattpy/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lattpy/utils.py b/lattpy/utils.py
index daebe60..2b52e6c 100644
--- a/lattpy/utils.py
+++ b/lattpy/utils.py
@@ -133,6 +133,7 @@ def create_lookup_table(
         The corresponding indices in the same shape as the input-array.
     """
     values = np.sort(np.unique(array))
+    dtype = np.promote_types(dtype, np.min_scalar_type(len(values)))
     indices = np.zeros_like(array, dtype=dtype)
     for i, x in enumerate(values):
         mask = array == x
-- 
2.43.0


From a5117054e3c19375ab41b42ca68f9e948e70cbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:46 +0000
Subject: [PATCH 04/36] fix: update the periodic neighbor data and ignore
 duplicate sites when removing sites

---
 lattpy/data.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lattpy/data.py b/lattpy/data.py
index 5635c6b..8bda9dd 100644
--- a/lattpy/data.py
+++ b/lattpy/data.py
@@ -323,7 +323,7 @@ class LatticeData:
         self._dmap = None
 
     def remove(self, sites):
-        sites = np.atleast_1d(sites)
+        sites = np.unique(np.atleast_1d(sites))
 
         # store current invalid index
         invalid_idx = self.invalid_idx
@@ -334,12 +334,18 @@ class LatticeData:
         positions = np.delete(self.positions, sites, axis=0)
         neighbors = np.delete(self.neighbors, sites, axis=0)
         distances = np.delete(self.distances, sites, axis=0)
+        paxes = np.delete(self.paxes, sites, axis=0)
+        pnvecs = np.delete(self.pnvecs, sites, axis=0)
+        pmask = np.delete(self.pmask, sites, axis=0)
 
         # Update neighbor indices and distances:
         # For each removed site below the neighbor index has to be decremented once
         mask = np.isin(neighbors, sites)
         neighbors[mask] = invalid_idx
         distances[mask] = invalid_distidx
+        paxes[mask] = self.dim
+        pnvecs[mask] = 0
+        pmask[mask] = False
         for count, i in enumerate(sorted(sites)):
             neighbors[neighbors > (i - count)] -= 1
 
@@ -352,6 +358,9 @@ class LatticeData:
         self.positions = positions
         self.neighbors = neighbors
         self.distances = distances
+        self.paxes = paxes
+        self.pnvecs = pnvecs
+        self.pmask = pmask
         self.invalid_idx = num_sites
         self._dmap = None
 
-- 
2.43.0


From 1fb86d797f52ceecbcc22e4949bb57151f69fd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:05 +0000
Subject: [PATCH 05/36] fix: store added neighbors in free slots and add
 missing slots and distance levels

---
 lattpy/data.py | 57 +++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 43 insertions(+), 14 deletions(-)

diff --git a/lattpy/data.py b/lattpy/data.py
index 8bda9dd..1b7bc36 100644
--- a/lattpy/data.py
+++ b/lattpy/data.py
@@ -445,6 +445,35 @@ class LatticeData:
             mask &= self.pmask[site] if periodic else ~self.pmask[site]
         return mask
 
+    def _add_distvals(self, dists):
+        """Adds missing distance levels and updates the distance indices."""
+        distvals = np.union1d(self.distvals, dists)
+        if len(distvals) > len(self.distvals):
+            levels = np.searchsorted(distvals, self.distvals)
+            dtype = np.promote_types(
+                self.distances.dtype, np.min_scalar_type(len(distvals))
+            )
+            self.distances = levels[self.distances].astype(dtype)
+            self.distvals = distvals
+            self.invalid_distidx = len(distvals) - 1
+
+    def _free_slots(self, site, num):
+        """Returns `num` unused neighbor slots of a site (adds columns if needed)."""
+        missing = num - np.count_nonzero(self.distances[site] == self.invalid_distidx)
+        if missing > 0:
+            w2 = ((0, 0), (0, missing))
+            w3 = ((0, 0), (0, missing), (0, 0))
+            self.neighbors = np.pad(
+                self.neighbors, w2, constant_values=self.invalid_idx
+            )
+            self.distances = np.pad(
+                self.distances, w2, constant_values=self.invalid_distidx
+            )
+            self.paxes = np.pad(self.paxes, w3, constant_values=self.dim)
+            self.pnvecs = np.pad(self.pnvecs, w3, constant_values=0)
+            self.pmask = np.pad(self.pmask, w2, constant_values=False)
+        return np.where(self.distances[site] == self.invalid_distidx)[0][:num]
+
     def set_periodic(
         self, indices: dict, distances: dict, nvecs: dict, axes: dict
     ) -> None:
@@ -466,18 +495,18 @@ class LatticeData:
         self.remove_periodic()
         # Set new periodic neighbors
         for i, pidx in indices.items():
-            # compute invalid slots of normal data
-            i0 = len(self.get_neighbors(i, periodic=False))
-            i1 = i0 + len(pidx)
             # translate distances to indices
             dists = distances[i]
+            self._add_distvals(dists)
             distidx = [np.searchsorted(self.distvals, d) for d in dists]
+            # compute invalid slots of normal data
+            slots = self._free_slots(i, len(pidx))
             # add periodic data
-            self.neighbors[i, i0:i1] = pidx
-            self.distances[i, i0:i1] = distidx
-            self.paxes[i, i0:i1, : axes[i].shape[1]] = axes[i]
-            self.pnvecs[i, i0:i1] = nvecs[i]
-            self.pmask[i, i0:i1] = 1
+            self.neighbors[i, slots] = pidx
+            self.distances[i, slots] = distidx
+            self.paxes[i, slots, : axes[i].shape[1]] = axes[i]
+            self.pnvecs[i, slots] = nvecs[i]
+            self.pmask[i, slots] = 1
         self._dmap = None
 
     def sort(self, ax=None, indices=None, reverse=False):
@@ -522,16 +551,16 @@ class LatticeData:
         self._dmap = None
 
     def add_neighbors(self, site, neighbors, distances):
-        neighbors = np.atleast_2d(neighbors)
-        distances = np.atleast_2d(distances)
+        neighbors = np.atleast_1d(neighbors)
+        distances = np.atleast_1d(distances)
+        self._add_distvals(distances)
         # compute invalid slots of normal data
-        i0 = len(self.distances[site, self.distances[site] != self.invalid_distidx])
-        i1 = i0 + len(neighbors)
+        slots = self._free_slots(site, len(neighbors))
         # Translate distances to indices
         distidx = np.asarray([np.searchsorted(self.distvals, d) for d in distances])
         # Add new neighbor data to unused slots
-        self.neighbors[site, i0:i1] = neighbors
-        self.distances[site, i0:i1] = distidx
+        self.neighbors[site, slots] = neighbors
+        self.distances[site, slots] = distidx
         self._dmap = None
 
     def append(self, *args, copy=False):
-- 
2.43.0


From ef0213f8bbeacef13a4ebf24eaaad87cebdbf469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:05 +0000
Subject: [PATCH 06/36] fix: accept sequences in create_lookup_table

---
 lattpy/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lattpy/utils.py b/lattpy/utils.py
index 2b52e6c..1fce7b3 100644
--- a/lattpy/utils.py
+++ b/lattpy/utils.py
@@ -132,6 +132,7 @@ def create_lookup_table(
     indices : np.ndarray
         The corresponding indices in the same shape as the input-array.
     """
+    array = np.asarray(array)
     values = np.sort(np.unique(array))
     dtype = np.promote_types(dtype, np.min_scalar_type(len(values)))
     indices = np.zeros_like(array, dtype=dtype)
-- 
2.43.0


From fd9bf326a1b18e0a402d495daf1e1f4901dbe2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:35 +0000
Subject: [PATCH 07/36] fix: drop periodic neighbors when appending data
 without modifying the inputs

---
 lattpy/data.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lattpy/data.py b/lattpy/data.py
index 1b7bc36..23cc6fd 100644
--- a/lattpy/data.py
+++ b/lattpy/data.py
@@ -570,13 +570,16 @@ class LatticeData:
             data = args[0]
             indices2 = data.indices
             positions2 = data.positions
-            neighbors2 = data.neighbors
+            neighbors2 = data.neighbors.copy()
             distances2 = data.distvals[data.distances]
+            neighbors2[data.pmask] = data.invalid_idx
+            distances2[data.pmask] = np.inf
         else:
             indices2, positions2, neighbors2, distances2 = args
 
         # Remove periodic neighbors
-        self.remove_periodic()
+        neighbors1[self.pmask] = self.invalid_idx
+        distances1[self.pmask] = np.inf
 
         # Convert invalid indices of neighbor data
         invalid_idx = self.num_sites + len(indices2)
-- 
2.43.0


From 1a465f775175653d2e52792666645b488fa52d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:45 +0000
Subject: [PATCH 08/36] fix: upgrade the neighbor data type before storing the
 new invalid index

---
 lattpy/data.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lattpy/data.py b/lattpy/data.py
index 23cc6fd..008b5ab 100644
--- a/lattpy/data.py
+++ b/lattpy/data.py
@@ -583,13 +583,13 @@ class LatticeData:
 
         # Convert invalid indices of neighbor data
         invalid_idx = self.num_sites + len(indices2)
+        # upgrade dtype if neccessary
+        dtype = min_dtype(invalid_idx, signed=False)
+        neighbors1 = neighbors1.astype(dtype)
+        neighbors2 = neighbors2.astype(dtype)
         neighbors1[neighbors1 == self.invalid_idx] = invalid_idx
         neighbors2[neighbors2 == len(indices2)] = invalid_idx
 
-        # upgrade dtype if neccessary
-        dtype = min_dtype(np.max(neighbors2) + self.num_sites)
-        if dtype != neighbors2.dtype:
-            neighbors2 = neighbors2.astype(dtype)
         # Shift neighbor indices
         neighbors2[neighbors2 != invalid_idx] += self.num_sites
 
-- 
2.43.0


From 844d42de9b8f0fd50ca5b0dbd5b6f10b97bc31b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:05 +0000
Subject: [PATCH 09/36] fix: prevent integer overflow of the grid indices in
 vindices

---
 lattpy/spatial.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/lattpy/spatial.py b/lattpy/spatial.py
index da3f52e..c7392d8 100644
--- a/lattpy/spatial.py
+++ b/lattpy/spatial.py
@@ -130,15 +130,12 @@ def vindices(
     sort_axis: int, optional
         Optional axis that is used to sort indices.
     dtype: int or str or np.dtype, optional
-        Optional data-type for storing the lattice indices. By default the given limits
-        are checked to determine the smallest possible data-type.
+        Optional data-type for storing the lattice indices.
 
     Returns
     -------
     vectors: (N, D) np.ndarray
     """
-    if dtype is None:
-        dtype = min_dtype(limits, signed=True)
     limits = np.asarray(limits)
     dim = limits.shape[0]
 
@@ -154,13 +151,13 @@ def vindices(
 
     # version 3:
     size = limits[:, 1] - limits[:, 0]
-    nvecs = np.indices(size, dtype=dtype).reshape(dim, -1).T + limits[:, 0]
+    nvecs = np.indices(size).reshape(dim, -1).T + limits[:, 0]
 
     # Optionally sort indices along given axis
     if sort_axis is not None:
         nvecs = nvecs[np.lexsort(nvecs.T[[sort_axis]])]
 
-    return nvecs
+    return nvecs if dtype is None else nvecs.astype(dtype)
 
 
 # noinspection PyIncorrectDocstring
-- 
2.43.0


From 90eb8141fb0f7e9a658b2aa81f57e6bd4f0e2cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:14 +0000
Subject: [PATCH 10/36] fix: use the actual corners of the bounding box to
 determine the translation limits

---
 lattpy/structure.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index 62c1b9f..977033b 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -1047,6 +1047,7 @@ class LatticeStructure(LatticeBasis):
             shape = np.array(shape) * np.max(self.vectors, axis=0) - 0.1 * self.norms
         if pos is None:
             pos = np.zeros(self.dim)
+        pos = np.atleast_1d(pos)
         end = pos + shape
 
         # Estimate the maximum needed translation vector to reach all points
@@ -1056,7 +1057,7 @@ class LatticeStructure(LatticeBasis):
         for i in range(1, self.dim):
             for idx in itertools.combinations(range(self.dim), r=i):
                 _pos = end.copy()
-                _pos[np.array(idx)] = 0
+                _pos[np.array(idx)] = pos[np.array(idx)]
                 index = self.itranslate(_pos)[0]
                 max_nvecs[0] = np.min([index, max_nvecs[0]], axis=0)
                 max_nvecs[1] = np.max([index, max_nvecs[1]], axis=0)
-- 
2.43.0


From c324e8d9ef8990fbb098e5355a2cf502f6cbbde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:44 +0000
Subject: [PATCH 11/36] fix: include the upper boundary cells when building
 translation vectors

---
 lattpy/structure.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index 977033b..d5dab81 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -1065,6 +1065,10 @@ class LatticeStructure(LatticeBasis):
         padding = oversample * shape + 1
         max_nvecs += [-padding, +padding]
         limits = max_nvecs.astype(np.int64).T
+        if not primitive:
+            # The upper cell is one too low if a corner is (up to rounding errors or
+            # the tolerance of the shape) on the boundary of a cell
+            limits[:, 1] += 1
         logger.debug("Limits: %s, %s", limits[:, 0], limits[:, 1])
 
         # Generate translation vectors with too many points to reach each corner
-- 
2.43.0


From 91f56070a5ce11bc917fe84e8a84b0e8daddef9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:16 +0000
Subject: [PATCH 12/36] fix: query all sites in range so that no neighbor is
 cut off

---
 lattpy/lattice.py   | 2 ++
 lattpy/structure.py | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index e6f2930..016f5a3 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -590,6 +590,8 @@ class Lattice(LatticeStructure):
             self._build_periodic(indices, positions, nvec, ind_t, pos_t)
 
             # Query neighbors with translated points and filter
+            num_points = [len(x) for x in tree.query_ball_point(pos_t, max_dist)]
+            tree.k = max([k] + num_points)
             neighbors, distances_ = tree.query(pos_t, num_jobs, self.DIST_DECIMALS)
             neighbors, distances_ = self._filter_neighbors(
                 indices, neighbors, distances_, ind_t
diff --git a/lattpy/structure.py b/lattpy/structure.py
index d5dab81..417b123 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -1319,6 +1319,9 @@ class LatticeStructure(LatticeBasis):
         k = np.sum(np.sum(self._raw_num_neighbors, axis=1)) + 1
         max_dist = np.max(self.distances) + 0.1 * np.min(self._raw_distance_matrix)
         tree = KDTree(positions, k=k, max_dist=max_dist)
+        # Sites without a connection can also be in range of the query
+        k = max([k] + [len(x) for x in tree.query_ball_point(positions, max_dist)])
+        tree.k = k
         logger.debug("Max. number of neighbors: %i", k)
         logger.debug("Max. neighbor distance:   %f", max_dist)
         # Query and filter neighbors
-- 
2.43.0


From 36b60354716a858c66b9b5ff2b647281a6a1153d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:25 +0000
Subject: [PATCH 13/36] fix: allow adding atoms to an analyzed lattice

---
 lattpy/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index 417b123..63ba996 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -251,7 +251,7 @@ class LatticeStructure(LatticeBasis):
             atom = Atom(atom, **kwargs)
 
         self._atoms.append(atom)
-        self._positions.append(np.asarray(pos))
+        self._positions = list(self._positions) + [np.asarray(pos)]
 
         # Update number of base atoms if data is valid
         num_base = len(self._atoms)
-- 
2.43.0


From c705819862e9f1f17be6683fe0da1fad67ff17b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:53 +0000
Subject: [PATCH 14/36] fix: require a new analysis after changing atoms or
 connections

---
 lattpy/structure.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index 63ba996..69cc362 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -262,6 +262,7 @@ class LatticeStructure(LatticeBasis):
         # Initial array for number of neighbour distances
         # for current number of atoms in the unit cell
         self._connections = np.zeros((num_base, num_base), dtype=np.int64)
+        self._base_neighbors = None
 
         if neighbors:
             self.add_connections(neighbors)
@@ -411,6 +412,7 @@ class LatticeStructure(LatticeBasis):
         for i, j in itertools.product(alpha1, alpha2):
             self._connections[i, j] = num_distances
             self._connections[j, i] = num_distances
+        self._base_neighbors = None
         if analyze:
             self.analyze()
 
@@ -444,6 +446,7 @@ class LatticeStructure(LatticeBasis):
         >>> latt.add_connections(num_distances=1)
         """
         self._connections.fill(num_distances)
+        self._base_neighbors = None
         if analyze:
             self.analyze()
 
-- 
2.43.0


From c9f0105ce5c911568740fa7d4084bab5adfe3f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:02 +0000
Subject: [PATCH 15/36] fix: error messages of configuration errors without a
 hint

---
 lattpy/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lattpy/utils.py b/lattpy/utils.py
index 1fce7b3..62bb5be 100644
--- a/lattpy/utils.py
+++ b/lattpy/utils.py
@@ -62,10 +62,11 @@ class ConfigurationError(LatticeError):
 
     @property
     def hint(self):
-        return self.args[1]
+        return self.args[1] if len(self.args) > 1 else ""
 
     def __str__(self):
-        msg, hint = self.args
+        msg = self.args[0]
+        hint = self.args[1] if len(self.args) > 1 else ""
         if hint:
             msg += f" ({hint})"
         return msg
-- 
2.43.0


From 833e7e0e76ee5a2cd1ab5ec5e8a542a7a0d5298b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:02 +0000
Subject: [PATCH 16/36] fix: don't modify the given shape when checking points

---
 lattpy/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index 69cc362..7cc8f71 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -966,7 +966,7 @@ class LatticeStructure(LatticeBasis):
                     f"match the dimension of the lattice {self.dim}"
                 )
             if relative:
-                shape += np.max(self.vectors, axis=0) - 0.1 * self.norms
+                shape = shape + np.max(self.vectors, axis=0) - 0.1 * self.norms
 
             pos = np.zeros(self.dim) if pos is None else np.array(pos, dtype=np.float64)
             pos -= tol
-- 
2.43.0


From 74cf1d63b5e45d553815ede8b8e293cf255042f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:02 +0000
Subject: [PATCH 17/36] fix: include the zero vector in the neighbor vectors of
 all atoms

---
 lattpy/structure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index 7cc8f71..6db01f9 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -850,9 +850,9 @@ class LatticeStructure(LatticeBasis):
 
         pos0 = self._positions[alpha]
         pos1 = self.get_neighbor_positions(alpha=alpha, distidx=distidx)
-        if include_zero:
-            pos1 = np.append(np.zeros((1, self.dim)), pos1, axis=0)
         vecs = pos1 - pos0
+        if include_zero:
+            vecs = np.append(np.zeros((1, self.dim)), vecs, axis=0)
         logger.debug("Neighbour-vectors: %s", vecs)
 
         return vecs
-- 
2.43.0


From cf55aa8f21e6fc823cb80ce71594ce3b4592b3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:23 +0000
Subject: [PATCH 18/36] fix: don't use the min_negative flag as tolerance of
 the reciprocal vectors

---
 lattpy/basis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lattpy/basis.py b/lattpy/basis.py
index 158ee6a..2524649 100644
--- a/lattpy/basis.py
+++ b/lattpy/basis.py
@@ -480,7 +480,7 @@ class LatticeBasis:
         [[6.28318531 0.        ]
          [0.         6.28318531]]
         """
-        rvecs = self.reciprocal_vectors(min_negative)
+        rvecs = self.reciprocal_vectors()
         rlatt = self.__class__(rvecs)
         return rlatt
 
@@ -569,7 +569,7 @@ class LatticeBasis:
         ws_cell : WignerSeitzCell
             The Wigner-Seitz cell of the reciprocal lattice.
         """
-        rvecs = self.reciprocal_vectors(min_negative)
+        rvecs = self.reciprocal_vectors()
         rlatt = self.__class__(rvecs)
         return rlatt.wigner_seitz_cell()
 
-- 
2.43.0


From a9a8bf81c5ee62f6167f743669e5d60575fc369a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:49 +0000
Subject: [PATCH 19/36] fix: check all pairs of vectors in is_reciprocal

---
 lattpy/basis.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lattpy/basis.py b/lattpy/basis.py
index 2524649..892c7ac 100644
--- a/lattpy/basis.py
+++ b/lattpy/basis.py
@@ -383,9 +383,10 @@ class LatticeBasis:
         """
         vecs = np.atleast_2d(vecs)
         two_pi = 2 * np.pi
-        for a, b in zip(self.vectors, vecs):
-            if abs(np.dot(a, b) - two_pi) > tol:
-                return False
+        for i, a in enumerate(self.vectors):
+            for j, b in enumerate(vecs):
+                if abs(np.dot(a, b) - (two_pi if i == j else 0.0)) > tol:
+                    return False
         return True
 
     def reciprocal_vectors(
-- 
2.43.0


From 792e2b044e0ebf16021d2ccfa9cfd5e475506ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:17 +0000
Subject: [PATCH 20/36] fix: compute the size of the Wigner-Seitz cell along
 each axis

---
 lattpy/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/spatial.py b/lattpy/spatial.py
index c7392d8..c8c488e 100644
--- a/lattpy/spatial.py
+++ b/lattpy/spatial.py
@@ -460,7 +460,7 @@ class WignerSeitzCell(VoronoiTree):
 
     @property
     def size(self):
-        return self.limits[1] - self.limits[0]
+        return self.limits[:, 1] - self.limits[:, 0]
 
     def check(self, points):
         cells = np.asarray(self.query(points)[1])
-- 
2.43.0


From aa0c58fb6f6f127ff27d582e5ad89aaaf632204a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:28 +0000
Subject: [PATCH 21/36] fix: rotate around the x-axis in rot

---
 lattpy/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/spatial.py b/lattpy/spatial.py
index c8c488e..342fcbf 100644
--- a/lattpy/spatial.py
+++ b/lattpy/spatial.py
@@ -555,7 +555,7 @@ def rot(
     if thetay:
         r = np.dot(r, ry(thetay))
     if thetax:
-        r = np.dot(r, rz(thetax))
+        r = np.dot(r, rx(thetax))
     return r
 
 
-- 
2.43.0


From 5217c3a8328bcbd4e9d9f210cf11066640066282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:28 +0000
Subject: [PATCH 22/36] fix: copy the connections in fromdict

---
 lattpy/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index 6db01f9..88fadbf 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -1371,7 +1371,7 @@ class LatticeStructure(LatticeBasis):
         self = cls(d["vectors"])
         for pos, at in zip(d["positions"], d["atoms"]):
             self.add_atom(pos, at)
-        self._connections = d["connections"]
+        self._connections = np.array(d["connections"])
         self.analyze()
         return self
 
-- 
2.43.0


From 7de8a4b26431582d598a016cf1062d0f131d7569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:36 +0000
Subject: [PATCH 23/36] fix: prevent overflow of the number of neighbors

---
 lattpy/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index 88fadbf..6cf10e2 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -600,7 +600,7 @@ class LatticeStructure(LatticeBasis):
         max_num_distances = len(unique_distances)
 
         # Compute number of neighbors for each atom in the unit cell
-        num_neighbors = np.zeros(self.num_base, dtype=np.int8)
+        num_neighbors = np.zeros(self.num_base, dtype=np.int64)
         for i, neighbors in enumerate(base_neighbors):
             num_neighbors[i] = sum(len(indices) for indices in neighbors.values())
 
-- 
2.43.0


From 35cdc2cdbf2fdb4db9ff289881c21474e52ab15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:13 +0000
Subject: [PATCH 24/36] fix: construct all translation vectors for multiple
 periodic axes

---
 lattpy/lattice.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index 016f5a3..5e74c78 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -537,14 +537,17 @@ class Lattice(LatticeStructure):
             return [(axes, self._build_periodic_translation_vector(axes, primitive))]
         # Add all combinations of the periodic axis
         items = list()
-        for ax in itertools.combinations_with_replacement(axes, r=2):
-            nvec = self._build_periodic_translation_vector(ax, primitive)
-            items.append((ax, nvec))
-            # Use +/- for every axis exept the first one to ensure all corners are hit
-            if not np.all(np.array(ax) == axes[0]):
-                nvec2 = np.copy(nvec)
-                nvec2[1:] *= -1
-                items.append((ax, nvec2))
+        nvecs = [self._build_periodic_translation_vector(ax, primitive) for ax in axes]
+        for num in range(1, len(axes) + 1):
+            for idx in itertools.combinations(range(len(axes)), r=num):
+                # The last axis is repeated if not all axes are used
+                ax = tuple(axes[i] for i in idx + idx[-1:] * (len(axes) - num))
+                # Use +/- for every axis exept the first one to ensure all corners are hit
+                for signs in itertools.product([+1, -1], repeat=num - 1):
+                    nvec = nvecs[idx[0]].copy()
+                    for sign, i in zip(signs, idx[1:]):
+                        nvec += sign * nvecs[i]
+                    items.append((ax, nvec))
         return items
 
     def _build_periodic(self, indices, positions, nvec, out_ind=None, out_pos=None):
-- 
2.43.0


From 3fb878ea605bb5967f4a65a526626cf358da3b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:36 +0000
Subject: [PATCH 25/36] fix: keep distances and translation vectors aligned
 with the periodic neighbors

---
 lattpy/lattice.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index 5e74c78..5608459 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -628,13 +628,14 @@ class Lattice(LatticeStructure):
             # This occurs for small lattices and makes no sense, since the
             # sites are already neighbors
             existing_neighbors = self.neighbors(k)
-            for _i, ind in enumerate(pi[:]):
-                if ind in existing_neighbors:
-                    pi.remove(ind)
+            keep = [i for i, ind in enumerate(pi) if ind not in existing_neighbors]
 
-            if len(pi):
+            if len(keep):
+                # Keep the nearest image of each periodic neighbor
+                keep = sorted(keep, key=lambda i: pdists[k][i])
+                sites, ind = np.unique([pi[i] for i in keep], return_index=True)
+                ind = np.array(keep)[ind]
                 # Convert to arrays
-                sites, ind = np.unique(pi, return_index=True)
                 pidx[k] = np.array(sites)
                 pdists[k] = np.array(pdists[k])[ind]
                 paxs[k] = np.array(paxs[k])[ind]
-- 
2.43.0


From 010dd99be1fd4eae2aa5879ff2f0752c92d7a2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:46 +0000
Subject: [PATCH 26/36] fix: keep the periodic axes in step with the periodic
 neighbors

---
 lattpy/lattice.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index 5608459..ca7dc9a 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -446,6 +446,7 @@ class Lattice(LatticeStructure):
             Raised if the lattice distances and base-neighbors haven't been computed.
         """
         self.data.reset()
+        self.periodic_axes = list()
         if not isinstance(shape, AbstractShape):
             basis = self.vectors if primitive else None
             shape = Shape(shape, pos=pos, basis=basis)
@@ -700,11 +701,11 @@ class Lattice(LatticeStructure):
         else:
             self.data.remove_periodic()
             axis = np.atleast_1d(axis)
+            self.periodic_axes = axis
             pidx, pdists, pnvecs, paxs = self._compute_pneighbors(axis, primitive)
             if not pidx:
                 return
             self.data.set_periodic(pidx, pdists, pnvecs, paxs)
-            self.periodic_axes = axis
 
     def _compute_connection_neighbors(self, positions1, positions2):
         # Set neighbor query parameters
@@ -831,6 +832,7 @@ class Lattice(LatticeStructure):
 
         # Append data and compute connecting neighbors
         self.data.append(indices2, positions2, neighbors2, distances2)
+        self.periodic_axes = list()
         pairs, distances_ = self._compute_connection_neighbors(positions1, positions2)
         offset = len(positions1)
         for (i, j), dist in zip(pairs, distances_):
-- 
2.43.0


From 2f8a9c7386fbac41b22f1d3017db6c9d0875d497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:35 +0000
Subject: [PATCH 27/36] fix: drop periodic neighbors of the appended lattice

---
 lattpy/lattice.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index ca7dc9a..3b7fea4 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -902,10 +902,12 @@ class Lattice(LatticeStructure):
                 DeprecationWarning,
             )
 
-        ind = latt.data.indices
-        pos = latt.data.positions
-        neighbors = latt.data.neighbors
-        dists = latt.data.distvals[latt.data.distances]
+        data = latt.data.copy()
+        data.remove_periodic()
+        ind = data.indices
+        pos = data.positions
+        neighbors = data.neighbors
+        dists = data.distvals[data.distances]
         self._append(
             ind, pos, neighbors, dists, ax, side, sort_ax, sort_reverse, self.primitive
         )
@@ -993,10 +995,12 @@ class Lattice(LatticeStructure):
         >>> latt.repeat(ax=1)
         [35.  5.]
         """
-        ind = self.data.indices
-        pos = self.data.positions
-        neighbors = self.data.neighbors
-        dists = self.data.distvals[self.data.distances]
+        data = self.data.copy()
+        data.remove_periodic()
+        ind = data.indices
+        pos = data.positions
+        neighbors = data.neighbors
+        dists = data.distvals[data.distances]
         prim = self.primitive
         for _ in range(num):
             self._append(
-- 
2.43.0


From 46ed23395d506038dc62324f0050bc19bf3720e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:55 +0000
Subject: [PATCH 28/36] fix: align appended lattices with the boundary of the
 current lattice

---
 lattpy/lattice.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index 3b7fea4..bf0903e 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -800,6 +800,18 @@ class Lattice(LatticeStructure):
         # get minimum distances
         return np.min(dists, axis=0)
 
+    def _boundary_offset(self, indices, ax, primitive=False):
+        """Translation vector to the lower boundary of the lattice along an axis."""
+        cells1, cells2 = self.data.indices[:, :-1], indices[:, :-1]
+        nvec = np.zeros(self.dim)
+        if primitive:
+            nvec[ax] = np.min(cells1[:, ax]) - np.min(cells2[:, ax])
+        else:
+            x1, x2 = self.transform(cells1)[:, ax], self.transform(cells2)[:, ax]
+            nvec[ax] = np.min(x1) - np.min(x2)
+            nvec = self.itransform(nvec)
+        return np.round(nvec, decimals=0).astype(np.int64)
+
     def _append(
         self,
         ind,
@@ -821,6 +833,8 @@ class Lattice(LatticeStructure):
         nvec = self._build_periodic_translation_vector(ax, primitive, indices)
         if side <= 0:
             nvec = -1 * nvec
+        # Align the lower boundary of the appended lattice with the current one
+        nvec = nvec + self._boundary_offset(indices2, ax, primitive)
         vec = self.translate(nvec)
 
         # Store temporary data
@@ -951,7 +965,9 @@ class Lattice(LatticeStructure):
         # Build indices and positions of new section
         shape = np.copy(self.shape)
         shape[ax] = size
-        ind, pos = self.build_indices(shape, primitive=self.primitive, return_pos=True)
+        ind, pos = self.build_indices(
+            shape, primitive=self.primitive, pos=self.pos, return_pos=True
+        )
         # Compute the neighbors and distances between the sites of new section
         neighbors, dists = self.compute_neighbors(ind, pos, num_jobs)
         # Append new section
-- 
2.43.0


From df27757586004f988ad243f6c9f9c9b7a758c072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:05 +0000
Subject: [PATCH 29/36] fix: only connect appended sites via the configured
 distances

---
 lattpy/lattice.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index bf0903e..4c4ca35 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -707,7 +707,7 @@ class Lattice(LatticeStructure):
                 return
             self.data.set_periodic(pidx, pdists, pnvecs, paxs)
 
-    def _compute_connection_neighbors(self, positions1, positions2):
+    def _compute_connection_neighbors(self, positions1, positions2, alphas1, alphas2):
         # Set neighbor query parameters
         k = np.sum(np.sum(self._raw_num_neighbors, axis=1)) + 1
         max_dist = np.max(self.distances) + 0.1 * np.min(self._raw_distance_matrix)
@@ -724,11 +724,12 @@ class Lattice(LatticeStructure):
             if conns:
                 conns = np.asarray(conns)
                 dists = cdist(np.asarray([positions1[i]]), positions2[conns])[0]
+                dists = np.round(dists, decimals=self.DIST_DECIMALS)
                 for j, dist in zip(conns, dists):
-                    pairs.append((i, j))
-                    # pairs.append((j, i))
-                    distances_.append(dist)
-                    # distances_.append(dist)
+                    # Only use the configured connections
+                    if dist in self._distance_matrix[alphas1[i]][alphas2[j]]:
+                        pairs.append((i, j))
+                        distances_.append(dist)
 
         return np.array(pairs), np.array(distances_)
 
@@ -749,8 +750,10 @@ class Lattice(LatticeStructure):
         distances : (N) np.ndarray
             The corresponding distances for the connections.
         """
-        positions2 = latt.data.positions
-        return self._compute_connection_neighbors(self.data.positions, positions2)
+        data1, data2 = self.data, latt.data
+        return self._compute_connection_neighbors(
+            data1.positions, data2.positions, data1.indices[:, -1], data2.indices[:, -1]
+        )
 
     def minimum_distances(self, site, primitive=None):
         """Computes the minimum distances between one site and the other lattice sites.
@@ -839,6 +842,7 @@ class Lattice(LatticeStructure):
 
         # Store temporary data
         positions1 = self.data.positions
+        alphas1 = self.data.indices[:, -1]
 
         # Shift data of appended lattice
         indices2[:, :-1] += nvec
@@ -847,7 +851,9 @@ class Lattice(LatticeStructure):
         # Append data and compute connecting neighbors
         self.data.append(indices2, positions2, neighbors2, distances2)
         self.periodic_axes = list()
-        pairs, distances_ = self._compute_connection_neighbors(positions1, positions2)
+        pairs, distances_ = self._compute_connection_neighbors(
+            positions1, positions2, alphas1, indices2[:, -1]
+        )
         offset = len(positions1)
         for (i, j), dist in zip(pairs, distances_):
             self.data.add_neighbors(i, j + offset, dist)
-- 
2.43.0


From 948e2e15a351792e2d0537306d1a0031e9dee558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:16 +0000
Subject: [PATCH 30/36] fix: check all distance levels in check_neighbors

---
 lattpy/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index 4c4ca35..b2e4e31 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -383,7 +383,7 @@ class Lattice(LatticeStructure):
         distidx : int or None
             The distance index of the two sites if they are neighbors.
         """
-        for distidx in range(self.num_distances):
+        for distidx in range(self.data.invalid_distidx):
             if idx1 in self.neighbors(idx0, distidx):
                 return distidx
         return None
-- 
2.43.0


From cae295d94244e0c34662e463a24d74ee2529a73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:26 +0000
Subject: [PATCH 31/36] fix: use the number of sites as shape of the adjacency
 matrix

---
 lattpy/lattice.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index b2e4e31..ebf4c18 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -1120,7 +1120,8 @@ class Lattice(LatticeStructure):
         pairs, distindices = self.neighbor_pairs(unique=False)
         rows, cols = pairs.T  # noqa
         data = distindices + 1
-        return csr_matrix((data, (rows, cols)), dtype=np.int8)
+        shape = (self.num_sites, self.num_sites)
+        return csr_matrix((data, (rows, cols)), shape=shape, dtype=np.int8)
 
     # ==================================================================================
 
-- 
2.43.0


From ba4f15cb2efe91b8f5ee3f69cddce94ba7072f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:46 +0000
Subject: [PATCH 32/36] fix: order the translation limits of lattice vectors
 with negative components

---
 lattpy/structure.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index 6cf10e2..a6bb563 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -1057,6 +1057,7 @@ class LatticeStructure(LatticeBasis):
         max_nvecs = np.array(
             [self.itranslate(pos)[0], self.itranslate(end)[0]], dtype=np.float64
         )
+        max_nvecs.sort(axis=0)
         for i in range(1, self.dim):
             for idx in itertools.combinations(range(self.dim), r=i):
                 _pos = end.copy()
-- 
2.43.0


From 203017b466f265748d61dad318ec73607f3ae3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:35 +0000
Subject: [PATCH 33/36] fix: take the atom positions into account when
 searching the base neighbors

---
 lattpy/structure.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index a6bb563..c98cf11 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -458,8 +458,10 @@ class LatticeStructure(LatticeBasis):
         cell_range = 2 * max_distidx
         logger.debug("Max. distidx: %i, Cell-range: %i", max_distidx, cell_range)
 
+        # The distances of the atoms can be larger than the ones of the cells
+        offset = 2 * np.max(np.ptp(self._positions, axis=0)) * np.sqrt(self.dim)
         nvecs = self.get_neighbor_cells(
-            cell_range, include_origin=True, comparison=np.less_equal
+            cell_range, include_origin=True, comparison=lambda d, m: d <= m + offset
         )
         arrays = [
             np.c_[nvecs, i * np.ones(nvecs.shape[0])] for i in range(self.num_base)
-- 
2.43.0


From fa2aee54f2819ad2afbbe6990909dbf7df459a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:45 +0000
Subject: [PATCH 34/36] fix: apply the tolerance to the upper boundary when
 checking points

---
 lattpy/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index c98cf11..14e2e77 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -971,8 +971,8 @@ class LatticeStructure(LatticeBasis):
                 shape = shape + np.max(self.vectors, axis=0) - 0.1 * self.norms
 
             pos = np.zeros(self.dim) if pos is None else np.array(pos, dtype=np.float64)
-            pos -= tol
             end = pos + shape + tol
+            pos -= tol
 
             mask = (pos[0] <= points[:, 0]) & (points[:, 0] <= end[0])
             for i in range(1, self.dim):
-- 
2.43.0


From d0636d8d4cd54272eb649fcc7d8efb07a9a3aa96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:55 +0000
Subject: [PATCH 35/36] fix: never return invalid entries when querying
 neighbors of a distance level

---
 lattpy/data.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lattpy/data.py b/lattpy/data.py
index 008b5ab..c84924f 100644
--- a/lattpy/data.py
+++ b/lattpy/data.py
@@ -434,10 +434,9 @@ class LatticeData:
         -------
         mask : np.ndarray
         """
-        if distidx is None:
-            mask = self.distances[site] < self.invalid_distidx
-        else:
-            mask = self.distances[site] == distidx
+        mask = self.distances[site] < self.invalid_distidx
+        if distidx is not None:
+            mask &= self.distances[site] == distidx
         if unique:
             mask &= self.neighbors[site] > site
 
-- 
2.43.0


From 38fb88c419fb94580a79770c159661429297ea21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:40 +0000
Subject: [PATCH 36/36] fix: include the origin in the upper corner of the cell
 size

---
 lattpy/spatial.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lattpy/spatial.py b/lattpy/spatial.py
index 342fcbf..adfd28b 100644
--- a/lattpy/spatial.py
+++ b/lattpy/spatial.py
@@ -233,6 +233,7 @@ def cell_size(vectors: ArrayLike) -> np.ndarray:
     """
     max_values = np.max(vectors, axis=0)
     min_values = np.min(vectors, axis=0)
+    max_values[max_values < 0] = 0
     min_values[min_values > 0] = 0
     return max_values - min_values
 
-- 
2.43.0

