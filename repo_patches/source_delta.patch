From 756206f908ab440801971c7de88880df9e40715a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:40 +0000
Subject: [PATCH 01/39] fix: reject infeasible get_N_splits requests instead of
 looping forever

With l - 2m == (n-1)m there is no arrangement of n indices with separation m
in [m, l-m), so the reseeding loop never terminated.
---
 czone/util/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/util/misc.py b/czone/util/misc.py
index cce4e35..387ff0d 100644
--- a/czone/util/misc.py
+++ b/czone/util/misc.py
@@ -31,7 +31,7 @@ def get_N_splits(n: int, m: int, l: int, seed: int = None) -> List[int]:
     if n == 0:
         return []
         
-    if (l - 2 * m < (n - 1) * m):
+    if (l - 2 * m <= (n - 1) * m):
         raise ValueError("m is too large for number of splits requested and l")
     rng = np.random.default_rng(seed=seed)
 
-- 
2.43.0


From 24e042c4956d16bc3159c0afa6f447bf83e8c84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:40 +0000
Subject: [PATCH 02/39] fix: let the points of a Volume be replaced

Assigning Volume.points (and so transforming any Volume defined by points)
raised ValueError, because the new points were appended to an empty 1-D array.
---
 czone/volume/volume.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/czone/volume/volume.py b/czone/volume/volume.py
index acaf8d7..51c71a1 100644
--- a/czone/volume/volume.py
+++ b/czone/volume/volume.py
@@ -176,7 +176,8 @@ class Volume(BaseVolume):
     @points.setter
     def points(self, points):
         try:
-            self._points = np.array([])  #clear points
+            self._points = None  #clear points and hull built from them
+            self._hull = None
             self.addPoints(points)
         except AssertionError:
             raise ValueError("Check shape of input array.")
-- 
2.43.0


From 2fc5c6dec287525cd2a66fb177a799a6ba358949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:40 +0000
Subject: [PATCH 03/39] fix: keep the interior of a Volume in step with points
 added to its hull

addPoints extended the hull but not the triangulation that checkIfInterior uses.
---
 czone/volume/volume.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/czone/volume/volume.py b/czone/volume/volume.py
index 51c71a1..07c809b 100644
--- a/czone/volume/volume.py
+++ b/czone/volume/volume.py
@@ -261,7 +261,7 @@ class Volume(BaseVolume):
         if (self._points is None):
             self._points = np.copy(points)
             if len(points.shape) == 1:  #add dim if only single new point
-                self._points = np.expand_dims(points)
+                self._points = np.expand_dims(points, axis=0)
         else:
             if len(points.shape) == 1:  #check for single point
                 points = np.expand_dims(points, axis=0)
@@ -271,6 +271,7 @@ class Volume(BaseVolume):
         #if hull created, update points; else, create hull
         try:
             self._hull.add_points(points)
+            self._tri = Delaunay(self.hull.points[self.hull.vertices])
         except AttributeError:
             self.createHull()
 
-- 
2.43.0


From 45ac922a55081a8dda3b0fec51c3ad92ba1cb34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:40 +0000
Subject: [PATCH 04/39] fix: let Reflection act on algebraic surfaces

Its override raised TypeError (misplaced parenthesis in isinstance) and did not
reflect plane normals or cylinders; MatrixTransform's method does all of it.
---
 czone/transform/transform.py | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/czone/transform/transform.py b/czone/transform/transform.py
index ea55165..7f00b9a 100644
--- a/czone/transform/transform.py
+++ b/czone/transform/transform.py
@@ -335,18 +335,6 @@ class Reflection(MatrixTransform):
     def params(self):
         return self.plane
 
-    def applyTransformation_alg(self, alg_object):
-        if (isinstance(alg_object), Sphere):
-            alg_object.center = np.dot(
-                self.matrix,
-                (alg_object.center - self.origin).T).T + self.origin
-
-        if (isinstance(alg_object), Plane):
-            alg_object.point = np.dot(
-                self.matrix, (alg_object.point - self.origin).T).T + self.origin
-
-        return alg_object
-
 
 class MultiTransform(BaseTransform):
     """Transformation sequence which applies a numeruous transformations in succession.
-- 
2.43.0


From 8127a96c756991ebb96df4de4dd596ab6300f777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:40 +0000
Subject: [PATCH 05/39] fix: return only the vertices as bounding box of a
 Volume made of planes

The (vertices, status) tuple went straight to Generator.supply_atoms, so a Volume
bounded by planes (every Wulff construction) could not be populated. Planes that
enclose no bounded region fall through to the cylinders.
---
 czone/volume/volume.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/czone/volume/volume.py b/czone/volume/volume.py
index 07c809b..89a74e0 100644
--- a/czone/volume/volume.py
+++ b/czone/volume/volume.py
@@ -338,7 +338,9 @@ class Volume(BaseVolume):
 
             planes = [obj for obj in self.alg_objects if isinstance(obj, Plane)]
             if len(planes) > 3:
-                return get_bounding_box_planes(planes)
+                bbox, status = get_bounding_box_planes(planes)
+                if status == 0 and np.all(np.isfinite(bbox)):
+                    return bbox
 
             cylinders = [obj for obj in self.alg_objects if isinstance(obj, Cylinder)]
             if len(cylinders) > 0:
-- 
2.43.0


From af9ef96b9ab8a0a7b2967083c8e34f56db264d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:40 +0000
Subject: [PATCH 06/39] fix: lay out non-orthogonal unit cells with their own
 lattice vectors

pymatgen keeps lattice vectors as rows; everything that uses Voxel bases
(supply_atoms, get_extents, transforms, Miller planes) takes them as columns, so
e.g. hexagonal crystals came out with wrong interatomic distances.
---
 czone/generator/generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/czone/generator/generator.py b/czone/generator/generator.py
index aa3559a..246b896 100644
--- a/czone/generator/generator.py
+++ b/czone/generator/generator.py
@@ -121,9 +121,9 @@ class Generator(BaseGenerator):
 
         # check if voxel exists, if so, copy origin
         if self.voxel is None:
-            self.voxel = Voxel(bases=structure.lattice.matrix)
+            self.voxel = Voxel(bases=structure.lattice.matrix.T)
         else:
-            self.voxel = Voxel(bases=structure.lattice.matrix,
+            self.voxel = Voxel(bases=structure.lattice.matrix.T,
                                origin=self.origin)
 
     @property
-- 
2.43.0


From ffe1c833451e5451946f5bf38b5d7cb07c43c3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:15 +0000
Subject: [PATCH 07/39] fix: write the file in Scene.to_file whatever format is
 named

With an explicit format other than prismatic nothing was written and no error
raised; with prismatic, user-supplied Debye-Waller factors raised TypeError.
---
 czone/scene/scene.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/czone/scene/scene.py b/czone/scene/scene.py
index ca8b1e3..7806378 100644
--- a/czone/scene/scene.py
+++ b/czone/scene/scene.py
@@ -174,14 +174,10 @@ class Scene():
             fname (str): output file name.
             **kwargs: any key word arguments otherwise accepted by ASE write.
         """
-        if "format" in kwargs.keys():
-            if kwargs["format"] == "prismatic":
-                dwf = set(self.all_species)
-                dw_default = (0.1**2.0) * 8 * np.pi**2.0
-                dwf = {str(Symbols([x])): dw_default for x in dwf}
-                ase_write(filename=fname,
-                          images=self.ase_atoms,
-                          debye_waller_factors=dwf,
-                          **kwargs)
-        else:
-            ase_write(filename=fname, images=self.ase_atoms, **kwargs)
+        if kwargs.get("format") == "prismatic" and "debye_waller_factors" not in kwargs:
+            dwf = set(self.all_species)
+            dw_default = (0.1**2.0) * 8 * np.pi**2.0
+            dwf = {str(Symbols([x])): dw_default for x in dwf}
+            kwargs["debye_waller_factors"] = dwf
+
+        ase_write(filename=fname, images=self.ase_atoms, **kwargs)
-- 
2.43.0


From 45a577bf42579b0d029871efe82b8132077526fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:15 +0000
Subject: [PATCH 08/39] fix: do not shift the caller's coordinates in calc_rdf

Measuring volume.atoms moved the volume's atoms.
---
 czone/util/measure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/util/measure.py b/czone/util/measure.py
index 067fde3..26ddfb8 100644
--- a/czone/util/measure.py
+++ b/czone/util/measure.py
@@ -208,7 +208,7 @@ def calc_rdf(coords, cutoff=20.0, px=True, py=True, pz=True):
 
     """
     # shift outside of negative octants
-    coords -= np.min(coords, axis=0)
+    coords = coords - np.min(coords, axis=0)
 
     # get box size and number of voxels in each direction
     dims = np.max(coords, axis=0)
-- 
2.43.0


From 532a1a3facb505c03714dcdd8dc0e8b0fba98e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:15 +0000
Subject: [PATCH 09/39] fix: do not rotate the caller's plane in s2s_alignment

applyTransformation_alg works in place and its result was not used.
---
 czone/transform/transform.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/czone/transform/transform.py b/czone/transform/transform.py
index 7f00b9a..65b7f6a 100644
--- a/czone/transform/transform.py
+++ b/czone/transform/transform.py
@@ -546,10 +546,6 @@ def s2s_alignment(M_plane: Plane, T_plane: Plane, M_point: np.ndarray,
 
     R_t = Rotation(matrix=R, origin=M_plane.point)
 
-    #TODO: why aren't these being used?
-    M_plane_r = R_t.applyTransformation_alg(M_plane)
-    M_point_r = R_t.applyTransformation(M_point)
-
     proj_point = T_plane.project_point(M_point)
     plane_shift = T_plane.project_point(T_point) - proj_point
 
-- 
2.43.0


From 2a805cacd0d06abb3fc2ea0b318b450390ca37c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:15 +0000
Subject: [PATCH 10/39] fix: keep the minimum distance across periodic
 boundaries of amorphous blocks

The last voxel along x and y was narrower than min_dist whenever the box was not
a multiple of it, so atoms two voxels apart across the boundary were not compared.
---
 czone/generator/amorphous_algorithms.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/czone/generator/amorphous_algorithms.py b/czone/generator/amorphous_algorithms.py
index 168919e..a40abe0 100644
--- a/czone/generator/amorphous_algorithms.py
+++ b/czone/generator/amorphous_algorithms.py
@@ -40,9 +40,14 @@ def get_tuples(tx, ty, tz):
 ############################################
 
 
+def get_num_blocks(min_size, dims):
+    """Get number of equal voxels, none smaller than min_size, that tile a periodic box."""
+    return np.maximum(np.floor(np.array(dims) / min_size), 1).astype(int)
+
+
 def get_voxels(min_dist, dims):
     """Get voxel and neighbor list."""
-    num_blocks = np.ceil(dims / (min_dist)).astype(int)
+    num_blocks = get_num_blocks(min_dist, dims)
     voxels = []
     neighbors = []
     for i in range(num_blocks[0]):
@@ -121,6 +126,8 @@ def gen_p_substrate(dims: List[float],
 
     # get voxel grid and list of local voxel neighbors
     voxels, neighbors = get_voxels(min_dist, dims)
+    num_blocks = get_num_blocks(min_dist, dims)
+    voxel_dims = dims / num_blocks
 
     if print_progress:
         print("Starting particle loop for %i particles" % num_c)
@@ -132,8 +139,8 @@ def gen_p_substrate(dims: List[float],
             print("On %i of %i" % (i, num_c))
         new_coord = rng.uniform(size=(1, 3)) * dims
 
-        block = np.floor(new_coord / (min_dist)).astype(int)
-        block = block[0]
+        block = np.floor(new_coord / voxel_dims).astype(int)
+        block = np.minimum(block[0], num_blocks - 1)
         tlist = neighbors[block[0]][block[1]][block[2]]
         parts = []
         for t in tlist:
@@ -143,8 +150,8 @@ def gen_p_substrate(dims: List[float],
         while ((len(p_dist) > 0) and (np.min(p_dist) < min_dist_2)):
 
             new_coord = rng.uniform(size=(1, 3)) * dims
-            block = np.floor(new_coord / (min_dist)).astype(int)
-            block = block[0]
+            block = np.floor(new_coord / voxel_dims).astype(int)
+            block = np.minimum(block[0], num_blocks - 1)
             tlist = neighbors[block[0]][block[1]][block[2]]
             parts = []
             for t in tlist:
@@ -178,8 +185,8 @@ def gen_p_substrate_batched(dims: List[float],
     num_c = np.round(sub_vol * density).astype(int)
     coords = np.zeros((num_c, 3))
     dims = np.array([dim_x, dim_y, dim_z])
-    voxel_size = min_dist*voxel_scale
-    num_blocks = np.ceil(dims / (voxel_size)).astype(int)
+    num_blocks = get_num_blocks(min_dist*voxel_scale, dims)
+    voxel_size = dims / num_blocks
     tot_blocks = np.prod(num_blocks)
     Nt = np.array([1, num_blocks[0], num_blocks[0]*num_blocks[1]])
 
@@ -202,7 +209,7 @@ def gen_p_substrate_batched(dims: List[float],
 
         # find block for each particle and make sure every particle is in unique block
         # to avoid full N^2 comparisons within batch
-        block = (np.floor(new_coord /voxel_size) @ Nt).astype(int)
+        block = (np.minimum(np.floor(new_coord /voxel_size), num_blocks - 1) @ Nt).astype(int)
         __, idx = np.unique(block, return_index=True)
         block = block[idx]
         new_coord = new_coord[idx,:]
-- 
2.43.0


From af536402239ef1b7bab6e5928fd113bd38e028c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:15 +0000
Subject: [PATCH 11/39] fix: supply amorphous atoms inside the requested box
 and at the set density

The block was always put at the coordinate origin, so a volume elsewhere stayed
empty, and AmorphousGenerator.density was ignored.
---
 czone/generator/generator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/czone/generator/generator.py b/czone/generator/generator.py
index 246b896..1738119 100644
--- a/czone/generator/generator.py
+++ b/czone/generator/generator.py
@@ -417,7 +417,8 @@ class AmorphousGenerator(BaseGenerator):
             return self.old_result
         else:
             coords = gen_p_substrate(
-                np.max(bbox, axis=0) - np.min(bbox, axis=0), self.min_dist)
+                np.max(bbox, axis=0) - np.min(bbox, axis=0), self.min_dist,
+                density=self.density) + np.min(bbox, axis=0)
             self._old_result = (coords, np.ones(coords.shape[0]) * self.species)
             return self.old_result
 
-- 
2.43.0


From 5d9ceb4db588af224a1e896a61b67fedd240b0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:15 +0000
Subject: [PATCH 12/39] fix: allow transforming volumes with amorphous or null
 generators

A locked transformation called the missing transform method of the generator, after
having moved the boundaries of the volume.
---
 czone/generator/generator.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/czone/generator/generator.py b/czone/generator/generator.py
index 1738119..a7b0b8f 100644
--- a/czone/generator/generator.py
+++ b/czone/generator/generator.py
@@ -43,6 +43,15 @@ class BaseGenerator(ABC):
         """
         pass
 
+    def transform(self, transformation: BaseTransform):
+        """Transform Generator object. Nothing to do unless generator has an orientation in space.
+
+        Args:
+            transformation (BaseTransform): Transformation object from transforms module.
+        """
+        assert (isinstance(transformation, BaseTransform)
+               ), "Supplied transformation not transformation object."
+
     def from_generator(self, **kwargs):
         """Constructor for new Generators based on existing Generator object.
 
-- 
2.43.0


From fc58482df7bfad4f33639e118b52e0551d8479eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:15 +0000
Subject: [PATCH 13/39] fix: copy the tolerance of a Volume, and Volumes
 without generator, in from_volume

---
 czone/volume/volume.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/czone/volume/volume.py b/czone/volume/volume.py
index 89a74e0..f8b6b4c 100644
--- a/czone/volume/volume.py
+++ b/czone/volume/volume.py
@@ -369,10 +369,11 @@ class Volume(BaseVolume):
         """
         new_volume = Volume(points=self.points,
                             alg_objects=self.alg_objects,
-                            priority=self.priority)
+                            priority=self.priority,
+                            tolerance=self.tolerance)
         if "generator" in kwargs.keys():
             new_volume.add_generator(kwargs["generator"])
-        else:
+        elif self.generator is not None:
             new_volume.add_generator(self.generator)
 
         if "transformation" in kwargs.keys():
-- 
2.43.0


From 21cc7a8b66a7daee0e257d701a3db8697d0ce8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:15 +0000
Subject: [PATCH 14/39] fix: substitute no atom at fraction zero

uniform(0, 1) can return exactly 0.
---
 czone/transform/post.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/transform/post.py b/czone/transform/post.py
index dc50d5d..fd4cae3 100644
--- a/czone/transform/post.py
+++ b/czone/transform/post.py
@@ -50,7 +50,7 @@ class ChemicalSubstitution(BasePostTransform):
             t_filter = species == t
             t_probs = rng.uniform(0,1,size=species.shape)
 
-            out_species[(t_filter) & (t_probs <= self.frac)] = s
+            out_species[(t_filter) & (t_probs < self.frac)] = s
 
         return out_species
 
-- 
2.43.0


From 0946ba78cbf6a71b8a7d2f59a3e9075fb0380fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:15 +0000
Subject: [PATCH 15/39] fix: never report new atoms against old checks after a
 failed Scene.populate

If populate failed or was interrupted, all_atoms combined the checks of the previous
populate with atoms of the new one.
---
 czone/scene/scene.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/czone/scene/scene.py b/czone/scene/scene.py
index 7806378..ff0ac18 100644
--- a/czone/scene/scene.py
+++ b/czone/scene/scene.py
@@ -144,12 +144,15 @@ class Scene():
         - Lower priority numbers supercede objects with high priority numbers.
         - Objects on the same priority level will not supply atoms to the scene in their volume intersections.
         """
+        # until populating has finished, checks do not match atoms of objects
+        self._checks = None
+
         for ob in self.objects:
             ob.populate_atoms()
 
         rel_plevels, offsets = self._get_priorities()
 
-        self._checks = []
+        checks = []
 
         for i, ob in enumerate(self.objects):
             check = np.ones(ob.atoms.shape[0]).astype(bool)
@@ -161,7 +164,9 @@ class Scene():
                         self.objects[j].checkIfInterior(ob.atoms))
                     check = np.logical_and(check, check_against)
 
-            self._checks.append(check)
+            checks.append(check)
+
+        self._checks = checks
 
     def to_file(self, fname, **kwargs):
         """Write atomic scene to an output file, using ASE write utilities.
-- 
2.43.0


From f7c3c99d3f499892624407bf060f8c392bd1695b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:15 +0000
Subject: [PATCH 16/39] fix: update positions and species together

An interrupt between the two assignments left volumes and molecules with positions
and species of different length.
---
 czone/molecule/molecule.py | 5 +++--
 czone/volume/volume.py     | 8 ++++----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/czone/molecule/molecule.py b/czone/molecule/molecule.py
index e6f9a17..2ca928c 100644
--- a/czone/molecule/molecule.py
+++ b/czone/molecule/molecule.py
@@ -112,8 +112,9 @@ class BaseMolecule(ABC):
             raise NotImplementedError # TODO: Implement origin resetting behavior and warn user if origin is reset to a new index
             # self._origin_idx = new_origin_idx # TEST
 
-        self._species = np.delete(self.species, indices, axis=0)
-        self._atoms = np.delete(self.atoms, indices, axis=0)
+        species = np.delete(self.species, indices, axis=0)
+        atoms = np.delete(self.atoms, indices, axis=0)
+        self._species, self._atoms = species, atoms
 
     @property
     def ase_atoms(self):
diff --git a/czone/volume/volume.py b/czone/volume/volume.py
index f8b6b4c..73f739c 100644
--- a/czone/volume/volume.py
+++ b/czone/volume/volume.py
@@ -353,8 +353,7 @@ class Volume(BaseVolume):
         coords, species = self.generator.supply_atoms(bbox)
         check = self.checkIfInterior(coords)
 
-        self._atoms = coords[check, :]
-        self._species = species[check]
+        self._atoms, self._species = coords[check, :], species[check]
 
     #TODO: let user raise warnings if te object is the same
     def from_volume(self, **kwargs):
@@ -502,10 +501,11 @@ class MultiVolume(BaseVolume):
 
             checks.append(check)
 
-        self._atoms = np.vstack(
+        atoms = np.vstack(
             [vol.atoms[checks[i], :] for i, vol in enumerate(self.volumes)])
-        self._species = np.hstack(
+        species = np.hstack(
             [vol.species[checks[i]] for i, vol in enumerate(self.volumes)])
+        self._atoms, self._species = atoms, species
 
     def from_volume(self, **kwargs):
         """Constructor for new MultiVolume based on existing MultiVolume object.
-- 
2.43.0


From e60f1013e08d41eafeadb96fd659e5c196d84875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:21 +0000
Subject: [PATCH 17/39] fix: keep tracking the same origin atom when atoms are
 removed from a molecule

---
 czone/molecule/molecule.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/czone/molecule/molecule.py b/czone/molecule/molecule.py
index 2ca928c..188898c 100644
--- a/czone/molecule/molecule.py
+++ b/czone/molecule/molecule.py
@@ -108,13 +108,19 @@ class BaseMolecule(ABC):
         if new_origin_idx in indices:
             raise IndexError(f"Supplied new_origin_idx {new_origin_idx} in set of indices of atoms to be removed.")
         
-        if self._origin_tracking and self._origin_idx in indices:
-            raise NotImplementedError # TODO: Implement origin resetting behavior and warn user if origin is reset to a new index
-            # self._origin_idx = new_origin_idx # TEST
-
         species = np.delete(self.species, indices, axis=0)
         atoms = np.delete(self.atoms, indices, axis=0)
-        self._species, self._atoms = species, atoms
+
+        if self._origin_tracking:
+            # tracked atom moves down with removal of atoms preceding it
+            kept = np.delete(np.arange(self.atoms.shape[0]), indices)
+            new_idx = np.nonzero(kept == self._origin_idx % self.atoms.shape[0])[0]
+            if new_idx.size == 0:
+                raise NotImplementedError # TODO: Implement origin resetting behavior and warn user if origin is reset to a new index
+                # self._origin_idx = new_origin_idx # TEST
+            self._species, self._atoms, self.__origin_idx = species, atoms, int(new_idx[0])
+        else:
+            self._species, self._atoms = species, atoms
 
     @property
     def ase_atoms(self):
-- 
2.43.0


From cf116846aeb85fe0ce5d4ed26559ba07fc810255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:25 +0000
Subject: [PATCH 18/39] fix: make the unsampled alpha shape of seeded adsorbate
 placement reproducible

---
 czone/surface/adsorbate.py   |  1 +
 czone/surface/alpha_shape.py | 10 +++++++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/czone/surface/adsorbate.py b/czone/surface/adsorbate.py
index 221a548..57af4e7 100644
--- a/czone/surface/adsorbate.py
+++ b/czone/surface/adsorbate.py
@@ -200,6 +200,7 @@ def add_adsorbate(mol: BaseMolecule,
     else:
         surface_ind, shape_dict = alpha_shape_alg_3D(points=volume.atoms, 
                                                     probe_radius=probe_radius, 
+                                                    rng=rng,
                                                     return_alpha_shape=True)
 
     valid_indices = np.zeros(volume.atoms.shape[0], dtype=bool)
diff --git a/czone/surface/alpha_shape.py b/czone/surface/alpha_shape.py
index aca7105..9caa755 100644
--- a/czone/surface/alpha_shape.py
+++ b/czone/surface/alpha_shape.py
@@ -48,7 +48,7 @@ def tetrahedron_circumradii(points):
     radius = np.linalg.norm(center,axis=0)
     return radius
 
-def alpha_shape_alg_3D(points, probe_radius, return_alpha_shape=False):
+def alpha_shape_alg_3D(points, probe_radius, return_alpha_shape=False, rng=None):
     """Use alpha shape algorithm to determine points on exterior of collection of points.
 
     Performs alpha-shape algorithm ##TODO: cite a source here
@@ -57,17 +57,21 @@ def alpha_shape_alg_3D(points, probe_radius, return_alpha_shape=False):
         points (np.ndarray): Nx3 array representing coordinates of points in object
         probe_radius (float): radius of test
         return_alpha_shape (bool): return dictionary of alpha shape arrays, default False.
+        rng (np.random.Generator): source of random perturbations, default None.
     Returns:
         List of indices of points on exterior of surface for given alpha-shape.
     """
 
+    if rng is None:
+        rng = np.random.default_rng()
+
     ## Get alpha-shape
     # get delaunay triangulation of points
-    points = points+1e-4*np.random.rand(*points.shape)
+    points = points+1e-4*rng.random(points.shape)
     tri = Delaunay(points)
 
     # get cicrcumradii of all tetrahedron in triangulation
-    circumradii = tetrahedron_circumradii((points+1e-10*np.random.rand(*points.shape))[tri.simplices, :])
+    circumradii = tetrahedron_circumradii((points+1e-10*rng.random(points.shape))[tri.simplices, :])
     
     # check which tetrahedra in triangulation are part of alpha-shape for given probe radius
     probe_test = circumradii <= probe_radius
-- 
2.43.0


From 781d87158f3502f858d222a3eabb87383c2ba150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:28 +0000
Subject: [PATCH 19/39] fix: index the alpha shape tetrahedra so that all
 neighbors can be used

---
 czone/surface/alpha_shape.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/czone/surface/alpha_shape.py b/czone/surface/alpha_shape.py
index 9caa755..16f0eef 100644
--- a/czone/surface/alpha_shape.py
+++ b/czone/surface/alpha_shape.py
@@ -107,7 +107,7 @@ def alpha_shape_alg_3D(points, probe_radius, return_alpha_shape=False, rng=None)
 
         # also return list of simplices indices for full alpha shape
         a_tris = np.logical_not(np.logical_and(outside, np.logical_not(probe_test)))
-        shape_dict["a_tris"] = np.nonzero(a_tris)
+        shape_dict["a_tris"] = np.nonzero(a_tris)[0]
 
         return list(set(out_points)), shape_dict
     else:
@@ -182,7 +182,7 @@ def alpha_shape_alg_3D_with_sampling(points, probe_radius, N_samples, std=1e-4,
 
         # also return list of simplices indices for full alpha shape
         a_tris = np.logical_not(np.logical_and(outside, np.logical_not(probe_test)))
-        shape_dict["a_tris"] = np.nonzero(a_tris)
+        shape_dict["a_tris"] = np.nonzero(a_tris)[0]
 
         return list(set(out_points)), shape_dict
     else:
-- 
2.43.0


From 900bdccbc3361405b711613909d3ac7219333317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:31 +0000
Subject: [PATCH 20/39] fix: do not return NaN rotations for parallel vectors
 in rot_vtv

---
 czone/transform/transform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/czone/transform/transform.py b/czone/transform/transform.py
index 65b7f6a..1c23352 100644
--- a/czone/transform/transform.py
+++ b/czone/transform/transform.py
@@ -454,7 +454,8 @@ def rot_vtv(v: np.ndarray, vt: np.ndarray) -> np.ndarray:
     v = np.array(v).reshape(3,)
     vt = np.array(vt).reshape(3,)
     eps = np.finfo(float).eps  #get machine epsilon for collinearity check
-    theta = np.arccos(np.dot(v, vt) / (np.linalg.norm(v) * np.linalg.norm(vt)))
+    cos_theta = np.dot(v, vt) / (np.linalg.norm(v) * np.linalg.norm(vt))
+    theta = np.arccos(np.clip(cos_theta, -1.0, 1.0)) #round-off can exceed +/- 1
     if (theta < eps):
         return np.eye(3)
     elif (np.pi - theta < eps):
-- 
2.43.0


From 45dce9b91be1e643c0a7b4e6e2715635218bd374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:35 +0000
Subject: [PATCH 21/39] fix: leave the origin of a molecule alone when a new
 one is rejected

---
 czone/molecule/molecule.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/czone/molecule/molecule.py b/czone/molecule/molecule.py
index 188898c..bcb94e8 100644
--- a/czone/molecule/molecule.py
+++ b/czone/molecule/molecule.py
@@ -200,12 +200,12 @@ class BaseMolecule(ABC):
         if point is not None:
             point = np.array(point).ravel()
             assert(point.shape == (3,))
-            self._origin_tracking = False
             self._origin = point
+            self._origin_tracking = False
 
         elif idx is not None: 
-            self._origin_tracking = True
             self._origin_idx = idx
+            self._origin_tracking = True
 
     @property
     def orientation(self):
-- 
2.43.0


From eda046308159681e6a9293ef6fd89a5e3ef70dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:38 +0000
Subject: [PATCH 22/39] fix: place planar defects inside spheres that are not
 centred on the origin

---
 czone/prefab/prefab.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/czone/prefab/prefab.py b/czone/prefab/prefab.py
index 72678c3..b727b84 100644
--- a/czone/prefab/prefab.py
+++ b/czone/prefab/prefab.py
@@ -159,8 +159,8 @@ class fccMixedTwinSF(BasePrefab):
         for ao in self.volume.alg_objects:
             if isinstance(ao, Sphere):
                 # TODO: only override bbox if Sphere is smaller 
-                start = -1.0 * ao.radius * norm_vec
-                finish = ao.radius * norm_vec      
+                start = ao.center - ao.radius * norm_vec
+                finish = ao.center + ao.radius * norm_vec
 
         sp = snap_plane_near_point(start,
                                    self.generator,
@@ -400,8 +400,8 @@ class wurtziteStackingFault(BasePrefab):
         for ao in self.volume.alg_objects:
             if isinstance(ao, Sphere):
                 # TODO: only override bbox if Sphere is smaller 
-                start = -1.0 * ao.radius * norm_vec
-                finish = ao.radius * norm_vec            
+                start = ao.center - ao.radius * norm_vec
+                finish = ao.center + ao.radius * norm_vec
 
         sp = snap_plane_near_point(start,
                                    self.generator,
-- 
2.43.0


From 4bd6a447aaa9716b293adc5ba5ece5411ffd36af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:41 +0000
Subject: [PATCH 23/39] fix: snap Miller planes to the lattice of generators
 with an origin

---
 czone/prefab/prefab.py    | 6 +++---
 czone/volume/algebraic.py | 4 +++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/czone/prefab/prefab.py b/czone/prefab/prefab.py
index b727b84..2de6b79 100644
--- a/czone/prefab/prefab.py
+++ b/czone/prefab/prefab.py
@@ -435,11 +435,11 @@ class wurtziteStackingFault(BasePrefab):
 
         polarity = 1
         for i in range(self.N):
-            # check if 100 or 200 plane in the previous generator
+            # check if 100 or 200 plane in the initial generator
             cur_plane_pt = planes[splits[i]].point
 
-            plane_100 = snap_plane_near_point(cur_plane_pt, gen_tmp, (0,0,1))
-            plane_200 = snap_plane_near_point(cur_plane_pt, gen_tmp, (0,0,2))
+            plane_100 = snap_plane_near_point(cur_plane_pt, self.generator, (0,0,1))
+            plane_200 = snap_plane_near_point(cur_plane_pt, self.generator, (0,0,2))
 
             # adjust shift according to 100 plane vs 200 plane
             bsf = 2 if np.allclose(plane_100.point, plane_200.point) else 1
diff --git a/czone/volume/algebraic.py b/czone/volume/algebraic.py
index 51c693e..5c29833 100644
--- a/czone/volume/algebraic.py
+++ b/czone/volume/algebraic.py
@@ -442,6 +442,8 @@ def snap_plane_near_point(point: np.ndarray,
 
     miller_indices = np.array(miller_indices)
 
+    # lattice is laid out from the generator origin
+    point = np.array(point) - generator.origin
 
     # check if generator has a strain field
     if generator.strain_field is None:
@@ -491,4 +493,4 @@ def snap_plane_near_point(point: np.ndarray,
         # get perpendicular vector
         normal = np.linalg.inv(H @ G).T @ miller_indices
 
-    return Plane(normal=normal, point=new_point)
\ No newline at end of file
+    return Plane(normal=normal, point=np.squeeze(new_point) + generator.origin)
\ No newline at end of file
-- 
2.43.0


From 0a12f6c0d04aa0dd51a20dd075ddca772348979f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:45 +0000
Subject: [PATCH 24/39] fix: find bounding boxes of plane sets anywhere in
 space

---
 czone/volume/algebraic.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/czone/volume/algebraic.py b/czone/volume/algebraic.py
index 5c29833..0846288 100644
--- a/czone/volume/algebraic.py
+++ b/czone/volume/algebraic.py
@@ -387,14 +387,6 @@ def get_bounding_box(planes: List[Plane]):
         status: 0 if successful, 2 if no valid intersection, 3 if intersection is unbounded.
     """
 
-    # some issues arose when all planes were in negative coordinate space
-    # so shift planes so that all points line positive coordinates
-    shift = np.zeros_like(planes[0].point)
-    for plane in planes:
-        shift = np.min([shift, plane.point], axis=0)
-
-    shift = -1.5 * shift
-
     # convert plane set to matrix form of half spaces
     A = np.zeros((len(planes), 3))
     d = np.zeros((len(planes), 1))
@@ -402,21 +394,23 @@ def get_bounding_box(planes: List[Plane]):
     for i, plane in enumerate(planes):
         n, p = plane.params
         A[i, :] = n.squeeze()
-        d[i, 0] = -1.0 * np.dot(n.squeeze(), (p + shift).squeeze())
+        d[i, 0] = -1.0 * np.dot(n.squeeze(), p.squeeze())
         norms[i, 0] = np.linalg.norm(n)
 
     #check feasiblity of region and get interior point
     c = np.zeros(4)
     c[-1] = -1
 
-    res = linprog(c, A_ub=np.hstack([A, norms]), b_ub=-1.0 * d)
+    # interior point may lie anywhere in space; only its clearance is positive
+    res = linprog(c, A_ub=np.hstack([A, norms]), b_ub=-1.0 * d,
+                  bounds=[(None, None)] * 3 + [(0, None)])
     if (res.status == 0):
         try:
             hs = HalfspaceIntersection(np.hstack([A, d]), res.x[:-1])
         except QhullError:
             return np.empty((0,3)), 2
             
-        return hs.intersections - shift, res.status
+        return hs.intersections, res.status
     else:
         return np.empty((0,3)), res.status
 
-- 
2.43.0


From 32a7c8d26302fff54a2d84bf1cface7224b19750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:31 +0000
Subject: [PATCH 25/39] fix: stack planar defects along the c axis of rotated
 wurtzite crystals

---
 czone/prefab/prefab.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/prefab/prefab.py b/czone/prefab/prefab.py
index 2de6b79..9d2fa69 100644
--- a/czone/prefab/prefab.py
+++ b/czone/prefab/prefab.py
@@ -390,7 +390,7 @@ class wurtziteStackingFault(BasePrefab):
         # TODO: the bounding box isn't necessarily tangent to the valid volume (e.g., spheres)
         # perhaps refine the end points until planes intersect
         
-        norm_vec = self.generator.voxel.reciprocal_bases @ np.array(self.plane)
+        norm_vec = self.generator.voxel.reciprocal_bases.T @ np.array(self.plane)
         norm_vec /= np.linalg.norm(norm_vec)
         bbox = self.volume.get_bounding_box()
         ci = np.dot(norm_vec.reshape(1, 3), bbox.T).T
-- 
2.43.0


From cbdb9e1af90e91f0447165b00614a68180f9c83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:26 +0000
Subject: [PATCH 26/39] fix: keep the definition of a Volume when new points
 are rejected

---
 czone/volume/volume.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/czone/volume/volume.py b/czone/volume/volume.py
index 73f739c..2d32e0b 100644
--- a/czone/volume/volume.py
+++ b/czone/volume/volume.py
@@ -175,12 +175,17 @@ class Volume(BaseVolume):
 
     @points.setter
     def points(self, points):
+        old = self._points, self._hull, self._tri
         try:
             self._points = None  #clear points and hull built from them
             self._hull = None
             self.addPoints(points)
-        except AssertionError:
-            raise ValueError("Check shape of input array.")
+        except BaseException as err:
+            #keep defining region when replacement is rejected
+            self._points, self._hull, self._tri = old
+            if isinstance(err, AssertionError):
+                raise ValueError("Check shape of input array.")
+            raise
 
     @property
     def alg_objects(self):
@@ -258,6 +263,7 @@ class Volume(BaseVolume):
         assert (len(points.shape) <
                 3), "points must be N x 3 numpy array (x,y,z)"
 
+        old_points = self._points
         if (self._points is None):
             self._points = np.copy(points)
             if len(points.shape) == 1:  #add dim if only single new point
@@ -270,10 +276,15 @@ class Volume(BaseVolume):
 
         #if hull created, update points; else, create hull
         try:
-            self._hull.add_points(points)
-            self._tri = Delaunay(self.hull.points[self.hull.vertices])
-        except AttributeError:
-            self.createHull()
+            if self._hull is None:
+                self.createHull()
+            else:
+                self._hull.add_points(points)
+                self._tri = Delaunay(self.hull.points[self.hull.vertices])
+        except BaseException:
+            #keep points hull was built from when new points are rejected
+            self._points = old_points
+            raise
 
     def transform(self, transformation: BaseTransform):
 
-- 
2.43.0


From bd47fe3d6ceb191519ae0d6d943c71255174752b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:55 +0000
Subject: [PATCH 27/39] fix: find the bounding box of cylinders along [1,1,1]

---
 czone/volume/algebraic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/czone/volume/algebraic.py b/czone/volume/algebraic.py
index 0846288..a9a8a45 100644
--- a/czone/volume/algebraic.py
+++ b/czone/volume/algebraic.py
@@ -319,6 +319,8 @@ class Cylinder(BaseAlgebraic):
 
         # get vectors perpendicular to axis
         vs_0 = np.array([[1,1,1]]).T # any vector works; fix to make generation stable
+        if np.linalg.norm(np.cross(vs_0, vz, axis=0)) < 1e-3: # unless it is parallel to axis
+            vs_0 = np.array([[1,-1,0]]).T
         vs_0 = vs_0/np.linalg.norm(vs_0)
         vs_0 = vs_0 - (vs_0.T @ vz) * vz
         vs_0 = vs_0/np.linalg.norm(vs_0)
-- 
2.43.0


From 37b8a7de782d7b02f4ba299b5c9052d361623c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:36 +0000
Subject: [PATCH 28/39] fix: find the surface of flat facets without sampling
 in alpha_shape_alg_3D

---
 czone/surface/alpha_shape.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/czone/surface/alpha_shape.py b/czone/surface/alpha_shape.py
index 16f0eef..e05ddea 100644
--- a/czone/surface/alpha_shape.py
+++ b/czone/surface/alpha_shape.py
@@ -82,12 +82,18 @@ def alpha_shape_alg_3D(points, probe_radius, return_alpha_shape=False, rng=None)
 
     # check which tetrahedra are neighbors to those not in alpha-shape
 
-    # however, only want to check neighbors that are on the outside of the triangulation
+    # however, only want to check neighbors that are connected to the outside of the triangulation
     # so that we can avoid counting tetrahedra that fail the probe test on large internal voids
 
-    neighbor_check_0 = np.logical_not(probe_test[tri.neighbors]) # neighbors that fail probe test
-    neighbor_check_1 = outside[tri.neighbors] # neighbors on the outside
-    neighbor_check = np.any(np.logical_and(neighbor_check_0, neighbor_check_1), axis=1)
+    # flat facets lie beneath several layers of tetrahedra that fail the probe test
+    exterior = np.logical_and(outside, np.logical_not(probe_test))
+    N_exterior = 0
+    while N_exterior < np.sum(exterior):
+        N_exterior = np.sum(exterior)
+        exterior_neighbors = np.logical_and(exterior[tri.neighbors], tri.neighbors >= 0)
+        exterior = np.logical_or(exterior, np.logical_and(np.any(exterior_neighbors, axis=1), np.logical_not(probe_test)))
+
+    neighbor_check = np.any(np.logical_and(exterior[tri.neighbors], tri.neighbors >= 0), axis=1)
 
     # get tetrahedra that are on the surface of alpha-shape
     surface_tris = np.logical_and(probe_test, np.logical_or(outside, neighbor_check))
-- 
2.43.0


From 6ffe6e5a3d81596e2e48747b1edb27dade89e7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:33 +0000
Subject: [PATCH 29/39] fix: return a unit surface normal when the first guess
 already is one

---
 czone/surface/adsorbate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/czone/surface/adsorbate.py b/czone/surface/adsorbate.py
index 57af4e7..e2192ef 100644
--- a/czone/surface/adsorbate.py
+++ b/czone/surface/adsorbate.py
@@ -107,7 +107,8 @@ def find_approximate_normal(points, decay=0.99, tol=1e-5, margin=0, seed=23, max
         if i == max_steps:
             break
 
-    return w
+    # initial guess is not normalized, and may never have been updated
+    return w/np.linalg.norm(w)
 
 def get_nearest_neighbors(target_idx,
                           shape_dict,
-- 
2.43.0


From c68088630821169fc9d0c1da68786c953fa1b140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:22 +0000
Subject: [PATCH 30/39] fix: do not draw from the global random state when
 alpha_shape_alg_3D_with_sampling is given a generator

---
 czone/surface/alpha_shape.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/czone/surface/alpha_shape.py b/czone/surface/alpha_shape.py
index e05ddea..3100b28 100644
--- a/czone/surface/alpha_shape.py
+++ b/czone/surface/alpha_shape.py
@@ -134,10 +134,10 @@ def alpha_shape_alg_3D_with_sampling(points, probe_radius, N_samples, std=1e-4,
     """
 
 
-    if seed is None:
-        seed = np.random.randint(0,10000)
-
     if rng is None:
+        if seed is None:
+            seed = np.random.randint(0,10000)
+
         rng = np.random.default_rng(seed=seed)
 
     
-- 
2.43.0


From 8c5e8d826119992de547ee7020cdb7fdb24b50c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:21 +0000
Subject: [PATCH 31/39] fix: align collinear vectors in rot_vtv whatever their
 rounding

---
 czone/transform/transform.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/czone/transform/transform.py b/czone/transform/transform.py
index 1c23352..ee9876f 100644
--- a/czone/transform/transform.py
+++ b/czone/transform/transform.py
@@ -453,16 +453,16 @@ def rot_vtv(v: np.ndarray, vt: np.ndarray) -> np.ndarray:
     """
     v = np.array(v).reshape(3,)
     vt = np.array(vt).reshape(3,)
-    eps = np.finfo(float).eps  #get machine epsilon for collinearity check
-    cos_theta = np.dot(v, vt) / (np.linalg.norm(v) * np.linalg.norm(vt))
-    theta = np.arccos(np.clip(cos_theta, -1.0, 1.0)) #round-off can exceed +/- 1
-    if (theta < eps):
-        return np.eye(3)
-    elif (np.pi - theta < eps):
-        e_i = np.eye(3)[np.argmin(v)]  #grab axis along minimum component of v
-        rot_axis = np.cross(v, e_i).astype(float)
-    else:
-        rot_axis = np.cross(v, vt).astype(float)
+    v = v / np.linalg.norm(v)
+    vt = vt / np.linalg.norm(vt)
+    rot_axis = np.cross(v, vt)
+    sin_theta, cos_theta = np.linalg.norm(rot_axis), np.dot(v, vt)
+    theta = np.arctan2(sin_theta, cos_theta) #accurate close to 0 and pi as well
+    if sin_theta < 1e-8: #collinear, the cross product is mostly round-off
+        if cos_theta > 0:
+            return np.eye(3)
+        e_i = np.eye(3)[np.argmin(np.abs(v))]  #grab axis along smallest component of v
+        rot_axis = np.cross(v, e_i)
 
     rot_axis /= np.linalg.norm(rot_axis)
     A = np.array([[0, -rot_axis[2],
-- 
2.43.0


From 02150a414513c073d4bd63f06d62ba48c4f0a43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:15 +0000
Subject: [PATCH 32/39] fix: accept an origin for strain fields

---
 czone/transform/strain.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/czone/transform/strain.py b/czone/transform/strain.py
index edf9327..44f0a4c 100644
--- a/czone/transform/strain.py
+++ b/czone/transform/strain.py
@@ -56,8 +56,9 @@ class BaseStrain(ABC):
 
     @origin.setter
     def origin(self, val):
+        val = np.array(val)
         assert (val.shape == (3,)), "Origin must have shape (3,)"
-        self._origin = np.array(val)
+        self._origin = val
 
     @property
     def origin_type(self):
@@ -107,7 +108,7 @@ class HStrain(BaseStrain):
 
         self.mode = mode
 
-        if origin != "generator":
+        if not (isinstance(origin, str) and origin == "generator"):
             self.origin = origin
             self.origin_type = "global"
         else:
@@ -189,10 +190,12 @@ class IStrain(BaseStrain):
 
         self.mode = mode
 
-        if origin != "generator":
+        if not (isinstance(origin, str) and origin == "generator"):
             self.origin = origin
+            self.origin_type = "global"
         else:
             super().__init__()
+            self.origin_type = "generator"
 
         self._bases = None
         self.fun_kwargs = kwargs
-- 
2.43.0


From b53751b0170d7d92c5c2ce523644c263e011e9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:18 +0000
Subject: [PATCH 33/39] fix: let inhomogeneous strain fields be constructed

---
 czone/transform/strain.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/czone/transform/strain.py b/czone/transform/strain.py
index 44f0a4c..c50b0ac 100644
--- a/czone/transform/strain.py
+++ b/czone/transform/strain.py
@@ -182,11 +182,13 @@ class IStrain(BaseStrain):
     """
 
     def __init__(self, fun=None, origin="generator", mode="crystal", **kwargs):
+        self.fun_kwargs = kwargs
+
         if not fun is None:
             self.strain_fun = fun
         else:
             # apply no strain
-            self.strain_fun = lambda x: x
+            self.strain_fun = lambda x, **kwargs: x
 
         self.mode = mode
 
@@ -198,7 +200,6 @@ class IStrain(BaseStrain):
             self.origin_type = "generator"
 
         self._bases = None
-        self.fun_kwargs = kwargs
 
     ##############
     # Properties #
@@ -224,7 +225,7 @@ class IStrain(BaseStrain):
     @strain_fun.setter
     def strain_fun(self, fun: Callable[[np.ndarray], np.ndarray]):
         try:
-            ref_arr = np.random.rand((100, 3))
+            ref_arr = np.linspace(0.0, 1.0, 300).reshape((100, 3))
             test_arr = fun(ref_arr, **self.fun_kwargs)
             assert (test_arr.shape == (100, 3))
         except AssertionError:
-- 
2.43.0


From cd8447bb3bdcdbb6e343ffe67db091b85af3c5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:22 +0000
Subject: [PATCH 34/39] fix: strain in the coordinates of the crystal in
 IStrain

---
 czone/transform/strain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/czone/transform/strain.py b/czone/transform/strain.py
index c50b0ac..aabbd15 100644
--- a/czone/transform/strain.py
+++ b/czone/transform/strain.py
@@ -245,13 +245,13 @@ class IStrain(BaseStrain):
 
         if self.mode == "crystal":
             # project onto crystal coordinates
-            sp = sp @ np.linalg.inv(self.bases)
+            sp = sp @ np.linalg.inv(self.bases).T
 
             # strain
             sp = self.strain_fun(sp, basis=self.bases, **self.fun_kwargs)
 
             # project back into real space
-            sp = sp @ self.bases
+            sp = sp @ self.bases.T
         else:
             # strain
             sp = self.strain_fun(sp, **self.fun_kwargs)
-- 
2.43.0


From 5590ba6cc2da6361e6ca9d2456ae1b62425b7919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:25 +0000
Subject: [PATCH 35/39] fix: reject unknown modes of strain fields

---
 czone/transform/strain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/transform/strain.py b/czone/transform/strain.py
index aabbd15..1ff3884 100644
--- a/czone/transform/strain.py
+++ b/czone/transform/strain.py
@@ -75,7 +75,7 @@ class BaseStrain(ABC):
 
     @mode.setter
     def mode(self, val):
-        if val == "crystal" or "standard":
+        if val == "crystal" or val == "standard":
             self._mode = val
         else:
             raise ValueError("Mode must be either crystal or standard")
-- 
2.43.0


From 7dd73cdbc19b008079d4e9cb51bf7996bad04e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:15 +0000
Subject: [PATCH 36/39] fix: build the named Wulff shapes

---
 czone/prefab/wulff.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/czone/prefab/wulff.py b/czone/prefab/wulff.py
index 4a5af67..183d001 100644
--- a/czone/prefab/wulff.py
+++ b/czone/prefab/wulff.py
@@ -206,8 +206,8 @@ class WulffSingle(WulffBase):
             Wulff construction for a cubic nanoparticle.
         """
         energies = {(1, 0, 0): 1.0}
-        wulff = cls(generator, natoms)
-        return wulff.get_construction(energies)
+        wulff = cls(generator, energies, natoms)
+        return wulff.get_construction()
 
     @classmethod
     def cuboctohedron(cls, generator: Generator, natoms: int = 1000):
@@ -221,8 +221,8 @@ class WulffSingle(WulffBase):
             Wulff construction for a cuboctohedral nanoparticle.
         """
         energies = {(1, 0, 0): 1.0, (1, 1, 1): 1.15}
-        wulff = cls(generator, natoms)
-        return wulff.get_construction(energies)
+        wulff = cls(generator, energies, natoms)
+        return wulff.get_construction()
 
     @classmethod
     def octohedron(cls, generator: Generator, natoms: int = 1000):
@@ -236,8 +236,8 @@ class WulffSingle(WulffBase):
             Wulff construction for a octohedral nanoparticle.
         """
         energies = {(1, 1, 1): 1.0}
-        wulff = cls(generator, natoms)
-        return wulff.get_construction(energies)
+        wulff = cls(generator, energies, natoms)
+        return wulff.get_construction()
 
     @classmethod
     def truncated_octohedron(cls, generator: Generator, natoms: int = 1000):
@@ -251,8 +251,8 @@ class WulffSingle(WulffBase):
             Wulff construction for a truncated octohedral nanoparticle.
         """
         energies = {(1, 0, 0): 1.1, (1, 1, 0): 1.15, (1, 1, 1): 1.0}
-        wulff = cls(generator, natoms)
-        return wulff.get_construction(energies)
+        wulff = cls(generator, energies, natoms)
+        return wulff.get_construction()
 
 
 """
-- 
2.43.0


From 35bde3e8c4d7b990987b75aa3f90b9b076e404d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:19 +0000
Subject: [PATCH 37/39] fix: construct Wulff particles anew when crystal, size
 or energies change

---
 czone/prefab/wulff.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/czone/prefab/wulff.py b/czone/prefab/wulff.py
index 183d001..84da0ab 100644
--- a/czone/prefab/wulff.py
+++ b/czone/prefab/wulff.py
@@ -56,6 +56,7 @@ class WulffBase(ABC):
     def generator(self, val):
         assert (isinstance(val, Generator)
                ), "Supplied generator must be crystalline Generator class"
+        self._wulff = None  #any earlier construction is out of date
         self._generator = val
         p_struct = val.structure.get_primitive_structure()
         self._p_atoms = Atoms(positions=p_struct.cart_coords, cell=p_struct.lattice.matrix)
@@ -72,6 +73,7 @@ class WulffBase(ABC):
 
     @natoms.setter
     def natoms(self, val):
+        self._wulff = None  #any earlier construction is out of date
         try:
             self._natoms = int(val)
         except:
@@ -88,6 +90,7 @@ class WulffBase(ABC):
             assert(isinstance(key, tuple) and isinstance(val, float)), \
                 "surface energies must be passed as tuple pairs of miller indices and floats"
 
+        self._wulff = None  #any earlier construction is out of date
         self._surface_energies = vals
 
     ####################
@@ -169,7 +172,7 @@ class WulffSingle(WulffBase):
             return Volume(alg_objects=planes, generator=self.generator)
 
     def get_areas(self):
-        return self._wulff.facet_fractions
+        return self.wulff.facet_fractions
 
     def winterbottom(self, interface: Tuple[int], interface_energy: float):
         """Construct Winterbottom construction for single crystals.
-- 
2.43.0


From 3b1b3227d6136b6585af0f9eb3a1e2d4e749fdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:22 +0000
Subject: [PATCH 38/39] fix: turn the facets of Wulff particles with their
 crystal

---
 czone/prefab/wulff.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/czone/prefab/wulff.py b/czone/prefab/wulff.py
index 84da0ab..225a373 100644
--- a/czone/prefab/wulff.py
+++ b/czone/prefab/wulff.py
@@ -158,6 +158,12 @@ class WulffSingle(WulffBase):
     ####################
 
 
+    def _orient(self, planes):
+        """Turn facets from the axes of the structure to those of the generator."""
+        mat = self.generator.voxel.bases @ np.linalg.inv(self.generator.lattice.matrix.T)
+        turn = MatrixTransform(mat)
+        return [turn.applyTransformation_alg(p) for p in planes]
+
     @property
     def wulff(self):
         if self._wulff is None:
@@ -165,7 +171,7 @@ class WulffSingle(WulffBase):
         return self._wulff
 
     def get_construction(self, return_facet_areas=False):
-        planes = self.planes_from_wulff(self.wulff)
+        planes = self._orient(self.planes_from_wulff(self.wulff))
         if return_facet_areas:
             return Volume(alg_objects=planes, generator=self.generator), self.wulff.facet_fractions
         else:
@@ -193,7 +199,7 @@ class WulffSingle(WulffBase):
         """
         wulff = Winterbottom(self.surface_energies, interface, interface_energy,
                              self.p_atoms, self.natoms)
-        planes = self.planes_from_wulff(wulff)
+        planes = self._orient(self.planes_from_wulff(wulff))
 
         return Volume(alg_objects=planes, generator=self.generator)
 
-- 
2.43.0


From 55aee2438d85e612fa45bce63195fbbf675d39d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:07 +0000
Subject: [PATCH 39/39] fix: keep the facets of Winterbottom particles on the
 planes of their crystal

---
 czone/prefab/wulff.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/czone/prefab/wulff.py b/czone/prefab/wulff.py
index 225a373..61a12ee 100644
--- a/czone/prefab/wulff.py
+++ b/czone/prefab/wulff.py
@@ -199,7 +199,12 @@ class WulffSingle(WulffBase):
         """
         wulff = Winterbottom(self.surface_energies, interface, interface_energy,
                              self.p_atoms, self.natoms)
-        planes = self._orient(self.planes_from_wulff(wulff))
+        planes = self.planes_from_wulff(wulff)
+
+        # WulffPack lays the interface face down, turn it back to the axes of the structure
+        cell, turned_cell = [np.array(x.standardized_structure.cell).T for x in (self.wulff, wulff)]
+        turn = MatrixTransform(cell @ np.linalg.inv(turned_cell))
+        planes = self._orient([turn.applyTransformation_alg(p) for p in planes])
 
         return Volume(alg_objects=planes, generator=self.generator)
 
-- 
2.43.0

