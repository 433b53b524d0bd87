From 8089b4d49e8e75ef26f0a1c5378cf32cf6eaa8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:44 +0000
Subject: [PATCH 01/55] fix: unpack bounding box of plane-bounded volumes so
 they can be populated

---
 czone/volume/volume.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/czone/volume/volume.py b/czone/volume/volume.py
index acaf8d7..4e256da 100644
--- a/czone/volume/volume.py
+++ b/czone/volume/volume.py
@@ -336,7 +336,9 @@ class Volume(BaseVolume):
 
             planes = [obj for obj in self.alg_objects if isinstance(obj, Plane)]
             if len(planes) > 3:
-                return get_bounding_box_planes(planes)
+                bbox, status = get_bounding_box_planes(planes)
+                if status == 0:
+                    return bbox
 
             cylinders = [obj for obj in self.alg_objects if isinstance(obj, Cylinder)]
             if len(cylinders) > 0:
-- 
2.43.0


From ac777570a03f54cf6d13b4e8ce64f6d544586a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:47 +0000
Subject: [PATCH 02/55] fix: allow points of a Volume to be reset, so volumes
 with points can be transformed

---
 czone/volume/volume.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/czone/volume/volume.py b/czone/volume/volume.py
index 4e256da..267c3b8 100644
--- a/czone/volume/volume.py
+++ b/czone/volume/volume.py
@@ -176,7 +176,10 @@ class Volume(BaseVolume):
     @points.setter
     def points(self, points):
         try:
-            self._points = np.array([])  #clear points
+            #clear points and hull
+            self._points = None
+            self._hull = None
+            self._tri = None
             self.addPoints(points)
         except AssertionError:
             raise ValueError("Check shape of input array.")
-- 
2.43.0


From 6e7df2e8419ba571d12dfee589bc70151b8431c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:51 +0000
Subject: [PATCH 03/55] fix: update triangulation used for interiority checks
 when points are added to a Volume

---
 czone/volume/volume.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/czone/volume/volume.py b/czone/volume/volume.py
index 267c3b8..3b63af5 100644
--- a/czone/volume/volume.py
+++ b/czone/volume/volume.py
@@ -263,18 +263,15 @@ class Volume(BaseVolume):
         if (self._points is None):
             self._points = np.copy(points)
             if len(points.shape) == 1:  #add dim if only single new point
-                self._points = np.expand_dims(points)
+                self._points = np.expand_dims(self._points, axis=0)
         else:
             if len(points.shape) == 1:  #check for single point
                 points = np.expand_dims(points, axis=0)
 
             self._points = np.append(self._points, points, axis=0)
 
-        #if hull created, update points; else, create hull
-        try:
-            self._hull.add_points(points)
-        except AttributeError:
-            self.createHull()
+        #(re)create hull and its triangulation, used for interiority checks
+        self.createHull()
 
     def transform(self, transformation: BaseTransform):
 
-- 
2.43.0


From c7de418fc1bb91159a60cb1720ee71550a063529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:20 +0000
Subject: [PATCH 04/55] fix: let Reflection act on algebraic objects like any
 other matrix transformation

---
 czone/transform/transform.py | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/czone/transform/transform.py b/czone/transform/transform.py
index ea55165..7f00b9a 100644
--- a/czone/transform/transform.py
+++ b/czone/transform/transform.py
@@ -335,18 +335,6 @@ class Reflection(MatrixTransform):
     def params(self):
         return self.plane
 
-    def applyTransformation_alg(self, alg_object):
-        if (isinstance(alg_object), Sphere):
-            alg_object.center = np.dot(
-                self.matrix,
-                (alg_object.center - self.origin).T).T + self.origin
-
-        if (isinstance(alg_object), Plane):
-            alg_object.point = np.dot(
-                self.matrix, (alg_object.point - self.origin).T).T + self.origin
-
-        return alg_object
-
 
 class MultiTransform(BaseTransform):
     """Transformation sequence which applies a numeruous transformations in succession.
-- 
2.43.0


From f646b7c568e36da404c978bed2acdf638a21c092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:24 +0000
Subject: [PATCH 05/55] fix: accept single points in Plane.project_point

---
 czone/volume/algebraic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/volume/algebraic.py b/czone/volume/algebraic.py
index 51c693e..cb9f97c 100644
--- a/czone/volume/algebraic.py
+++ b/czone/volume/algebraic.py
@@ -220,7 +220,7 @@ class Plane(BaseAlgebraic):
         Returns:
             Projected point lying on surface of Plane.
         """
-        return point - self.sdist_from_plane(point)[:,None] * self.normal[None,:]
+        return point - np.expand_dims(self.sdist_from_plane(point), axis=-1) * self.normal
 
 
 class Cylinder(BaseAlgebraic):
-- 
2.43.0


From 6abb77286cc79602cec70543e229e9153a168db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:27 +0000
Subject: [PATCH 06/55] fix: make s2s_alignment bring the rotated moving plane
 and point onto the target, without altering its arguments

---
 czone/transform/transform.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/czone/transform/transform.py b/czone/transform/transform.py
index 7f00b9a..611728d 100644
--- a/czone/transform/transform.py
+++ b/czone/transform/transform.py
@@ -546,14 +546,12 @@ def s2s_alignment(M_plane: Plane, T_plane: Plane, M_point: np.ndarray,
 
     R_t = Rotation(matrix=R, origin=M_plane.point)
 
-    #TODO: why aren't these being used?
-    M_plane_r = R_t.applyTransformation_alg(M_plane)
     M_point_r = R_t.applyTransformation(M_point)
 
-    proj_point = T_plane.project_point(M_point)
+    proj_point = T_plane.project_point(M_point_r)
     plane_shift = T_plane.project_point(T_point) - proj_point
 
-    ortho_shift = 1.0 * T_plane.dist_from_plane(M_plane.point) * T_plane.normal
+    ortho_shift = -1.0 * T_plane.sdist_from_plane(M_plane.point) * T_plane.normal
     T_t = Translation(shift=ortho_shift + plane_shift)
 
     return MultiTransform(transforms=[R_t, T_t])
-- 
2.43.0


From 7f888297018643cd917d7240433b4ed0397720b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:31 +0000
Subject: [PATCH 07/55] fix: keep rot_vtv well defined for parallel and
 antiparallel vectors

---
 czone/transform/transform.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/czone/transform/transform.py b/czone/transform/transform.py
index 611728d..d052c12 100644
--- a/czone/transform/transform.py
+++ b/czone/transform/transform.py
@@ -451,17 +451,17 @@ def rot_vtv(v: np.ndarray, vt: np.ndarray) -> np.ndarray:
     In short, use cross product to get axis of rotation, then develop matrix form of
     Rodrigues rotation of formula and return rotation matrix.
     """
-    v = np.array(v).reshape(3,)
-    vt = np.array(vt).reshape(3,)
-    eps = np.finfo(float).eps  #get machine epsilon for collinearity check
-    theta = np.arccos(np.dot(v, vt) / (np.linalg.norm(v) * np.linalg.norm(vt)))
+    v = np.array(v).reshape(3,) / np.linalg.norm(v)
+    vt = np.array(vt).reshape(3,) / np.linalg.norm(vt)
+    eps = np.sqrt(np.finfo(float).eps)  #below this, cross product is mostly round-off
+    rot_axis = np.cross(v, vt)
+    theta = np.arctan2(np.linalg.norm(rot_axis), np.dot(v, vt))
     if (theta < eps):
         return np.eye(3)
     elif (np.pi - theta < eps):
-        e_i = np.eye(3)[np.argmin(v)]  #grab axis along minimum component of v
-        rot_axis = np.cross(v, e_i).astype(float)
-    else:
-        rot_axis = np.cross(v, vt).astype(float)
+        e_i = np.eye(3)[np.argmin(np.abs(v))]  #grab axis along minimum component of v
+        rot_axis = np.cross(v, e_i)
+        theta = np.pi
 
     rot_axis /= np.linalg.norm(rot_axis)
     A = np.array([[0, -rot_axis[2],
-- 
2.43.0


From 88d3091277faa2fef462b259b96a5a5d6d0b9563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:35 +0000
Subject: [PATCH 08/55] fix: unpack rotation returned by align_vectors in
 rot_align

---
 czone/transform/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/transform/transform.py b/czone/transform/transform.py
index d052c12..077a186 100644
--- a/czone/transform/transform.py
+++ b/czone/transform/transform.py
@@ -482,7 +482,7 @@ def rot_align(v: np.ndarray, vt: np.ndarray) -> np.ndarray:
         np.ndarray: 3x3 rotation matrix
     """
 
-    return scRotation.align_vectors(vt, v).as_matrix()
+    return scRotation.align_vectors(vt, v)[0].as_matrix()
 
 
 def rot_zxz(alpha: float,
-- 
2.43.0


From c4c4f5b26c17ce3659fc6d4171115e58026ec4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:39 +0000
Subject: [PATCH 09/55] fix: perform extrinsic zxz rotations in documented
 gamma-beta-alpha order

---
 czone/transform/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/transform/transform.py b/czone/transform/transform.py
index 077a186..c141b94 100644
--- a/czone/transform/transform.py
+++ b/czone/transform/transform.py
@@ -512,7 +512,7 @@ def rot_zxz(alpha: float,
         return scRotation.from_euler("ZXZ", [alpha, beta, gamma],
                                      degrees=False).as_matrix()
     elif convention == "extrinsic":
-        return scRotation.from_euler("zxz", [gamma, alpha, beta],
+        return scRotation.from_euler("zxz", [gamma, beta, alpha],
                                      degrees=False).as_matrix()
     else:
         raise (ValueError("Invalid argument for convention."))
-- 
2.43.0


From 13b3f15283266db638501dec7200abb5cb7aa485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:03 +0000
Subject: [PATCH 10/55] fix: use lattice vectors as columns of generator bases,
 as everywhere else, so non-orthogonal crystals are correct

---
 czone/generator/generator.py | 4 ++--
 czone/volume/voxel.py        | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/czone/generator/generator.py b/czone/generator/generator.py
index aa3559a..246b896 100644
--- a/czone/generator/generator.py
+++ b/czone/generator/generator.py
@@ -121,9 +121,9 @@ class Generator(BaseGenerator):
 
         # check if voxel exists, if so, copy origin
         if self.voxel is None:
-            self.voxel = Voxel(bases=structure.lattice.matrix)
+            self.voxel = Voxel(bases=structure.lattice.matrix.T)
         else:
-            self.voxel = Voxel(bases=structure.lattice.matrix,
+            self.voxel = Voxel(bases=structure.lattice.matrix.T,
                                origin=self.origin)
 
     @property
diff --git a/czone/volume/voxel.py b/czone/volume/voxel.py
index 04e7bd7..6bb1d47 100644
--- a/czone/volume/voxel.py
+++ b/czone/volume/voxel.py
@@ -48,7 +48,7 @@ class Voxel():
 
     @property
     def bases(self):
-        """Basis vectors defining crystal unit cell. Vectors are rows of matrix."""
+        """Basis vectors defining crystal unit cell. Vectors are columns of matrix."""
         return self._bases
 
     @bases.setter
@@ -58,9 +58,9 @@ class Voxel():
         assert (
             bases.shape == (3, 3)
         ), '''Bases must be 3x3 numpy array that defines vectors that span 3D space
-            [0,:] = [x_1, y_1, z_1]
-            [1,:] = [x_2, y_2, z_2]
-            [2,:] = [x_3, y_3, z_3]'''
+            [:,0] = [x_1, y_1, z_1]
+            [:,1] = [x_2, y_2, z_2]
+            [:,2] = [x_3, y_3, z_3]'''
 
         #check for collinearity
         assert (not self._collinear(
-- 
2.43.0


From c598a7cf29c80674b868769a862abb63abcf25cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:06 +0000
Subject: [PATCH 11/55] fix: wrap fractional coordinates into the unit cell so
 supplied atoms fill the whole bounding region

---
 czone/generator/generator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/czone/generator/generator.py b/czone/generator/generator.py
index 246b896..9ac1b19 100644
--- a/czone/generator/generator.py
+++ b/czone/generator/generator.py
@@ -202,6 +202,7 @@ class Generator(BaseGenerator):
         min_extent, max_extent = self.voxel.get_extents(bbox)
         fcoords = np.copy(
             self.coords)  #grab fractional in case bases are rotated
+        fcoords -= np.floor(fcoords)  #wrap into unit cell, so tiled cells cover bbox
         # get matrix representing unit cells as grid
         l = [
             range(min_extent[0], max_extent[0] + 1),
-- 
2.43.0


From a06d3f6574c39beef2bd4cb117346fdd9d134bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:09 +0000
Subject: [PATCH 12/55] fix: reject coplanar and nearly collinear basis vectors
 in Voxel

---
 czone/volume/voxel.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/czone/volume/voxel.py b/czone/volume/voxel.py
index 6bb1d47..727ca5f 100644
--- a/czone/volume/voxel.py
+++ b/czone/volume/voxel.py
@@ -70,6 +70,10 @@ class Voxel():
         assert (not self._collinear(
             bases[1, :], bases[2, :])), "Bases vectors must linearly indepedent"
 
+        #check for coplanarity
+        assert (np.linalg.matrix_rank(bases) == 3
+               ), "Bases vectors must linearly indepedent"
+
         self._bases = bases
 
     @property
-- 
2.43.0


From 6ee0fc052eff58ed9dbb27b190a1f80c8a88e2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:14 +0000
Subject: [PATCH 13/55] fix: honour basis_only of each transformation in a
 MultiTransform applied to a Generator

---
 czone/generator/generator.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/czone/generator/generator.py b/czone/generator/generator.py
index 9ac1b19..5e78f3d 100644
--- a/czone/generator/generator.py
+++ b/czone/generator/generator.py
@@ -7,7 +7,7 @@ import numpy as np
 from pymatgen.core import Lattice, Structure
 from pymatgen.symmetry.groups import SpaceGroup, sg_symbol_from_int_number
 
-from ..transform import BaseTransform
+from ..transform import BaseTransform, MultiTransform
 from ..transform.strain import BaseStrain
 from ..transform.post import BasePostTransform
 from ..volume.voxel import Voxel
@@ -244,6 +244,12 @@ class Generator(BaseGenerator):
         """
         assert (isinstance(transformation, BaseTransform)
                ), "Supplied transformation not transformation object."
+        if isinstance(transformation, MultiTransform):
+            # apply one by one, since each may or may not affect the origin
+            for t in transformation.transforms:
+                self.transform(t)
+            return
+
         self.voxel.bases = transformation.applyTransformation_bases(
             self.voxel.bases)
 
-- 
2.43.0


From 0e7cd83ba3c8da3e30386f7d317b6cdafeea3a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:40 +0000
Subject: [PATCH 14/55] fix: snap to the nearest Miller plane of the generator
 as placed in space, for any lattice, origin and homogeneous strain

---
 czone/prefab/prefab.py    |  6 ++---
 czone/volume/algebraic.py | 55 +++++++++++++--------------------------
 2 files changed, 21 insertions(+), 40 deletions(-)

diff --git a/czone/prefab/prefab.py b/czone/prefab/prefab.py
index 72678c3..0ee6334 100644
--- a/czone/prefab/prefab.py
+++ b/czone/prefab/prefab.py
@@ -435,11 +435,11 @@ class wurtziteStackingFault(BasePrefab):
 
         polarity = 1
         for i in range(self.N):
-            # check if 100 or 200 plane in the previous generator
+            # check if 100 or 200 plane in the base generator
             cur_plane_pt = planes[splits[i]].point
 
-            plane_100 = snap_plane_near_point(cur_plane_pt, gen_tmp, (0,0,1))
-            plane_200 = snap_plane_near_point(cur_plane_pt, gen_tmp, (0,0,2))
+            plane_100 = snap_plane_near_point(cur_plane_pt, self.generator, (0,0,1))
+            plane_200 = snap_plane_near_point(cur_plane_pt, self.generator, (0,0,2))
 
             # adjust shift according to 100 plane vs 200 plane
             bsf = 2 if np.allclose(plane_100.point, plane_200.point) else 1
diff --git a/czone/volume/algebraic.py b/czone/volume/algebraic.py
index cb9f97c..ba0b691 100644
--- a/czone/volume/algebraic.py
+++ b/czone/volume/algebraic.py
@@ -441,54 +441,35 @@ def snap_plane_near_point(point: np.ndarray,
     """
 
     miller_indices = np.array(miller_indices)
+    point = np.array(point, dtype=float).reshape((3,))
 
-
-    # check if generator has a strain field
-    if generator.strain_field is None:
-        # get point coordinates in generator coordinate system
-        point_fcoord = np.array(np.linalg.solve(generator.voxel.sbases, point))
-    else:
+    # get origin and basis vectors of crystal in space, including any strain
+    vertices = generator.origin + np.vstack([np.zeros(3), generator.voxel.sbases.T])
+    if not (generator.strain_field is None):
         assert ( isinstance(
             generator.strain_field, HStrain)), "Finding Miller planes with inhomogenous strain fields is not supported."
 
-        if generator.strain_field.mode == "crystal":
-            H = generator.strain_field.matrix
-            point_fcoord = np.array(np.linalg.solve(H @ generator.voxel.sbases, point))
+        field = copy.deepcopy(generator.strain_field)
+        field.scrape_params(generator)
+        vertices = field.apply_strain(vertices)
 
-    # get lattice points that are intersected by miller plane
-    with np.errstate(divide="ignore"):  #check for infs directly
-        target_fcoord = 1 / miller_indices
+    origin = vertices[0, :]
+    bases = (vertices[1:, :] - origin).T
 
-    new_point = np.zeros((3, 1))
+    # planes in family lie where h*x + k*y + l*z is an integer in fractional coordinates
+    index = np.dot(miller_indices, np.linalg.solve(bases, point - origin))
 
-    # TODO: if bases are not orthonormal, this procedure is not correct
-    # since the following rounds towards the nearest lattice points, with equal
-    # weights given to all lattice vectors
     if mode == "nearest":
-        for i in range(3):
-            new_point[i,0] = np.round(point_fcoord[i]/target_fcoord[i])*target_fcoord[i] \
-                                if not np.isinf(target_fcoord[i]) else point_fcoord[i]
+        target = np.round(index)
     elif mode == "ceil":
-        for i in range(3):
-            new_point[i,0] = round_away(point_fcoord[i]/target_fcoord[i])*target_fcoord[i] \
-                                if not np.isinf(target_fcoord[i]) else point_fcoord[i]
+        target = round_away(index)
     elif mode == "floor":
-        for i in range(3):
-            new_point[i,0] = np.fix(point_fcoord[i]/target_fcoord[i])*target_fcoord[i] \
-                                if not np.isinf(target_fcoord[i]) else point_fcoord[i]
-
-    if generator.strain_field is None:
-        # scale back to real space
-        new_point = generator.voxel.sbases @ new_point
-
-        # get perpendicular vector
-        normal = generator.voxel.reciprocal_bases.T @ miller_indices
+        target = np.fix(index)
     else:
-        H = generator.voxel.sbases
-        G = generator.strain_field.matrix
-        new_point = G @ H @ new_point
+        raise ValueError("Mode must be either nearest, floor, or ceil")
 
-        # get perpendicular vector
-        normal = np.linalg.inv(H @ G).T @ miller_indices
+    # get perpendicular vector and move point along it onto target plane
+    normal = np.linalg.inv(bases).T @ miller_indices
+    new_point = point + (target - index) * normal / np.dot(normal, normal)
 
     return Plane(normal=normal, point=new_point)
\ No newline at end of file
-- 
2.43.0


From 587844a85a892b1c80be22b64b80bb80735bd29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:43 +0000
Subject: [PATCH 15/55] fix: use the reciprocal lattice vector as normal of
 wurtzite defect planes

---
 czone/prefab/prefab.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/prefab/prefab.py b/czone/prefab/prefab.py
index 0ee6334..ffccf3e 100644
--- a/czone/prefab/prefab.py
+++ b/czone/prefab/prefab.py
@@ -390,7 +390,7 @@ class wurtziteStackingFault(BasePrefab):
         # TODO: the bounding box isn't necessarily tangent to the valid volume (e.g., spheres)
         # perhaps refine the end points until planes intersect
         
-        norm_vec = self.generator.voxel.reciprocal_bases @ np.array(self.plane)
+        norm_vec = self.generator.voxel.reciprocal_bases.T @ np.array(self.plane)
         norm_vec /= np.linalg.norm(norm_vec)
         bbox = self.volume.get_bounding_box()
         ci = np.dot(norm_vec.reshape(1, 3), bbox.T).T
-- 
2.43.0


From 597dc50560f78cdfe368da262d99a76e9693d84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:47 +0000
Subject: [PATCH 16/55] fix: sample defect planes over the extent of spheres
 not centered at the origin

---
 czone/prefab/prefab.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/czone/prefab/prefab.py b/czone/prefab/prefab.py
index ffccf3e..b020e99 100644
--- a/czone/prefab/prefab.py
+++ b/czone/prefab/prefab.py
@@ -159,8 +159,8 @@ class fccMixedTwinSF(BasePrefab):
         for ao in self.volume.alg_objects:
             if isinstance(ao, Sphere):
                 # TODO: only override bbox if Sphere is smaller 
-                start = -1.0 * ao.radius * norm_vec
-                finish = ao.radius * norm_vec      
+                start = ao.center - ao.radius * norm_vec
+                finish = ao.center + ao.radius * norm_vec      
 
         sp = snap_plane_near_point(start,
                                    self.generator,
@@ -400,8 +400,8 @@ class wurtziteStackingFault(BasePrefab):
         for ao in self.volume.alg_objects:
             if isinstance(ao, Sphere):
                 # TODO: only override bbox if Sphere is smaller 
-                start = -1.0 * ao.radius * norm_vec
-                finish = ao.radius * norm_vec            
+                start = ao.center - ao.radius * norm_vec
+                finish = ao.center + ao.radius * norm_vec            
 
         sp = snap_plane_near_point(start,
                                    self.generator,
-- 
2.43.0


From 1852725c3b3512ea1ecc1d5e5d57a50f576f0290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:33 +0000
Subject: [PATCH 17/55] fix: supply amorphous atoms at the requested density
 and inside the requested region

---
 czone/generator/generator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/czone/generator/generator.py b/czone/generator/generator.py
index 5e78f3d..c6c1008 100644
--- a/czone/generator/generator.py
+++ b/czone/generator/generator.py
@@ -424,7 +424,9 @@ class AmorphousGenerator(BaseGenerator):
             return self.old_result
         else:
             coords = gen_p_substrate(
-                np.max(bbox, axis=0) - np.min(bbox, axis=0), self.min_dist)
+                np.max(bbox, axis=0) - np.min(bbox, axis=0), self.min_dist,
+                density=self.density)
+            coords = coords + np.min(bbox, axis=0)
             self._old_result = (coords, np.ones(coords.shape[0]) * self.species)
             return self.old_result
 
-- 
2.43.0


From 3e6f89cb8282b27070240f81f40568bcbe5d7d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:36 +0000
Subject: [PATCH 18/55] fix: let volumes with amorphous or null generators be
 placed and transformed

---
 czone/generator/generator.py | 26 +++++++++++++++++++++++++-
 czone/volume/volume.py       |  4 ++--
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/czone/generator/generator.py b/czone/generator/generator.py
index c6c1008..1d832a0 100644
--- a/czone/generator/generator.py
+++ b/czone/generator/generator.py
@@ -430,6 +430,26 @@ class AmorphousGenerator(BaseGenerator):
             self._old_result = (coords, np.ones(coords.shape[0]) * self.species)
             return self.old_result
 
+    def transform(self, transformation: BaseTransform):
+        """Transform Generator, and any stored result, with given transformation.
+
+        Args:
+            transformation (BaseTransform): Transformation object from transforms module.
+        """
+        assert (isinstance(transformation, BaseTransform)
+               ), "Supplied transformation not transformation object."
+
+        if transformation.basis_only:
+            return
+
+        if not (self.origin is None):
+            self.origin = np.squeeze(
+                transformation.applyTransformation(np.reshape(self.origin, (1, 3))))
+
+        if not (self.old_result is None):
+            coords, species = self.old_result
+            self._old_result = (transformation.applyTransformation(coords), species)
+
 
 class NullGenerator(BaseGenerator):
     """Generator object for empty space.
@@ -445,4 +465,8 @@ class NullGenerator(BaseGenerator):
         pass
 
     def supply_atoms(self, bbox):
-        return np.empty((0,3)), np.empty((0,))
\ No newline at end of file
+        return np.empty((0,3)), np.empty((0,))
+
+    def transform(self, transformation: BaseTransform):
+        # empty space is left unchanged by any transformation
+        pass
diff --git a/czone/volume/volume.py b/czone/volume/volume.py
index 3b63af5..867e170 100644
--- a/czone/volume/volume.py
+++ b/czone/volume/volume.py
@@ -7,7 +7,7 @@ from ase import Atoms
 from ase.io import write as ase_write
 from scipy.spatial import ConvexHull, Delaunay
 
-from ..generator import AmorphousGenerator, BaseGenerator
+from ..generator import AmorphousGenerator, BaseGenerator, NullGenerator
 from ..transform import BaseTransform
 from .algebraic import BaseAlgebraic, Plane, Sphere, Cylinder
 from .algebraic import get_bounding_box as get_bounding_box_planes
@@ -231,7 +231,7 @@ class Volume(BaseVolume):
 
         new_generator = copy.deepcopy(generator)
 
-        if not isinstance(generator, AmorphousGenerator):
+        if not isinstance(generator, (AmorphousGenerator, NullGenerator)):
             if not origin is None:
                 new_generator.voxel.origin = origin
 
-- 
2.43.0


From 345864253106a58248f5585dd069236138790dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:40 +0000
Subject: [PATCH 19/55] fix: respect minimum distance across periodic
 boundaries of amorphous blocks of any size

---
 czone/generator/amorphous_algorithms.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/czone/generator/amorphous_algorithms.py b/czone/generator/amorphous_algorithms.py
index 168919e..2e3cf7b 100644
--- a/czone/generator/amorphous_algorithms.py
+++ b/czone/generator/amorphous_algorithms.py
@@ -42,7 +42,9 @@ def get_tuples(tx, ty, tz):
 
 def get_voxels(min_dist, dims):
     """Get voxel and neighbor list."""
-    num_blocks = np.ceil(dims / (min_dist)).astype(int)
+    # whole number of blocks, none smaller than min_dist, so that neighbors
+    # across periodic boundaries include all atoms within min_dist
+    num_blocks = np.maximum(np.floor(dims / (min_dist)), 1).astype(int)
     voxels = []
     neighbors = []
     for i in range(num_blocks[0]):
@@ -121,6 +123,7 @@ def gen_p_substrate(dims: List[float],
 
     # get voxel grid and list of local voxel neighbors
     voxels, neighbors = get_voxels(min_dist, dims)
+    num_blocks = np.array([len(voxels), len(voxels[0]), len(voxels[0][0])])
 
     if print_progress:
         print("Starting particle loop for %i particles" % num_c)
@@ -128,11 +131,11 @@ def gen_p_substrate(dims: List[float],
     # add first particle to lists
 
     for i in range(0, num_c):
-        if print_progress and (not (i % (num_c // 5))):
+        if print_progress and (not (i % max(num_c // 5, 1))):
             print("On %i of %i" % (i, num_c))
         new_coord = rng.uniform(size=(1, 3)) * dims
 
-        block = np.floor(new_coord / (min_dist)).astype(int)
+        block = np.floor(new_coord / dims * num_blocks).astype(int)
         block = block[0]
         tlist = neighbors[block[0]][block[1]][block[2]]
         parts = []
@@ -143,7 +146,7 @@ def gen_p_substrate(dims: List[float],
         while ((len(p_dist) > 0) and (np.min(p_dist) < min_dist_2)):
 
             new_coord = rng.uniform(size=(1, 3)) * dims
-            block = np.floor(new_coord / (min_dist)).astype(int)
+            block = np.floor(new_coord / dims * num_blocks).astype(int)
             block = block[0]
             tlist = neighbors[block[0]][block[1]][block[2]]
             parts = []
@@ -179,7 +182,7 @@ def gen_p_substrate_batched(dims: List[float],
     coords = np.zeros((num_c, 3))
     dims = np.array([dim_x, dim_y, dim_z])
     voxel_size = min_dist*voxel_scale
-    num_blocks = np.ceil(dims / (voxel_size)).astype(int)
+    num_blocks = np.maximum(np.floor(dims / (voxel_size)), 1).astype(int)
     tot_blocks = np.prod(num_blocks)
     Nt = np.array([1, num_blocks[0], num_blocks[0]*num_blocks[1]])
 
@@ -202,7 +205,7 @@ def gen_p_substrate_batched(dims: List[float],
 
         # find block for each particle and make sure every particle is in unique block
         # to avoid full N^2 comparisons within batch
-        block = (np.floor(new_coord /voxel_size) @ Nt).astype(int)
+        block = (np.floor(new_coord / dims * num_blocks) @ Nt).astype(int)
         __, idx = np.unique(block, return_index=True)
         block = block[idx]
         new_coord = new_coord[idx,:]
-- 
2.43.0


From 1e7b00f42789dda3546547cfe15df4feb5a6239b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:43 +0000
Subject: [PATCH 20/55] fix: reject get_N_splits requests that can never be
 satisfied instead of looping forever

---
 czone/util/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/util/misc.py b/czone/util/misc.py
index cce4e35..387ff0d 100644
--- a/czone/util/misc.py
+++ b/czone/util/misc.py
@@ -31,7 +31,7 @@ def get_N_splits(n: int, m: int, l: int, seed: int = None) -> List[int]:
     if n == 0:
         return []
         
-    if (l - 2 * m < (n - 1) * m):
+    if (l - 2 * m <= (n - 1) * m):
         raise ValueError("m is too large for number of splits requested and l")
     rng = np.random.default_rng(seed=seed)
 
-- 
2.43.0


From af479d719a7eb671e1fb802cf19530bbc818b672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:48 +0000
Subject: [PATCH 21/55] fix: return the non-periodic distance function from
 get_sdist_fun

---
 czone/util/measure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/czone/util/measure.py b/czone/util/measure.py
index 067fde3..e5fe3b1 100644
--- a/czone/util/measure.py
+++ b/czone/util/measure.py
@@ -176,6 +176,8 @@ def get_sdist_fun(dims=None, px=False, py=False, pz=False):
         def sdist(A, B):
             return np.sum((A - B)**2.0, axis=1)
 
+        return sdist
+
     # grab relevant dimensions
     cols = [x for x, y in zip([0, 1, 2], [px, py, pz]) if y]
     sdims = np.array(dims)[cols]
-- 
2.43.0


From df298ca3b5c47bf9764b167db3ff64ad5358463f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:52 +0000
Subject: [PATCH 22/55] fix: count each pair within cutoff once in calc_rdf,
 without altering its input

---
 czone/util/measure.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/czone/util/measure.py b/czone/util/measure.py
index e5fe3b1..6575ca4 100644
--- a/czone/util/measure.py
+++ b/czone/util/measure.py
@@ -210,17 +210,20 @@ def calc_rdf(coords, cutoff=20.0, px=True, py=True, pz=True):
 
     """
     # shift outside of negative octants
-    coords -= np.min(coords, axis=0)
+    coords = coords - np.min(coords, axis=0)
 
     # get box size and number of voxels in each direction
     dims = np.max(coords, axis=0)
-    N = np.ceil(dims / cutoff).astype(int)
+    # whole number of voxels, none smaller than cutoff, so that neighboring
+    # voxels contain all coordinates within cutoff
+    N = np.maximum(np.floor(dims / cutoff), 1).astype(int)
 
     Nt = np.array([1, N[0], N[0] * N[1]])
 
     # get voxel neighbor list and 1D voxel idx for each obj
-    nn = get_voxel_grid(N, px, py, pz)
-    box_idx = (np.floor(coords / cutoff) @ Nt).astype(int)
+    nn = [set(x) for x in get_voxel_grid(N, px, py, pz)]
+    scaled_coords = coords / np.where(dims > 0, dims, 1.0) * N
+    box_idx = np.minimum(np.floor(scaled_coords), N - 1).astype(int) @ Nt
 
     # get periodic distance calculation
     f_sdist = get_sdist_fun(dims, px, py, pz)
@@ -232,14 +235,14 @@ def calc_rdf(coords, cutoff=20.0, px=True, py=True, pz=True):
         parts.append([int(x) for x in part_ids[box_idx == i]])
 
     # do 3D arrays so that distances are broadcasted/batched
-    counts = np.zeros(int(cutoff / 0.1))
+    counts = np.zeros(int(np.round(cutoff / 0.1)))
 
     # for each voxel, calculate distance of owned particles to all possible
     # neighbors within cutoff distance
     for i in range(np.prod(N)):
         cur_parts = coords[parts[i], :][:, :, None]
 
-        for n in nn[box_idx[i]]:
+        for n in nn[i]:
             neighbor_parts = (coords[parts[n], :].T)[None, :, :]
             dist = np.sqrt(f_sdist(cur_parts, neighbor_parts))
 
-- 
2.43.0


From 256d020366beae3f4a1f1aa3ea012bf84ea03d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:38 +0000
Subject: [PATCH 23/55] fix: make IStrain usable and consistent with crystal
 coordinates of HStrain

---
 czone/transform/strain.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/czone/transform/strain.py b/czone/transform/strain.py
index edf9327..e37eadd 100644
--- a/czone/transform/strain.py
+++ b/czone/transform/strain.py
@@ -181,21 +181,24 @@ class IStrain(BaseStrain):
     """
 
     def __init__(self, fun=None, origin="generator", mode="crystal", **kwargs):
+        self.fun_kwargs = kwargs
+
         if not fun is None:
             self.strain_fun = fun
         else:
             # apply no strain
-            self.strain_fun = lambda x: x
+            self.strain_fun = lambda x, **kwargs: x
 
         self.mode = mode
 
         if origin != "generator":
             self.origin = origin
+            self.origin_type = "global"
         else:
             super().__init__()
+            self.origin_type = "generator"
 
         self._bases = None
-        self.fun_kwargs = kwargs
 
     ##############
     # Properties #
@@ -221,7 +224,7 @@ class IStrain(BaseStrain):
     @strain_fun.setter
     def strain_fun(self, fun: Callable[[np.ndarray], np.ndarray]):
         try:
-            ref_arr = np.random.rand((100, 3))
+            ref_arr = np.random.rand(100, 3)
             test_arr = fun(ref_arr, **self.fun_kwargs)
             assert (test_arr.shape == (100, 3))
         except AssertionError:
@@ -241,13 +244,13 @@ class IStrain(BaseStrain):
 
         if self.mode == "crystal":
             # project onto crystal coordinates
-            sp = sp @ np.linalg.inv(self.bases)
+            sp = sp @ np.linalg.inv(self.bases).T
 
             # strain
             sp = self.strain_fun(sp, basis=self.bases, **self.fun_kwargs)
 
             # project back into real space
-            sp = sp @ self.bases
+            sp = sp @ self.bases.T
         else:
             # strain
             sp = self.strain_fun(sp, **self.fun_kwargs)
-- 
2.43.0


From 4234e58b17cb5cefc96becf8e8d4025f07373b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:42 +0000
Subject: [PATCH 24/55] fix: reject invalid strain modes

---
 czone/transform/strain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/transform/strain.py b/czone/transform/strain.py
index e37eadd..559360d 100644
--- a/czone/transform/strain.py
+++ b/czone/transform/strain.py
@@ -74,7 +74,7 @@ class BaseStrain(ABC):
 
     @mode.setter
     def mode(self, val):
-        if val == "crystal" or "standard":
+        if val == "crystal" or val == "standard":
             self._mode = val
         else:
             raise ValueError("Mode must be either crystal or standard")
-- 
2.43.0


From d3346becc0f4d3e2bad5ca2fb81f67b253eaafad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:46 +0000
Subject: [PATCH 25/55] fix: pass surface energies correctly in WulffSingle
 convenience constructors

---
 czone/prefab/wulff.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/czone/prefab/wulff.py b/czone/prefab/wulff.py
index 4a5af67..183d001 100644
--- a/czone/prefab/wulff.py
+++ b/czone/prefab/wulff.py
@@ -206,8 +206,8 @@ class WulffSingle(WulffBase):
             Wulff construction for a cubic nanoparticle.
         """
         energies = {(1, 0, 0): 1.0}
-        wulff = cls(generator, natoms)
-        return wulff.get_construction(energies)
+        wulff = cls(generator, energies, natoms)
+        return wulff.get_construction()
 
     @classmethod
     def cuboctohedron(cls, generator: Generator, natoms: int = 1000):
@@ -221,8 +221,8 @@ class WulffSingle(WulffBase):
             Wulff construction for a cuboctohedral nanoparticle.
         """
         energies = {(1, 0, 0): 1.0, (1, 1, 1): 1.15}
-        wulff = cls(generator, natoms)
-        return wulff.get_construction(energies)
+        wulff = cls(generator, energies, natoms)
+        return wulff.get_construction()
 
     @classmethod
     def octohedron(cls, generator: Generator, natoms: int = 1000):
@@ -236,8 +236,8 @@ class WulffSingle(WulffBase):
             Wulff construction for a octohedral nanoparticle.
         """
         energies = {(1, 1, 1): 1.0}
-        wulff = cls(generator, natoms)
-        return wulff.get_construction(energies)
+        wulff = cls(generator, energies, natoms)
+        return wulff.get_construction()
 
     @classmethod
     def truncated_octohedron(cls, generator: Generator, natoms: int = 1000):
@@ -251,8 +251,8 @@ class WulffSingle(WulffBase):
             Wulff construction for a truncated octohedral nanoparticle.
         """
         energies = {(1, 0, 0): 1.1, (1, 1, 0): 1.15, (1, 1, 1): 1.0}
-        wulff = cls(generator, natoms)
-        return wulff.get_construction(energies)
+        wulff = cls(generator, energies, natoms)
+        return wulff.get_construction()
 
 
 """
-- 
2.43.0


From a664fa4441381c864ac0086bbab7969f5b5a95bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:50 +0000
Subject: [PATCH 26/55] fix: write scenes in any requested format, and with
 user supplied Debye-Waller factors

---
 czone/scene/scene.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/czone/scene/scene.py b/czone/scene/scene.py
index ca8b1e3..33f5dd0 100644
--- a/czone/scene/scene.py
+++ b/czone/scene/scene.py
@@ -174,14 +174,9 @@ class Scene():
             fname (str): output file name.
             **kwargs: any key word arguments otherwise accepted by ASE write.
         """
-        if "format" in kwargs.keys():
-            if kwargs["format"] == "prismatic":
-                dwf = set(self.all_species)
-                dw_default = (0.1**2.0) * 8 * np.pi**2.0
-                dwf = {str(Symbols([x])): dw_default for x in dwf}
-                ase_write(filename=fname,
-                          images=self.ase_atoms,
-                          debye_waller_factors=dwf,
-                          **kwargs)
-        else:
-            ase_write(filename=fname, images=self.ase_atoms, **kwargs)
+        if kwargs.get("format") == "prismatic" and not ("debye_waller_factors" in kwargs.keys()):
+            dwf = set(self.all_species)
+            dw_default = (0.1**2.0) * 8 * np.pi**2.0
+            kwargs["debye_waller_factors"] = {str(Symbols([x])): dw_default for x in dwf}
+
+        ase_write(filename=fname, images=self.ase_atoms, **kwargs)
-- 
2.43.0


From b479f3c7e5c7ad007f057c6fd3b5126883c86b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:54 +0000
Subject: [PATCH 27/55] fix: keep molecule origin on the tracked atom when
 other atoms are removed

---
 czone/molecule/molecule.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/czone/molecule/molecule.py b/czone/molecule/molecule.py
index e6f9a17..fd2f459 100644
--- a/czone/molecule/molecule.py
+++ b/czone/molecule/molecule.py
@@ -112,6 +112,15 @@ class BaseMolecule(ABC):
             raise NotImplementedError # TODO: Implement origin resetting behavior and warn user if origin is reset to a new index
             # self._origin_idx = new_origin_idx # TEST
 
+        if self._origin_tracking:
+            # keep tracking same atom, which shifts down with removal of those before it
+            N = self.atoms.shape[0]
+            idx = self._origin_idx % N
+            removed = set([i % N for i in indices])
+            if idx in removed:
+                raise NotImplementedError
+            self._origin_idx = idx - len([i for i in removed if i < idx])
+
         self._species = np.delete(self.species, indices, axis=0)
         self._atoms = np.delete(self.atoms, indices, axis=0)
 
-- 
2.43.0


From c44293c92c5cce001a299663ab7317b59cc1eedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:57 +0000
Subject: [PATCH 28/55] fix: transform plane normals by the inverse transpose
 of general matrices

---
 czone/transform/transform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/czone/transform/transform.py b/czone/transform/transform.py
index c141b94..1082f5d 100644
--- a/czone/transform/transform.py
+++ b/czone/transform/transform.py
@@ -234,7 +234,8 @@ class MatrixTransform(BaseTransform):
             else:
                 alg_object.point = np.dot(self.matrix, (alg_object.point).T).T
 
-            alg_object.normal = np.dot(self.matrix, (alg_object.normal).T).T
+            # normals transform by the inverse transpose
+            alg_object.normal = np.dot(np.linalg.inv(self.matrix).T, (alg_object.normal).T).T
 
         if isinstance(alg_object, Cylinder):
             if not (self.origin is None):
-- 
2.43.0


From 88b5c5949ffa92f93fe16e54b6586d62b98df9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:01 +0000
Subject: [PATCH 29/55] fix: find feasible regions between planes anywhere in
 space

---
 czone/volume/algebraic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/czone/volume/algebraic.py b/czone/volume/algebraic.py
index ba0b691..59a2f2b 100644
--- a/czone/volume/algebraic.py
+++ b/czone/volume/algebraic.py
@@ -409,7 +409,8 @@ def get_bounding_box(planes: List[Plane]):
     c = np.zeros(4)
     c[-1] = -1
 
-    res = linprog(c, A_ub=np.hstack([A, norms]), b_ub=-1.0 * d)
+    bounds = [(None, None)] * 3 + [(0, None)]
+    res = linprog(c, A_ub=np.hstack([A, norms]), b_ub=-1.0 * d, bounds=bounds)
     if (res.status == 0):
         try:
             hs = HalfspaceIntersection(np.hstack([A, d]), res.x[:-1])
-- 
2.43.0


From 633221f15952647d59a0cd0f47a71ccd6d7858a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:09 +0000
Subject: [PATCH 30/55] fix: bounding box of cylinders with axis along 111

---
 czone/volume/algebraic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/czone/volume/algebraic.py b/czone/volume/algebraic.py
index 59a2f2b..3b959d1 100644
--- a/czone/volume/algebraic.py
+++ b/czone/volume/algebraic.py
@@ -318,8 +318,10 @@ class Cylinder(BaseAlgebraic):
         vz = np.copy(self.axis.T)[:,None]
 
         # get vectors perpendicular to axis
-        vs_0 = np.array([[1,1,1]]).T # any vector works; fix to make generation stable
+        vs_0 = np.array([[1,1,1]]).T # any vector not parallel to axis works; fix to make generation stable
         vs_0 = vs_0/np.linalg.norm(vs_0)
+        if np.abs(vs_0.T @ vz) > 0.99:
+            vs_0 = np.array([[1,0,0]]).T
         vs_0 = vs_0 - (vs_0.T @ vz) * vz
         vs_0 = vs_0/np.linalg.norm(vs_0)
 
-- 
2.43.0


From 775dc01ff71693d677a8f142f5d233ab8a5fc971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:13 +0000
Subject: [PATCH 31/55] fix: let from_volume copy volumes without generators,
 keep tolerance, and accept documented arguments

---
 czone/volume/volume.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/czone/volume/volume.py b/czone/volume/volume.py
index 867e170..a0bdd18 100644
--- a/czone/volume/volume.py
+++ b/czone/volume/volume.py
@@ -365,13 +365,13 @@ class Volume(BaseVolume):
                     - generator=BaseGenerator to replace generator associated with volume.
                     - Any kwargs accepted in creation of Volume object.
         """
-        new_volume = Volume(points=self.points,
-                            alg_objects=self.alg_objects,
-                            priority=self.priority)
-        if "generator" in kwargs.keys():
-            new_volume.add_generator(kwargs["generator"])
-        else:
-            new_volume.add_generator(self.generator)
+        new_kwargs = {"points": self.points,
+                      "alg_objects": self.alg_objects,
+                      "generator": self.generator,
+                      "priority": self.priority,
+                      "tolerance": self.tolerance}
+        new_kwargs.update({k: v for k, v in kwargs.items() if k != "transformation"})
+        new_volume = Volume(**new_kwargs)
 
         if "transformation" in kwargs.keys():
             for t in kwargs["transformation"]:
-- 
2.43.0


From a81b0b628c910a49a5078320cab41f4ba070ceb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:58 +0000
Subject: [PATCH 32/55] fix: report unbounded intersections of planes as such,
 as documented

---
 czone/volume/algebraic.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/czone/volume/algebraic.py b/czone/volume/algebraic.py
index 3b959d1..6ee5d53 100644
--- a/czone/volume/algebraic.py
+++ b/czone/volume/algebraic.py
@@ -414,6 +414,12 @@ def get_bounding_box(planes: List[Plane]):
     bounds = [(None, None)] * 3 + [(0, None)]
     res = linprog(c, A_ub=np.hstack([A, norms]), b_ub=-1.0 * d, bounds=bounds)
     if (res.status == 0):
+        # region is unbounded if one can move from its interior in some direction
+        # without getting any closer to some planes, and away from the others
+        escape = linprog(np.sum(A, axis=0), A_ub=A, b_ub=np.zeros(len(planes)), bounds=(-1, 1))
+        if np.linalg.matrix_rank(A) < 3 or escape.fun < -1e-9:
+            return np.empty((0,3)), 3
+
         try:
             hs = HalfspaceIntersection(np.hstack([A, d]), res.x[:-1])
         except QhullError:
-- 
2.43.0


From 1dd985f7c0b9c395d58e7b0eabb49573624e0824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:02 +0000
Subject: [PATCH 33/55] fix: take planes of convex hulls from well-defined
 facet normals

---
 czone/volume/algebraic.py | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/czone/volume/algebraic.py b/czone/volume/algebraic.py
index 6ee5d53..32b0ac5 100644
--- a/czone/volume/algebraic.py
+++ b/czone/volume/algebraic.py
@@ -4,7 +4,7 @@ from typing import Generator, List, Tuple
 
 import numpy as np
 from scipy.optimize import linprog
-from scipy.spatial import HalfspaceIntersection, ConvexHull, Delaunay, QhullError
+from scipy.spatial import HalfspaceIntersection, ConvexHull, QhullError
 
 from ..util.misc import round_away
 from ..transform.strain import HStrain
@@ -352,26 +352,14 @@ class Cylinder(BaseAlgebraic):
 def convex_hull_to_planes(points, **kwargs):
     """Convert the convex hull of a set of points into a set of Planes."""
 
-    tri = Delaunay(points)
-    facets = tri.convex_hull
+    # outward facet normals from the hull itself; those of its triangulation
+    # are ill-defined for facets with (nearly) collinear points
+    hull = ConvexHull(points)
 
-    def facet_to_plane(facet):
-        v0 = points[facet[1],:] - points[facet[0],:]
-        v1 = points[facet[2],:] - points[facet[0],:]
-        n = np.cross(v0,v1)
-        return Plane(n, points[facet[0]])
-
-    planes = [facet_to_plane(f) for f in facets]
-
-    ipoint = np.mean(points, axis=0)
-    if tri.find_simplex(ipoint) < 0:
-        raise AssertionError
-
-    for i, plane in enumerate(planes):
-        if not plane.checkIfInterior(ipoint):
-            plane = plane.flip_orientation()
-
-    return planes
+    return [
+        Plane(equation[:3], points[facet[0]])
+        for equation, facet in zip(hull.equations, hull.simplices)
+    ]
 
 def get_bounding_box(planes: List[Plane]):
     """Get convex region interior to set of Planes, if one exists.
-- 
2.43.0


From 1276678547e684adaa07640db08e01450659cc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:56 +0000
Subject: [PATCH 34/55] fix: spread atoms of batched amorphous blocks uniformly

---
 czone/generator/amorphous_algorithms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/czone/generator/amorphous_algorithms.py b/czone/generator/amorphous_algorithms.py
index 2e3cf7b..9b0b380 100644
--- a/czone/generator/amorphous_algorithms.py
+++ b/czone/generator/amorphous_algorithms.py
@@ -207,6 +207,9 @@ def gen_p_substrate_batched(dims: List[float],
         # to avoid full N^2 comparisons within batch
         block = (np.floor(new_coord / dims * num_blocks) @ Nt).astype(int)
         __, idx = np.unique(block, return_index=True)
+        # blocks in random order, so that those accepted last, which have precedence
+        # over their neighbors below, are not always on the same side of the substrate
+        idx = rng.permutation(idx)
         block = block[idx]
         new_coord = new_coord[idx,:]
 
-- 
2.43.0


From 1bf94017996d8b129964b34406e0b6324218f93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:29 +0000
Subject: [PATCH 35/55] fix: accept points as origin of strain fields

---
 czone/transform/strain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/czone/transform/strain.py b/czone/transform/strain.py
index 559360d..c618197 100644
--- a/czone/transform/strain.py
+++ b/czone/transform/strain.py
@@ -107,7 +107,7 @@ class HStrain(BaseStrain):
 
         self.mode = mode
 
-        if origin != "generator":
+        if not (isinstance(origin, str) and origin == "generator"):
             self.origin = origin
             self.origin_type = "global"
         else:
@@ -191,7 +191,7 @@ class IStrain(BaseStrain):
 
         self.mode = mode
 
-        if origin != "generator":
+        if not (isinstance(origin, str) and origin == "generator"):
             self.origin = origin
             self.origin_type = "global"
         else:
-- 
2.43.0


From deb8afe96dd94c7810465aaf0593829c7bde9372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:44 +0000
Subject: [PATCH 36/55] fix: keep molecules consistent when atoms or origins
 are changed

---
 czone/molecule/molecule.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/czone/molecule/molecule.py b/czone/molecule/molecule.py
index fd2f459..d35f27f 100644
--- a/czone/molecule/molecule.py
+++ b/czone/molecule/molecule.py
@@ -108,21 +108,29 @@ class BaseMolecule(ABC):
         if new_origin_idx in indices:
             raise IndexError(f"Supplied new_origin_idx {new_origin_idx} in set of indices of atoms to be removed.")
         
-        if self._origin_tracking and self._origin_idx in indices:
+        if new_origin_idx is None and self._origin_tracking and self._origin_idx in indices:
             raise NotImplementedError # TODO: Implement origin resetting behavior and warn user if origin is reset to a new index
             # self._origin_idx = new_origin_idx # TEST
 
-        if self._origin_tracking:
-            # keep tracking same atom, which shifts down with removal of those before it
-            N = self.atoms.shape[0]
-            idx = self._origin_idx % N
+        N = self.atoms.shape[0]
+        new_species = np.delete(self.species, indices, axis=0)
+        new_atoms = np.delete(self.atoms, indices, axis=0)
+
+        # keep tracking same atom, which shifts down with removal of those before it
+        new_idx = None
+        if new_origin_idx is not None or self._origin_tracking:
             removed = set([i % N for i in indices])
+            idx = (self._origin_idx if new_origin_idx is None else new_origin_idx) % N
             if idx in removed:
+                if new_origin_idx is not None:
+                    raise IndexError(f"Supplied new_origin_idx {new_origin_idx} in set of indices of atoms to be removed.")
                 raise NotImplementedError
-            self._origin_idx = idx - len([i for i in removed if i < idx])
+            new_idx = idx - len([i for i in removed if i < idx])
 
-        self._species = np.delete(self.species, indices, axis=0)
-        self._atoms = np.delete(self.atoms, indices, axis=0)
+        self._species = new_species
+        self._atoms = new_atoms
+        if new_idx is not None:
+            self.set_origin(idx=new_idx)
 
     @property
     def ase_atoms(self):
@@ -206,8 +214,8 @@ class BaseMolecule(ABC):
             self._origin = point
 
         elif idx is not None: 
-            self._origin_tracking = True
             self._origin_idx = idx
+            self._origin_tracking = True
 
     @property
     def orientation(self):
-- 
2.43.0


From 9ab7d8c5cc20c4672a163f34460f2c952eaf6281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:46 +0000
Subject: [PATCH 37/55] fix: sample separated splits directly, without
 unbounded retries

---
 czone/util/misc.py | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/czone/util/misc.py b/czone/util/misc.py
index 387ff0d..020fdde 100644
--- a/czone/util/misc.py
+++ b/czone/util/misc.py
@@ -35,23 +35,12 @@ def get_N_splits(n: int, m: int, l: int, seed: int = None) -> List[int]:
         raise ValueError("m is too large for number of splits requested and l")
     rng = np.random.default_rng(seed=seed)
 
-    #seed an initial choice and create array to calculate distances in
-    splits = [rng.integers(m, l - m)]
-    data = np.array([x for x in range(m, l - m)])
-    idx = np.ma.array(data=data, mask=np.abs(data - splits[-1]) < m)
+    # choose distinct indices in interval shortened by the additional separation
+    # required between neighbors, and then spread them out again
+    n_free = l - 2 * m - (n - 1) * (m - 1)
+    splits = np.sort(rng.choice(n_free, size=n, replace=False))
 
-    while (len(splits) < n):
-        while (np.all(idx.mask)):
-            # no options left, reseed
-            splits = [rng.integers(m, l - m)]
-            idx.mask = np.abs(idx.data - splits[-1]) < m
-
-        # add new choice to list and check distance against other indices
-        splits.append(rng.choice(idx.compressed()))
-        idx.mask = np.logical_or(idx.mask, np.abs(idx.data - splits[-1]) < m)
-
-    splits.sort()
-    return splits
+    return list(splits + m + (m - 1) * np.arange(n))
 
 
 def vangle(v1: np.ndarray, v2: np.ndarray) -> float:
-- 
2.43.0


From f1d094beb1cbb7e5ade6fc59c37013c052f01b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:07 +0000
Subject: [PATCH 38/55] fix: take spacing of defect planes from scaled crystal

---
 czone/prefab/prefab.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/czone/prefab/prefab.py b/czone/prefab/prefab.py
index b020e99..8e3b100 100644
--- a/czone/prefab/prefab.py
+++ b/czone/prefab/prefab.py
@@ -171,7 +171,7 @@ class fccMixedTwinSF(BasePrefab):
                                    self.plane,
                                    mode="ceil")
         d_tot = ep.dist_from_plane(sp.point)
-        d_hkl = self.generator.lattice.d_hkl(self.plane)
+        d_hkl = 1 / np.linalg.norm(np.array(self.plane) @ self.generator.voxel.reciprocal_bases)
         N_planes = np.round(d_tot / d_hkl).astype(int)
         planes = [sp]
         new_point = np.copy(sp.point)
@@ -412,7 +412,7 @@ class wurtziteStackingFault(BasePrefab):
                                    self.plane,
                                    mode="ceil")
         d_tot = ep.dist_from_plane(sp.point)
-        d_hkl = self.generator.lattice.d_hkl(self.plane)
+        d_hkl = 1 / np.linalg.norm(np.array(self.plane) @ self.generator.voxel.reciprocal_bases)
         N_planes = np.round(d_tot / d_hkl).astype(int)
         planes = [sp]
         new_point = np.copy(sp.point)
-- 
2.43.0


From f5a80fe4a1e682e21065b424bf999d850c7ee01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:42 +0000
Subject: [PATCH 39/55] fix: choose shift of wurtzite stacking faults from
 setting of the crystal

---
 czone/prefab/prefab.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/czone/prefab/prefab.py b/czone/prefab/prefab.py
index 8e3b100..bec2ec7 100644
--- a/czone/prefab/prefab.py
+++ b/czone/prefab/prefab.py
@@ -433,7 +433,14 @@ class wurtziteStackingFault(BasePrefab):
         defect_types = {"stacking_fault":True}
         bz = (0.5)*self.generator.voxel.sbases @ np.array([0, 0, -1])
 
-        polarity = 1
+        # initial shift direction follows lateral step from layer at base of unit cell
+        # to the equivalent layer half a unit cell above it
+        coords, species = self.generator.coords, np.array(self.generator.species)
+        base = np.argmin(np.abs(coords[:, 2] - np.round(coords[:, 2])))
+        steps = (coords - coords[base])[species == species[base]]
+        steps = steps[np.abs(np.abs(steps[:, 2]) - 0.5) < 0.1]
+        polarity = -1 if len(steps) > 0 and np.round(3 * steps[0, 0]) % 3 == 2 else 1
+
         for i in range(self.N):
             # check if 100 or 200 plane in the base generator
             cur_plane_pt = planes[splits[i]].point
-- 
2.43.0


From 04273985912a24056bac3d8101dcbce6e8eb0262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:17 +0000
Subject: [PATCH 40/55] fix: report all vertices of outer faces of alpha
 shapes, through every failing tetrahedron connected to the outside

---
 czone/surface/alpha_shape.py | 46 +++++++++++++++++++++++++++++-------
 1 file changed, 38 insertions(+), 8 deletions(-)

diff --git a/czone/surface/alpha_shape.py b/czone/surface/alpha_shape.py
index aca7105..aeaecf5 100644
--- a/czone/surface/alpha_shape.py
+++ b/czone/surface/alpha_shape.py
@@ -48,6 +48,26 @@ def tetrahedron_circumradii(points):
     radius = np.linalg.norm(center,axis=0)
     return radius
 
+def exterior_tetrahedra(neighbors, outside, probe_test):
+    """Find tetrahedra that fail the probe test and are connected, via other such
+    tetrahedra, to the outside of the triangulation.
+
+    Args:
+        neighbors (np.ndarray): Nx4 array of indices of neighboring tetrahedra
+        outside (np.ndarray): N boolean array, whether tetrahedra are on outside of triangulation
+        probe_test (np.ndarray): N boolean array, whether tetrahedra are part of alpha-shape
+
+    Returns:
+        N boolean array, True for tetrahedra on the exterior of the alpha-shape.
+    """
+    exterior = np.logical_and(outside, np.logical_not(probe_test))
+    while True:
+        connected = np.any(np.logical_and(neighbors >= 0, exterior[neighbors]), axis=1)
+        grown = np.logical_or(exterior, np.logical_and(connected, np.logical_not(probe_test)))
+        if np.array_equal(grown, exterior):
+            return exterior
+        exterior = grown
+
 def alpha_shape_alg_3D(points, probe_radius, return_alpha_shape=False):
     """Use alpha shape algorithm to determine points on exterior of collection of points.
 
@@ -78,11 +98,12 @@ def alpha_shape_alg_3D(points, probe_radius, return_alpha_shape=False):
 
     # check which tetrahedra are neighbors to those not in alpha-shape
 
-    # however, only want to check neighbors that are on the outside of the triangulation
+    # however, only want to check neighbors that are connected to the outside of the triangulation
     # so that we can avoid counting tetrahedra that fail the probe test on large internal voids
 
     neighbor_check_0 = np.logical_not(probe_test[tri.neighbors]) # neighbors that fail probe test
-    neighbor_check_1 = outside[tri.neighbors] # neighbors on the outside
+    exterior = exterior_tetrahedra(tri.neighbors, outside, probe_test)
+    neighbor_check_1 = exterior[tri.neighbors] # neighbors on the outside
     neighbor_check = np.any(np.logical_and(neighbor_check_0, neighbor_check_1), axis=1)
 
     # get tetrahedra that are on the surface of alpha-shape
@@ -92,7 +113,11 @@ def alpha_shape_alg_3D(points, probe_radius, return_alpha_shape=False):
     # determine which points are along the outer edges of tetrahedra/alpha-shape
     sub_points = tri.simplices[surface_tris,:]
     sub_neighbors = tri.neighbors[surface_tris,:]
-    out_points = sub_points[np.logical_not(np.logical_or(sub_neighbors==-1, np.logical_not(probe_test[sub_neighbors])))]
+    sub_outer = np.logical_or(sub_neighbors==-1, exterior[sub_neighbors])
+
+    # neighbors are across the face opposite to each vertex, so the vertices on outer
+    # faces are those for which a neighbor opposite to some other vertex is outer
+    out_points = sub_points[np.sum(sub_outer, axis=1, keepdims=True) - sub_outer > 0]
 
     if return_alpha_shape:
         shape_dict = {}
@@ -102,7 +127,7 @@ def alpha_shape_alg_3D(points, probe_radius, return_alpha_shape=False):
         shape_dict["surface_tris"] = surface_tris
 
         # also return list of simplices indices for full alpha shape
-        a_tris = np.logical_not(np.logical_and(outside, np.logical_not(probe_test)))
+        a_tris = np.logical_not(exterior)
         shape_dict["a_tris"] = np.nonzero(a_tris)
 
         return list(set(out_points)), shape_dict
@@ -153,11 +178,12 @@ def alpha_shape_alg_3D_with_sampling(points, probe_radius, N_samples, std=1e-4,
 
     # check which tetrahedra are neighbors to those not in alpha-shape
 
-    # however, only want to check neighbors that are on the outside of the triangulation
+    # however, only want to check neighbors that are connected to the outside of the triangulation
     # so that we can avoid counting tetrahedra that fail the probe test on large internal voids
 
     neighbor_check_0 = np.logical_not(probe_test[tri.neighbors]) # neighbors that fail probe test
-    neighbor_check_1 = outside[tri.neighbors] # neighbors on the outside
+    exterior = exterior_tetrahedra(tri.neighbors, outside, probe_test)
+    neighbor_check_1 = exterior[tri.neighbors] # neighbors on the outside
     neighbor_check = np.any(np.logical_and(neighbor_check_0, neighbor_check_1), axis=1)
 
     # get tetrahedra that are on the surface of alpha-shape
@@ -167,7 +193,11 @@ def alpha_shape_alg_3D_with_sampling(points, probe_radius, N_samples, std=1e-4,
     # determine which points are along the outer edges of tetrahedra/alpha-shape
     sub_points = tri.simplices[surface_tris,:]
     sub_neighbors = tri.neighbors[surface_tris,:]
-    out_points = sub_points[np.logical_not(np.logical_or(sub_neighbors==-1, np.logical_not(probe_test[sub_neighbors])))]
+    sub_outer = np.logical_or(sub_neighbors==-1, exterior[sub_neighbors])
+
+    # neighbors are across the face opposite to each vertex, so the vertices on outer
+    # faces are those for which a neighbor opposite to some other vertex is outer
+    out_points = sub_points[np.sum(sub_outer, axis=1, keepdims=True) - sub_outer > 0]
 
     if return_alpha_shape:
         shape_dict = {}
@@ -177,7 +207,7 @@ def alpha_shape_alg_3D_with_sampling(points, probe_radius, N_samples, std=1e-4,
         shape_dict["surface_tris"] = surface_tris
 
         # also return list of simplices indices for full alpha shape
-        a_tris = np.logical_not(np.logical_and(outside, np.logical_not(probe_test)))
+        a_tris = np.logical_not(exterior)
         shape_dict["a_tris"] = np.nonzero(a_tris)
 
         return list(set(out_points)), shape_dict
-- 
2.43.0


From b54765c8c190faa9825dcbd0e1fc91fc0d0aa4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:36 +0000
Subject: [PATCH 41/55] fix: give indices of alpha shape as documented, so
 neighbors beyond the surface can be found

---
 czone/surface/alpha_shape.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/czone/surface/alpha_shape.py b/czone/surface/alpha_shape.py
index aeaecf5..0f092fc 100644
--- a/czone/surface/alpha_shape.py
+++ b/czone/surface/alpha_shape.py
@@ -128,7 +128,7 @@ def alpha_shape_alg_3D(points, probe_radius, return_alpha_shape=False):
 
         # also return list of simplices indices for full alpha shape
         a_tris = np.logical_not(exterior)
-        shape_dict["a_tris"] = np.nonzero(a_tris)
+        shape_dict["a_tris"] = np.nonzero(a_tris)[0]
 
         return list(set(out_points)), shape_dict
     else:
@@ -208,7 +208,7 @@ def alpha_shape_alg_3D_with_sampling(points, probe_radius, N_samples, std=1e-4,
 
         # also return list of simplices indices for full alpha shape
         a_tris = np.logical_not(exterior)
-        shape_dict["a_tris"] = np.nonzero(a_tris)
+        shape_dict["a_tris"] = np.nonzero(a_tris)[0]
 
         return list(set(out_points)), shape_dict
     else:
-- 
2.43.0


From 10f781ae58928bbb5f899e71f13fa179a04d09f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:01 +0000
Subject: [PATCH 42/55] fix: account for species of crystals in symmetry of
 Wulff constructions

---
 czone/prefab/wulff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/prefab/wulff.py b/czone/prefab/wulff.py
index 183d001..0d66f07 100644
--- a/czone/prefab/wulff.py
+++ b/czone/prefab/wulff.py
@@ -58,7 +58,7 @@ class WulffBase(ABC):
                ), "Supplied generator must be crystalline Generator class"
         self._generator = val
         p_struct = val.structure.get_primitive_structure()
-        self._p_atoms = Atoms(positions=p_struct.cart_coords, cell=p_struct.lattice.matrix)
+        self._p_atoms = Atoms(numbers=p_struct.atomic_numbers, positions=p_struct.cart_coords, cell=p_struct.lattice.matrix)
 
     @property
     def p_atoms(self):
-- 
2.43.0


From 53f1996994c0207d1dc02686a085e6c3dee1ee72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:07 +0000
Subject: [PATCH 43/55] fix: update Wulff constructions when their parameters
 change

---
 czone/prefab/wulff.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/czone/prefab/wulff.py b/czone/prefab/wulff.py
index 0d66f07..e8e95a3 100644
--- a/czone/prefab/wulff.py
+++ b/czone/prefab/wulff.py
@@ -57,6 +57,7 @@ class WulffBase(ABC):
         assert (isinstance(val, Generator)
                ), "Supplied generator must be crystalline Generator class"
         self._generator = val
+        self._wulff = None
         p_struct = val.structure.get_primitive_structure()
         self._p_atoms = Atoms(numbers=p_struct.atomic_numbers, positions=p_struct.cart_coords, cell=p_struct.lattice.matrix)
 
@@ -76,6 +77,7 @@ class WulffBase(ABC):
             self._natoms = int(val)
         except:
             raise TypeError("natoms must be convertible to integer")
+        self._wulff = None
 
     @property
     def surface_energies(self):
@@ -89,6 +91,7 @@ class WulffBase(ABC):
                 "surface energies must be passed as tuple pairs of miller indices and floats"
 
         self._surface_energies = vals
+        self._wulff = None
 
     ####################
     ###### Methods #####
@@ -169,7 +172,7 @@ class WulffSingle(WulffBase):
             return Volume(alg_objects=planes, generator=self.generator)
 
     def get_areas(self):
-        return self._wulff.facet_fractions
+        return self.wulff.facet_fractions
 
     def winterbottom(self, interface: Tuple[int], interface_energy: float):
         """Construct Winterbottom construction for single crystals.
-- 
2.43.0


From 9e0d1cd2250e8d5a5903e88bbe95b1ee36715895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:11 +0000
Subject: [PATCH 44/55] fix: orient Wulff constructions along with their
 generator

---
 czone/prefab/wulff.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/czone/prefab/wulff.py b/czone/prefab/wulff.py
index e8e95a3..e0e34bc 100644
--- a/czone/prefab/wulff.py
+++ b/czone/prefab/wulff.py
@@ -127,6 +127,22 @@ class WulffBase(ABC):
             for f in wulff_form.facets
         ]
 
+    def volume_from_planes(self, planes):
+        """Return volume bounded by planes that are given with respect to the
+        reference orientation of the crystal, oriented along with the generator.
+
+        Args:
+            planes (List[Plane]): planes bounding the particle.
+
+        Returns:
+            Volume bounded by planes, with generator.
+        """
+        orientation = self.generator.voxel.bases @ np.linalg.inv(self.generator.lattice.matrix.T)
+        volume = Volume(alg_objects=planes)
+        volume.transform(MatrixTransform(orientation))
+        volume.add_generator(self.generator)
+        return volume
+
     @abstractmethod
     def get_construction(self):
         """For a given crystal and set of surface energies, return a Wulff construction.
@@ -167,9 +183,9 @@ class WulffSingle(WulffBase):
     def get_construction(self, return_facet_areas=False):
         planes = self.planes_from_wulff(self.wulff)
         if return_facet_areas:
-            return Volume(alg_objects=planes, generator=self.generator), self.wulff.facet_fractions
+            return self.volume_from_planes(planes), self.wulff.facet_fractions
         else:
-            return Volume(alg_objects=planes, generator=self.generator)
+            return self.volume_from_planes(planes)
 
     def get_areas(self):
         return self.wulff.facet_fractions
-- 
2.43.0


From 7eb1d0166485905c7269cf5cbf2c294ac057e1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:45 +0000
Subject: [PATCH 45/55] fix: build Winterbottom constructions in the frame of
 the crystal, for any interface

---
 czone/prefab/wulff.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/czone/prefab/wulff.py b/czone/prefab/wulff.py
index e0e34bc..fec39f8 100644
--- a/czone/prefab/wulff.py
+++ b/czone/prefab/wulff.py
@@ -8,7 +8,7 @@ from wulffpack.core import BaseParticle
 
 from ..generator.generator import Generator
 from ..transform.strain import HStrain, IStrain
-from ..transform.transform import MatrixTransform, Rotation, rot_v
+from ..transform.transform import MatrixTransform, Rotation, rot_v, rot_vtv
 from ..volume.algebraic import Cylinder, Plane, Sphere
 from ..volume.volume import MultiVolume, Volume
 
@@ -154,6 +154,13 @@ class WulffBase(ABC):
         pass
 
 
+class CrystalWinterbottom(Winterbottom):
+    """WulffPack Winterbottom particle whose facets are kept in the frame of the crystal."""
+
+    def rotate_particle(self, rotation):
+        pass
+
+
 class WulffSingle(WulffBase):
 
     def __init__(self,
@@ -205,13 +212,16 @@ class WulffSingle(WulffBase):
 
         Returns:
             Volume with shape described by Winterbottom construction for given 
-            surfce energies.
+            surfce energies, with the interface facing down along the z-axis.
         """
-        wulff = Winterbottom(self.surface_energies, interface, interface_energy,
-                             self.p_atoms, self.natoms)
-        planes = self.planes_from_wulff(wulff)
+        wulff = CrystalWinterbottom(self.surface_energies, interface, interface_energy,
+                                    self.p_atoms, self.natoms)
+        volume = self.volume_from_planes(self.planes_from_wulff(wulff))
 
-        return Volume(alg_objects=planes, generator=self.generator)
+        # rotate particle and crystal such that the interface faces down
+        normal = np.linalg.solve(self.generator.voxel.bases.T, interface)
+        volume.transform(Rotation(rot_vtv(normal, np.array([0, 0, -1]))))
+        return volume
 
     @classmethod
     def cube(cls, generator: Generator, natoms: int = 1000):
-- 
2.43.0


From 75f118f2dded748c24ec1827c5b29a506fd0b387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:11 +0000
Subject: [PATCH 46/55] fix: wrap fractional coordinates given as integers too

---
 czone/generator/generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/generator/generator.py b/czone/generator/generator.py
index 1d832a0..6a09a0b 100644
--- a/czone/generator/generator.py
+++ b/czone/generator/generator.py
@@ -202,7 +202,7 @@ class Generator(BaseGenerator):
         min_extent, max_extent = self.voxel.get_extents(bbox)
         fcoords = np.copy(
             self.coords)  #grab fractional in case bases are rotated
-        fcoords -= np.floor(fcoords)  #wrap into unit cell, so tiled cells cover bbox
+        fcoords = fcoords - np.floor(fcoords)  #wrap into unit cell, so tiled cells cover bbox
         # get matrix representing unit cells as grid
         l = [
             range(min_extent[0], max_extent[0] + 1),
-- 
2.43.0


From d6d067dbf2e4cc1352792b569b5bbe159763e6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:56 +0000
Subject: [PATCH 47/55] fix: honour setting of space group symbol and
 precedence of number over symbol

---
 czone/generator/generator.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/czone/generator/generator.py b/czone/generator/generator.py
index 6a09a0b..4c28390 100644
--- a/czone/generator/generator.py
+++ b/czone/generator/generator.py
@@ -5,7 +5,7 @@ from typing import List, Tuple
 
 import numpy as np
 from pymatgen.core import Lattice, Structure
-from pymatgen.symmetry.groups import SpaceGroup, sg_symbol_from_int_number
+from pymatgen.symmetry.groups import sg_symbol_from_int_number
 
 from ..transform import BaseTransform, MultiTransform
 from ..transform.strain import BaseStrain
@@ -284,10 +284,8 @@ class Generator(BaseGenerator):
         Returns:
             Generator: Generator object with structure and symmetry defined by input space group.
         """
-        if sym is None:
-            sg = SpaceGroup(int_symbol=sg_symbol_from_int_number(sgn))
-        else:
-            sg = SpaceGroup(int_symbol=sym)
+        if sgn is not None or sym is None:
+            sym = sg_symbol_from_int_number(sgn)
 
         lattice = Lattice.from_parameters(a=cellDims[0],
                                           b=cellDims[1],
@@ -296,7 +294,7 @@ class Generator(BaseGenerator):
                                           beta=cellAngs[1],
                                           gamma=cellAngs[2])
 
-        structure = Structure.from_spacegroup(sg.int_number,
+        structure = Structure.from_spacegroup(sym,
                                               lattice=lattice,
                                               species=Z,
                                               coords=coords)
-- 
2.43.0


From ca8fb649f0fd3c447bafd2a7a05151638df1d9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:04 +0000
Subject: [PATCH 48/55] fix: copy matrices given to transformations and
 molecules

---
 czone/molecule/molecule.py   | 2 +-
 czone/transform/transform.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/czone/molecule/molecule.py b/czone/molecule/molecule.py
index d35f27f..16d7821 100644
--- a/czone/molecule/molecule.py
+++ b/czone/molecule/molecule.py
@@ -234,7 +234,7 @@ class BaseMolecule(ABC):
         if np.sum(np.abs(mat @ mat.T - np.eye(3))) > 1e-6:
             raise ValueError(f"Input (rotation) matrix must be orthogonal.") # TODO: provide info on non-orthogonal vectors
 
-        self._orientation = mat
+        self._orientation = np.array(mat)
 
 
     def reset_orientation(self):
diff --git a/czone/transform/transform.py b/czone/transform/transform.py
index 1082f5d..756224a 100644
--- a/czone/transform/transform.py
+++ b/czone/transform/transform.py
@@ -186,7 +186,7 @@ class MatrixTransform(BaseTransform):
     def matrix(self, matrix: np.ndarray):
         assert (matrix.shape == (
             3, 3)), "Input matrix must be square 3x3 numpy array"
-        self._matrix = matrix
+        self._matrix = np.array(matrix)
 
     @property
     def origin(self) -> np.ndarray:
@@ -289,7 +289,7 @@ class Rotation(MatrixTransform):
         assert (
             np.sum(np.abs(val @ val.T - np.eye(3))) < 1e-6
         ), "Input matrix not a valid rotation matrix. Fails orthogonality."
-        self._matrix = val
+        self._matrix = np.array(val)
 
 
 class Reflection(MatrixTransform):
-- 
2.43.0


From 4a607c9ac204cb7cad40669fcdf589ff18025169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:08 +0000
Subject: [PATCH 49/55] fix: keep points and hull of volume when new points are
 rejected

---
 czone/volume/volume.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/czone/volume/volume.py b/czone/volume/volume.py
index a0bdd18..8e59132 100644
--- a/czone/volume/volume.py
+++ b/czone/volume/volume.py
@@ -175,14 +175,19 @@ class Volume(BaseVolume):
 
     @points.setter
     def points(self, points):
+        old_state = (self._points, self._hull, self._tri)
         try:
             #clear points and hull
             self._points = None
             self._hull = None
             self._tri = None
             self.addPoints(points)
-        except AssertionError:
-            raise ValueError("Check shape of input array.")
+        except Exception as e:
+            #keep previous points and hull if new points are rejected
+            self._points, self._hull, self._tri = old_state
+            if isinstance(e, AssertionError):
+                raise ValueError("Check shape of input array.")
+            raise
 
     @property
     def alg_objects(self):
@@ -246,8 +251,9 @@ class Volume(BaseVolume):
         #check to make sure there are N>3 points in point list
         assert (self.points.shape[0] >
                 3), "must have more than 3 points to create hull"
-        self._hull = ConvexHull(self.points, incremental=True)
-        self._tri = Delaunay(self.hull.points[self.hull.vertices])
+        hull = ConvexHull(self.points, incremental=True)
+        tri = Delaunay(hull.points[hull.vertices])
+        self._hull, self._tri = hull, tri
 
     def addPoints(self, points: np.ndarray):
         """Add points to list of points defining convex hull and update hull.
@@ -260,6 +266,7 @@ class Volume(BaseVolume):
         assert (len(points.shape) <
                 3), "points must be N x 3 numpy array (x,y,z)"
 
+        old_points = self._points
         if (self._points is None):
             self._points = np.copy(points)
             if len(points.shape) == 1:  #add dim if only single new point
@@ -271,7 +278,11 @@ class Volume(BaseVolume):
             self._points = np.append(self._points, points, axis=0)
 
         #(re)create hull and its triangulation, used for interiority checks
-        self.createHull()
+        try:
+            self.createHull()
+        except Exception:
+            self._points = old_points
+            raise
 
     def transform(self, transformation: BaseTransform):
 
-- 
2.43.0


From 17309caa521bb6cca8f04c5018012e3494dc1a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:13 +0000
Subject: [PATCH 50/55] fix: reject arrays of several points as point of a
 plane

---
 czone/volume/algebraic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/volume/algebraic.py b/czone/volume/algebraic.py
index 32b0ac5..af1ba61 100644
--- a/czone/volume/algebraic.py
+++ b/czone/volume/algebraic.py
@@ -160,7 +160,7 @@ class Plane(BaseAlgebraic):
     @point.setter
     def point(self, point: np.ndarray):
         point = np.squeeze(np.array(point))  #cast to np array if not already
-        assert (point.shape[0] == 3), "Point must be a point in 3D space"
+        assert (point.shape == (3,)), "Point must be a point in 3D space"
         self._point = point
 
     @property
-- 
2.43.0


From e023bb8a8eef9bdce81be01236d617fac60013bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:16 +0000
Subject: [PATCH 51/55] fix: reject basis scales of undocumented shape

---
 czone/volume/voxel.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/czone/volume/voxel.py b/czone/volume/voxel.py
index 727ca5f..35e990f 100644
--- a/czone/volume/voxel.py
+++ b/czone/volume/voxel.py
@@ -37,9 +37,7 @@ class Voxel():
 
     @scale.setter
     def scale(self, scale: float):
-        try:
-            self.bases * np.array(scale)
-        except ValueError:
+        if np.shape(scale) not in [(), (1,), (3,), (1, 3), (3, 1)]:
             raise ValueError(
                 "Bases and scale are not broadcastable. Scale array must be of shape=(1,) (3,), (1,3), or (3,1)"
             )
-- 
2.43.0


From c6b9ec31d0af72d04acbf36a731989a4c1b8026f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:45 +0000
Subject: [PATCH 52/55] fix: refuse orientations of molecules that are not
 numbers

---
 czone/molecule/molecule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/molecule/molecule.py b/czone/molecule/molecule.py
index 16d7821..af17b03 100644
--- a/czone/molecule/molecule.py
+++ b/czone/molecule/molecule.py
@@ -228,7 +228,7 @@ class BaseMolecule(ABC):
         if mat.shape != (3,3):
             raise ValueError(f"Input matrix has shape {mat.shape}  but must have shape {(3,3)}.")
             
-        if np.abs(np.linalg.det(mat) - 1.0) > 1e-6:
+        if not (np.abs(np.linalg.det(mat) - 1.0) <= 1e-6):
             raise ValueError("Input (rotation) matrix must have determinant of 1.")
         
         if np.sum(np.abs(mat @ mat.T - np.eye(3))) > 1e-6:
-- 
2.43.0


From 75f54e8ac1b3ee47b9dcccd5b47f3e6aaf8f9e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:27 +0000
Subject: [PATCH 53/55] fix: find_approximate_normal always returns a
 normalized vector

---
 czone/surface/adsorbate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/czone/surface/adsorbate.py b/czone/surface/adsorbate.py
index 221a548..6ffcabe 100644
--- a/czone/surface/adsorbate.py
+++ b/czone/surface/adsorbate.py
@@ -107,7 +107,8 @@ def find_approximate_normal(points, decay=0.99, tol=1e-5, margin=0, seed=23, max
         if i == max_steps:
             break
 
-    return w
+    # the initial guess may never have needed an update
+    return w/np.linalg.norm(w)
 
 def get_nearest_neighbors(target_idx,
                           shape_dict,
-- 
2.43.0


From d1604b75890683d4526e0edbc4753c7892b3d122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:12 +0000
Subject: [PATCH 54/55] fix: vangle returned nan for parallel and antiparallel
 vectors

---
 czone/util/misc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/czone/util/misc.py b/czone/util/misc.py
index 020fdde..2610b0a 100644
--- a/czone/util/misc.py
+++ b/czone/util/misc.py
@@ -53,4 +53,6 @@ def vangle(v1: np.ndarray, v2: np.ndarray) -> float:
     Returns:
         float: angle in radians
     """
-    return np.arccos(np.dot(v1, v2) / (np.linalg.norm(v1) * np.linalg.norm(v2)))
\ No newline at end of file
+    cos_angle = np.dot(v1, v2) / (np.linalg.norm(v1) * np.linalg.norm(v2))
+    # round-off may leave cosine just outside of [-1,1] for (anti-)parallel vectors
+    return np.arccos(np.clip(cos_angle, -1.0, 1.0))
\ No newline at end of file
-- 
2.43.0


From 9133d59b9f1c27c8182217d33481c950135f39bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:34 +0000
Subject: [PATCH 55/55] fix: recognize regions between nearly redundant planes
 misjudged by the linear solver

---
 czone/volume/algebraic.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/czone/volume/algebraic.py b/czone/volume/algebraic.py
index af1ba61..0888d03 100644
--- a/czone/volume/algebraic.py
+++ b/czone/volume/algebraic.py
@@ -401,10 +401,15 @@ def get_bounding_box(planes: List[Plane]):
 
     bounds = [(None, None)] * 3 + [(0, None)]
     res = linprog(c, A_ub=np.hstack([A, norms]), b_ub=-1.0 * d, bounds=bounds)
+    if res.status not in (0, 3):
+        # the solver can misjudge sets with nearly redundant planes; check again within a large box
+        extent = 1000.0 * (1.0 + np.max(np.abs(d)))
+        bounds = [(-extent, extent)] * 3 + [(0, extent)]
+        res = linprog(c, A_ub=np.hstack([A, norms]), b_ub=-1.0 * d, bounds=bounds, options={"presolve": False})
     if (res.status == 0):
         # region is unbounded if one can move from its interior in some direction
         # without getting any closer to some planes, and away from the others
-        escape = linprog(np.sum(A, axis=0), A_ub=A, b_ub=np.zeros(len(planes)), bounds=(-1, 1))
+        escape = linprog(np.sum(A, axis=0), A_ub=A, b_ub=np.zeros(len(planes)), bounds=(-1, 1), options={"presolve": False})
         if np.linalg.matrix_rank(A) < 3 or escape.fun < -1e-9:
             return np.empty((0,3)), 3
 
-- 
2.43.0

