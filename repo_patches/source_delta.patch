From 9518737245c54694831be5913bb8980cecb29467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:06 +0000
Subject: [PATCH 01/20] fix: decide the self-hit tolerance for each ray by
 itself

The 1e-6 tolerance for a ray hitting the surface it leaves was applied only
if some parameter in the whole stack was below 1e-10, so whether a ray skipped
a near hit depended on the other rays (and on untested surfaces).
---
 tracer/tracer_engine.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/tracer/tracer_engine.py b/tracer/tracer_engine.py
index 3c99dd9..e88845e 100644
--- a/tracer/tracer_engine.py
+++ b/tracer/tracer_engine.py
@@ -64,10 +64,9 @@ class TracerEngine():
             raise ValueError("Parameters must all be positive")
         
         # If parameter == 0, ray does not actually hit object, but originates from there; 
-        # so it should be ignored in considering intersections 
-        if (stack <= 1e-10).any():
-            zeros = N.where(stack <= 1e-6)
-            stack[zeros] = N.inf
+        # so it should be ignored in considering intersections. This is decided for each
+        # ray by itself, regardless of the other rays.
+        stack[stack <= 1e-6] = N.inf
 
         # Find the smallest parameter for each ray, and use that as the final one,
         # returns the indices.  If an entire column of the stack is N.inf (the ray misses
-- 
2.43.0


From b5302faae0fb54375aeae7cf5a1fba598c67cda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:02 +0000
Subject: [PATCH 02/20] fix: adding a child with a transform array compared the
 array to None elementwise

---
 tracer/assembly.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tracer/assembly.py b/tracer/assembly.py
index 38afc30..5e618e6 100644
--- a/tracer/assembly.py
+++ b/tracer/assembly.py
@@ -72,7 +72,7 @@ class Assembly(HasFrame):
         transform - the transformation matrix (as an array object) that describes 
             the object in the coordinate system of the Assembly
         """
-        if transform == None:
+        if transform is None:
             transform = N.eye(4)
         self._objects.append(object)
         object.set_transform(transform)
@@ -86,7 +86,7 @@ class Assembly(HasFrame):
         transform - the transformation matrix (as an array object) that describes the 
             new assembly in the coordinate system of the current assembly
         """
-        if transform == None:
+        if transform is None:
             transform = N.eye(4)
         self._assemblies.append(assembly)
         assembly.set_transform(transform)
-- 
2.43.0


From 3d9aa501230779243567469294f9dedd1dd126bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:02 +0000
Subject: [PATCH 03/20] fix: RayTree.ray_history could not be called and
 stopped short of the source bundle

---
 tracer/trace_tree.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tracer/trace_tree.py b/tracer/trace_tree.py
index bdd425e..31e6484 100644
--- a/tracer/trace_tree.py
+++ b/tracer/trace_tree.py
@@ -31,7 +31,7 @@ class RayTree(object):
         """
         return [bund.get_parents() for bund in self._bunds[1:]]
     
-    def ray_history(ray_index, level=None):
+    def ray_history(self, ray_index, level=None):
         """
         Return, in reverse order, all the indices into ray bundles starting
         from the given ray, going back to the original bundle. Starts with the
@@ -43,12 +43,12 @@ class RayTree(object):
             defaults to last bundle.
         """
         if level is None:
-            level = self.num_bunds()
+            level = self.num_bunds() - 1
         
-        parents = np.empty(level)
+        parents = np.empty(level + 1, dtype=int)
         parents[0] = ray_index
         
-        for pix in xrange(1, level):
+        for pix in xrange(1, level + 1):
             parents[pix] = \
                 self._bunds[level - pix + 1].get_parents()[parents[pix - 1]]
         
-- 
2.43.0


From c7313bf29f0cd00f4db3861e76021254794271bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:02 +0000
Subject: [PATCH 04/20] fix: placeable things kept and modified the arrays they
 were placed with

---
 tracer/has_frame.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tracer/has_frame.py b/tracer/has_frame.py
index 8bd0259..8ec7b70 100644
--- a/tracer/has_frame.py
+++ b/tracer/has_frame.py
@@ -43,15 +43,15 @@ class HasFrame(object):
         """Sets the location within the object"""
         if location.shape != (3, ):
             raise ValueError("location must be a 1D 3-component array")
-        self._loc = location
         self._transform[:3,3] = location
+        self._loc = self._transform[:3,3]
     
     def set_rotation(self,  rotation):
         """Sets the rotation within the object"""
         if  rotation.shape != (3, 3):
             raise ValueError("rotation must be a 3x3 array")
-        self._rot = rotation
         self._transform[:3,:3] = rotation
+        self._rot = self._transform[:3,:3]
 
     def set_transform(self, transform):
         """Defines the transformation matrix the puts the surface into the coordinates of the
@@ -59,7 +59,7 @@ class HasFrame(object):
         
         Arguments:
         transform - a 2D array defining the 4 by 4 transformation matrix."""
-        self._transform = transform
+        self._transform = N.array(transform, dtype=float)
         self._loc = self._transform[:3,3]
         self._rot = self._transform[:3,:3]
 
-- 
2.43.0


From dabc5878f6cd385575f61d9c216b67872944a68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:02 +0000
Subject: [PATCH 05/20] fix: listing the surfaces of an empty assembly failed;
 the object list was handed out by reference

---
 tracer/assembly.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tracer/assembly.py b/tracer/assembly.py
index 5e618e6..c420530 100644
--- a/tracer/assembly.py
+++ b/tracer/assembly.py
@@ -49,7 +49,7 @@ class Assembly(HasFrame):
         or its subassemblies.
         """
         return reduce(operator.add, 
-            [asm.get_objects() for asm in self._assemblies] + [self._objects])
+            [asm.get_objects() for asm in self._assemblies] + [self._objects], [])
 
     def get_surfaces(self):  
         """
@@ -61,7 +61,7 @@ class Assembly(HasFrame):
         self.get_objects()
         """
         return reduce(operator.add, 
-            [obj.get_surfaces() for obj in self.get_objects()])
+            [obj.get_surfaces() for obj in self.get_objects()], [])
 
     def add_object(self, object, transform=None):
         """
-- 
2.43.0


From a068fe17ee461cc77a2c6eda279053c31a87cf17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:34 +0000
Subject: [PATCH 06/20] fix: trimmed spheres gave the chosen root of one ray to
 another

---
 tracer/sphere_surface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tracer/sphere_surface.py b/tracer/sphere_surface.py
index 2294d7a..a899be7 100644
--- a/tracer/sphere_surface.py
+++ b/tracer/sphere_surface.py
@@ -112,7 +112,7 @@ class HemisphereGM(SphericalGM):
         
         select[~N.logical_or(*bottom_hem)] = N.nan
         one_hit = N.logical_xor(*bottom_hem)
-        select[one_hit] = N.nonzero(bottom_hem[:,one_hit])[0]
+        select[one_hit] = N.nonzero(bottom_hem.T[one_hit,:])[1]
         
         return select
     
@@ -175,7 +175,7 @@ class CutSphereGM(SphericalGM):
         in_bd &= prm > 0
         select[~N.logical_or(*in_bd)] = N.nan
         one_hit = N.logical_xor(*in_bd)
-        select[one_hit] = N.nonzero(in_bd[:,one_hit])[0]
+        select[one_hit] = N.nonzero(in_bd.T[one_hit,:])[1]
         
         return select
 
-- 
2.43.0


From bcf4f8d416154a339c1a5b181094c7f85c901b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:34 +0000
Subject: [PATCH 07/20] fix: bounding cylinder ignored its rotation and tested
 points in the wrong frame

---
 tracer/boundary_shape.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tracer/boundary_shape.py b/tracer/boundary_shape.py
index 83880d7..30b3219 100644
--- a/tracer/boundary_shape.py
+++ b/tracer/boundary_shape.py
@@ -107,7 +107,7 @@ class BoundaryCylinder(BoundaryShape):
         intersection points are valid.
         """
         self._R = diameter/2.
-        BoundaryShape.__init__(self, location, None)
+        BoundaryShape.__init__(self, location, rotation)
     
     def in_bounds(self, vertices):
         """
@@ -117,8 +117,8 @@ class BoundaryCylinder(BoundaryShape):
         Arguments: 
         vertices - an array of the points to check for inclusion, (n,3)
         """
-        local_xy = N.dot(self._temp_frame[:2], 
-            N.vstack((vertices.T, N.ones(vertices.shape[1]))))
+        local_xy = N.dot(N.linalg.inv(self._temp_frame)[:2], 
+            N.vstack((vertices.T, N.ones(vertices.shape[0]))))
         return N.sum(local_xy**2, axis=0) <= self._R**2
 
 class BoundaryPlane(BoundaryShape):
-- 
2.43.0


From 2dc14ec8d08dfb387413f6d9fd22238c19edcf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:34 +0000
Subject: [PATCH 08/20] fix: bounding rectangle of a moved bounding sphere

---
 tracer/boundary_shape.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tracer/boundary_shape.py b/tracer/boundary_shape.py
index 30b3219..e9ab51f 100644
--- a/tracer/boundary_shape.py
+++ b/tracer/boundary_shape.py
@@ -95,8 +95,8 @@ class BoundarySphere(BoundaryShape):
         Returns:
         xmin, xmax, ynin, ymax - of the rect, in the xy plane of the frame,
         """
-        cent_proj = N.dot(N.linalg.inv(transform), N.append(self._temp_loc, 1))
-        Reff = N.sqrt(self._radius**2 - (self._temp_loc[2] - cent_proj[2])**2)
+        cent_proj = N.dot(N.linalg.inv(transform), N.append(self._temp_loc[:3], 1))
+        Reff = N.sqrt(self._radius**2 - cent_proj[2]**2)
         return cent_proj[0] - Reff, cent_proj[0] + Reff, \
             cent_proj[1] - Reff, cent_proj[1] + Reff
 
-- 
2.43.0


From e92f2d225353239dc165bee364dc041660275706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:42 +0000
Subject: [PATCH 09/20] fix: square source gave a different number of
 directions than positions

---
 tracer/sources.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tracer/sources.py b/tracer/sources.py
index 1444882..a7822c8 100644
--- a/tracer/sources.py
+++ b/tracer/sources.py
@@ -96,7 +96,6 @@ def square_bundle(num_rays, center, direction, width):
     A RayBundle object with the above charachteristics set.
     """
     rot = rotation_to_z(direction)
-    directions = N.tile(direction[:,None], (1, num_rays))
     range = N.s_[-width:width:float(2*width)/N.sqrt(num_rays)]
     xs, ys = N.mgrid[range, range]
     vertices_local = N.array([xs.flatten(),  ys.flatten(),  N.zeros(len(xs.flatten()))])
@@ -104,6 +103,6 @@ def square_bundle(num_rays, center, direction, width):
 
     rayb = RayBundle()
     rayb.set_vertices(vertices_global + center)
-    rayb.set_directions(directions)
+    rayb.set_directions(N.tile(direction[:,None], (1, vertices_global.shape[1])))
     return rayb
 
-- 
2.43.0


From a3a12ab507b5cd39b0915895749c9f2207162164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:42 +0000
Subject: [PATCH 10/20] fix: Hartmann dispersion formula left out its second
 term

---
 tracer/optics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracer/optics.py b/tracer/optics.py
index 176be57..7814371 100644
--- a/tracer/optics.py
+++ b/tracer/optics.py
@@ -94,4 +94,4 @@ def refr_idx_hartmann(wavelength, a, b, c, d, e):
     
     where L is the wavelength.
     """
-    return a + b/(c - wavelength) 
+    return a + b/(c - wavelength) + d/(e - wavelength)
-- 
2.43.0


From ab8fa9a6ccd3b0a1b80b3bedfbd10a9a1ad40632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:42 +0000
Subject: [PATCH 11/20] fix: faces following a degenerate face in a
 triangulated surface were misplaced

---
 tracer/models/triangulated_surface.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tracer/models/triangulated_surface.py b/tracer/models/triangulated_surface.py
index 7984f63..1381bbb 100644
--- a/tracer/models/triangulated_surface.py
+++ b/tracer/models/triangulated_surface.py
@@ -28,6 +28,7 @@ class TriangulatedSurface(AssembledObject):
         edges = vertices[faces[:,1:],:] - pos[:,None,:]
         edge_norms = np.sqrt(np.sum(edges**2, axis=2))
         non_degenerate = np.all(abs(edge_norms) > 1e-8, axis=1)
+        pos = pos[non_degenerate]
         edges = edges[non_degenerate]
         edge_norms = edge_norms[non_degenerate]
         
@@ -38,6 +39,7 @@ class TriangulatedSurface(AssembledObject):
         xs = xs[non_collinear]
         zs = zs[non_collinear]
         ys = np.cross(zs, xs)
+        pos = pos[non_collinear]
         edges = edges[non_collinear]
         
         rots = np.concatenate((xs[...,None], ys[...,None], zs[...,None]), axis=2)
-- 
2.43.0


From b8af191b3314b187ab5be80956e083957b479a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:42 +0000
Subject: [PATCH 12/20] fix: refractive optics failed when no ray was selected

---
 tracer/optics_callables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracer/optics_callables.py b/tracer/optics_callables.py
index 2c2ead4..b32102e 100644
--- a/tracer/optics_callables.py
+++ b/tracer/optics_callables.py
@@ -128,7 +128,7 @@ class RefractiveHomogenous(object):
     
     def __call__(self, geometry, rays, selector):
         if len(selector) == 0:
-            return ray_bundle.empty_bund()
+            return ray_bundle.RayBundle.empty_bund()
         
         n1 = rays.get_ref_index()[selector]
         n2 = self.toggle_ref_idx(n1)
-- 
2.43.0


From 946947d5717baaa3b867a0347a7d6c60509c8d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:42 +0000
Subject: [PATCH 13/20] fix: lens with planar front could not be built, and its
 front was not placed

---
 tracer/models/spherical_lens.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tracer/models/spherical_lens.py b/tracer/models/spherical_lens.py
index 7f39902..0709b6e 100644
--- a/tracer/models/spherical_lens.py
+++ b/tracer/models/spherical_lens.py
@@ -44,7 +44,7 @@ class SphericalLens(AssembledObject):
             self._front = Surface(
                 RoundPlateGM(diameter/2.),
                 Refractive(1., refr_idx))
-            R1 = B.inf
+            R1 = N.inf
         else:
             z = N.sqrt(R1**2 - diameter**2/4.) # location of cut plane
             if R1 > 0:
@@ -101,6 +101,12 @@ class SphericalLens(AssembledObject):
             
             cyl_loc += (locf + sect1.get_location()[2])/2.
             cyl_height += locf + sect1.get_location()[2]
+        else:
+            locf = pd + depth
+            self._front.set_location(N.r_[0., 0., locf])
+            
+            cyl_loc += locf/2.
+            cyl_height += locf
         
         # Create the bounding cylinder:
         if cyl_height > 0:
-- 
2.43.0


From c33aeb5ac7a7d47496dd8d344b6f52cb9245c2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:42 +0000
Subject: [PATCH 14/20] fix: receiver report failed when all recorded hits were
 empty

---
 tracer/optics_callables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracer/optics_callables.py b/tracer/optics_callables.py
index b32102e..f8afa1e 100644
--- a/tracer/optics_callables.py
+++ b/tracer/optics_callables.py
@@ -66,7 +66,7 @@ class AbsorptionAccountant(object):
         absorbed - the energy absorbed by each hit-point
         hits - the corresponding global coordinates for each hit-point.
         """
-        if not len(self._absorbed):
+        if not any(len(a) for a in self._absorbed):
             return N.array([]), N.array([]).reshape(3,0)
         
         return N.hstack([a for a in self._absorbed if len(a)]), \
-- 
2.43.0


From 01cb9207d0f57d15fb818da62d4102c3683522bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:42 +0000
Subject: [PATCH 15/20] fix: ray plot attached escaping rays to the wrong rays
 and drew children of hidden rays

---
 tracer/mayavi_ui/scene_view.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tracer/mayavi_ui/scene_view.py b/tracer/mayavi_ui/scene_view.py
index f52a5c3..1b884c7 100644
--- a/tracer/mayavi_ui/scene_view.py
+++ b/tracer/mayavi_ui/scene_view.py
@@ -248,7 +248,7 @@ def show_rays(scene, tree, escaping_len, ray_selector=None):
         if level == tree.num_bunds() - 1:
             # Make endpoints for escaping rays
             ev = sv + sd*escaping_len
-            parents = N.arange(ev.shape[1])
+            parents = N.nonzero(non_degenerate)[0]
         else:
             end_rays = tree[level + 1]
             escaping = ~N.any(
@@ -256,13 +256,15 @@ def show_rays(scene, tree, escaping_len, ray_selector=None):
             escaping_endpoints = sv[:,escaping] + sd[:,escaping]*escaping_len
             
             ev = N.hstack((end_rays.get_vertices(), escaping_endpoints))
-            parents = N.hstack((end_rays.get_parents(), N.nonzero(escaping)[0]))
+            parents = N.hstack((end_rays.get_parents(),
+                N.nonzero(non_degenerate)[0][escaping]))
             
         points.append(ev)
         accum_points.append(accum_points[-1] + ev.shape[1])
         
-        connections.append(N.hstack((accum_points[level] + parents[:,None],
-            accum_points[level + 1] + N.arange(ev.shape[1])[:,None] )) )
+        shown = N.nonzero(non_degenerate[parents])[0]
+        connections.append(N.hstack((accum_points[level] + parents[shown][:,None],
+            accum_points[level + 1] + shown[:,None] )) )
     
     points = N.hstack(points)
     connections = N.vstack(connections)
-- 
2.43.0


From 64a8cbf2bb1b2824b8c4adf9ffd4ad29ab54e698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:26 +0000
Subject: [PATCH 16/20] fix: update_surfaces() after clear_scene() with a
 surface gone from the assembly

A cleared surface has no mesh, so removing it raised AttributeError on None.
---
 tracer/mayavi_ui/scene_view.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tracer/mayavi_ui/scene_view.py b/tracer/mayavi_ui/scene_view.py
index 1b884c7..ba4c66d 100644
--- a/tracer/mayavi_ui/scene_view.py
+++ b/tracer/mayavi_ui/scene_view.py
@@ -84,7 +84,8 @@ class TracerScene(t_api.HasTraits):
         # Remove:
         for sid in self._meshes.keys():
             if sid not in surf_ids:
-                self._meshes[sid][1].remove()
+                if self._meshes[sid][1] is not None:
+                    self._meshes[sid][1].remove()
                 del self._meshes[sid]
         
         # Add:
-- 
2.43.0


From 07d3928f087f97dbb1697e33e921bb3aecdc1639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:26 +0000
Subject: [PATCH 17/20] fix: set_assembly() left the meshes of the replaced
 assembly in the scene

Their handles were dropped, so they could not even be removed later.
---
 tracer/mayavi_ui/scene_view.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tracer/mayavi_ui/scene_view.py b/tracer/mayavi_ui/scene_view.py
index ba4c66d..ea517f4 100644
--- a/tracer/mayavi_ui/scene_view.py
+++ b/tracer/mayavi_ui/scene_view.py
@@ -67,6 +67,11 @@ class TracerScene(t_api.HasTraits):
         Arguments:
         asm - an Assembly instance, whose all surfacesd have a mesh() method.
         """
+        # Meshes of the assembly being replaced leave the scene with it:
+        for surf, mesh in getattr(self, '_meshes', {}).values():
+            if mesh is not None:
+                mesh.remove()
+        
         self._asm = asm
         self._meshes = dict((id(s), (s, None)) for s in asm.get_surfaces())
         self.show_assembly()
-- 
2.43.0


From 615deaaf6ace146088ae619f6aa5b4b2c3adedab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:26 +0000
Subject: [PATCH 18/20] fix: set_source(None) left the rays of the replaced
 source in the scene

---
 tracer/mayavi_ui/scene_view.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tracer/mayavi_ui/scene_view.py b/tracer/mayavi_ui/scene_view.py
index ea517f4..ce719bf 100644
--- a/tracer/mayavi_ui/scene_view.py
+++ b/tracer/mayavi_ui/scene_view.py
@@ -143,17 +143,17 @@ class TracerScene(t_api.HasTraits):
         from the scene's source, retraces its rays, and plots them on the
         scene.
         """
+        # Remove previous rays:
+        if self._lines is not None:
+            self._lines.remove()
+            self._lines = None
+        
         # Allow a scene with no source:
         if self._source is None:
             return
         
         self._scene.disable_render = True
         
-        # Remove previous rays:
-        if self._lines is not None:
-            self._lines.remove()
-            self._lines = None
-        
         # Trace new rays:
         engine = TracerEngine(self._asm)
         params = engine.ray_tracer(self._source, 
-- 
2.43.0


From 3fdce7e526ede7306f048b228edd6beb68597fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:20 +0000
Subject: [PATCH 19/20] fix: close the mesh of a round plate

The last column of the polar mesh fell short of the full turn by up to one
step, so the mesh left out a wedge of the plate. Other meshes of revolution
go around once more.
---
 tracer/flat_surface.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tracer/flat_surface.py b/tracer/flat_surface.py
index a800918..37cb168 100644
--- a/tracer/flat_surface.py
+++ b/tracer/flat_surface.py
@@ -256,7 +256,8 @@ class RoundPlateGM(FiniteFlatGM):
         r_end = self._R + 0.01/resolution
         rs = N.r_[0:r_end:1./resolution]
         # Make the circumferential points at the requested resolution.
-        angs = N.r_[0:2*N.pi:1./(self._R*resolution)]
+        ang_end = 2*N.pi + 1./(self._R*resolution)
+        angs = N.r_[0:ang_end:1./(self._R*resolution)]
         
         x = N.outer(rs, N.cos(angs))
         y = N.outer(rs, N.sin(angs))
-- 
2.43.0


From ca732573d288be6840cbaf1e8180cd922e3b5c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:45 +0000
Subject: [PATCH 20/20] fix: aim heliostats at positions given in whole numbers

---
 tracer/models/heliostat_field.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tracer/models/heliostat_field.py b/tracer/models/heliostat_field.py
index dfc11fb..fdb0dfc 100644
--- a/tracer/models/heliostat_field.py
+++ b/tracer/models/heliostat_field.py
@@ -30,7 +30,8 @@ class HeliostatField(Assembly):
         apsorpt - part of incident energy absorbed by the heliostat.
         aim_height - the height (Z coordinate) of the target for aiming
         """
-        self._pos = positions  # Save collecting positions from the hstats.
+        # Save collecting positions from the hstats.
+        self._pos = N.asarray(positions, dtype=float)
         self._th = aim_height
         face_down = rotx(N.pi)
         
-- 
2.43.0

