From 8fb40483bd94e8fa47bdf0d11838054ac621eb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:42 +0000
Subject: [PATCH 01/32] fix: a quadric's start-point root, positive by
 rounding, hid the crossing ahead

Rays reflected or refracted inside a sphere, dish or cylinder start on it, so one
of the two roots is 0 up to rounding. When it came out slightly positive it was
reported as the hit, and the tracer engine then took the ray as missing the
surface altogether: rays leaked out of closed mirrors.
---
 tracer/quadric.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tracer/quadric.py b/tracer/quadric.py
index a696e17..fa65783 100644
--- a/tracer/quadric.py
+++ b/tracer/quadric.py
@@ -77,6 +77,10 @@ class QuadricGM(GeometryManager):
             (-B[really_quadric] + pm*delta[really_quadric])/(2*A[really_quadric])
         inters_coords = v[:,any_inters] + d[:,any_inters]*hits.reshape(2,1,-1)
         
+        # A root which is 0 up to rounding is the ray's starting point, not a
+        # point ahead of it, whichever way the rounding error went.
+        hits[abs(hits) <= 1e-9] = 0.
+        
         # Quadrics can have two intersections. Here we allow child classes
         # to choose based on own method:
         select = self._select_coords(inters_coords, hits)
-- 
2.43.0


From 6165dd9197e36ff00ef21309a5013c0a040c90ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:01 +0000
Subject: [PATCH 02/32] fix: add_object/add_assembly could not be given a
 transform

Comparing an array with == None is elementwise, so the test raised.
---
 tracer/assembly.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tracer/assembly.py b/tracer/assembly.py
index 38afc30..5e618e6 100644
--- a/tracer/assembly.py
+++ b/tracer/assembly.py
@@ -72,7 +72,7 @@ class Assembly(HasFrame):
         transform - the transformation matrix (as an array object) that describes 
             the object in the coordinate system of the Assembly
         """
-        if transform == None:
+        if transform is None:
             transform = N.eye(4)
         self._objects.append(object)
         object.set_transform(transform)
@@ -86,7 +86,7 @@ class Assembly(HasFrame):
         transform - the transformation matrix (as an array object) that describes the 
             new assembly in the coordinate system of the current assembly
         """
-        if transform == None:
+        if transform is None:
             transform = N.eye(4)
         self._assemblies.append(assembly)
         assembly.set_transform(transform)
-- 
2.43.0


From 1756de537abc08370f4b0e0ddbb32c4ff0e94c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:01 +0000
Subject: [PATCH 03/32] fix: BoundaryCylinder only took 3 points, misplaced
 them and lost its rotation

---
 tracer/boundary_shape.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tracer/boundary_shape.py b/tracer/boundary_shape.py
index 83880d7..30b3219 100644
--- a/tracer/boundary_shape.py
+++ b/tracer/boundary_shape.py
@@ -107,7 +107,7 @@ class BoundaryCylinder(BoundaryShape):
         intersection points are valid.
         """
         self._R = diameter/2.
-        BoundaryShape.__init__(self, location, None)
+        BoundaryShape.__init__(self, location, rotation)
     
     def in_bounds(self, vertices):
         """
@@ -117,8 +117,8 @@ class BoundaryCylinder(BoundaryShape):
         Arguments: 
         vertices - an array of the points to check for inclusion, (n,3)
         """
-        local_xy = N.dot(self._temp_frame[:2], 
-            N.vstack((vertices.T, N.ones(vertices.shape[1]))))
+        local_xy = N.dot(N.linalg.inv(self._temp_frame)[:2], 
+            N.vstack((vertices.T, N.ones(vertices.shape[0]))))
         return N.sum(local_xy**2, axis=0) <= self._R**2
 
 class BoundaryPlane(BoundaryShape):
-- 
2.43.0


From 3807899a2bba979bd08fde02379fcccf7e14a561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:01 +0000
Subject: [PATCH 04/32] fix: BoundarySphere.bounding_rect_for_plane used the
 wrong plane distance

The distance of the centre from the plane is its height in the plane's frame, not
the difference of its global and local heights; and after a transform the centre
is kept in homogenous coordinates, on which the method raised.
---
 tracer/boundary_shape.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tracer/boundary_shape.py b/tracer/boundary_shape.py
index 30b3219..e9ab51f 100644
--- a/tracer/boundary_shape.py
+++ b/tracer/boundary_shape.py
@@ -95,8 +95,8 @@ class BoundarySphere(BoundaryShape):
         Returns:
         xmin, xmax, ynin, ymax - of the rect, in the xy plane of the frame,
         """
-        cent_proj = N.dot(N.linalg.inv(transform), N.append(self._temp_loc, 1))
-        Reff = N.sqrt(self._radius**2 - (self._temp_loc[2] - cent_proj[2])**2)
+        cent_proj = N.dot(N.linalg.inv(transform), N.append(self._temp_loc[:3], 1))
+        Reff = N.sqrt(self._radius**2 - cent_proj[2]**2)
         return cent_proj[0] - Reff, cent_proj[0] + Reff, \
             cent_proj[1] - Reff, cent_proj[1] + Reff
 
-- 
2.43.0


From ece936aa8efb8b9b07bb88038f253a6c78c467db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:01 +0000
Subject: [PATCH 05/32] fix: refr_idx_hartmann lacked the formula's last term

---
 tracer/optics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracer/optics.py b/tracer/optics.py
index 176be57..7814371 100644
--- a/tracer/optics.py
+++ b/tracer/optics.py
@@ -94,4 +94,4 @@ def refr_idx_hartmann(wavelength, a, b, c, d, e):
     
     where L is the wavelength.
     """
-    return a + b/(c - wavelength) 
+    return a + b/(c - wavelength) + d/(e - wavelength)
-- 
2.43.0


From 006b65fc6668b57a8de3d26f89ee5bb2aa4f7e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:01 +0000
Subject: [PATCH 06/32] fix: ray_history could not be called, and stopped short
 of the source

---
 tracer/trace_tree.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tracer/trace_tree.py b/tracer/trace_tree.py
index bdd425e..3b10a66 100644
--- a/tracer/trace_tree.py
+++ b/tracer/trace_tree.py
@@ -31,7 +31,7 @@ class RayTree(object):
         """
         return [bund.get_parents() for bund in self._bunds[1:]]
     
-    def ray_history(ray_index, level=None):
+    def ray_history(self, ray_index, level=None):
         """
         Return, in reverse order, all the indices into ray bundles starting
         from the given ray, going back to the original bundle. Starts with the
@@ -43,12 +43,12 @@ class RayTree(object):
             defaults to last bundle.
         """
         if level is None:
-            level = self.num_bunds()
+            level = self.num_bunds() - 1
         
-        parents = np.empty(level)
+        parents = np.empty(level + 1, dtype=np.int_)
         parents[0] = ray_index
         
-        for pix in xrange(1, level):
+        for pix in xrange(1, level + 1):
             parents[pix] = \
                 self._bunds[level - pix + 1].get_parents()[parents[pix - 1]]
         
-- 
2.43.0


From c8673b995fa64b28d79942d2875a28d3b4818e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:01 +0000
Subject: [PATCH 07/32] fix: refractive optics raised NameError-like error on
 an empty selection

---
 tracer/optics_callables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracer/optics_callables.py b/tracer/optics_callables.py
index 2c2ead4..b32102e 100644
--- a/tracer/optics_callables.py
+++ b/tracer/optics_callables.py
@@ -128,7 +128,7 @@ class RefractiveHomogenous(object):
     
     def __call__(self, geometry, rays, selector):
         if len(selector) == 0:
-            return ray_bundle.empty_bund()
+            return ray_bundle.RayBundle.empty_bund()
         
         n1 = rays.get_ref_index()[selector]
         n2 = self.toggle_ref_idx(n1)
-- 
2.43.0


From 31b23e72abe467f289188f37507e6457eb08316c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:37 +0000
Subject: [PATCH 08/32] fix: hemisphere and cut sphere mixed up the roots of
 different rays

nonzero() goes over the roots first, so in a bundle where some rays hit with their
first root and some with their second, the choices were sorted rather than per-ray.
---
 tracer/sphere_surface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tracer/sphere_surface.py b/tracer/sphere_surface.py
index 2294d7a..a899be7 100644
--- a/tracer/sphere_surface.py
+++ b/tracer/sphere_surface.py
@@ -112,7 +112,7 @@ class HemisphereGM(SphericalGM):
         
         select[~N.logical_or(*bottom_hem)] = N.nan
         one_hit = N.logical_xor(*bottom_hem)
-        select[one_hit] = N.nonzero(bottom_hem[:,one_hit])[0]
+        select[one_hit] = N.nonzero(bottom_hem.T[one_hit,:])[1]
         
         return select
     
@@ -175,7 +175,7 @@ class CutSphereGM(SphericalGM):
         in_bd &= prm > 0
         select[~N.logical_or(*in_bd)] = N.nan
         one_hit = N.logical_xor(*in_bd)
-        select[one_hit] = N.nonzero(in_bd[:,one_hit])[0]
+        select[one_hit] = N.nonzero(in_bd.T[one_hit,:])[1]
         
         return select
 
-- 
2.43.0


From a177a82a9ff0614c9f60b6abd0822af02e7dbc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:37 +0000
Subject: [PATCH 09/32] fix: NaN energies and directions at normal and critical
 incidence

Rounding takes the cosine over 1, or the radicands under 0.
---
 tracer/optics.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tracer/optics.py b/tracer/optics.py
index 7814371..594fd70 100644
--- a/tracer/optics.py
+++ b/tracer/optics.py
@@ -22,10 +22,11 @@ def fresnel(ray_dirs, normals, n1, n2):
     R - the reflectance of a homogenously-polarized light ray with the given
         parameters.
     """ 
-    theta_in = N.arccos(N.abs((normals*ray_dirs).sum(axis=0)))
+    # Rounding may take a normal incidence's cosine over 1.
+    theta_in = N.arccos(N.minimum(N.abs((normals*ray_dirs).sum(axis=0)), 1.))
     # Factor out common terms in Fresnel's equations:
     foo = N.cos(theta_in) 
-    bar = N.sqrt(1 - (n1/n2 * N.sin(theta_in))**2)
+    bar = N.sqrt(N.maximum(1 - (n1/n2 * N.sin(theta_in))**2, 0.))
     
     Rs = ((n1*foo - n2*bar)/(n1*foo + n2*bar))**2 
     Rp = ((n1*bar - n2*foo)/(n1*bar + n2*foo))**2
@@ -80,7 +81,7 @@ def refractions(n1, n2, ray_dirs, normals):
     n = n[refracted]
     
     refr_dirs = (ray_dirs - cos1*normals)/n
-    cos2 = N.sqrt(1 - 1./n**2*(1 - cos1**2))
+    cos2 = N.sqrt(N.maximum(1 - 1./n**2*(1 - cos1**2), 0.))
     refr_dirs += normals*cos2*N.where(cos1 < 0, -1, 1)
     
     return refracted, refr_dirs
-- 
2.43.0


From 63d9e4465eb14dfc02129b95572cb924af68d2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:58 +0000
Subject: [PATCH 10/32] fix: a degenerate face displaced the faces after it, or
 was not recognized

The faces' locations were not filtered along with the rest of their data, and the
test for collinear edges was on an already normalized vector.
---
 tracer/models/triangulated_surface.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tracer/models/triangulated_surface.py b/tracer/models/triangulated_surface.py
index 7984f63..605c2fa 100644
--- a/tracer/models/triangulated_surface.py
+++ b/tracer/models/triangulated_surface.py
@@ -28,15 +28,17 @@ class TriangulatedSurface(AssembledObject):
         edges = vertices[faces[:,1:],:] - pos[:,None,:]
         edge_norms = np.sqrt(np.sum(edges**2, axis=2))
         non_degenerate = np.all(abs(edge_norms) > 1e-8, axis=1)
+        pos = pos[non_degenerate]
         edges = edges[non_degenerate]
         edge_norms = edge_norms[non_degenerate]
         
         xs = edges[:,0] / edge_norms[:,0,None]
         zs = np.cross(xs, edges[:,1])
-        zs /= np.sqrt((zs**2).sum(-1))[:,None]
-        non_collinear = np.any(abs(zs) > 1e-6, axis=1)
+        zs_norms = np.sqrt((zs**2).sum(-1))
+        non_collinear = zs_norms > 1e-6*edge_norms[:,1]
+        pos = pos[non_collinear]
         xs = xs[non_collinear]
-        zs = zs[non_collinear]
+        zs = zs[non_collinear] / zs_norms[non_collinear,None]
         ys = np.cross(zs, xs)
         edges = edges[non_collinear]
         
-- 
2.43.0


From b0a8ab1a1eea9cf91704f301bee50538b8bfadd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:58 +0000
Subject: [PATCH 11/32] fix: frames shared arrays with the caller and with each
 other

Moving a part given its transform, location or rotation as an array changed that
array, and with it any other part it was given to; and a transform of integers
(e.g. from translate(0, 0, 1)) truncated locations set later.
---
 tracer/has_frame.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tracer/has_frame.py b/tracer/has_frame.py
index 8bd0259..44d2be8 100644
--- a/tracer/has_frame.py
+++ b/tracer/has_frame.py
@@ -43,15 +43,15 @@ class HasFrame(object):
         """Sets the location within the object"""
         if location.shape != (3, ):
             raise ValueError("location must be a 1D 3-component array")
-        self._loc = location
         self._transform[:3,3] = location
+        self._loc = self._transform[:3,3].copy()
     
     def set_rotation(self,  rotation):
         """Sets the rotation within the object"""
         if  rotation.shape != (3, 3):
             raise ValueError("rotation must be a 3x3 array")
-        self._rot = rotation
         self._transform[:3,:3] = rotation
+        self._rot = self._transform[:3,:3].copy()
 
     def set_transform(self, transform):
         """Defines the transformation matrix the puts the surface into the coordinates of the
@@ -59,9 +59,9 @@ class HasFrame(object):
         
         Arguments:
         transform - a 2D array defining the 4 by 4 transformation matrix."""
-        self._transform = transform
-        self._loc = self._transform[:3,3]
-        self._rot = self._transform[:3,:3]
+        self._transform = N.array(transform, dtype=N.float_)
+        self._loc = self._transform[:3,3].copy()
+        self._rot = self._transform[:3,:3].copy()
 
     def get_transform(self):
         return self._transform
-- 
2.43.0


From c092d21d093a22c46ada29dd397797f69dab5a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:37 +0000
Subject: [PATCH 12/32] fix: square_bundle gave different numbers of vertices
 and directions

when num_rays was not a square, and for some widths by rounding also when it was.
---
 tracer/sources.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tracer/sources.py b/tracer/sources.py
index 1444882..f996ae5 100644
--- a/tracer/sources.py
+++ b/tracer/sources.py
@@ -96,9 +96,9 @@ def square_bundle(num_rays, center, direction, width):
     A RayBundle object with the above charachteristics set.
     """
     rot = rotation_to_z(direction)
-    directions = N.tile(direction[:,None], (1, num_rays))
-    range = N.s_[-width:width:float(2*width)/N.sqrt(num_rays)]
-    xs, ys = N.mgrid[range, range]
+    side = int(N.ceil(N.sqrt(num_rays)))
+    directions = N.tile(direction[:,None], (1, side**2))
+    xs, ys = N.mgrid[:side, :side]*float(2*width)/N.sqrt(num_rays) - width
     vertices_local = N.array([xs.flatten(),  ys.flatten(),  N.zeros(len(xs.flatten()))])
     vertices_global = N.dot(rot,  vertices_local)
 
-- 
2.43.0


From 6e8e634a32781671b689ef545bc5b44dc2db3c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:37 +0000
Subject: [PATCH 13/32] fix: get_all_hits failed when only empty selections had
 been recorded

---
 tracer/optics_callables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracer/optics_callables.py b/tracer/optics_callables.py
index b32102e..f8afa1e 100644
--- a/tracer/optics_callables.py
+++ b/tracer/optics_callables.py
@@ -66,7 +66,7 @@ class AbsorptionAccountant(object):
         absorbed - the energy absorbed by each hit-point
         hits - the corresponding global coordinates for each hit-point.
         """
-        if not len(self._absorbed):
+        if not any(len(a) for a in self._absorbed):
             return N.array([]), N.array([]).reshape(3,0)
         
         return N.hstack([a for a in self._absorbed if len(a)]), \
-- 
2.43.0


From 96b3fdec66fac2dd45ccf571afcbdee27254841d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:37 +0000
Subject: [PATCH 14/32] fix: get_surfaces failed for an assembly with no
 objects

---
 tracer/assembly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracer/assembly.py b/tracer/assembly.py
index 5e618e6..4c9acc7 100644
--- a/tracer/assembly.py
+++ b/tracer/assembly.py
@@ -61,7 +61,7 @@ class Assembly(HasFrame):
         self.get_objects()
         """
         return reduce(operator.add, 
-            [obj.get_surfaces() for obj in self.get_objects()])
+            [obj.get_surfaces() for obj in self.get_objects()], [])
 
     def add_object(self, object, transform=None):
         """
-- 
2.43.0


From cea102603eb832440a435d5bd69780aab04af5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:37 +0000
Subject: [PATCH 15/32] fix: global_to_local returned a fourth, homogenous
 coordinate

---
 tracer/surface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracer/surface.py b/tracer/surface.py
index 6b771de..6fc0f99 100644
--- a/tracer/surface.py
+++ b/tracer/surface.py
@@ -104,7 +104,7 @@ class Surface(HasFrame):
         local - a 3 x n array with the respective points in local coordinates.
         """
         return N.dot(N.linalg.inv(self._temp_frame), 
-            N.vstack((points, N.ones(points.shape[1]))))
+            N.vstack((points, N.ones(points.shape[1]))))[:3]
     
     def mesh(self, resolution):
         """
-- 
2.43.0


From bb2cafd302c2b669f661332f0993acd5d6a0a7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:37 +0000
Subject: [PATCH 16/32] fix: rays' escape segments were drawn from other rays'
 starting points

The indices were into the displayed rays, but used as if into the whole bundle.
---
 tracer/mayavi_ui/scene_view.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tracer/mayavi_ui/scene_view.py b/tracer/mayavi_ui/scene_view.py
index f52a5c3..53df146 100644
--- a/tracer/mayavi_ui/scene_view.py
+++ b/tracer/mayavi_ui/scene_view.py
@@ -248,7 +248,7 @@ def show_rays(scene, tree, escaping_len, ray_selector=None):
         if level == tree.num_bunds() - 1:
             # Make endpoints for escaping rays
             ev = sv + sd*escaping_len
-            parents = N.arange(ev.shape[1])
+            parents = N.nonzero(non_degenerate)[0]
         else:
             end_rays = tree[level + 1]
             escaping = ~N.any(
@@ -256,7 +256,7 @@ def show_rays(scene, tree, escaping_len, ray_selector=None):
             escaping_endpoints = sv[:,escaping] + sd[:,escaping]*escaping_len
             
             ev = N.hstack((end_rays.get_vertices(), escaping_endpoints))
-            parents = N.hstack((end_rays.get_parents(), N.nonzero(escaping)[0]))
+            parents = N.hstack((end_rays.get_parents(), N.nonzero(non_degenerate)[0][escaping]))
             
         points.append(ev)
         accum_points.append(accum_points[-1] + ev.shape[1])
-- 
2.43.0


From b087169e9c5c843e3da3128be0dd7beff2e7a358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:19 +0000
Subject: [PATCH 17/32] fix: lenses with a planar front could not be built

Beyond the misspelled numpy name, the front plane was not placed, so such a lens
had no thickness.
---
 tracer/models/spherical_lens.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tracer/models/spherical_lens.py b/tracer/models/spherical_lens.py
index 7f39902..6e900b9 100644
--- a/tracer/models/spherical_lens.py
+++ b/tracer/models/spherical_lens.py
@@ -44,7 +44,7 @@ class SphericalLens(AssembledObject):
             self._front = Surface(
                 RoundPlateGM(diameter/2.),
                 Refractive(1., refr_idx))
-            R1 = B.inf
+            R1 = N.inf
         else:
             z = N.sqrt(R1**2 - diameter**2/4.) # location of cut plane
             if R1 > 0:
@@ -101,6 +101,11 @@ class SphericalLens(AssembledObject):
             
             cyl_loc += (locf + sect1.get_location()[2])/2.
             cyl_height += locf + sect1.get_location()[2]
+        else:
+            self._front.set_location(N.r_[0., 0., pd + depth])
+            
+            cyl_loc += (pd + depth)/2.
+            cyl_height += pd + depth
         
         # Create the bounding cylinder:
         if cyl_height > 0:
-- 
2.43.0


From fb4952a419480bacd75e7a0fff0af6aeb1f03fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:19 +0000
Subject: [PATCH 18/32] fix: tracing for 0 steps with no tree failed

---
 tracer/tracer_engine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tracer/tracer_engine.py b/tracer/tracer_engine.py
index 3c99dd9..46ffb1c 100644
--- a/tracer/tracer_engine.py
+++ b/tracer/tracer_engine.py
@@ -102,6 +102,7 @@ class TracerEngine():
         """
         self.tree = RayTree()
         bund = bundle
+        record = [bund]
         if tree is True:
             self.tree.append(bund)
         
-- 
2.43.0


From 4cda9b3ef577b5344e9ae4c9657b9efe26c76d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:12 +0000
Subject: [PATCH 19/32] fix: wrong hits of rays nearly parallel to a cylinder's
 axis

For A <= 1e-10 the quadratic equation was taken as linear, which is right for a
paraboloid, but in a cylinder B vanishes together with A. Rays parallel to the
axis up to rounding (e.g. a cylinder turned by rotx(pi/2)) but outside it were
reported as hitting 1e16 away.
---
 tracer/quadric.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/tracer/quadric.py b/tracer/quadric.py
index fa65783..4cee6df 100644
--- a/tracer/quadric.py
+++ b/tracer/quadric.py
@@ -68,14 +68,13 @@ class QuadricGM(GeometryManager):
         C = C[any_inters]
         delta = N.sqrt(delta[any_inters])
         
-        pm = N.c_[[-1, 1]]
-        hits = N.empty((2, num_inters))
-        almost_planar = A <= 1e-10
-        really_quadric = ~almost_planar
-        hits[:,almost_planar] = N.tile(-C[almost_planar]/B[almost_planar], (2,1))
-        hits[:,really_quadric] = \
-            (-B[really_quadric] + pm*delta[really_quadric])/(2*A[really_quadric])
+        # This form of the solution doesn't subtract close numbers, so it holds
+        # for any small A; at A == 0 the root that's no longer there is infinite.
+        q = -0.5*(B + N.where(B < 0, -delta, delta))
+        oldsettings = N.seterr(divide='ignore', invalid='ignore')
+        hits = N.sort(N.vstack((q/A, C/q)), axis=0)
         inters_coords = v[:,any_inters] + d[:,any_inters]*hits.reshape(2,1,-1)
+        N.seterr(**oldsettings)
         
         # A root which is 0 up to rounding is the ray's starting point, not a
         # point ahead of it, whichever way the rounding error went.
-- 
2.43.0


From 634189dafee04d02044466d2043d1e5ae0d8cf2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:27 +0000
Subject: [PATCH 20/32] fix: a ray starting just off a surface hit it or not
 depending on other rays

The cut-off of start points was 1e-6 if any ray of the bundle started within
1e-10 of any surface, and none otherwise, so whether a ray starting e.g. 1e-7
before a surface was intercepted by it depended on the other rays.
---
 tracer/tracer_engine.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tracer/tracer_engine.py b/tracer/tracer_engine.py
index 46ffb1c..3a8ee84 100644
--- a/tracer/tracer_engine.py
+++ b/tracer/tracer_engine.py
@@ -65,9 +65,7 @@ class TracerEngine():
         
         # If parameter == 0, ray does not actually hit object, but originates from there; 
         # so it should be ignored in considering intersections 
-        if (stack <= 1e-10).any():
-            zeros = N.where(stack <= 1e-6)
-            stack[zeros] = N.inf
+        stack[stack <= 1e-6] = N.inf
 
         # Find the smallest parameter for each ray, and use that as the final one,
         # returns the indices.  If an entire column of the stack is N.inf (the ray misses
-- 
2.43.0


From 99f76c07557889c48f749b5b2bbc994ffa17a704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:28 +0000
Subject: [PATCH 21/32] fix: inheriting a slice of a bundle shared arrays with
 it

inherit() is documented to copy the unspecified properties, but with a slice as
selector (also the default one) the new bundle got views of the old bundle's
arrays, so that setting properties of selected rays in one altered the other.
---
 tracer/ray_bundle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracer/ray_bundle.py b/tracer/ray_bundle.py
index 4e60d54..2c6380e 100644
--- a/tracer/ray_bundle.py
+++ b/tracer/ray_bundle.py
@@ -140,7 +140,7 @@ class RayBundle:
         
         for p, v in base_vals.iteritems():
             if base_vals[p] is None and hasattr(self, '_' + p):
-                base_vals[p] = self.__dict__['get_' + p](selector)
+                base_vals[p] = self.__dict__['get_' + p](selector).copy()
         
         return RayBundle(**base_vals)
 
-- 
2.43.0


From 982c7906120e0d318543239df79501c3eb9c27d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:31 +0000
Subject: [PATCH 22/32] fix: bundles with matrix-valued ray properties could
 not be merged

Properties are arrays of any dimension with one ray per element of the last
axis, but merging used hstack, which joins along the second axis.
---
 tracer/ray_bundle.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tracer/ray_bundle.py b/tracer/ray_bundle.py
index 2c6380e..4df4b3b 100644
--- a/tracer/ray_bundle.py
+++ b/tracer/ray_bundle.py
@@ -161,9 +161,9 @@ class RayBundle:
                     newbund._create_property(attr[1:], None)
                 
                 # Do addition.
-                newbund.__dict__['set' + attr](N.hstack((
+                newbund.__dict__['set' + attr](N.concatenate((
                     self.__dict__['get' + attr](),
-                    added.__dict__['get' + attr]() )) )
+                    added.__dict__['get' + attr]() ), axis=-1) )
         
         return newbund
 
@@ -217,8 +217,8 @@ def concatenate_rays(bundles):
             
             # This is the actual concatenation:
             getter = 'get' + attr
-            newbund.__dict__['set' + attr](N.hstack(
-                [b.__dict__[getter]() for b in bundles]))
+            newbund.__dict__['set' + attr](N.concatenate(
+                [b.__dict__[getter]() for b in bundles], axis=-1))
     
     return newbund
 
-- 
2.43.0


From c7547608a4da4bc925cb7a28cf4d43a24eafbd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:38 +0000
Subject: [PATCH 23/32] fix: tracing through an assembly with no surfaces
 failed

---
 tracer/tracer_engine.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tracer/tracer_engine.py b/tracer/tracer_engine.py
index 3a8ee84..6900f98 100644
--- a/tracer/tracer_engine.py
+++ b/tracer/tracer_engine.py
@@ -46,6 +46,10 @@ class TracerEngine():
         stack = N.zeros(ret_shape)
         owned_rays = N.empty(ret_shape, dtype=N.bool)
         
+        if len(surfaces) == 0:
+            # Nothing to intersect, all rays escape.
+            return N.zeros(ret_shape, dtype=N.bool), owned_rays
+        
         # Bounce rays off each object
         for surf_num in xrange(len(surfaces)):
             owned_rays[surf_num] = ((ray_ownership == -1) | \
-- 
2.43.0


From ccfeb51aa2f13cb0d4f28a8bdf46899cb5d1366c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:00 +0000
Subject: [PATCH 24/32] fix: heliostats at integer positions could not be aimed

---
 tracer/models/heliostat_field.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tracer/models/heliostat_field.py b/tracer/models/heliostat_field.py
index dfc11fb..43b5f6c 100644
--- a/tracer/models/heliostat_field.py
+++ b/tracer/models/heliostat_field.py
@@ -63,8 +63,7 @@ class HeliostatField(Assembly):
             in radians.
         """
         sun_vec = solar_vector(azimuth, elevation)
-        tower_vec = -self._pos 
-        tower_vec[:,2] += self._th
+        tower_vec = N.r_[0., 0., self._th] - self._pos
         tower_vec /= N.sqrt(N.sum(tower_vec**2, axis=1)[:,None])
         hstat = sun_vec + tower_vec
         hstat /= N.sqrt(N.sum(hstat**2, axis=1)[:,None])
-- 
2.43.0


From 873eb7a0f294ffc34bf43c991e7747d98f11d7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:50 +0000
Subject: [PATCH 25/32] fix: a lens with a planar back was thicker than its
 depth

---
 tracer/models/spherical_lens.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tracer/models/spherical_lens.py b/tracer/models/spherical_lens.py
index 6e900b9..8085a2d 100644
--- a/tracer/models/spherical_lens.py
+++ b/tracer/models/spherical_lens.py
@@ -93,6 +93,8 @@ class SphericalLens(AssembledObject):
             
             cyl_loc += (locb + sect2.get_location()[2])/2.
             cyl_height -= locb + sect2.get_location()[2]
+        else:
+            pd = 0. # The planar back stays at the origin.
         
         # Front primary point's distance from front surface:
         if R1 != N.inf:
-- 
2.43.0


From 7fcd60734fee65bdcdada4133391072fc59b3604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:55 +0000
Subject: [PATCH 26/32] fix: replacing a scene's assembly left the old one's
 surfaces on display

---
 tracer/mayavi_ui/scene_view.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tracer/mayavi_ui/scene_view.py b/tracer/mayavi_ui/scene_view.py
index 53df146..7dc93b3 100644
--- a/tracer/mayavi_ui/scene_view.py
+++ b/tracer/mayavi_ui/scene_view.py
@@ -67,6 +67,11 @@ class TracerScene(t_api.HasTraits):
         Arguments:
         asm - an Assembly instance, whose all surfacesd have a mesh() method.
         """
+        # The replaced assembly's surfaces are no longer shown:
+        for surf, mesh in getattr(self, '_meshes', {}).values():
+            if mesh is not None:
+                mesh.remove()
+        
         self._asm = asm
         self._meshes = dict((id(s), (s, None)) for s in asm.get_surfaces())
         self.show_assembly()
-- 
2.43.0


From 92c0639b402954c490504de2e0adfa244bd85564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:20 +0000
Subject: [PATCH 27/32] fix: update_surfaces failed for a deleted surface which
 is not on display

---
 tracer/mayavi_ui/scene_view.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tracer/mayavi_ui/scene_view.py b/tracer/mayavi_ui/scene_view.py
index 7dc93b3..4df59f7 100644
--- a/tracer/mayavi_ui/scene_view.py
+++ b/tracer/mayavi_ui/scene_view.py
@@ -89,7 +89,8 @@ class TracerScene(t_api.HasTraits):
         # Remove:
         for sid in self._meshes.keys():
             if sid not in surf_ids:
-                self._meshes[sid][1].remove()
+                if self._meshes[sid][1] is not None:
+                    self._meshes[sid][1].remove()
                 del self._meshes[sid]
         
         # Add:
-- 
2.43.0


From 8bea740e96ed8cace7c97ccbd155b88c5ccccd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:59 +0000
Subject: [PATCH 28/32] fix: a scene whose source was taken away went on
 showing its rays

---
 tracer/mayavi_ui/scene_view.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/tracer/mayavi_ui/scene_view.py b/tracer/mayavi_ui/scene_view.py
index 4df59f7..7915380 100644
--- a/tracer/mayavi_ui/scene_view.py
+++ b/tracer/mayavi_ui/scene_view.py
@@ -143,10 +143,6 @@ class TracerScene(t_api.HasTraits):
         from the scene's source, retraces its rays, and plots them on the
         scene.
         """
-        # Allow a scene with no source:
-        if self._source is None:
-            return
-        
         self._scene.disable_render = True
         
         # Remove previous rays:
@@ -154,6 +150,11 @@ class TracerScene(t_api.HasTraits):
             self._lines.remove()
             self._lines = None
         
+        # Allow a scene with no source:
+        if self._source is None:
+            self._scene.disable_render = False
+            return
+        
         # Trace new rays:
         engine = TracerEngine(self._asm)
         params = engine.ray_tracer(self._source, 
-- 
2.43.0


From ad56f2e7061ff144342528ea05f536299f557de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:01 +0000
Subject: [PATCH 29/32] fix: rays left out by the ray selector were still drawn
 up to their next hit

---
 tracer/mayavi_ui/scene_view.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tracer/mayavi_ui/scene_view.py b/tracer/mayavi_ui/scene_view.py
index 7915380..489c809 100644
--- a/tracer/mayavi_ui/scene_view.py
+++ b/tracer/mayavi_ui/scene_view.py
@@ -268,8 +268,11 @@ def show_rays(scene, tree, escaping_len, ray_selector=None):
         points.append(ev)
         accum_points.append(accum_points[-1] + ev.shape[1])
         
-        connections.append(N.hstack((accum_points[level] + parents[:,None],
-            accum_points[level + 1] + N.arange(ev.shape[1])[:,None] )) )
+        conn = N.hstack((accum_points[level] + parents[:,None],
+            accum_points[level + 1] + N.arange(ev.shape[1])[:,None] ))
+        if ray_selector is not None:
+            conn = conn[ray_selector(start_rays)[parents]]
+        connections.append(conn)
     
     points = N.hstack(points)
     connections = N.vstack(connections)
-- 
2.43.0


From 312cb72f803ee8f8597da92b3c9fbe738d5c1573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:17 +0000
Subject: [PATCH 30/32] fix: the assembly tree forgot the caption given to the
 top assembly

---
 tracer/qt/assembly_tree.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tracer/qt/assembly_tree.py b/tracer/qt/assembly_tree.py
index 3917bff..511ecb0 100644
--- a/tracer/qt/assembly_tree.py
+++ b/tracer/qt/assembly_tree.py
@@ -47,7 +47,10 @@ class AssemblyTree(QtGui.QTreeWidget):
         self.clear()
         
         # Repopulate:
-        asm_item = AssemblyTreeItem(["Top assembly"], asm)
+        caption = self.get_tag(asm, 'caption')
+        if caption is None:
+            caption = "Top assembly"
+        asm_item = AssemblyTreeItem([caption], asm)
         asm_item.setFlags(asm_item.flags()|QtCore.Qt.ItemIsEditable)
         self.itemChanged.connect(asm_item.update_caption)
         
-- 
2.43.0


From 8d33fcb8eab381aeef787b77dc0ef33ee05ee006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:59:21 +0000
Subject: [PATCH 31/32] fix: rays parallel to its axis don't hit a hexagonal
 dish at the end of the world

---
 tracer/paraboloid.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tracer/paraboloid.py b/tracer/paraboloid.py
index 2493acc..b9f529c 100644
--- a/tracer/paraboloid.py
+++ b/tracer/paraboloid.py
@@ -172,13 +172,16 @@ class HexagonalParabolicDishGM(Paraboloid):
         select = QuadricGM._select_coords(self, coords, prm) # defaults
 
         coords = N.concatenate((coords, N.ones((2,1,coords.shape[2]))), axis=1)
-        local = N.sum(N.linalg.inv(self._working_frame)[None,:2,:,None] * \
+        local = N.sum(N.linalg.inv(self._working_frame)[None,:3,:,None] * \
             coords[:,None,:,:], axis=2)
         
         abs_x = abs(local[:,0,:])
         abs_y = abs(local[:,1,:])
         outside = abs_x > math.sqrt(3)*self._R/2.
         outside |= abs_y > self._R - math.tan(N.pi/6.)*abs_x
+        # The far root of rays parallel to the axis up to rounding is so far
+        # that its local x, y are only noise, but it's well above the dish.
+        outside |= local[:,2,:] > 2*self.a*self._R**2
         inside = (~outside) & (prm > 0)
         
         select[~N.logical_or(*inside)] = N.nan
-- 
2.43.0


From b059a7f4abeffe41955bca192f8a6d9c125f436a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:48 +0000
Subject: [PATCH 32/32] fix: PETAL's receiver_aspect changes the x side, as
 documented

---
 tracer/models/PETAL_dish.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracer/models/PETAL_dish.py b/tracer/models/PETAL_dish.py
index 12f3462..6a98040 100644
--- a/tracer/models/PETAL_dish.py
+++ b/tracer/models/PETAL_dish.py
@@ -31,7 +31,7 @@ class PETAL(HomogenizedLocalReceiver):
         """
         dish_surf = Surface(HexagonalParabolicDishGM(diameter, focal_length), 
             opt.Reflective(1 - dish_opt_eff))
-        receiver_dims = (receiver_side, receiver_side*receiver_aspect)
+        receiver_dims = (receiver_side*receiver_aspect, receiver_side)
         HomogenizedLocalReceiver.__init__(self, dish_surf, receiver_pos, \
             receiver_dims, homogenizer_depth, homog_opt_eff)
         
-- 
2.43.0

