From b99aeecf4866d354d1c933de1867c65630d9bd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:18:43 +0000
Subject: [PATCH 01/30] fix: use the z-component along t2 when transforming a
 vector to the global frame

---
 src/hypervehicle/geometry/vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/geometry/vector.py b/src/hypervehicle/geometry/vector.py
index 1f14705..fa9223d 100644
--- a/src/hypervehicle/geometry/vector.py
+++ b/src/hypervehicle/geometry/vector.py
@@ -205,7 +205,7 @@ class Vector3:
     ):
         """Change the coordinates from the local right-handed (RH) system at point c."""
         new_x = self.x * n.x + self.y * t1.x + self.z * t2.x
-        new_y = self.x * n.y + self.y * t1.y + self.y * t2.y
+        new_y = self.x * n.y + self.y * t1.y + self.z * t2.y
         new_z = self.x * n.z + self.y * t1.z + self.z * t2.z
         if c is not None:
             new_x += c.x
-- 
2.43.0


From a928ae187a10eb0c18650874fdf1f31911f27174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:18:43 +0000
Subject: [PATCH 02/30] fix: return NotImplemented from in-place vector
 division by unsupported operands

---
 src/hypervehicle/geometry/vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/geometry/vector.py b/src/hypervehicle/geometry/vector.py
index fa9223d..1fbdeb6 100644
--- a/src/hypervehicle/geometry/vector.py
+++ b/src/hypervehicle/geometry/vector.py
@@ -141,7 +141,7 @@ class Vector3:
             self._z /= other
             return self
         else:
-            return NotImplementedError
+            return NotImplemented
 
     def __abs__(self):
         """Returns magnitude."""
-- 
2.43.0


From 7d246b8b9a21e82f31f7e408ae74880ddeb818e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:25:14 +0000
Subject: [PATCH 03/30] fix: close a polyline from its end back to its start

---
 src/hypervehicle/geometry/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/geometry/path.py b/src/hypervehicle/geometry/path.py
index e3d6bc0..8f9a6f1 100644
--- a/src/hypervehicle/geometry/path.py
+++ b/src/hypervehicle/geometry/path.py
@@ -96,7 +96,7 @@ class Polyline(Path):
             p0 = self.segments[0](0.0)
             p1 = self.segments[-1](1.0)
             if abs(p1 - p0) > tolerance:
-                self.segments.append(Line(p0, p1))
+                self.segments.append(Line(p1, p0))
         self.reset_breakpoints()
 
     def reset_breakpoints(self):
-- 
2.43.0


From 8e2b66f84b54df4b2d2d139f34df0f44963fbf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:25:14 +0000
Subject: [PATCH 04/30] fix: do not zero the point returned by the first
 segment of a polyline

---
 src/hypervehicle/geometry/path.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/hypervehicle/geometry/path.py b/src/hypervehicle/geometry/path.py
index 8f9a6f1..d605d16 100644
--- a/src/hypervehicle/geometry/path.py
+++ b/src/hypervehicle/geometry/path.py
@@ -121,8 +121,7 @@ class Polyline(Path):
         if n == 1:
             return self.segments[0](t)
 
-        f = self.segments[0](t)
-        f *= 0.0
+        f = self.segments[0](t) * 0.0
 
         for i, tl, tu in zip(range(n), self.t_values[:-1], self.t_values[1:]):
             t_local = (t - tl) / (tu - tl)
-- 
2.43.0


From d5f606bb84bc086ede4d8b4d253b64d5f5f26ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:25:14 +0000
Subject: [PATCH 05/30] fix: return a copy of the point of a single-point
 Bezier curve

---
 src/hypervehicle/geometry/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/geometry/path.py b/src/hypervehicle/geometry/path.py
index d605d16..384e948 100644
--- a/src/hypervehicle/geometry/path.py
+++ b/src/hypervehicle/geometry/path.py
@@ -72,7 +72,7 @@ class Bezier(Path):
 
     def __call__(self, t):
         if len(self.B) == 1:
-            return self.B[0]
+            return Vector3(self.B[0])
         n_order = len(self.B) - 1
         # Apply de Casteljau's algorithm.
         Q = self.B.copy()  # work array will be overwritten
-- 
2.43.0


From e8325431f9c690fe1da6274c43cb511917052a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:25:14 +0000
Subject: [PATCH 06/30] fix: report the length of the sub-ranged part of a path

---
 src/hypervehicle/geometry/geometry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hypervehicle/geometry/geometry.py b/src/hypervehicle/geometry/geometry.py
index 9e0919d..4c971e4 100644
--- a/src/hypervehicle/geometry/geometry.py
+++ b/src/hypervehicle/geometry/geometry.py
@@ -32,9 +32,6 @@ class SubRangedPath(Path):
         t_dash = self.t0 + t * (self.t1 - self.t0)
         return self.underlying_path(t_dash)
 
-    def length(self):
-        return self.underlying_path.length()
-
 
 class ReversedPath(SubRangedPath):
     def __init__(self, underlying_path: Path) -> None:
@@ -42,6 +39,9 @@ class ReversedPath(SubRangedPath):
         self.t0 = 1
         self.t1 = 0
 
+    def length(self):
+        return self.underlying_path.length()
+
 
 class ElipsePath(Path):
     """
-- 
2.43.0


From ed5cae4e3468f4a561b620d100771eb6b2a8ea3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:14:45 +0000
Subject: [PATCH 07/30] fix: sample the j clustering function over the j nodes

With different resolutions in the two directions the s nodes were
sampled over the number of r nodes, so meshing either stopped with an
IndexError or did not reach the end of the surface.
---
 src/hypervehicle/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/utilities.py b/src/hypervehicle/utilities.py
index ebfa8b0..757d09c 100644
--- a/src/hypervehicle/utilities.py
+++ b/src/hypervehicle/utilities.py
@@ -74,7 +74,7 @@ def surfce_to_stl(
         r_list = default_vertex_func(lb=0.0, ub=1.0, steps=ni + 1, spacing=si)
 
     if j_clustering_func:
-        s_list = [j_clustering_func(i) for i in np.linspace(0, 1, ni + 1)]
+        s_list = [j_clustering_func(i) for i in np.linspace(0, 1, nj + 1)]
     else:
         s_list = default_vertex_func(lb=0.0, ub=1.0, steps=nj + 1, spacing=sj)
 
-- 
2.43.0


From 4365a5569ef7194acb68a1f3d88ef4fb621b0505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:14:45 +0000
Subject: [PATCH 08/30] fix: use the s resolution of a patch in the s direction

---
 src/hypervehicle/components/component.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/components/component.py b/src/hypervehicle/components/component.py
index b784f60..7fd3573 100644
--- a/src/hypervehicle/components/component.py
+++ b/src/hypervehicle/components/component.py
@@ -273,7 +273,7 @@ class Component(AbstractComponent):
             ]
         else:
             case_list = [
-                [k, patch, self.patch_res_r[k], self.patch_res_r[k]]
+                [k, patch, self.patch_res_r[k], self.patch_res_s[k]]
                 for k, patch in self.patches.items()
             ]
 
-- 
2.43.0


From 7cc3d6ee5e3b3305a9d7811ee7c987d6f6b6304e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:14:45 +0000
Subject: [PATCH 09/30] fix: mesh mirrored patches with per-edge resolutions

Reflecting a component that has per-edge resolutions left the mirrored
patches without a resolution, so meshing it stopped with a KeyError.
---
 src/hypervehicle/components/component.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hypervehicle/components/component.py b/src/hypervehicle/components/component.py
index 7fd3573..5d79891 100644
--- a/src/hypervehicle/components/component.py
+++ b/src/hypervehicle/components/component.py
@@ -238,6 +238,11 @@ class Component(AbstractComponent):
             for key, patch in self.patches.items():
                 mirrored_patches[f"{key}_mirrored"] = MirroredPatch(patch, axis=axis)
 
+                # Mirrored patches keep the resolution of the original
+                for resolutions in (self.patch_res_r, self.patch_res_s):
+                    if key in resolutions:
+                        resolutions[f"{key}_mirrored"] = resolutions[key]
+
             # Now either add the reflected patches to the same component, or
             # replace the patches with their reflected versions
             if self._append_reflection:
-- 
2.43.0


From 2a1bf8c3212c3f4e7106b62a5c24daf54f924429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:16:03 +0000
Subject: [PATCH 10/30] fix: start from no patches when generating a component

Generating a component again kept its mirrored patches and reflected
them once more.
---
 src/hypervehicle/components/polygon.py  | 2 ++
 src/hypervehicle/components/revolved.py | 1 +
 src/hypervehicle/components/swept.py    | 1 +
 src/hypervehicle/components/wing.py     | 2 ++
 4 files changed, 6 insertions(+)

diff --git a/src/hypervehicle/components/polygon.py b/src/hypervehicle/components/polygon.py
index dffb940..baee45d 100644
--- a/src/hypervehicle/components/polygon.py
+++ b/src/hypervehicle/components/polygon.py
@@ -29,6 +29,7 @@ class Cube(Component):
         super().__init__(stl_resolution=stl_resolution, verbosity=verbosity, name=name)
 
     def generate_patches(self):
+        self.patches = {}
         faces = ["east", "west", "south", "north", "bottom", "top"]
         for face in faces:
             self.patches[face] = CubePatch(self.a, self.centre, face)
@@ -59,6 +60,7 @@ class Sphere(Component):
         super().__init__(stl_resolution=stl_resolution, verbosity=verbosity, name=name)
 
     def generate_patches(self):
+        self.patches = {}
         faces = ["east", "west", "south", "north", "bottom", "top"]
 
         for face in faces:
diff --git a/src/hypervehicle/components/revolved.py b/src/hypervehicle/components/revolved.py
index 26b2345..08b9a38 100644
--- a/src/hypervehicle/components/revolved.py
+++ b/src/hypervehicle/components/revolved.py
@@ -25,6 +25,7 @@ class RevolvedComponent(Component):
         super().__init__(stl_resolution=stl_resolution, verbosity=verbosity, name=name)
 
     def generate_patches(self):
+        self.patches = {}
         for i in range(4):
             self.patches[f"revolved_fuse_{i}"] = RevolvedPatch(
                 self.revolve_line, i * np.pi / 2, (i + 1) * np.pi / 2
diff --git a/src/hypervehicle/components/swept.py b/src/hypervehicle/components/swept.py
index 72dcfba..aabbd82 100644
--- a/src/hypervehicle/components/swept.py
+++ b/src/hypervehicle/components/swept.py
@@ -86,6 +86,7 @@ class SweptComponent(Component):
                 raise Exception(f"stl_resolution not compatible for close_end.")
 
     def generate_patches(self):
+        self.patches = {}
         for ne in range(self.n_edges):
             k = f"swept_patch_{ne}"
             edges = []
diff --git a/src/hypervehicle/components/wing.py b/src/hypervehicle/components/wing.py
index 498800d..9ea050b 100644
--- a/src/hypervehicle/components/wing.py
+++ b/src/hypervehicle/components/wing.py
@@ -171,6 +171,8 @@ class Wing(Component):
         self.TE_mean_line = None
 
     def generate_patches(self):
+        self.patches = {}
+
         # Create wing planform shape
         self._create_planform_patches()
 
-- 
2.43.0


From 85c5b5d707a993b161197855ed3ec2382876ac6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:16:03 +0000
Subject: [PATCH 11/30] fix: discard old meshes when a vehicle is generated
 again

---
 src/hypervehicle/vehicle.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hypervehicle/vehicle.py b/src/hypervehicle/vehicle.py
index e143201..eafc434 100644
--- a/src/hypervehicle/vehicle.py
+++ b/src/hypervehicle/vehicle.py
@@ -225,6 +225,10 @@ class Vehicle:
             # Apply transformations
             component.transform()
 
+            # Reset any meshes generated from previous patches
+            component.surfaces = None
+            component.mesh = None
+
         # Set generated boolean to True
         self._generated = True
 
-- 
2.43.0


From 7d6ed15d53e38861a194a949f06333f1b6d22728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:16:04 +0000
Subject: [PATCH 12/30] fix: keep no partial surfaces when meshing a patch
 fails

A failed meshing left the surfaces of the patches before it on the
component, and the next mesh was built from those alone.
---
 src/hypervehicle/components/component.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/hypervehicle/components/component.py b/src/hypervehicle/components/component.py
index 5d79891..e751aaa 100644
--- a/src/hypervehicle/components/component.py
+++ b/src/hypervehicle/components/component.py
@@ -292,14 +292,14 @@ class Component(AbstractComponent):
             )
             return (key, surface)
 
-        self.surfaces = {}
+        surfaces = {}
         if self._multiprocess is True:
             # Initialise surfaces and pool
             pool = Pool()
 
             # Submit tasks
             for result in pool.starmap(wrapper, case_list):
-                self.surfaces[result[0]] = result[1]
+                surfaces[result[0]] = result[1]
 
         else:
             for case in case_list:
@@ -307,9 +307,11 @@ class Component(AbstractComponent):
                 pat = case[1]
                 print(f"START: Creating stl for '{k}'.")
                 result = wrapper(k, pat, case[2], case[3])
-                self.surfaces[result[0]] = result[1]
+                surfaces[result[0]] = result[1]
                 print(f"  DONE: Creating stl for '{k}'.")
 
+        self.surfaces = surfaces
+
     def to_vtk(self):
         raise NotImplementedError("This method has not been implemented yet.")
         # TODO - check for processed grids
-- 
2.43.0


From 547a9b456eec3ea4277868e37f0dad5649977906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:16:04 +0000
Subject: [PATCH 13/30] fix: release the worker pool after meshing a component

---
 src/hypervehicle/components/component.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/hypervehicle/components/component.py b/src/hypervehicle/components/component.py
index e751aaa..74c73df 100644
--- a/src/hypervehicle/components/component.py
+++ b/src/hypervehicle/components/component.py
@@ -294,12 +294,11 @@ class Component(AbstractComponent):
 
         surfaces = {}
         if self._multiprocess is True:
-            # Initialise surfaces and pool
-            pool = Pool()
-
-            # Submit tasks
-            for result in pool.starmap(wrapper, case_list):
-                surfaces[result[0]] = result[1]
+            # Initialise pool
+            with Pool() as pool:
+                # Submit tasks
+                for result in pool.starmap(wrapper, case_list):
+                    surfaces[result[0]] = result[1]
 
         else:
             for case in case_list:
-- 
2.43.0


From d4dae1a63412d4c62fc5e5498d1d74f28ae7b659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:16:50 +0000
Subject: [PATCH 14/30] fix: print nothing when a silent component is meshed
 serially

---
 src/hypervehicle/components/component.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hypervehicle/components/component.py b/src/hypervehicle/components/component.py
index 74c73df..c8d8b6a 100644
--- a/src/hypervehicle/components/component.py
+++ b/src/hypervehicle/components/component.py
@@ -304,10 +304,12 @@ class Component(AbstractComponent):
             for case in case_list:
                 k = case[0]
                 pat = case[1]
-                print(f"START: Creating stl for '{k}'.")
+                if self.verbosity > 0:
+                    print(f"START: Creating stl for '{k}'.")
                 result = wrapper(k, pat, case[2], case[3])
                 surfaces[result[0]] = result[1]
-                print(f"  DONE: Creating stl for '{k}'.")
+                if self.verbosity > 0:
+                    print(f"  DONE: Creating stl for '{k}'.")
 
         self.surfaces = surfaces
 
-- 
2.43.0


From eb4a7dd6b7738fd653c934a3f69dc7abb3bcee85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:16:51 +0000
Subject: [PATCH 15/30] fix: merge the STL files that were written

With a prefix, or for a component without a name, the merge looked for
files that do not exist.
---
 src/hypervehicle/vehicle.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/hypervehicle/vehicle.py b/src/hypervehicle/vehicle.py
index eafc434..a712c8f 100644
--- a/src/hypervehicle/vehicle.py
+++ b/src/hypervehicle/vehicle.py
@@ -338,6 +338,7 @@ class Vehicle:
                 print(f"{s}.")
 
         types_generated = {}
+        filenames = []  # files written (excludes ghost components)
         for component in self.components:
             # Get component count
             no = types_generated.get(component.componenttype, 0)
@@ -359,6 +360,8 @@ class Vehicle:
                 print(f"  Writing: {stl_name}                 ", end="\r")
 
             component.to_stl(stl_name)
+            if not component._ghost:
+                filenames.append(stl_name)
 
             # Update component count
             types_generated[component.componenttype] = no + 1
@@ -414,12 +417,6 @@ class Vehicle:
                 if not prefix:
                     prefix = self.name
 
-                # Get component names (excluding ghost components)
-                filenames = []
-                for name, comp in self._named_components.items():
-                    if not comp._ghost:
-                        # Append
-                        filenames.append(f"{name}.stl")
                 utilities.merge_stls(stl_files=filenames, name=prefix)
 
         if self.verbosity > 0:
-- 
2.43.0


From ad54d2296fc68c1f608fd7c3fc89ab475011aa8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:16:51 +0000
Subject: [PATCH 16/30] fix: merge STL files with the verbosity of the vehicle

---
 src/hypervehicle/vehicle.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hypervehicle/vehicle.py b/src/hypervehicle/vehicle.py
index a712c8f..6d43d0b 100644
--- a/src/hypervehicle/vehicle.py
+++ b/src/hypervehicle/vehicle.py
@@ -417,7 +417,9 @@ class Vehicle:
                 if not prefix:
                     prefix = self.name
 
-                utilities.merge_stls(stl_files=filenames, name=prefix)
+                utilities.merge_stls(
+                    stl_files=filenames, name=prefix, verbosity=self.verbosity
+                )
 
         if self.verbosity > 0:
             print("\rAll components written to STL file format.", end="\n")
-- 
2.43.0


From d96efbc4d938f2ee9a777cb847846aeeec187686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:17:13 +0000
Subject: [PATCH 17/30] fix: apply the options of the children of a composite

Curvatures, reflections and transformations given for a component added
to a composite were recorded but never applied.
---
 src/hypervehicle/components/composite.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hypervehicle/components/composite.py b/src/hypervehicle/components/composite.py
index 1b1b17f..0201e49 100644
--- a/src/hypervehicle/components/composite.py
+++ b/src/hypervehicle/components/composite.py
@@ -122,6 +122,10 @@ class CompositeComponent(Component):
         # Generate child patches
         for component in self.components:
             component.generate_patches()
+            component.apply_modifier()
+            component.curve()
+            component.reflect()
+            component.transform()
 
         # Merge patches
         merged = {}
-- 
2.43.0


From d599af2523fa45c56c5e5b29ff179124c5043d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:17:14 +0000
Subject: [PATCH 18/30] fix: use the parallel axis theorem for the inertia of a
 vehicle

The squared offset vector was added to every row of the inertia matrix.
---
 src/hypervehicle/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/utilities.py b/src/hypervehicle/utilities.py
index 757d09c..44807c6 100644
--- a/src/hypervehicle/utilities.py
+++ b/src/hypervehicle/utilities.py
@@ -218,7 +218,7 @@ def assess_inertial_properties(
     for component in vehicle._named_components:
         m = masses[component]
         r = cgs[component] - composite_cog
-        I_adj = inertias[component] + m * r**2
+        I_adj = inertias[component] + m * (np.dot(r, r) * np.eye(3) - np.outer(r, r))
 
         shifted_inertias[component] = I_adj
         composite_inertia += I_adj
-- 
2.43.0


From d8b21e8ee5cc1678381a4dfa63a7e7586cafd979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:17:57 +0000
Subject: [PATCH 19/30] fix: sum the triangle areas of a mesh to a scalar

The areas of a mesh are a column of one-element rows, and their sum
cannot be converted to a float by current numpy releases, so every
analysis of a vehicle stopped with a TypeError.
---
 src/hypervehicle/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/utilities.py b/src/hypervehicle/utilities.py
index 44807c6..dd1c651 100644
--- a/src/hypervehicle/utilities.py
+++ b/src/hypervehicle/utilities.py
@@ -192,7 +192,7 @@ def assess_inertial_properties(
         )
 
         # Also calculate surface area
-        area = float(sum(component.mesh.areas))
+        area = float(np.sum(component.mesh.areas))
 
         # Save component result
         volumes[name] = volume
-- 
2.43.0


From 89ff4e2116f83c72dc87b2617334d79b84b8d490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:27:24 +0000
Subject: [PATCH 20/30] fix: use the requested second break point of a wing

The value given for t_B2 was replaced by that of t_B1.
---
 src/hypervehicle/components/wing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/components/wing.py b/src/hypervehicle/components/wing.py
index 9ea050b..912c1f5 100644
--- a/src/hypervehicle/components/wing.py
+++ b/src/hypervehicle/components/wing.py
@@ -163,7 +163,7 @@ class Wing(Component):
         if self.params["t_B2"] == None:
             self.t_B2 = 0.5 * (1 + self.t_B1)
         else:
-            self.t_B2 = self.params["t_B1"]
+            self.t_B2 = self.params["t_B2"]
 
         # Save other params
         self.TE_top = None
-- 
2.43.0


From 4b46e554bcc743f3392cd170fa318f65285c1ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:57:09 +0000
Subject: [PATCH 21/30] fix: close a wing with a flat leading edge

Closing the inner side of a wing always built an elliptical leading edge cap.
A flat leading edge has no width function, so the wing could not be closed.
---
 src/hypervehicle/components/wing.py | 64 +++++++++++++++--------------
 1 file changed, 33 insertions(+), 31 deletions(-)

diff --git a/src/hypervehicle/components/wing.py b/src/hypervehicle/components/wing.py
index 912c1f5..710cdc6 100644
--- a/src/hypervehicle/components/wing.py
+++ b/src/hypervehicle/components/wing.py
@@ -531,42 +531,44 @@ class Wing(Component):
             west=mid_vert_bot,
         )
 
-        elipse_top = ElipsePath(
-            centre=TT_mid,
-            thickness=TT_mid.z - TT_top.z,
-            LE_width=self.params["FUNC_LEADING_EDGE_WIDTH"](1),
-            side="top",
-        )
-        elipse_bot = ElipsePath(
-            centre=TT_mid,
-            thickness=TT_mid.z - TT_bot.z,
-            LE_width=self.params["FUNC_LEADING_EDGE_WIDTH"](1),
-            side="bot",
-        )
-        elipse_top = ArcLengthParameterizedPath(underlying_path=elipse_top)
-        elipse_bot = ArcLengthParameterizedPath(underlying_path=elipse_bot)
-
-        # Now reverse the paths for correct orientation
-        elipse_bot = SubRangedPath(underlying_path=elipse_bot, t0=1.0, t1=0.0)
-
-        interior_ellip = CoonsPatch(
-            north=elipse_bot,
-            east=elipse_top,
-            south=Line(p0=TT_mid, p1=TT_top),
-            west=Line(p0=TT_mid, p1=TT_bot),
-        )
-
-        # Rotate patch
-        interior_ellip = RotatedPatch(
-            interior_ellip, np.deg2rad(-90), axis="z", point=TT_mid
-        )
-
         # Append to patch_dict
         self.patches["wing_close_top_patch0"] = interior_top_patch0
         self.patches["wing_close_top_patch1"] = interior_top_patch1
         self.patches["wing_close_bot_patch0"] = interior_bot_patch0
         self.patches["wing_close_bot_patch1"] = interior_bot_patch1
-        self.patches["interior_ellip"] = interior_ellip
+
+        if self.params["LE_TYPE"] != "FLAT":
+            # Close the elliptical leading edge
+            elipse_top = ElipsePath(
+                centre=TT_mid,
+                thickness=TT_mid.z - TT_top.z,
+                LE_width=self.params["FUNC_LEADING_EDGE_WIDTH"](1),
+                side="top",
+            )
+            elipse_bot = ElipsePath(
+                centre=TT_mid,
+                thickness=TT_mid.z - TT_bot.z,
+                LE_width=self.params["FUNC_LEADING_EDGE_WIDTH"](1),
+                side="bot",
+            )
+            elipse_top = ArcLengthParameterizedPath(underlying_path=elipse_top)
+            elipse_bot = ArcLengthParameterizedPath(underlying_path=elipse_bot)
+
+            # Now reverse the paths for correct orientation
+            elipse_bot = SubRangedPath(underlying_path=elipse_bot, t0=1.0, t1=0.0)
+
+            interior_ellip = CoonsPatch(
+                north=elipse_bot,
+                east=elipse_top,
+                south=Line(p0=TT_mid, p1=TT_top),
+                west=Line(p0=TT_mid, p1=TT_bot),
+            )
+
+            # Rotate patch
+            interior_ellip = RotatedPatch(
+                interior_ellip, np.deg2rad(-90), axis="z", point=TT_mid
+            )
+            self.patches["interior_ellip"] = interior_ellip
 
         # Interior TE
         TE_point = Vector3(
-- 
2.43.0


From 82600c7e9cab9e5023d451152388283a75b153f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:21:21 +0000
Subject: [PATCH 22/30] fix: refuse unknown axes and curvature directions

Mirroring along an unknown axis returned the surface unchanged. Curving in an
unknown direction returned nothing. Rotating about an unknown axis stopped on
an unassigned variable.
---
 src/hypervehicle/geometry/geometry.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hypervehicle/geometry/geometry.py b/src/hypervehicle/geometry/geometry.py
index 4c971e4..7bd4a20 100644
--- a/src/hypervehicle/geometry/geometry.py
+++ b/src/hypervehicle/geometry/geometry.py
@@ -505,6 +505,7 @@ class CurvedPatch(ParametricSurface):
                 z=offset + pos.z * np.cos(angle),
             )
             return pos_new
+        raise ValueError(f"Cannot add curvature in direction '{self.direction}'.")
 
 
 class ConePatch(ParametricSurface):
@@ -749,6 +750,9 @@ class RotatedPatch(ParametricSurface):
             y = pos.x * np.sin(self.angle) + pos.y * np.cos(self.angle)
             z = pos.z
 
+        else:
+            raise ValueError(f"Cannot rotate about axis '{self.axis}'.")
+
         return Vector3(x=x, y=y, z=z) + self.point
 
 
@@ -778,6 +782,8 @@ class MirroredPatch(ParametricSurface):
         elif self.axis == "z":
             # Mirror about x-y plane
             z *= -1
+        else:
+            raise ValueError(f"Cannot mirror along axis '{self.axis}'.")
 
         return Vector3(x=x, y=y, z=z)
 
-- 
2.43.0


From 6773167bff70a72c53d7e592da3946b2e4a49115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:29:52 +0000
Subject: [PATCH 23/30] fix: print the side length of a cube patch

---
 src/hypervehicle/geometry/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/geometry/geometry.py b/src/hypervehicle/geometry/geometry.py
index 7bd4a20..6c115c9 100644
--- a/src/hypervehicle/geometry/geometry.py
+++ b/src/hypervehicle/geometry/geometry.py
@@ -802,7 +802,7 @@ class CubePatch(ParametricSurface):
 
     def __repr__(self):
         return "Cube: a = {}, centre = {}".format(
-            self.r, self.centre
+            self.a, self.centre
         ) + "face = {}".format(self.face)
 
     def __call__(self, r, s):
-- 
2.43.0


From 05c741e3b1276203f38586362faf13f20956131d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:29:52 +0000
Subject: [PATCH 24/30] fix: let the mesh check run without matching lines

---
 src/hypervehicle/components/component.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hypervehicle/components/component.py b/src/hypervehicle/components/component.py
index c8d8b6a..baeaa43 100644
--- a/src/hypervehicle/components/component.py
+++ b/src/hypervehicle/components/component.py
@@ -391,6 +391,9 @@ class Component(AbstractComponent):
                 print(f"      FAIL")
                 pass_flag = False
 
+        if not matching_lines:
+            return pass_flag
+
         if matching_lines:
             print(f"    Matching Lines Check")
             reversed_triangles = (
-- 
2.43.0


From ef7ca2efb02526af254ee96ef1e90f16890acbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:55:47 +0000
Subject: [PATCH 25/30] fix: combine sensitivities of the vertices common to
 all parameters

---
 src/hypervehicle/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/utilities.py b/src/hypervehicle/utilities.py
index dd1c651..649b953 100644
--- a/src/hypervehicle/utilities.py
+++ b/src/hypervehicle/utilities.py
@@ -610,7 +610,7 @@ class SensitivityStudy:
                 p_s = sensitivities[param][component][
                     [f"dxd{param}", f"dyd{param}", f"dzd{param}"]
                 ]
-                df = pd.concat([df, p_s], axis=1)
+                df = pd.concat([df, p_s], axis=1, join="inner")
 
             allsens[component] = df
 
-- 
2.43.0


From 25ede5deab49c05154024d65a9e03e286be0f5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:55:47 +0000
Subject: [PATCH 26/30] fix: leave the caller's list of sensitivity files alone

---
 src/hypervehicle/utilities.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hypervehicle/utilities.py b/src/hypervehicle/utilities.py
index 649b953..83bdce9 100644
--- a/src/hypervehicle/utilities.py
+++ b/src/hypervehicle/utilities.py
@@ -698,6 +698,7 @@ def append_sensitivities_to_tri(
     points_df = pd.DataFrame(points_data_list, columns=["x", "y", "z"]).dropna()
 
     # Ensure previous components sensitivity file is not included
+    dp_filenames = list(dp_filenames)
     try:
         del dp_filenames[dp_filenames.index(combined_sens_fn)]
     except ValueError:
-- 
2.43.0


From c2fb3829ff88ce479d8efb7328dc507bb5240918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:18:22 +0000
Subject: [PATCH 27/30] fix: convert the X-43 flap angle from degrees to
 radians

---
 src/hypervehicle/hangar/x43.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/hangar/x43.py b/src/hypervehicle/hangar/x43.py
index ce1c8bb..4de6cd6 100644
--- a/src/hypervehicle/hangar/x43.py
+++ b/src/hypervehicle/hangar/x43.py
@@ -185,7 +185,7 @@ class ParametricX43(Generator):
             top_tf=wing2_tf_top,
             bot_tf=wing2_tf_bot,
             flap_length=self.flap_length,
-            flap_angle=self.flap_angle,
+            flap_angle=np.deg2rad(self.flap_angle),
             LE_wf=leading_edge_width_function,
             close_wing=True,
         )
-- 
2.43.0


From c56e6f6a12a7825052dd1ec976f3e1a1da5e376a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:23:21 +0000
Subject: [PATCH 28/30] fix: round a writable copy of the matched sensitivities

---
 src/hypervehicle/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/utilities.py b/src/hypervehicle/utilities.py
index 83bdce9..e47d01e 100644
--- a/src/hypervehicle/utilities.py
+++ b/src/hypervehicle/utilities.py
@@ -735,7 +735,7 @@ def append_sensitivities_to_tri(
         match = match_x & match_y & match_z
         try:
             # TODO - what if there are multiple matches? (due to intersect perturbations)
-            matched_data = dp_df[match].iloc[0][param_cols].values
+            matched_data = dp_df[match].iloc[0][param_cols].values.copy()
 
             # Round off infinitesimally small values
             matched_data[abs(matched_data) < rounding_tolerance] = 0
-- 
2.43.0


From d02df42a6fde2dac1204465acf19e0425c924ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:43:09 +0000
Subject: [PATCH 29/30] fix: reflecting a component twice keeps the patches of
 the first reflection

---
 src/hypervehicle/components/component.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/hypervehicle/components/component.py b/src/hypervehicle/components/component.py
index baeaa43..f7afec9 100644
--- a/src/hypervehicle/components/component.py
+++ b/src/hypervehicle/components/component.py
@@ -236,12 +236,16 @@ class Component(AbstractComponent):
             # Create mirrored patches
             mirrored_patches = {}
             for key, patch in self.patches.items():
-                mirrored_patches[f"{key}_mirrored"] = MirroredPatch(patch, axis=axis)
+                # Never reuse the name of another patch
+                mirrored_key = f"{key}_mirrored"
+                while mirrored_key in self.patches or mirrored_key in mirrored_patches:
+                    mirrored_key += "_mirrored"
+                mirrored_patches[mirrored_key] = MirroredPatch(patch, axis=axis)
 
                 # Mirrored patches keep the resolution of the original
                 for resolutions in (self.patch_res_r, self.patch_res_s):
                     if key in resolutions:
-                        resolutions[f"{key}_mirrored"] = resolutions[key]
+                        resolutions[mirrored_key] = resolutions[key]
 
             # Now either add the reflected patches to the same component, or
             # replace the patches with their reflected versions
-- 
2.43.0


From fca5156d867f93a228ed1c48955d62aeb1565171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:18:36 +0000
Subject: [PATCH 30/30] fix: transforming a vector to a local frame with an
 origin changes the vector itself

---
 src/hypervehicle/geometry/vector.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/hypervehicle/geometry/vector.py b/src/hypervehicle/geometry/vector.py
index 1fbdeb6..28a1a70 100644
--- a/src/hypervehicle/geometry/vector.py
+++ b/src/hypervehicle/geometry/vector.py
@@ -220,12 +220,11 @@ class Vector3:
         self, n: Vector3, t1: Vector3, t2: Vector3, c: Vector3 = None
     ):
         """Change coordinates into the local right-handed (RH) system at point c."""
-        if c is not None:
-            self -= c
+        rel = self if c is None else self - c
 
-        x = self.dot(n)
-        y = self.dot(t1)
-        z = self.dot(t2)
+        x = rel.dot(n)
+        y = rel.dot(t1)
+        z = rel.dot(t2)
 
         self._x = x
         self._y = y
-- 
2.43.0

