From c400319ab89786c76833960bf411dfe4978b5d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:36 +0000
Subject: [PATCH 01/36] fix: get_cell_centers loses the input mesh's ghost
 cells when it raises

---
 pvgridder/utils/_properties.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pvgridder/utils/_properties.py b/pvgridder/utils/_properties.py
index e602057..cacf154 100644
--- a/pvgridder/utils/_properties.py
+++ b/pvgridder/utils/_properties.py
@@ -118,9 +118,11 @@ def get_cell_centers(
     from vtk import __version__ as vtk_version
 
     centers = np.full((mesh.n_cells, 3), np.nan)
-    ghost_cells = (
-        mesh.cell_data.pop("vtkGhostType") if "vtkGhostType" in mesh.cell_data else None
-    )
+
+    if "vtkGhostType" in mesh.cell_data:
+        # Hide ghost cells on a shallow copy so that input mesh is left untouched
+        mesh = mesh.copy(deep=False)
+        mesh.cell_data.pop("vtkGhostType")
 
     if not isinstance(mesh, pv.UnstructuredGrid):
         centers[:] = mesh.cell_centers().points
@@ -201,9 +203,6 @@ def get_cell_centers(
                     # Compute centroid
                     center[:] = np.average(tetras.mean(axis=1), axis=0, weights=volumes)
 
-    if ghost_cells is not None:
-        mesh.cell_data["vtkGhostType"] = ghost_cells
-
     return centers
 
 
-- 
2.43.0


From af5440bb0c0581c30c7c56922ca1528f1ed13607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:36 +0000
Subject: [PATCH 02/36] fix: MeshStack3D.add_plane overwrites the caller's
 angles

---
 pvgridder/core/stack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/core/stack.py b/pvgridder/core/stack.py
index e5d1d9f..64b01fc 100644
--- a/pvgridder/core/stack.py
+++ b/pvgridder/core/stack.py
@@ -207,7 +207,7 @@ class MeshStack3D(MeshStackBase):
         """
         from scipy.spatial.transform import Rotation
 
-        angles = np.asanyarray(angles)
+        angles = np.array(angles)
         point = np.asanyarray(point)
 
         angles[self.axis] = 0.0
-- 
2.43.0


From 9cee64e10f814fbe2026f1f368edfb3f243eeb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:43 +0000
Subject: [PATCH 03/36] fix: VoronoiMesh2D.add flattens the caller's point
 array

---
 pvgridder/core/voronoi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/core/voronoi.py b/pvgridder/core/voronoi.py
index ff031ec..787beea 100644
--- a/pvgridder/core/voronoi.py
+++ b/pvgridder/core/voronoi.py
@@ -86,7 +86,7 @@ class VoronoiMesh2D(MeshBase):
         """
         if not isinstance(mesh_or_points, pv.DataSet):
             mesh_or_points = self._check_point_array(mesh_or_points)
-            mesh = pv.PolyData(mesh_or_points)
+            mesh = pv.PolyData(mesh_or_points.copy())
 
         else:
             mesh = mesh_or_points.copy()
-- 
2.43.0


From 0d5b9c48c446bd39ed4bdf8c978a447802460c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:43 +0000
Subject: [PATCH 04/36] fix: Volume reverses the polygons of its input surface

---
 pvgridder/core/_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/core/_helpers.py b/pvgridder/core/_helpers.py
index 09cdff9..e22d041 100644
--- a/pvgridder/core/_helpers.py
+++ b/pvgridder/core/_helpers.py
@@ -380,7 +380,7 @@ def generate_volume_from_two_surfaces(
         for ic, (i1, i2, celltype) in enumerate(
             zip(offset[:-1], offset[1:], celltypes)
         ):
-            cell = cell_connectivity[i1:i2]
+            cell = cell_connectivity[i1:i2].copy()
 
             # Handle pixel/voxel (convert to quad/hexahedron)
             if celltype == pv.CellType.VOXEL:
-- 
2.43.0


From 275f53b81b703140ed835696c2c885ccaa4684f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:36 +0000
Subject: [PATCH 05/36] fix: generate_mesh of stacks and merges alters the
 items it is built from

A second call to generate_mesh saw cut surfaces or renumbered groups.
---
 pvgridder/core/_base.py | 32 +++++++++++++++++++-------------
 pvgridder/core/merge.py |  2 +-
 2 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/pvgridder/core/_base.py b/pvgridder/core/_base.py
index e2263ee..126af38 100644
--- a/pvgridder/core/_base.py
+++ b/pvgridder/core/_base.py
@@ -445,13 +445,17 @@ class MeshStackBase(MeshBase):
         groups = {}
 
         # Cut intersecting meshes w.r.t. priority
-        for item1, item2 in zip(self.items[:-1], self.items[1:]):
+        surfaces = [item.mesh.copy() for item in self.items]
+
+        for item1, item2, mesh1, mesh2 in zip(
+            self.items[:-1], self.items[1:], surfaces[:-1], surfaces[1:]
+        ):
             if item2.transition:
                 continue
 
             shift = (
-                item2.mesh.points[:, self.axis]
-                - item1.mesh.points[:, self.axis]
+                mesh2.points[:, self.axis]
+                - mesh1.points[:, self.axis]
                 - item2.thickness
             )
 
@@ -459,36 +463,38 @@ class MeshStackBase(MeshBase):
                 shift *= -1.0
 
             if item2.priority < item1.priority:
-                item2.mesh.points[:, self.axis] = np.where(  # type: ignore
+                mesh2.points[:, self.axis] = np.where(  # type: ignore
                     shift < 0.0,
-                    item2.mesh.points[:, self.axis] - shift,
-                    item2.mesh.points[:, self.axis],
+                    mesh2.points[:, self.axis] - shift,
+                    mesh2.points[:, self.axis],
                 )
 
             else:
-                item1.mesh.points[:, self.axis] = np.where(  # type: ignore
+                mesh1.points[:, self.axis] = np.where(  # type: ignore
                     shift < 0.0,
-                    item1.mesh.points[:, self.axis] + shift,
-                    item1.mesh.points[:, self.axis],
+                    mesh1.points[:, self.axis] + shift,
+                    mesh1.points[:, self.axis],
                 )
 
         # Generate submeshes
         meshes = []
         n_layers = 0
 
-        for i, (item1, item2) in enumerate(zip(self.items[:-1], self.items[1:])):
-            mesh_a = item1.mesh.copy()
+        for i, (item2, mesh1, mesh2) in enumerate(
+            zip(self.items[1:], surfaces[:-1], surfaces[1:])
+        ):
+            mesh_a = mesh1.copy()
             mesh_a.cell_data["CellGroup"] = self._initialize_group_array(
                 mesh_a, groups, item2.group
             )
 
             if item2.transition:
-                mesh_b = self._transition(mesh_a, item2.mesh, groups, item2.group)
+                mesh_b = self._transition(mesh_a, mesh2, groups, item2.group)
                 nsub, repeats = 1, mesh_b.n_cells
                 mesh_b.cell_data["ColumnId"] = np.full(mesh_b.n_cells, -1)
 
             else:
-                mesh_b = extrude(mesh_a, item2.mesh, item2.resolution, item2.method)
+                mesh_b = extrude(mesh_a, mesh2, item2.resolution, item2.method)
                 nsub, repeats = mesh_b.n_cells // mesh_a.n_cells, mesh_a.n_cells
                 mesh_b.cell_data["ColumnId"] = np.tile(
                     np.arange(mesh_a.n_cells), nsub
diff --git a/pvgridder/core/merge.py b/pvgridder/core/merge.py
index 7a55487..aed03dd 100644
--- a/pvgridder/core/merge.py
+++ b/pvgridder/core/merge.py
@@ -92,7 +92,7 @@ class MeshMerge(MeshBase):
         groups = {}
 
         for i, item in enumerate(self.items):
-            mesh_b = cast(pv.UnstructuredGrid, item.mesh)
+            mesh_b = cast(pv.UnstructuredGrid, item.mesh.copy())
             mesh_b.cell_data["CellGroup"] = self._initialize_group_array(
                 mesh_b, groups, default_group=item.group
             )
-- 
2.43.0


From 83f9300564ac33207f5112764d6b2bd9eb1c968a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:36 +0000
Subject: [PATCH 06/36] fix: MeshExtrude and MeshMerge share arrays with the
 caller's meshes

---
 pvgridder/core/extrude.py | 1 +
 pvgridder/core/merge.py   | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvgridder/core/extrude.py b/pvgridder/core/extrude.py
index b95a752..55ea39e 100644
--- a/pvgridder/core/extrude.py
+++ b/pvgridder/core/extrude.py
@@ -63,6 +63,7 @@ class MeshExtrude(MeshBase):
         if isinstance(mesh, (pv.ImageData, pv.RectilinearGrid)):
             mesh = mesh.cast_to_structured_grid()
 
+        mesh = mesh.copy()
         super().__init__(default_group, ignore_groups, items=[MeshItem(mesh)])
         self._mesh = mesh
         self._angle = angle
diff --git a/pvgridder/core/merge.py b/pvgridder/core/merge.py
index aed03dd..63f63dd 100644
--- a/pvgridder/core/merge.py
+++ b/pvgridder/core/merge.py
@@ -59,7 +59,7 @@ class MeshMerge(MeshBase):
             Self (for daisy chaining).
 
         """
-        mesh = mesh.cast_to_unstructured_grid()
+        mesh = mesh.copy().cast_to_unstructured_grid()
 
         # Check for existing user_dict
         if "_PYVISTA_USER_DICT" not in mesh.field_data:
-- 
2.43.0


From 6dbf56463d99f27781c7afdd50c320e570bca636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:44 +0000
Subject: [PATCH 07/36] fix: VoronoiMesh2D accepts unknown preferences and
 orientations

---
 pvgridder/core/voronoi.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pvgridder/core/voronoi.py b/pvgridder/core/voronoi.py
index 787beea..110b0bb 100644
--- a/pvgridder/core/voronoi.py
+++ b/pvgridder/core/voronoi.py
@@ -52,6 +52,9 @@ class VoronoiMesh2D(MeshBase):
         ignore_groups: Optional[Sequence[str]] = None,
     ) -> None:
         """Initialize a 2D Voronoi mesh."""
+        if preference not in {"cell", "point"}:
+            raise ValueError(f"invalid preference '{preference}'")
+
         super().__init__(default_group, ignore_groups)
         self._mesh = mesh.copy()
         self._axis = axis
@@ -229,6 +232,9 @@ class VoronoiMesh2D(MeshBase):
         """
         from .. import extract_cells, split_lines
 
+        if preference not in {"cell", "point"}:
+            raise ValueError(f"invalid preference '{preference}'")
+
         if not isinstance(mesh_or_points, pv.PolyData):
             mesh = pv.MultipleLines(np.asanyarray(mesh_or_points))
 
@@ -363,6 +369,9 @@ class VoronoiMesh2D(MeshBase):
             get_cell_centers,
         )
 
+        if orientation not in {"CCW", "CW"}:
+            raise ValueError(f"invalid orientation '{orientation}'")
+
         groups = {}
         items = sorted(self.items, key=lambda item: abs(item.priority))
 
-- 
2.43.0


From 9f78ec33d50aa0026bc00c41d69a7ea3ba405572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:44 +0000
Subject: [PATCH 08/36] fix: stacks accept unknown extrapolation methods when
 interpolating along a line

---
 pvgridder/core/_base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pvgridder/core/_base.py b/pvgridder/core/_base.py
index 126af38..0fd5cf9 100644
--- a/pvgridder/core/_base.py
+++ b/pvgridder/core/_base.py
@@ -379,6 +379,9 @@ class MeshStackBase(MeshBase):
             Self (for daisy chaining).
 
         """
+        if extrapolation and extrapolation != "nearest":
+            raise ValueError(f"invalid extrapolation method '{extrapolation}'")
+
         if isinstance(arg, (pv.PolyData, pv.StructuredGrid, pv.UnstructuredGrid)):
             mesh = self._interpolate(arg.points, extrapolation)
 
-- 
2.43.0


From a83b1f958c8fe5ef9aff4d3474c708a36677c92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:44 +0000
Subject: [PATCH 09/36] fix: get_cell_centers accepts unknown polyhedron
 methods

---
 pvgridder/utils/_properties.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pvgridder/utils/_properties.py b/pvgridder/utils/_properties.py
index cacf154..19dbfff 100644
--- a/pvgridder/utils/_properties.py
+++ b/pvgridder/utils/_properties.py
@@ -117,6 +117,9 @@ def get_cell_centers(
     from pyvista.core.cell import _get_irregular_cells
     from vtk import __version__ as vtk_version
 
+    if polyhedron_method not in {None, "box", "geometric", "tetra"}:
+        raise ValueError(f"invalid polyhedron method '{polyhedron_method}'")
+
     centers = np.full((mesh.n_cells, 3), np.nan)
 
     if "vtkGhostType" in mesh.cell_data:
-- 
2.43.0


From 8140533804e6523e3c4079124dbc696c48de265c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:44 +0000
Subject: [PATCH 10/36] fix: interactive_lasso_selection accepts unknown
 preferences

---
 pvgridder/utils/_interactive.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pvgridder/utils/_interactive.py b/pvgridder/utils/_interactive.py
index 6827312..d362762 100644
--- a/pvgridder/utils/_interactive.py
+++ b/pvgridder/utils/_interactive.py
@@ -82,6 +82,9 @@ def interactive_lasso_selection(
 
     from .. import get_cell_centers
 
+    if preference not in {"cell", "point"}:
+        raise ValueError(f"invalid preference '{preference}'")
+
     kwargs_: dict[str, Any] = {
         "scalar_bar_args": {
             "vertical": True,
-- 
2.43.0


From 4f38b44b8cd57b50d060431c37a868cbb8ea517a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:48 +0000
Subject: [PATCH 11/36] fix: StructuredSurface assigns line data to the wrong
 points and cells

Data arrays of the line were tiled as if the line always varied the fastest,
which is wrong for the transposed planes (yx, zx and zy), and point data
ignored the order in which the points are visited by the polyline.
---
 pvgridder/core/_helpers.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/pvgridder/core/_helpers.py b/pvgridder/core/_helpers.py
index e22d041..806e8b4 100644
--- a/pvgridder/core/_helpers.py
+++ b/pvgridder/core/_helpers.py
@@ -143,8 +143,8 @@ def generate_surface_from_two_lines(
 
     """
 
-    def get_points(line: pv.PolyData | ArrayLike) -> NDArray:
-        """Get line points."""
+    def get_points(line: pv.PolyData | ArrayLike) -> tuple[NDArray, NDArray | None]:
+        """Get line points and their indices."""
         if isinstance(line, pv.PolyData):
             # Use the first continuous polyline if available
             if line.n_lines:
@@ -156,13 +156,13 @@ def generate_surface_from_two_lines(
                 ids = line.irregular_faces[0]
                 ids = np.append(ids, ids[0])
 
-            return line.points[ids]
+            return line.points[ids], ids
 
         else:
-            return np.asanyarray(line)
+            return np.asanyarray(line), None
 
-    line_points_a = get_points(line_a)
-    line_points_b = get_points(line_b)
+    line_points_a, ids_a = get_points(line_a)
+    line_points_b, _ = get_points(line_b)
 
     if line_points_a.shape != line_points_b.shape:
         raise ValueError(
@@ -210,13 +210,24 @@ def generate_surface_from_two_lines(
     mesh = pv.StructuredGrid(X, Y, Z)
 
     if isinstance(line_a, pv.PolyData):
+        # The line varies slower than the subdivisions if the plane is transposed
+        transposed = plane in {"yx", "zx", "zy"}
+
         reps = (perc.size, 1)
         for k, v in line_a.point_data.items():
-            mesh.point_data[k] = np.tile(v, reps[: v.ndim]).copy()
+            mesh.point_data[k] = (
+                np.repeat(v[ids_a], perc.size, axis=0)
+                if transposed
+                else np.tile(v[ids_a], reps[: v.ndim]).copy()
+            )
 
         reps = (perc.size - 1, 1)
         for k, v in line_a.cell_data.items():
-            mesh.cell_data[k] = np.tile(v, reps[: v.ndim]).copy()
+            mesh.cell_data[k] = (
+                np.repeat(v, perc.size - 1, axis=0)
+                if transposed
+                else np.tile(v, reps[: v.ndim]).copy()
+            )
 
     # Handle collapsed cells
     if "vtkGhostType" not in mesh.cell_data:
-- 
2.43.0


From bf51bae543014aee56a89823a63f1bc79f791163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:28 +0000
Subject: [PATCH 12/36] fix: LayerId and ColumnId are wrong unless layers vary
 the slowest

The arrays were built as if the extrusion axis of structured meshes were
always the last one. Column indices are now extruded with the mesh and layer
indices are derived from the structured shape.
---
 pvgridder/core/_base.py   | 28 +++++++++++++++++++---------
 pvgridder/core/extrude.py | 20 +++++++++-----------
 2 files changed, 28 insertions(+), 20 deletions(-)

diff --git a/pvgridder/core/_base.py b/pvgridder/core/_base.py
index 0fd5cf9..3b779b7 100644
--- a/pvgridder/core/_base.py
+++ b/pvgridder/core/_base.py
@@ -229,6 +229,18 @@ class MeshBase(ABC):
 
         return mesh
 
+    @staticmethod
+    def _get_layer_ids(
+        mesh: pv.StructuredGrid | pv.UnstructuredGrid, n_layers: int, axis: int
+    ) -> NDArray:
+        """Get layer index of each cell of an extruded mesh."""
+        if isinstance(mesh, pv.StructuredGrid):
+            shape = [max(1, n - 1) for n in mesh.dimensions]
+
+            return np.indices(shape)[axis].ravel(order="F")
+
+        return np.repeat(np.arange(n_layers), mesh.n_cells // n_layers)
+
     @staticmethod
     def _get_group_number(group: str, groups: dict) -> int:
         """Get group number."""
@@ -493,19 +505,17 @@ class MeshStackBase(MeshBase):
 
             if item2.transition:
                 mesh_b = self._transition(mesh_a, mesh2, groups, item2.group)
-                nsub, repeats = 1, mesh_b.n_cells
+                nsub = 1
                 mesh_b.cell_data["ColumnId"] = np.full(mesh_b.n_cells, -1)
 
             else:
+                mesh_a.cell_data["ColumnId"] = np.arange(mesh_a.n_cells)
                 mesh_b = extrude(mesh_a, mesh2, item2.resolution, item2.method)
-                nsub, repeats = mesh_b.n_cells // mesh_a.n_cells, mesh_a.n_cells
-                mesh_b.cell_data["ColumnId"] = np.tile(
-                    np.arange(mesh_a.n_cells), nsub
-                ).copy()
-
-            mesh_b.cell_data["LayerId"] = np.repeat(
-                np.arange(nsub) + n_layers, repeats
-            ).copy()
+                nsub = mesh_b.n_cells // mesh_a.n_cells
+
+            mesh_b.cell_data["LayerId"] = (
+                self._get_layer_ids(mesh_b, nsub, self.axis) + n_layers
+            )
             mesh_b.cell_data["StackItem"] = np.full(mesh_b.n_cells, i)
             meshes.append(mesh_b)
             n_layers += nsub
diff --git a/pvgridder/core/extrude.py b/pvgridder/core/extrude.py
index 55ea39e..8925c4f 100644
--- a/pvgridder/core/extrude.py
+++ b/pvgridder/core/extrude.py
@@ -164,6 +164,11 @@ class MeshExtrude(MeshBase):
         if len(self.items) <= 1:
             raise ValueError("not enough items to extrude")
 
+        axis = (
+            self.mesh.dimensions.index(1)
+            if isinstance(self.mesh, pv.StructuredGrid)
+            else None
+        )
         groups = {}
 
         # Generate submeshes
@@ -176,27 +181,20 @@ class MeshExtrude(MeshBase):
                 mesh_a, groups, item2.group
             )
 
+            mesh_a.cell_data["ColumnId"] = np.arange(mesh_a.n_cells)
             mesh_b = generate_volume_from_two_surfaces(
                 mesh_a, item2.mesh, item2.resolution, item2.method
             )
 
             nsub = mesh_b.n_cells // mesh_a.n_cells
-            mesh_b.cell_data["ColumnId"] = np.tile(
-                np.arange(mesh_a.n_cells), nsub
-            ).copy()
-            mesh_b.cell_data["LayerId"] = np.repeat(
-                np.arange(nsub) + n_layers, mesh_a.n_cells
-            ).copy()
+            mesh_b.cell_data["LayerId"] = (
+                self._get_layer_ids(mesh_b, nsub, axis) + n_layers
+            )
             mesh_b.cell_data["ExtrudeItem"] = np.full(mesh_b.n_cells, i)
             meshes.append(mesh_b)
             n_layers += nsub
 
         # Merge submeshes
-        axis = (
-            self.mesh.dimensions.index(1)
-            if isinstance(self.mesh, pv.StructuredGrid)
-            else None
-        )
         mesh = merge(meshes, axis=axis, merge_points=False)
         mesh.user_dict["CellGroup"] = groups
         _ = mesh.set_active_scalars("CellGroup", preference="cell")
-- 
2.43.0


From 2df32303577f15998b7010c6da067c2c117649b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:07 +0000
Subject: [PATCH 13/36] fix: merging structured grids fails with
 multi-component cell data

---
 pvgridder/utils/_misc.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 4a60381..16abcc6 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -970,11 +970,13 @@ def merge(
                     {
                         k: np.concatenate(
                             (
-                                v.reshape(shape_a, order="F"),
-                                mesh_b.cell_data[k].reshape(shape_b, order="F"),
+                                v.reshape((*shape_a, *v.shape[1:]), order="F"),
+                                mesh_b.cell_data[k].reshape(
+                                    (*shape_b, *v.shape[1:]), order="F"
+                                ),
                             ),
                             axis=axis,
-                        ).ravel(order="F")
+                        ).reshape((-1, *v.shape[1:]), order="F")
                         for k, v in mesh_a.cell_data.items()
                         if k in mesh_b.cell_data
                     }
-- 
2.43.0


From 00f16f263e38dd1172795591d8da65eea5413f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:30 +0000
Subject: [PATCH 14/36] fix: top-down stacks push intersecting surfaces the
 wrong way

---
 pvgridder/core/_base.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pvgridder/core/_base.py b/pvgridder/core/_base.py
index 3b779b7..f917048 100644
--- a/pvgridder/core/_base.py
+++ b/pvgridder/core/_base.py
@@ -468,26 +468,23 @@ class MeshStackBase(MeshBase):
             if item2.transition:
                 continue
 
+            sign = 1.0 if self.bottom_up else -1.0
             shift = (
-                mesh2.points[:, self.axis]
-                - mesh1.points[:, self.axis]
+                sign * (mesh2.points[:, self.axis] - mesh1.points[:, self.axis])
                 - item2.thickness
             )
 
-            if not self.bottom_up:
-                shift *= -1.0
-
             if item2.priority < item1.priority:
                 mesh2.points[:, self.axis] = np.where(  # type: ignore
                     shift < 0.0,
-                    mesh2.points[:, self.axis] - shift,
+                    mesh2.points[:, self.axis] - sign * shift,
                     mesh2.points[:, self.axis],
                 )
 
             else:
                 mesh1.points[:, self.axis] = np.where(  # type: ignore
                     shift < 0.0,
-                    mesh1.points[:, self.axis] + shift,
+                    mesh1.points[:, self.axis] + sign * shift,
                     mesh1.points[:, self.axis],
                 )
 
-- 
2.43.0


From 912e40e44ce6c1a6ae5a9602354c092e69daac5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:21 +0000
Subject: [PATCH 15/36] fix: SectorRectangle and SectorSquare ignore
 theta_method along the arc

---
 pvgridder/core/geometric_objects.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvgridder/core/geometric_objects.py b/pvgridder/core/geometric_objects.py
index 417b7ef..779798d 100644
--- a/pvgridder/core/geometric_objects.py
+++ b/pvgridder/core/geometric_objects.py
@@ -1000,8 +1000,8 @@ def SectorRectangle(
     line_y = generate_line_from_two_points(
         [dx, dy], [dx, 0.0], theta_resolution, theta_method
     )
-    line_45 = generate_arc(radius, 45.0, 0.0, theta_resolution)
-    line_90 = generate_arc(radius, 45.0, 90.0, theta_resolution)
+    line_45 = generate_arc(radius, 45.0, 0.0, theta_resolution, theta_method)
+    line_90 = generate_arc(radius, 45.0, 90.0, theta_resolution, theta_method)
     mesh_y45 = StructuredSurface(line_45, line_y, "xy", r_resolution, r_method)
     mesh_x90 = StructuredSurface(line_90, line_x, "xy", r_resolution, r_method)
     mesh = mesh_y45.cast_to_unstructured_grid() + mesh_x90.cast_to_unstructured_grid()
-- 
2.43.0


From b388f473231919d422ec1e0ea76b1a95bed8f9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:43 +0000
Subject: [PATCH 16/36] fix: convex point sets are reported as zero-dimensional

---
 pvgridder/utils/_properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/utils/_properties.py b/pvgridder/utils/_properties.py
index 19dbfff..90e1f77 100644
--- a/pvgridder/utils/_properties.py
+++ b/pvgridder/utils/_properties.py
@@ -317,7 +317,7 @@ _dimension_map = np.array(
         -1,
         -1,
         -1,
-        0,  # CONVEX_POINT_SET
+        3,  # CONVEX_POINT_SET
         3,  # POLYHEDRON
         -1,
         -1,
-- 
2.43.0


From 64e3531d3d66e67ec80433434d019f67ade9c0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:00 +0000
Subject: [PATCH 17/36] fix: extract_cell_geometry does not report unsupported
 3D cell types

---
 pvgridder/utils/_misc.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 16abcc6..ce86a69 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -419,20 +419,16 @@ def extract_cell_geometry(
 
     else:
         # Generate face data
-        if np.ptp(celltypes) == 0:
+        if np.ptp(celltypes) == 0 and celltypes[0] in _celltype_to_faces:
             celltype = celltypes[0]
-            cell_faces = (
+            cell_faces = [
                 [
-                    [
-                        face
-                        for v in _celltype_to_faces[celltype].values()
-                        for face in cell[v]
-                    ]
-                    for cell in connectivity
+                    face
+                    for v in _celltype_to_faces[celltype].values()
+                    for face in cell[v]
                 ]
-                if celltype != pv.CellType.POLYHEDRON
-                else connectivity
-            )
+                for cell in connectivity
+            ]
 
         else:
             cell_faces = []
@@ -453,7 +449,7 @@ def extract_cell_geometry(
 
                 else:
                     raise NotImplementedError(
-                        f"cells of type '{celltype.name}' are not supported yet"
+                        f"cells of type '{pv.CellType(celltype).name}' are not supported yet"
                     )
 
                 cell_faces.append(cell_face)
-- 
2.43.0


From 70dd53186def0f47e64bdc6489fd18693837274f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:01 +0000
Subject: [PATCH 18/36] fix: extract_cell_geometry drops cell ids shared by all
 remaining faces

---
 pvgridder/utils/_misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index ce86a69..4e54188 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -412,7 +412,7 @@ def extract_cell_geometry(
             if not mask.all():
                 lines = poly.lines.reshape((poly.n_lines, 3))[mask]
                 tmp = poly.cell_data["vtkOriginalCellIds"][mask]
-                tmp = tmp[:, np.ptp(tmp, axis=0) > 0]
+                tmp = tmp[:, (tmp != -1).any(axis=0)]
 
                 poly = pv.PolyData(poly.points, lines=lines)
                 poly.cell_data["vtkOriginalCellIds"] = tmp
@@ -468,7 +468,7 @@ def extract_cell_geometry(
                     face for face, mask_ in zip(poly.irregular_faces, mask) if mask_
                 ]
                 tmp = poly.cell_data["vtkOriginalCellIds"][mask]
-                tmp = tmp[:, np.ptp(tmp, axis=0) > 0]
+                tmp = tmp[:, (tmp != -1).any(axis=0)]
 
                 poly = pv.PolyData().from_irregular_faces(poly.points, faces)
                 poly.cell_data["vtkOriginalCellIds"] = tmp
-- 
2.43.0


From 9759cf8e27f8d1ec7be67ab48ff7c736ab1df56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:30 +0000
Subject: [PATCH 19/36] fix: neighborhood and connectivity fail unless every
 face has two cells

---
 pvgridder/utils/_connectivity.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/pvgridder/utils/_connectivity.py b/pvgridder/utils/_connectivity.py
index f368aea..0646328 100644
--- a/pvgridder/utils/_connectivity.py
+++ b/pvgridder/utils/_connectivity.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import itertools
 from typing import TYPE_CHECKING
 
 import numpy as np
@@ -37,10 +38,7 @@ def get_neighborhood(
     neighbors = [[] for _ in range(mesh.n_cells)]
     mesh = extract_cell_geometry(mesh, remove_ghost_cells)
 
-    for i1, i2 in mesh["vtkOriginalCellIds"]:
-        if i1 == -1 or i2 == -1:
-            continue
-
+    for i1, i2 in _get_cell_pairs(mesh):
         neighbors[i1].append(i2)
         neighbors[i2].append(i1)
 
@@ -82,7 +80,18 @@ def get_connectivity(
         )
 
     mesh = extract_cell_geometry(mesh, remove_ghost_cells)
-    lines = [(i1, i2) for i1, i2 in mesh["vtkOriginalCellIds"] if i1 != -1 and i2 != -1]
+    lines = np.reshape(_get_cell_pairs(mesh), (-1, 2)).astype(int)
     lines = np.column_stack((np.full(len(lines), 2), lines)).ravel()
 
     return pv.PolyData(cell_centers, lines=lines)
+
+
+def _get_cell_pairs(mesh: pv.PolyData) -> list[tuple[int, int]]:
+    """Get pairs of cells that share a face (or an edge)."""
+    cell_ids = mesh.cell_data["vtkOriginalCellIds"].reshape((mesh.n_cells, -1))
+
+    return [
+        pair
+        for ids in cell_ids
+        for pair in itertools.combinations(np.unique(ids[ids != -1]), 2)
+    ]
-- 
2.43.0


From 6d87f8280f158fa8fb59602cf0fe4ecc00550af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:55 +0000
Subject: [PATCH 20/36] fix: compare base mesh groups through the base mesh's
 own numbering

String group selectors looked base mesh groups up in the numbering of the
mesh being built, which differs as soon as groups are numbered in another
order, are ignored or come from several meshes.
---
 pvgridder/core/_base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pvgridder/core/_base.py b/pvgridder/core/_base.py
index f917048..47fbbe6 100644
--- a/pvgridder/core/_base.py
+++ b/pvgridder/core/_base.py
@@ -157,9 +157,9 @@ class MeshBase(ABC):
 
                 elif isinstance(v, str):
                     mask = (
-                        mesh.cell_data["CellGroup"] != groups[v[1:]]
+                        mesh.cell_data["CellGroup"] != mesh.user_dict["CellGroup"][v[1:]]
                         if v.startswith("~")
-                        else mesh.cell_data["CellGroup"] == groups[v]
+                        else mesh.cell_data["CellGroup"] == mesh.user_dict["CellGroup"][v]
                     )
 
                 elif isinstance(v, (list, tuple, np.ndarray)) and all(
@@ -169,9 +169,9 @@ class MeshBase(ABC):
 
                     for cid in v:
                         mask |= (
-                            mesh.cell_data["CellGroup"] != groups[cid[1:]]
+                            mesh.cell_data["CellGroup"] != mesh.user_dict["CellGroup"][cid[1:]]
                             if cid.startswith("~")
-                            else mesh.cell_data["CellGroup"] == groups[cid]
+                            else mesh.cell_data["CellGroup"] == mesh.user_dict["CellGroup"][cid]
                         )
 
                 else:
-- 
2.43.0


From 63bd01604cc9eed4a8f8ab662b8e604c818d3190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:23 +0000
Subject: [PATCH 21/36] fix: RectangleSector accepted zero and negative radii

---
 pvgridder/core/geometric_objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/core/geometric_objects.py b/pvgridder/core/geometric_objects.py
index 779798d..12cbfcb 100644
--- a/pvgridder/core/geometric_objects.py
+++ b/pvgridder/core/geometric_objects.py
@@ -834,7 +834,7 @@ def RectangleSector(
         Rectangle mesh with sector removed at the center.
 
     """
-    if 0.0 < radius < (dx**2 + dy**2) ** 0.5:
+    if radius < (dx**2 + dy**2) ** 0.5:
         raise ValueError("invalid sector radius")
 
     line_x = generate_line_from_two_points([dx, dy], [0.0, dy], x_resolution, x_method)
-- 
2.43.0


From a9e7fa583093ff0a3e9276e886657ecd1e5259cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:55 +0000
Subject: [PATCH 22/36] fix: levels given as points do not depend on the order
 of the points

---
 pvgridder/core/_base.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pvgridder/core/_base.py b/pvgridder/core/_base.py
index 47fbbe6..3232bb6 100644
--- a/pvgridder/core/_base.py
+++ b/pvgridder/core/_base.py
@@ -564,12 +564,10 @@ class MeshStackBase(MeshBase):
         else:
             idx = idx[0]
             x = mesh.points[:, idx]
+            points = points[np.argsort(points[:, idx])]
             xp = points[:, idx]
 
-            if (
-                not (xp[0] <= x[0] <= xp[-1] and xp[0] <= x[-1] <= xp[-1])
-                and not extrapolation
-            ):
+            if not (xp[0] <= x.min() and x.max() <= xp[-1]) and not extrapolation:
                 raise ValueError(
                     "could not interpolate from points not fully enclosing base mesh"
                 )
-- 
2.43.0


From 78473399bd8f6bb0620b409ee65661c176aaa055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:15 +0000
Subject: [PATCH 23/36] fix: reconstruct_line never tried exchanging the last
 two points

---
 pvgridder/utils/_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 4e54188..904fdb0 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -1301,7 +1301,7 @@ def reconstruct_line(
     while True:
         best_length = shortest_length
 
-        for first in range(1, n - 2):
+        for first in range(1, n - 1):
             for last in range(first + 2, n + 1):
                 path[first:last] = np.flip(path[first:last])
                 length = path_length(path)
-- 
2.43.0


From 3457ee510549a76aedb289321d98b04402c4b587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:20 +0000
Subject: [PATCH 24/36] fix: average_points left the points it had averaged in
 meshes without faces

---
 pvgridder/utils/_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 904fdb0..18b5a94 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -88,7 +88,7 @@ def average_points(mesh: pv.PolyData, tolerance: float = 0.0) -> pv.PolyData:
         ]
 
     else:
-        new_mesh = pv.PolyData(new_points)
+        new_mesh = pv.PolyData(new_points[np.unique(point_map)])
 
     if mesh.n_lines:
         raise NotImplementedError()
-- 
2.43.0


From 0fc6fb1616428eddb34777079a4dc5ddc020661d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:22 +0000
Subject: [PATCH 25/36] fix: remap_categorical_data dropped the names of values
 it did not remap

---
 pvgridder/utils/_misc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 18b5a94..08da507 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -1414,7 +1414,8 @@ def remap_categorical_data(
 
     if data_labels:
         for k in unused_labels:
-            data_labels.pop(k, None)
+            if not (data == data_labels[k]).any():
+                data_labels.pop(k, None)
 
         mesh.user_dict[key] = dict(sorted(data_labels.items(), key=lambda x: x[1]))
 
-- 
2.43.0


From fd4e35fda13fe8ae518408ddc144cd79ef94098d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:53 +0000
Subject: [PATCH 26/36] fix: offset_polygon counted the closing edge twice in
 the orientation test

---
 pvgridder/utils/_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 08da507..d67a03e 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -1132,7 +1132,7 @@ def offset_polygon(
             ),
         )
 
-        x, y = points.T
+        x, y = points[1:].T
         signed_area = (x[:-1] * y[1:] - x[1:] * y[:-1]).sum()
 
         vn = points[2:] - points[1:-1]
-- 
2.43.0


From 6676408c7c4c648ceb6eef5378bfb96a7d8f1ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:53 +0000
Subject: [PATCH 27/36] fix: offset_polygon moved polygons to the plane through
 the origin

---
 pvgridder/utils/_misc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index d67a03e..7a9e43e 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -1123,6 +1123,7 @@ def offset_polygon(
         # Simple polygon offset algorithm
         # Vectorized version of C# code
         # <https://stackoverflow.com/a/73061541/9729313>
+        height = points[0, axis]
         points = points[:, ~mask]
         points = np.vstack(
             (
@@ -1149,7 +1150,7 @@ def offset_polygon(
         points = points[1:-1] + dist[:, np.newaxis] * vb[:, [1, 0]]
 
         faces += [len(points), *(np.arange(len(points)) + len(points_))]
-        points_ += np.insert(points, axis, 0.0, axis=1).tolist()
+        points_ += np.insert(points, axis, height, axis=1).tolist()
 
     return pv.PolyData(points_, faces=faces)
 
-- 
2.43.0


From cab5394229b10055afe0b6e4ffacb7bf9b141fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:53 +0000
Subject: [PATCH 28/36] fix: Volume failed on vector cell data of a structured
 surface of one cell

---
 pvgridder/core/_helpers.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pvgridder/core/_helpers.py b/pvgridder/core/_helpers.py
index 806e8b4..8e9ba34 100644
--- a/pvgridder/core/_helpers.py
+++ b/pvgridder/core/_helpers.py
@@ -544,9 +544,10 @@ def repeat_structured_data(
 
     """
     data = np.asanyarray(data)
-    data = data if data.ndim == 2 else data[:, np.newaxis]
+    ndim = data.ndim
+    data = data if ndim == 2 else data[:, np.newaxis]
 
-    return np.column_stack(
+    data = np.column_stack(
         [
             np.repeat(
                 v.reshape(shape, order="F"),
@@ -555,7 +556,9 @@ def repeat_structured_data(
             ).ravel(order="F")
             for v in data.T
         ]
-    ).squeeze()
+    )
+
+    return data if ndim == 2 else data[:, 0]
 
 
 def translate(
-- 
2.43.0


From 660dbbaa1526c4c34399bffdb4c1ef61dbfb7365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:05 +0000
Subject: [PATCH 29/36] fix: VoronoiMesh2D judged the orientation of a cell by
 an open chain of three vertices

---
 pvgridder/core/voronoi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvgridder/core/voronoi.py b/pvgridder/core/voronoi.py
index 110b0bb..2031e83 100644
--- a/pvgridder/core/voronoi.py
+++ b/pvgridder/core/voronoi.py
@@ -483,7 +483,7 @@ class VoronoiMesh2D(MeshBase):
             cells += [len(points_), *(np.arange(len(points_)) + n_points)]
 
             # Ensure correct orientation
-            signed_area = self._compute_signed_area(points_[:3])
+            signed_area = self._compute_signed_area(points_)
 
             if (orientation == "CCW" and signed_area < 0.0) or (
                 orientation == "CW" and signed_area > 0.0
@@ -520,7 +520,7 @@ class VoronoiMesh2D(MeshBase):
         """Compute signed area of a polygon given its vertices."""
         x, y = points.T
 
-        return 0.5 * np.sum(x[:-1] * y[1:] - x[1:] * y[:-1])
+        return 0.5 * np.sum(x * np.roll(y, -1) - np.roll(x, -1) * y)
 
     def _generate_voronoi_tesselation(
         self,
-- 
2.43.0


From 5bd4859bf9a66a16c0cae86ffab9a42be1e356d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:45 +0000
Subject: [PATCH 30/36] fix: VoronoiMesh2D made empty cells for items outside
 the mesh

---
 pvgridder/core/voronoi.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pvgridder/core/voronoi.py b/pvgridder/core/voronoi.py
index 2031e83..96f956c 100644
--- a/pvgridder/core/voronoi.py
+++ b/pvgridder/core/voronoi.py
@@ -395,9 +395,11 @@ class VoronoiMesh2D(MeshBase):
             mask = self.mesh.find_containing_cell(get_cell_centers(mesh_a)) != -1
             mask = cast(NDArray, mask)
 
-            if mask.any():
-                mesh_a = extract_cells(mesh_a, mask)
-                points_ = points_[mask]
+            if not mask.any():
+                continue
+
+            mesh_a = extract_cells(mesh_a, mask)
+            points_ = points_[mask]
 
             # Initialize item arrays
             item_group_array = self._initialize_group_array(mesh_a, groups, item.group)
-- 
2.43.0


From 6ddcc6b82d270de1a1d6bba827e01ed7981eefac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:56 +0000
Subject: [PATCH 31/36] fix: VoronoiMesh2D.add_circle put its circle in the xy
 plane whatever the plane of the mesh

On a mesh of the xz or yz plane the circle was flattened to a segment. The center
given as an array was also kept by reference for the cells to fuse.
---
 pvgridder/core/voronoi.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/pvgridder/core/voronoi.py b/pvgridder/core/voronoi.py
index 96f956c..923ea2b 100644
--- a/pvgridder/core/voronoi.py
+++ b/pvgridder/core/voronoi.py
@@ -9,7 +9,11 @@ from pyrequire import require_package
 from scipy.spatial import Voronoi
 
 from ._base import MeshBase, MeshItem
-from ._helpers import generate_surface_from_two_lines, resolution_to_perc
+from ._helpers import (
+    generate_surface_from_two_lines,
+    resolution_to_perc,
+    translate,
+)
 
 
 if TYPE_CHECKING:
@@ -147,26 +151,36 @@ class VoronoiMesh2D(MeshBase):
             constraint_radius if constraint_radius is not None else 1.5 * radius
         )
         dr = constraint_radius - radius
+        center = np.zeros(3) if center is None else np.array(center)
+        center = np.insert(center, self.axis, 0.0) if len(center) == 2 else center
+
+        def place(
+            mesh: pv.StructuredGrid | pv.UnstructuredGrid,
+        ) -> pv.StructuredGrid | pv.UnstructuredGrid:
+            """Lay a mesh of the xy plane in the plane of the diagram."""
+            mesh.points = np.insert(mesh.points[:, :2], self.axis, 0.0, axis=1)
+
+            return translate(mesh, center)
 
         if dr > 0.0:
             self.add(
-                (
+                place(
                     MeshMerge()
-                    .add(Circle(radius - dr, resolution, center=center))
-                    .add(Annulus(radius - dr, radius, 1, resolution, center=center))
+                    .add(Circle(radius - dr, resolution))
+                    .add(Annulus(radius - dr, radius, 1, resolution))
                     .generate_mesh()
                 ),
                 priority=priority,
                 group=group,
             )
             self.add(
-                Annulus(radius, radius + dr, 1, resolution, center=center),
+                place(Annulus(radius, radius + dr, 1, resolution)),
                 priority=0,
             )
 
         elif dr == 0.0:
             self.add(
-                Circle(radius, resolution, center=center),
+                place(Circle(radius, resolution)),
                 priority=priority,
                 group=group,
             )
@@ -175,8 +189,6 @@ class VoronoiMesh2D(MeshBase):
             raise ValueError("invalid constraint radius")
 
         if plain:
-            center = np.zeros(3) if center is None else np.asanyarray(center)
-            center = np.insert(center, self.axis, 0.0) if len(center) == 2 else center
             self.fuse_cells.append(
                 lambda x: np.linalg.norm(x - center, axis=1) < radius
             )
-- 
2.43.0


From d8fa3fae0858b41cb2876aedac49fcd3fc316aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:56 +0000
Subject: [PATCH 32/36] fix: VoronoiMesh2D.add_circle fused no cell when the
 center was out of the plane

Everything is flattened along the axis, the center of the cells to fuse was not:
generate_mesh failed for a center given at the elevation of the mesh.
---
 pvgridder/core/voronoi.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pvgridder/core/voronoi.py b/pvgridder/core/voronoi.py
index 923ea2b..219add4 100644
--- a/pvgridder/core/voronoi.py
+++ b/pvgridder/core/voronoi.py
@@ -190,7 +190,10 @@ class VoronoiMesh2D(MeshBase):
 
         if plain:
             self.fuse_cells.append(
-                lambda x: np.linalg.norm(x - center, axis=1) < radius
+                lambda x: np.linalg.norm(
+                    np.delete(x - center, self.axis, axis=1), axis=1
+                )
+                < radius
             )
 
         return self
-- 
2.43.0


From 3efdeb625a2d8989073f7583bdd57d8f61cee0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:56 +0000
Subject: [PATCH 33/36] fix: VoronoiMesh2D.generate_mesh failed when a plain
 circle covers no cell

---
 pvgridder/core/voronoi.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pvgridder/core/voronoi.py b/pvgridder/core/voronoi.py
index 219add4..4732d86 100644
--- a/pvgridder/core/voronoi.py
+++ b/pvgridder/core/voronoi.py
@@ -527,8 +527,15 @@ class VoronoiMesh2D(MeshBase):
         # Fuse cells, if any
         if self.fuse_cells:
             points = get_cell_centers(mesh)
-            indices = [func(points) for func in self.fuse_cells]
-            mesh = fuse_cells(mesh, indices)
+            indices = [np.asanyarray(func(points)) for func in self.fuse_cells]
+            indices = [
+                np.flatnonzero(ind) if ind.dtype.kind == "b" else ind
+                for ind in indices
+            ]
+            indices = [ind for ind in indices if ind.size > 0]
+
+            if indices:
+                mesh = fuse_cells(mesh, indices)
 
         return cast(pv.UnstructuredGrid, self._clean(mesh, tolerance))
 
-- 
2.43.0


From ae345ac5c33a17475da8b7f0542b022fdf86e3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:19 +0000
Subject: [PATCH 34/36] fix: extract_boundary_polygons found holes in the xy
 plane only

Shapely ignores the third coordinate: polygons of the xz and yz planes had no area,
so that their holes were returned as polygons of their own.
---
 pvgridder/utils/_misc.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 7a9e43e..fff19ae 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -252,7 +252,17 @@ def extract_boundary_polygons(
     # Identify holes
     if with_holes:
         holes = {}
-        polygons = [shapely.Polygon(edge.points) for edge in edges]
+        # Shapely polygons are two-dimensional: keep the projection with most area
+        polygons = max(
+            (
+                [
+                    shapely.Polygon(np.delete(edge.points, axis, axis=1))
+                    for edge in edges
+                ]
+                for axis in (2, 1, 0)
+            ),
+            key=lambda polygons: sum(polygon.area for polygon in polygons),
+        )
 
         for i, j in itertools.permutations(range(len(polygons)), 2):
             if i in holes or j in holes:
-- 
2.43.0


From 6b0e012d2809e7779afb8d47fd7dc154da96bd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:19 +0000
Subject: [PATCH 35/36] fix: extract_boundary_polygons took a part inside a
 hole for another hole

Whether it did depended on the order of the boundaries.
---
 pvgridder/utils/_misc.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index fff19ae..11536b8 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -264,14 +264,18 @@ def extract_boundary_polygons(
             key=lambda polygons: sum(polygon.area for polygon in polygons),
         )
 
-        for i, j in itertools.permutations(range(len(polygons)), 2):
-            if i in holes or j in holes:
-                continue
+        containers = [[] for _ in polygons]
 
+        for i, j in itertools.permutations(range(len(polygons)), 2):
             if polygons[i].area > polygons[j].area and polygons[i].contains(
                 polygons[j]
             ):
-                holes[j] = i
+                containers[j].append(i)
+
+        # A polygon within an odd number of others is a hole of the smallest of them
+        for j, ind in enumerate(containers):
+            if len(ind) % 2 == 1:
+                holes[j] = min(ind, key=lambda i: polygons[i].area)
 
         # Group boundary edges and holes
         polygons = [[edge] if i not in holes else [] for i, edge in enumerate(edges)]
-- 
2.43.0


From 90d35df7eb59a670daeec81d02855aa1c0577492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:25 +0000
Subject: [PATCH 36/36] fix: keep the user data (group names) of a mesh on its
 split lines

---
 pvgridder/utils/_misc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 11536b8..bee0f50 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -1491,6 +1491,7 @@ def split_lines(mesh: pv.PolyData, as_lines: bool = True) -> Sequence[pv.PolyDat
                 else np.tile(v[i], (line.n_cells, 1)).copy()
             )
 
+        line.user_dict.update(mesh.user_dict)
         lines.append(line)
 
     return lines
-- 
2.43.0

