From 236c88061261e4dc801e031e103ca37f195bf8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:38 +0000
Subject: [PATCH 01/63] fix: Simple mesh records xz and yz faces of a node
 under their own IDs

---
 src/mesh/mesh_simple/Mesh_simple.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/mesh/mesh_simple/Mesh_simple.cc b/src/mesh/mesh_simple/Mesh_simple.cc
index 34002e7..8e2c0ee 100644
--- a/src/mesh/mesh_simple/Mesh_simple.cc
+++ b/src/mesh/mesh_simple/Mesh_simple.cc
@@ -548,22 +548,22 @@ void Mesh_simple::update_internals_3d_() {
 
         jstart = faces_per_node_aug_*node_index_(ix, iy, iz);
         nfaces = node_to_face_[jstart];
-        node_to_face_[jstart+1+nfaces] = xyface_index_(ix, iy, iz);
+        node_to_face_[jstart+1+nfaces] = xzface_index_(ix, iy, iz);
         (node_to_face_[jstart])++;
 
         jstart = faces_per_node_aug_*node_index_(ix+1, iy, iz);
         nfaces = node_to_face_[jstart];
-        node_to_face_[jstart+1+nfaces] = xyface_index_(ix, iy, iz);
+        node_to_face_[jstart+1+nfaces] = xzface_index_(ix, iy, iz);
         (node_to_face_[jstart])++;
 
         jstart = faces_per_node_aug_*node_index_(ix+1, iy, iz+1);
         nfaces = node_to_face_[jstart];
-        node_to_face_[jstart+1+nfaces] = xyface_index_(ix, iy, iz);
+        node_to_face_[jstart+1+nfaces] = xzface_index_(ix, iy, iz);
         (node_to_face_[jstart])++;
 
         jstart = faces_per_node_aug_*node_index_(ix, iy, iz+1);
         nfaces = node_to_face_[jstart];
-        node_to_face_[jstart+1+nfaces] = xyface_index_(ix, iy, iz);
+        node_to_face_[jstart+1+nfaces] = xzface_index_(ix, iy, iz);
         (node_to_face_[jstart])++;
       }
   // finally we do the yz faces
@@ -581,22 +581,22 @@ void Mesh_simple::update_internals_3d_() {
 
         jstart = faces_per_node_aug_*node_index_(ix, iy, iz);
         nfaces = node_to_face_[jstart];
-        node_to_face_[jstart+1+nfaces] = xyface_index_(ix, iy, iz);
+        node_to_face_[jstart+1+nfaces] = yzface_index_(ix, iy, iz);
         (node_to_face_[jstart])++;
 
         jstart = faces_per_node_aug_*node_index_(ix, iy+1, iz);
         nfaces = node_to_face_[jstart];
-        node_to_face_[jstart+1+nfaces] = xyface_index_(ix, iy, iz);
+        node_to_face_[jstart+1+nfaces] = yzface_index_(ix, iy, iz);
         (node_to_face_[jstart])++;
 
         jstart = faces_per_node_aug_*node_index_(ix, iy+1, iz+1);
         nfaces = node_to_face_[jstart];
-        node_to_face_[jstart+1+nfaces] = xyface_index_(ix, iy, iz);
+        node_to_face_[jstart+1+nfaces] = yzface_index_(ix, iy, iz);
         (node_to_face_[jstart])++;
 
         jstart = faces_per_node_aug_*node_index_(ix, iy, iz+1);
         nfaces = node_to_face_[jstart];
-        node_to_face_[jstart+1+nfaces] = xyface_index_(ix, iy, iz);
+        node_to_face_[jstart+1+nfaces] = yzface_index_(ix, iy, iz);
         (node_to_face_[jstart])++;
       }
 
-- 
2.43.0


From ee5b36e08e1a433abd130aa5fff39fa94b4870ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:38 +0000
Subject: [PATCH 02/63] fix: Simple mesh adjacency queries return nothing when
 asked for ghosts

---
 src/mesh/mesh_simple/Mesh_simple.cc | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/mesh/mesh_simple/Mesh_simple.cc b/src/mesh/mesh_simple/Mesh_simple.cc
index 8e2c0ee..e86ac35 100644
--- a/src/mesh/mesh_simple/Mesh_simple.cc
+++ b/src/mesh/mesh_simple/Mesh_simple.cc
@@ -794,6 +794,10 @@ void Mesh_simple::node_get_cells(const Jali::Entity_ID nodeid,
 
   cellids->clear();
 
+  // No ghost entities of any type in this serial framework
+  if (ptype == Entity_type::PARALLEL_GHOST ||
+      ptype == Entity_type::BOUNDARY_GHOST) return;
+
   for (int i = 0; i < ncells; i++)
     cellids->push_back(node_to_cell_[offset+i+1]);
 }
@@ -808,6 +812,10 @@ void Mesh_simple::node_get_faces(const Jali::Entity_ID nodeid,
 
   faceids->clear();
 
+  // No ghost entities of any type in this serial framework
+  if (ptype == Entity_type::PARALLEL_GHOST ||
+      ptype == Entity_type::BOUNDARY_GHOST) return;
+
   for (int i = 0; i < nfaces; i++)
     faceids->push_back(node_to_face_[offset+i+1]);
 }
@@ -824,6 +832,10 @@ void Mesh_simple::node_get_cell_faces(const Jali::Entity_ID nodeid,
 
   faceids->clear();
 
+  // No ghost entities of any type in this serial framework
+  if (ptype == Entity_type::PARALLEL_GHOST ||
+      ptype == Entity_type::BOUNDARY_GHOST) return;
+
   for (int i = 0; i < faces_per_cell_; i++) {
     Entity_ID cellfaceid = cell_to_face_[offset+i];
 
@@ -875,6 +887,10 @@ void Mesh_simple::cell_get_face_adj_cells(const Jali::Entity_ID cellid,
 
   fadj_cellids->clear();
 
+  // No ghost entities of any type in this serial framework
+  if (ptype == Entity_type::PARALLEL_GHOST ||
+      ptype == Entity_type::BOUNDARY_GHOST) return;
+
   for (int i = 0; i < faces_per_cell_; i++) {
     Entity_ID faceid = cell_to_face_[offset];
 
@@ -905,6 +921,10 @@ void Mesh_simple::cell_get_node_adj_cells(const Jali::Entity_ID cellid,
 
   nadj_cellids->clear();
 
+  // No ghost entities of any type in this serial framework
+  if (ptype == Entity_type::PARALLEL_GHOST ||
+      ptype == Entity_type::BOUNDARY_GHOST) return;
+
   for (int i = 0; i < nodes_per_cell_; i++) {
     Entity_ID nodeid = cell_to_node_[offset+i];
 
-- 
2.43.0


From 7acffb06b3f7bc95071ca7632cc19d2924ef52ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 03/63] fix: print the name of an entity type, not that of the
 type before it

---
 src/mesh/MeshDefs.hh | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mesh/MeshDefs.hh b/src/mesh/MeshDefs.hh
index 0219930..539bd6d 100644
--- a/src/mesh/MeshDefs.hh
+++ b/src/mesh/MeshDefs.hh
@@ -173,8 +173,9 @@ const int NUM_ENTITY_TYPES = 6;
 
 inline
 bool valid_entity_type(const Entity_type type) {
+  // values run from -1 (TYPE_UNKNOWN, not a valid type) to NUM_ENTITY_TYPES-2
   int itype = static_cast<int>(type);
-  return (itype >= 0 && itype < NUM_ENTITY_TYPES);
+  return (itype >= 0 && itype < NUM_ENTITY_TYPES-1);
 }
 
 // Return a string describing the entity kind that can be printed out
@@ -185,8 +186,8 @@ std::string Entity_type_string(Entity_type const type) {
        "Entity_type::PARALLEL_OWNED", "Entity_type::PARALLEL_GHOST",
        "Entity_type::BOUNDARY_GHOST", "Entity_type::ALL"};
 
-  int itype = static_cast<int>(type);
-  return valid_entity_type(type) ? type_str[itype] : "";
+  int itype = static_cast<int>(type) + 1;  // first type has value -1
+  return (itype >= 0 && itype < NUM_ENTITY_TYPES) ? type_str[itype] : "";
 }
 
 
-- 
2.43.0


From 67d372ad14b18b30d2c8fb0c6f73f8a78229121f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:38 +0000
Subject: [PATCH 04/63] fix: edge directions of cells are cached for surface
 meshes too

---
 src/mesh/Mesh.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 3d73d11..800fe04 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -186,12 +186,12 @@ void Mesh::cache_cell2edge_info() const {
   if (space_dim_ == 1) {
     for (auto const& c : cells())
       cell_get_nodes(c, &(cell_edge_ids[c]));   // edges are same as nodes
-  } else if (space_dim_ == 2) {
+  } else if (manifold_dim_ == 2) {  // planar and surface meshes
     cell_2D_edge_dirs.resize(ncells);
     for (auto const& c : cells())
       cell_2D_get_edges_and_dirs_internal(c, &(cell_edge_ids[c]),
                                           &(cell_2D_edge_dirs[c]));
-  } else if (space_dim_ == 3) {
+  } else if (manifold_dim_ == 3) {
     for (auto const& c : cells())
       cell_get_edges_internal(c, &(cell_edge_ids[c]));
   }
-- 
2.43.0


From cc8749200225e56112bc9e19908d27ed90fc992d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 05/63] fix: point_in_polyhed skips the coordinates of
 triangular faces too

---
 src/geometry/Geometry.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geometry/Geometry.cc b/src/geometry/Geometry.cc
index d6092c2..4ade442 100644
--- a/src/geometry/Geometry.cc
+++ b/src/geometry/Geometry.cc
@@ -255,10 +255,10 @@
               return false;
 
           }  // for each edge of face
-
-          offset += nfnodes[i];
         }
 
+        offset += nfnodes[i];
+
       }  // for each face
 
       return true;
-- 
2.43.0


From 41539549e934f625494b45cdc04f684bf67916c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:17 +0000
Subject: [PATCH 06/63] fix: outward face normals of surface meshes are taken
 about the cell centre

---
 src/mesh/Mesh.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 800fe04..6db537f 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -1335,7 +1335,7 @@ int Mesh::compute_face_geometry(const Entity_ID faceid, double *area,
 
         assert(found);
 
-        JaliGeometry::Point cellcen;
+        JaliGeometry::Point cellcen(space_dim_);
         std::vector<JaliGeometry::Point> ccoords;
         cell_get_coordinates(cellids[i], &ccoords);
 
-- 
2.43.0


From 88008f3e45d4183d9b9ac0e14fb5be0ac8ba923e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:05 +0000
Subject: [PATCH 07/63] fix: side normals are recomputed when geometry is
 updated

---
 src/mesh/Mesh.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 6db537f..6f63a26 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -1110,6 +1110,8 @@ int Mesh::compute_side_geometric_quantities() const {
   // It is also unclear that this is good to do because it will cause
   // a copy operator to be triggered for each element (?)
 
+  side_outward_facet_normal.clear();
+  side_mid_facet_normal.clear();
   side_outward_facet_normal.reserve(num_sides());
   side_mid_facet_normal.reserve(num_sides());
 
-- 
2.43.0


From 95dce66a0ce9b025969797f3cfe7fcb2b7b2dbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:05 +0000
Subject: [PATCH 08/63] fix: the mid facet of 2D wedges runs from the edge
 centre to the cell centre

---
 src/mesh/Mesh.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 6f63a26..9dadf15 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -1501,7 +1501,7 @@ void Mesh::compute_side_geometry(Entity_ID const sideid,
 
     JaliGeometry::Point vec3 = scoords[2] - ecen;
 
-    *mid_facet_normal = JaliGeometry::Point(vec1[1], -vec1[0]);
+    *mid_facet_normal = JaliGeometry::Point(vec3[1], -vec3[0]);
 
   } else if (manifold_dim_ == 1) {
     std::vector<JaliGeometry::Point> scoords;
-- 
2.43.0


From 03434371692e68f61f364e708e6fd2609784f57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:05 +0000
Subject: [PATCH 09/63] fix: both sides of a 1D cell have positive volumes and
 outward normals

---
 src/mesh/Mesh.cc | 13 -------------
 1 file changed, 13 deletions(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 9dadf15..0eaf72f 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -1527,19 +1527,6 @@ void Mesh::compute_side_geometry(Entity_ID const sideid,
       // should point out of zone and have area of face
       *outward_facet_normal = -vec0/JaliGeometry::norm(vec0);
     }
-    
-    // Flip sign depending on which node/edge of the cell the side is
-    // associated with
-
-    Entity_ID nodeid = side_node_ids[sideid][0];
-    Entity_ID cellid = side_cell_id[sideid];
-
-    Entity_ID_List cnodes;
-    cell_get_nodes(cellid, &cnodes);
-    if (nodeid == cnodes[1]) {  // have to reverse sign of volume and normal
-      *side_volume = -(*side_volume);
-      *outward_facet_normal = -(*outward_facet_normal);
-    }
 
     // This is not really defined - nobody should try to use this
     mid_facet_normal->set(0.0);
-- 
2.43.0


From 65ff9e7c4d302ed0dbd04f9c2af36713d3ddfca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:05 +0000
Subject: [PATCH 10/63] fix: 1D wedges are put in positive volume order by the
 end they are at

---
 src/mesh/Mesh.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 0eaf72f..039904f 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -1935,11 +1935,18 @@ void Mesh::wedge_get_coordinates(const Entity_ID wedgeid,
   // used for retrieving side coordinates and for the numbering of
   // wedges.
 
-  if (posvol_order && wedgeid%2) {
-    if (manifold_dim_ == 1)
-      std::swap((*wcoords)[0], (*wcoords)[1]);
-    else
+  // In 1D, both wedges of a side have the same node and it is the end
+  // of the cell the node is at that decides.
+
+  if (posvol_order) {
+    if (manifold_dim_ == 1) {
+      Entity_ID_List cnodes;
+      cell_get_nodes(c, &cnodes);
+      if (n == cnodes[1])
+        std::swap((*wcoords)[0], (*wcoords)[1]);
+    } else if (wedgeid%2) {
       std::swap((*wcoords)[1], (*wcoords)[2]);
+    }
   }
 }  // wedge_get_coordinates
 
-- 
2.43.0


From d1e21dbad94dc4602ec4543fa51ab26f83e054e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:05 +0000
Subject: [PATCH 11/63] fix: 2D corners are put in ccw order about the cell
 centre

---
 src/mesh/Mesh.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 039904f..3bac04a 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -2234,7 +2234,7 @@ Mesh::corner_get_coordinates(const Entity_ID cornerid,
     // Make sure we got the coordinates in the right orientation
 
     JaliGeometry::Point vec0 = (*pointcoords)[1] - (*pointcoords)[0];
-    JaliGeometry::Point vec1 = (*pointcoords)[3] - (*pointcoords)[0];
+    JaliGeometry::Point vec1 = (*pointcoords)[2] - (*pointcoords)[0];
     JaliGeometry::Point cpvec = vec0^vec1;  // 2 times the vol of cwedges[0]
 
     // If the sign of cpvec[0] and wedge_volume(cwedges[0]) not the same, then
-- 
2.43.0


From 4c02ee69678c10814c4329e12ae86897c1317297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:05 +0000
Subject: [PATCH 12/63] fix: the facets of a 1D corner replace those of earlier
 queries

---
 src/mesh/Mesh.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 3bac04a..bb2f5a7 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -2189,6 +2189,7 @@ Mesh::corner_get_facetization(const Entity_ID cornerid,
   Entity_ID_List cwedges;
   corner_get_wedges(cornerid, &cwedges);
   wedge_get_coordinates(cwedges[0], pointcoords);
+  facetpoints->clear();
   // ordering is because wedge_get_coordinates comes back in (node, cell) order
   // and node is the facet external to the zone and cell is the facet between
   // the wedges of the side, which is consistent with 2/3D.
-- 
2.43.0


From dd63b8c81a16aa47db3f4886e269c2cda875907a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:05 +0000
Subject: [PATCH 13/63] fix: the centroid of a 1D face is its node

---
 src/mesh/Mesh.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index bb2f5a7..35da084 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -1367,6 +1367,7 @@ int Mesh::compute_face_geometry(const Entity_ID faceid, double *area,
     face_get_coordinates(faceid, &fcoords);
 
     JaliGeometry::face1d_get_area(fcoords, geomtype, area);
+    *centroid = fcoords[0];
     JaliGeometry::Point normal(space_dim_);
     normal.set(*area);
 
-- 
2.43.0


From aba9442d292b60119b8dcac58bb5f98f0a7062f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:32 +0000
Subject: [PATCH 14/63] fix: define the query for the side of a wedge

---
 src/mesh/Mesh.hh | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mesh/Mesh.hh b/src/mesh/Mesh.hh
index 8d04b11..560be0d 100644
--- a/src/mesh/Mesh.hh
+++ b/src/mesh/Mesh.hh
@@ -2099,6 +2099,12 @@ Entity_ID Mesh::wedge_get_node(const Entity_ID wedgeid) const {
   return side_get_node(sideid, iwedge);
 }
 
+inline
+Entity_ID Mesh::wedge_get_side(const Entity_ID wedgeid) const {
+  assert(sides_requested && wedges_requested);
+  return static_cast<Entity_ID>(wedgeid/2);  // which side does wedge belong to
+}
+
 inline
 Entity_ID Mesh::wedge_get_corner(const Entity_ID wedgeid) const {
   assert(sides_requested && wedges_requested);
-- 
2.43.0


From 2967d35934c510a9c55e5bbb6bb2d4d10865e4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:39 +0000
Subject: [PATCH 15/63] fix: 1D Simple meshes keep the geometric model they are
 given

---
 src/mesh/mesh_simple/Mesh_simple.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mesh/mesh_simple/Mesh_simple.cc b/src/mesh/mesh_simple/Mesh_simple.cc
index e86ac35..0c541d9 100644
--- a/src/mesh/mesh_simple/Mesh_simple.cc
+++ b/src/mesh/mesh_simple/Mesh_simple.cc
@@ -151,6 +151,9 @@ Mesh_simple::Mesh_simple(const std::vector<double>& x,
 
   assert(!boundary_ghosts_requested);  // Cannot yet make boundary ghosts
 
+  if (gm != (JaliGeometry::GeometricModelPtr) NULL)
+    Mesh::set_geometric_model(gm);
+
   clear_internals_1d_();
   update_internals_1d_();
 
-- 
2.43.0


From 3b83fcc0eaa9138b81498868432b229925370060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:04 +0000
Subject: [PATCH 16/63] fix: exception behaviour was kept per source file, so
 errors raised elsewhere ignored it

---
 src/error_handling/exceptions.cc |  5 +++++
 src/error_handling/exceptions.hh | 11 +----------
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/error_handling/exceptions.cc b/src/error_handling/exceptions.cc
index 45c6fba..91b9dff 100644
--- a/src/error_handling/exceptions.cc
+++ b/src/error_handling/exceptions.cc
@@ -50,6 +50,11 @@
 
 #include <sstream>
 
+namespace {
+// One setting for the whole program
+Exceptions::Exception_action behavior = Exceptions::RAISE;
+}
+
 namespace Exceptions {
 
 void set_exception_behavior_raise() { behavior = Exceptions::RAISE; }
diff --git a/src/error_handling/exceptions.hh b/src/error_handling/exceptions.hh
index ceaae86..1c78ffb 100644
--- a/src/error_handling/exceptions.hh
+++ b/src/error_handling/exceptions.hh
@@ -70,22 +70,13 @@ void set_exception_behavior_abort();
 void set_exception_behavior(Exception_action);
 Exception_action exception_behavior();
 
-template <typename E> void Jali_throw(const E& exception);
-}  // namespace Exceptions
 
 
-namespace {
-Exceptions::Exception_action behavior = Exceptions::RAISE;
-}
-
-
-namespace Exceptions {
-
 // Either raise the given exception or abort, depending on the value of behavior.
 template <typename E>
 void Jali_throw(const E& exception)
 {
-  if (behavior == Exceptions::RAISE)
+  if (exception_behavior() == Exceptions::RAISE)
       throw exception;
   else
       abort ();
-- 
2.43.0


From 5659c4b4e0ba97a95f60db8e4b49870bbae5d6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:36 +0000
Subject: [PATCH 17/63] fix: sign of a tetrahedron's volume depended on the
 order of its vertex list

---
 src/geometry/Geometry.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/geometry/Geometry.cc b/src/geometry/Geometry.cc
index 4ade442..fb5de91 100644
--- a/src/geometry/Geometry.cc
+++ b/src/geometry/Geometry.cc
@@ -104,6 +104,16 @@
         v3 = ccoords[3]-ccoords[0];
         *volume = (v1^v2)*v3;
 
+        // The vertices are in no particular order - the outward normal
+        // of a face tells whether the tetrahedron is inverted
+
+        if (nf > 0 && fcoords.size() >= 3) {
+          v1 = fcoords[0]-(*centroid);
+          v2 = fcoords[1]-(*centroid);
+          v3 = fcoords[2]-(*centroid);
+          *volume = ((v1^v2)*v3 > 0.0) ? fabs(*volume) : -fabs(*volume);
+        }
+
       } else {  // if (np > 4), polyhedron with possibly curved faces
 
         Point center(0.0, 0.0, 0.0);
-- 
2.43.0


From 7b4983ef77430ca94cd34423ede938a31b15d9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:23 +0000
Subject: [PATCH 18/63] fix: adding an owned entity to a mesh set left the
 indices of its ghost entities stale

---
 src/mesh/MeshSet.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mesh/MeshSet.cc b/src/mesh/MeshSet.cc
index 6363aba..cb3ab2e 100644
--- a/src/mesh/MeshSet.cc
+++ b/src/mesh/MeshSet.cc
@@ -112,7 +112,12 @@ void MeshSet::add_entity(Entity_ID const& mesh_entity) {
     entityids_owned_.push_back(mesh_entity);
     entityids_all_.insert(entityids_all_.begin()+nowned_old, mesh_entity);
 
-    if (have_reverse_map_) mesh2subset_[mesh_entity] = nowned_old;
+    if (have_reverse_map_) {
+      // ghost entities have moved back by one
+      int nall = entityids_all_.size();
+      for (int i = nowned_old; i < nall; ++i)
+        mesh2subset_[entityids_all_[i]] = i;
+    }
 
   } else if (etype == Entity_type::PARALLEL_GHOST) {
 
-- 
2.43.0


From 04ebe4d9a1fea701e7d950d6500aafa779bf8809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:23 +0000
Subject: [PATCH 19/63] fix: removing an entity from a mesh set mixed owned and
 ghost entities and left the reverse map stale

---
 src/mesh/MeshSet.cc | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/mesh/MeshSet.cc b/src/mesh/MeshSet.cc
index cb3ab2e..85e521e 100644
--- a/src/mesh/MeshSet.cc
+++ b/src/mesh/MeshSet.cc
@@ -157,15 +157,19 @@ void MeshSet::rem_entity(Entity_ID const& mesh_entity) {
     else
       return;  // No other type like BOUNDARY_GHOST can be part of set
 
-    size = entityids_all_.size();
-    auto const& it = std::find(entityids_all_.begin(),
-                               entityids_all_.end(), mesh_entity);
-    if (it != entityids_all_.end()) {
-      *it = entityids_all_[size-1];  // replace mesh_entity with last entry
-      entityids_all_.resize(size-1);
-    }
+    // entityids_all should always have owned entities first and ghost
+    // entities last
+
+    entityids_all_ = entityids_owned_;
+    entityids_all_.insert(entityids_all_.end(), entityids_ghost_.begin(),
+                          entityids_ghost_.end());
 
-    if (have_reverse_map_) mesh2subset_[mesh_entity] = -1;
+    if (have_reverse_map_) {
+      mesh2subset_[mesh_entity] = -1;
+      int nall = entityids_all_.size();
+      for (int i = 0; i < nall; ++i)
+        mesh2subset_[entityids_all_[i]] = i;
+    }
   }
 
 
-- 
2.43.0


From d3c99c6cb011323565389b08166470bf8dff6dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:23 +0000
Subject: [PATCH 20/63] fix: adding lists of entities to a mesh set put ghosts
 in the owned list and left the full list and reverse map wrong

---
 src/mesh/MeshSet.cc | 27 +++++++++------------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/src/mesh/MeshSet.cc b/src/mesh/MeshSet.cc
index 85e521e..46438eb 100644
--- a/src/mesh/MeshSet.cc
+++ b/src/mesh/MeshSet.cc
@@ -192,7 +192,7 @@ void MeshSet::add_entities(std::vector<Entity_ID> const& in_entities) {
     entityids_owned_.insert(entityids_owned_.end(), in_entities.begin(),
                             in_entities.end());
   else if (nall == nghost)
-    entityids_owned_.insert(entityids_ghost_.end(), in_entities.begin(),
+    entityids_ghost_.insert(entityids_ghost_.end(), in_entities.begin(),
                             in_entities.end());
   else
     for (auto const& mesh_entity : in_entities)
@@ -203,25 +203,16 @@ void MeshSet::add_entities(std::vector<Entity_ID> const& in_entities) {
   // we have to make a new list with the updated owned and ghost
   // entities and concatenate them (if there are any ghosts)
   
-  if (entityids_ghost_.size()) {
-    std::vector<Entity_ID> tmp_list(entityids_owned_);
-    tmp_list.insert(tmp_list.end(), entityids_ghost_.begin(),
-                    entityids_ghost_.end());
-    entityids_all_.swap(tmp_list);
-  } else
-    entityids_all_.insert(entityids_all_.begin(), in_entities.begin(),
-                          in_entities.end());
+  std::vector<Entity_ID> tmp_list(entityids_owned_);
+  tmp_list.insert(tmp_list.end(), entityids_ghost_.begin(),
+                  entityids_ghost_.end());
+  entityids_all_.swap(tmp_list);
 
   if (have_reverse_map_) {  // have to update mesh to subset map
-    // new owned entities should have gone in after old owned entities
-    int start = nowned_old;
-    for (int i = start; i < start + nowned; i++)
-      mesh2subset_[entityids_all_[i]] = i;
-    
-    // new ghost entities should have gone in after old+new owned
-    // entities and old ghost entities
-    start = nowned_old + nowned + nghost_old;
-    for (int i = start; i < start + nghost; i++)
+    // new owned entities have gone in after old owned entities and so
+    // all ghost entities have moved
+    int nall_new = entityids_all_.size();
+    for (int i = nowned_old; i < nall_new; i++)
       mesh2subset_[entityids_all_[i]] = i;
   }
 }
-- 
2.43.0


From 1fbe13131dd1a067df7b88268442a80bac340cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:43 +0000
Subject: [PATCH 21/63] fix: removing lists of entities from a mesh set mixed
 owned and ghost entities, dropped others when one was named twice and left
 removed ones in the reverse map

---
 src/mesh/MeshSet.cc | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/src/mesh/MeshSet.cc b/src/mesh/MeshSet.cc
index 46438eb..73c4a69 100644
--- a/src/mesh/MeshSet.cc
+++ b/src/mesh/MeshSet.cc
@@ -229,9 +229,9 @@ void MeshSet::rem_entities(std::vector<Entity_ID> const& in_entities) {
   for (auto const& mesh_entity : in_entities) {
     Entity_type etype = mesh_.entity_get_type(kind_, mesh_entity);
     if (etype == Entity_type::PARALLEL_OWNED) {
-      auto const& it = std::find(entityids_owned_.begin(),
-                                 entityids_owned_.end(), mesh_entity);
-      if (it != entityids_owned_.end()) {
+      auto const& last = entityids_owned_.begin() + (size-ndel);
+      auto const& it = std::find(entityids_owned_.begin(), last, mesh_entity);
+      if (it != last) {
         *it = entityids_owned_[size-ndel-1];
         ndel++;
       }
@@ -242,28 +242,25 @@ void MeshSet::rem_entities(std::vector<Entity_ID> const& in_entities) {
   size = entityids_ghost_.size();
   ndel = 0;
   for (auto const& mesh_entity : in_entities) {
-    auto const& it = std::find(entityids_ghost_.begin(),
-                               entityids_ghost_.end(), mesh_entity);
-    if (it != entityids_ghost_.end()) {
+    auto const& last = entityids_ghost_.begin() + (size-ndel);
+    auto const& it = std::find(entityids_ghost_.begin(), last, mesh_entity);
+    if (it != last) {
       *it = entityids_ghost_[size-ndel-1];
       ndel++;
     }
   }
   entityids_ghost_.resize(size-ndel);
   
-  size = entityids_all_.size();
-  ndel = 0;
-  for (auto const& mesh_entity : in_entities) {
-    auto const& it = std::find(entityids_all_.begin(),
-                               entityids_all_.end(), mesh_entity);
-    if (it != entityids_all_.end()) {
-      *it = entityids_all_[size-ndel-1];
-      ndel++;
-    }
-  }
-  entityids_all_.resize(size-ndel);
+  // entityids_all should always have owned entities first and ghost
+  // entities last
+
+  entityids_all_ = entityids_owned_;
+  entityids_all_.insert(entityids_all_.end(), entityids_ghost_.begin(),
+                        entityids_ghost_.end());
 
   if (have_reverse_map_) {
+    for (auto const& mesh_entity : in_entities)
+      mesh2subset_[mesh_entity] = -1;
     int nall = entityids_all_.size();
     for (int i = 0; i < nall; i++)
       mesh2subset_[entityids_all_[i]] = i;
-- 
2.43.0


From 223e50e10e173808b4b50bd0e9ac324784bdd797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:43 +0000
Subject: [PATCH 22/63] fix: the union of a single mesh set was the set itself,
 not a new one

---
 src/mesh/MeshSet.cc | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/mesh/MeshSet.cc b/src/mesh/MeshSet.cc
index 73c4a69..bc1eaf0 100644
--- a/src/mesh/MeshSet.cc
+++ b/src/mesh/MeshSet.cc
@@ -302,9 +302,6 @@ merge(std::vector<std::shared_ptr<MeshSet>> const& inpsets, bool temporary) {
   assert(inpsets.size());
   std::shared_ptr<MeshSet> set0 = inpsets[0];
 
-  if (inpsets.size() == 1)
-    return set0;
-
   for (auto const& set : inpsets) {
     if (set == set0) continue;
     assert(&(set0->mesh_) == &(set->mesh_));
-- 
2.43.0


From cd9519bc72bf7fcfaa6d94f6f4035db2694c6863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:43 +0000
Subject: [PATCH 23/63] fix: the complement of mesh sets took ghost entities to
 be numbered from 0

---
 src/mesh/MeshSet.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/MeshSet.cc b/src/mesh/MeshSet.cc
index bc1eaf0..ab2fb04 100644
--- a/src/mesh/MeshSet.cc
+++ b/src/mesh/MeshSet.cc
@@ -509,7 +509,7 @@ complement(std::vector<std::shared_ptr<MeshSet>> inpsets, bool temporary) {
   
   Entity_ID_List ghost_list;
   ghost_list.reserve(nent_ghost - setunion->entityids_ghost_.size());
-  for (int ent = 0; ent < nent_ghost; ent++)
+  for (int ent = nent_owned; ent < nent_owned + nent_ghost; ent++)
     if (std::find(setunion->entityids_ghost_.begin(),
                   setunion->entityids_ghost_.end(),
                   ent) == setunion->entityids_ghost_.end())
-- 
2.43.0


From 882edae71b21f53f272af74ddf518722a64509b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:43 +0000
Subject: [PATCH 24/63] fix: subtracting no mesh sets from a mesh set read past
 the end of an empty list

---
 src/mesh/MeshSet.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mesh/MeshSet.cc b/src/mesh/MeshSet.cc
index ab2fb04..4446243 100644
--- a/src/mesh/MeshSet.cc
+++ b/src/mesh/MeshSet.cc
@@ -375,7 +375,13 @@ subtract(std::shared_ptr<MeshSet> const& set0,
   }
 
   // Make a temporary union of all the sets to be subtracted
-  std::shared_ptr<MeshSet> setunion = merge(subtractsets, true);
+  std::shared_ptr<MeshSet> setunion;
+  if (subtractsets.size())
+    setunion = merge(subtractsets, true);
+  else  // nothing to subtract
+    setunion = std::make_shared<MeshSet>("", set0->mesh_, set0->kind_,
+                                         Entity_ID_List(), Entity_ID_List(),
+                                         false);
 
   // Add elements that are in set0 and but not in the rest of the sets
   // to the result
-- 
2.43.0


From 9317a11916ac84819ab8247f3be3621064b24545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:36 +0000
Subject: [PATCH 25/63] fix: copies of logical regions lost their operation and
 components

---
 src/geometry/LogicalRegion.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/LogicalRegion.cc b/src/geometry/LogicalRegion.cc
index 86e98f1..cc04708 100644
--- a/src/geometry/LogicalRegion.cc
+++ b/src/geometry/LogicalRegion.cc
@@ -105,7 +105,7 @@ LogicalRegion::LogicalRegion(const std::string name,
 }
 
 LogicalRegion::LogicalRegion(const LogicalRegion& old)
-  : Region(old)
+  : Region(old), operation_(old.operation_), region_names_(old.region_names_)
 {
   // empty
 }
-- 
2.43.0


From e8e8ab0dda2dd648236097c28f3657fd8bbf8ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:36 +0000
Subject: [PATCH 26/63] fix: copies of labeled set regions lost their entity
 kind, file and label

---
 src/geometry/LabeledSetRegion.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geometry/LabeledSetRegion.cc b/src/geometry/LabeledSetRegion.cc
index 15cfdf8..46bb9f8 100644
--- a/src/geometry/LabeledSetRegion.cc
+++ b/src/geometry/LabeledSetRegion.cc
@@ -84,7 +84,8 @@ LabeledSetRegion::LabeledSetRegion(const std::string name,
 }
 
 LabeledSetRegion::LabeledSetRegion(const LabeledSetRegion& old)
-  : Region(old)
+  : Region(old), entity_str_(old.entity_str_), file_(old.file_),
+    format_(old.format_), label_(old.label_)
 {
   // empty
 }
-- 
2.43.0


From 1f9022336ec7a8b02f87c3955fd7fcf9f4143b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:36 +0000
Subject: [PATCH 27/63] fix: domains could not be made from lists of models and
 regions

---
 src/geometry/Domain.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/Domain.cc b/src/geometry/Domain.cc
index a1d5a74..e3ded32 100644
--- a/src/geometry/Domain.cc
+++ b/src/geometry/Domain.cc
@@ -120,7 +120,7 @@ Domain::Domain(const unsigned int dim,
   spatial_dimension_(dim), GeometricModels(in_geometric_models),
   FreeRegions(in_Regions)
 {
-  if (dim != 2 || dim != 3) {
+  if (dim != 2 && dim != 3) {
     std::cerr << "Only 2D and 3D domains are supported" << std::endl;
     throw std::exception();
   }
-- 
2.43.0


From 93fef85847a45ea650e9446c88f48810c918c0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:36 +0000
Subject: [PATCH 28/63] fix: polygon regions whose normal points in a negative
 direction were projected on the wrong plane

---
 src/geometry/PolygonRegion.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geometry/PolygonRegion.cc b/src/geometry/PolygonRegion.cc
index 237ed7e..bad2d77 100644
--- a/src/geometry/PolygonRegion.cc
+++ b/src/geometry/PolygonRegion.cc
@@ -144,8 +144,8 @@ void PolygonRegion::init() {
     int dmax = -1;
     double maxlen = -1;
     for (int i = 0; i < 3; i++)
-      if (normal_[i] > maxlen) {
-        maxlen = normal_[i];
+      if (fabs(normal_[i]) > maxlen) {
+        maxlen = fabs(normal_[i]);
         dmax = i;
       }
 
-- 
2.43.0


From fbbf3b6cab285d059c313fc3635d26e6923ce4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:36 +0000
Subject: [PATCH 29/63] fix: polygon regions gave the dimension of space as
 their own

---
 src/geometry/PolygonRegion.cc | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/geometry/PolygonRegion.cc b/src/geometry/PolygonRegion.cc
index bad2d77..43cbd23 100644
--- a/src/geometry/PolygonRegion.cc
+++ b/src/geometry/PolygonRegion.cc
@@ -71,7 +71,7 @@ PolygonRegion::PolygonRegion(const std::string name, const unsigned int id,
                              const unsigned int num_points,
                              const std::vector<Point>& points,
                              const LifeCycle_type lifecycle)
-  : Region(name,id,points[0].dim(),lifecycle), num_points_(num_points),
+  : Region(name,id,points[0].dim()-1,lifecycle), num_points_(num_points),
     points_(points),normal_(points[0].dim()),elim_dir_(0)
 {
   init();
@@ -91,10 +91,12 @@ PolygonRegion::~PolygonRegion(void)
 
 void PolygonRegion::init() {
 
-  if (num_points_ < dimension()) {
+  unsigned int spacedim = points_[0].dim();
+
+  if (num_points_ < spacedim) {
     std::stringstream tempstr;
     tempstr << "\nDimension " << dimension() <<
-      " regions need to be specified by at least " << dimension() <<
+      " regions need to be specified by at least " << spacedim <<
       " points\n";
     Errors::Message mesg(tempstr.str());
     Exceptions::Jali_throw(mesg);
@@ -107,14 +109,14 @@ void PolygonRegion::init() {
 //    }
 //  }
 
-  if (dimension() == 2) {
+  if (spacedim == 2) {
     Point vec = points_[1] - points_[0];
     vec /= norm(vec);
     normal_.set(vec[1],-vec[0]);
 
     elim_dir_ = (vec[0] < vec[1]) ? 0 : 1;
   }
-  else if (dimension() == 3) {
+  else if (spacedim == 3) {
     Point vec0 = points_[2]-points_[1];
     Point vec1 = points_[0]-points_[1];
     normal_ = vec0^vec1;
@@ -153,7 +155,7 @@ void PolygonRegion::init() {
   }
   else {
     std::stringstream tempstr;
-    tempstr << "Cannot handle regions of dimension " << dimension() << "\n";
+    tempstr << "Cannot handle polygons in " << spacedim << " dimensions\n";
     Errors::Message mesg(tempstr.str());
     Exceptions::Jali_throw(mesg);
   }
@@ -190,7 +192,7 @@ PolygonRegion::inside(const Point& p) const
 
 
   bool result(false);
-  if (dimension() == 2) {
+  if (points_[0].dim() == 2) {
     // Now check if it lies in the line segment
 
     // vector from start of segment to point
-- 
2.43.0


From 2e1c7480b825448187229fd626b3fa33541424af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:51 +0000
Subject: [PATCH 30/63] fix: polygon regions whose first three points are on a
 line had no normal and contained points off their plane

---
 src/geometry/PolygonRegion.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/geometry/PolygonRegion.cc b/src/geometry/PolygonRegion.cc
index 43cbd23..578b6c8 100644
--- a/src/geometry/PolygonRegion.cc
+++ b/src/geometry/PolygonRegion.cc
@@ -117,9 +117,15 @@ void PolygonRegion::init() {
     elim_dir_ = (vec[0] < vec[1]) ? 0 : 1;
   }
   else if (spacedim == 3) {
-    Point vec0 = points_[2]-points_[1];
-    Point vec1 = points_[0]-points_[1];
-    normal_ = vec0^vec1;
+    // Sum over all points - the corner at any one of them may be flat
+
+    Point vec0(3), vec1(3);
+    normal_.set(0.0);
+    for (int i = 1; i+1 < num_points_; i++) {
+      vec0 = points_[i]-points_[0];
+      vec1 = points_[i+1]-points_[0];
+      normal_ += vec0^vec1;
+    }
     normal_ /= norm(normal_);
 
 #ifdef DEBUG
-- 
2.43.0


From 782203eddbec0886b95dab205b6df8318911124c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:17 +0000
Subject: [PATCH 31/63] fix: sets of a region were not made up front, or made
 twice, when some set of the region existed already

---
 src/mesh/Mesh.cc | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 35da084..a46f5ec 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -2401,10 +2401,6 @@ void Mesh::init_sets_from_geometric_model(
       // We have to account for users querying any type of entity on
       // the region
 
-      auto mset = find_meshset(rgn->name(), Entity_kind::CELL);
-      if (mset) continue;
-
-      
       std::vector<Entity_kind> entity_kinds;
       auto it = region_to_entity_kinds_map.find(rgn->name());
       if (it != region_to_entity_kinds_map.end())
@@ -2446,7 +2442,8 @@ void Mesh::init_sets_from_geometric_model(
       }
 
       for (Entity_kind entity_kind : entity_kinds)
-        mset = build_set_from_region(rgn->name(), entity_kind, false);
+        if (!find_meshset(rgn->name(), entity_kind))
+          build_set_from_region(rgn->name(), entity_kind, false);
     }
   }
 }  // init_sets_from_geometric_model (must be called before querying sets from regions)
-- 
2.43.0


From b6b000f2355f294eba24ee3dd9db26ac9be624f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:17 +0000
Subject: [PATCH 32/63] fix: a logical region over an unknown region crashed
 the set-up of mesh sets

---
 src/mesh/Mesh.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index a46f5ec..f4fb0fd 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -2423,8 +2423,8 @@ void Mesh::init_sets_from_geometric_model(
 
         for (std::string & regname : region_names) {
           JaliGeometry::RegionPtr rgn1 = geometric_model_->FindRegion(regname);
-          assert(rgn1);
-          if (rgn1->type() == JaliGeometry::Region_type::LABELEDSET) {
+          if (rgn1 &&
+              rgn1->type() == JaliGeometry::Region_type::LABELEDSET) {
             entity_kinds.clear();
             
             JaliGeometry::LabeledSetRegionPtr lsrgn =
-- 
2.43.0


From fe7ade7d323a0af8f30678ec3fb89bf27edb8431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:17 +0000
Subject: [PATCH 33/63] fix: a region subtracted from itself was left as it was

---
 src/mesh/Mesh.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index f4fb0fd..db5140a 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -3001,8 +3001,8 @@ std::shared_ptr<MeshSet> Mesh::build_set_from_region(const std::string setname,
       mset = intersect(msets, temporary);
     else if (boolregion->operation() == JaliGeometry::Bool_type::SUBTRACT) {
       std::vector<std::shared_ptr<MeshSet>> msets1;
-      for (auto const& set : msets)
-        if (set != msets[0]) msets1.push_back(set);
+      for (int r = 1; r < nreg; r++)
+        msets1.push_back(msets[r]);
       mset = subtract(msets[0], msets1, temporary);      
     }
 
-- 
2.43.0


From f0cf47d97bc3494b6f96ff15f6bc4d37477d757c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:17 +0000
Subject: [PATCH 34/63] fix: a set of unsupported kind on a logical region used
 null sets

---
 src/mesh/Mesh.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index db5140a..d8c1f46 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -2973,7 +2973,10 @@ std::shared_ptr<MeshSet> Mesh::build_set_from_region(const std::string setname,
           Mesh::find_meshset(region_names[r], kind);
       if (!mset1)
         mset1 = build_set_from_region(region_names[r], kind, with_reverse_map);
-      assert(mset1);
+      if (!mset1) {
+        Errors::Message mesg("Logical region cannot be made for this kind of entity");
+        Exceptions::Jali_throw(mesg);
+      }
       msets.push_back(mset1);
     }
 
-- 
2.43.0


From e4c3596ae549a394f6fe226014f121dc8ec726ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:17 +0000
Subject: [PATCH 35/63] fix: the cell set of a point region missed cells whose
 nodes are not nearest to the point

---
 src/mesh/Mesh.cc | 27 ++++-----------------------
 1 file changed, 4 insertions(+), 23 deletions(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index d8c1f46..bae9ca2 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -2689,34 +2689,15 @@ std::shared_ptr<MeshSet> Mesh::build_set_from_region(const std::string setname,
                             owned_cells, ghost_cells, with_reverse_map);
 
       } else if (region->type() == JaliGeometry::Region_type::POINT) {
-        JaliGeometry::Point vpnt(spacedim);
         JaliGeometry::Point rgnpnt(spacedim);
 
         rgnpnt = ((JaliGeometry::PointRegionPtr)region)->point();
 
-        int nnode = Mesh::num_entities(Entity_kind::NODE,
-                                       Entity_type::ALL);
-
-        double mindist2 = 1.e+16;
-        int minnode = -1;
-        for (int inode = 0; inode < nnode; inode++) {
-          node_get_coordinates(inode, &vpnt);
-
-          double dist2 = (vpnt-rgnpnt)*(vpnt-rgnpnt);
-          if (dist2 < mindist2) {
-            mindist2 = dist2;
-            minnode = inode;
-            if (mindist2 <= 1.0e-32)
-              break;
-          }
-        }
-
-        Entity_ID_List cells1;
-        node_get_cells(minnode, Entity_type::ALL, &cells1);
+        // The cells at the node nearest to the point need not contain it
 
-        int ncells = cells1.size();
-        for (int ic = 0; ic < ncells; ic++) {
-          Entity_ID icell = cells1[ic];
+        int ncells = Mesh::num_entities(Entity_kind::CELL,
+                                        Entity_type::ALL);
+        for (int icell = 0; icell < ncells; icell++) {
 
           // Check if point is contained in cell
           if (point_in_cell(rgnpnt, icell)) {
-- 
2.43.0


From f0b4f942cf5270d078494cb47a69135de6f63af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:17 +0000
Subject: [PATCH 36/63] fix: labeled set regions with a qualified entity kind
 were not valid region names

---
 src/mesh/Mesh.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index bae9ca2..ac9b92d 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -2516,6 +2516,9 @@ bool Mesh::valid_region_name(std::string name, Entity_kind kind) const {
             dynamic_cast<JaliGeometry::LabeledSetRegionPtr> (rgn);
         std::string entity_type = lsrgn->entity_str();
 
+        std::size_t pos = entity_type.rfind("::");
+        if (pos != std::string::npos) entity_type = entity_type.substr(pos+2);
+
         if ((kind == Entity_kind::CELL && entity_type == "CELL") ||
             (kind == Entity_kind::FACE && entity_type == "FACE") ||
             (kind == Entity_kind::EDGE && entity_type == "EDGE") ||
-- 
2.43.0


From 3ac46b2cfcca9f94a528e51c7d137236d85ff82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:11 +0000
Subject: [PATCH 37/63] fix: mesh sets could not be set up by default for a 1D
 model with a point region

---
 src/mesh/Mesh.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index ac9b92d..67b81fa 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -2408,7 +2408,8 @@ void Mesh::init_sets_from_geometric_model(
       else {
         if (rgn->dimension() == gdim)
           entity_kinds.push_back(Entity_kind::CELL);
-        if (faces_requested && rgn->dimension() >= gdim-1)
+        if (faces_requested && rgn->dimension() >= gdim-1 &&
+            rgn->type() != JaliGeometry::Region_type::POINT)
           entity_kinds.push_back(Entity_kind::FACE);
         entity_kinds.push_back(Entity_kind::NODE);
       }
-- 
2.43.0


From d4094293c0c9c343f13a1d79792e5813a74130f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:06 +0000
Subject: [PATCH 38/63] fix: tiles had no sides unless wedges were requested

---
 src/mesh/MeshTile.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/MeshTile.cc b/src/mesh/MeshTile.cc
index 9ed9800..5f7f2e4 100644
--- a/src/mesh/MeshTile.cc
+++ b/src/mesh/MeshTile.cc
@@ -249,7 +249,7 @@ MeshTile::MeshTile(Mesh& parent_mesh,
                         edgeids_ghost_.begin(), edgeids_ghost_.end());
   }
 
-  if (request_wedges) {
+  if (request_sides) {
     for (auto const& c : cellids_owned_) {
       std::vector<int> csides;
       mesh_.cell_get_sides(c, &csides);
-- 
2.43.0


From 12ef12da49ff35acd60a44fa356cdd3a85b9ab41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:06 +0000
Subject: [PATCH 39/63] fix: set entities that are ghosts of a tile but owned
 in the mesh (or the reverse) were missing from the tile

---
 src/mesh/MeshTile.cc | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/mesh/MeshTile.cc b/src/mesh/MeshTile.cc
index 5f7f2e4..3d56b0b 100644
--- a/src/mesh/MeshTile.cc
+++ b/src/mesh/MeshTile.cc
@@ -382,7 +382,8 @@ void MeshTile::get_set_entities(const Set_Name setname, const Entity_kind kind,
 void MeshTile::get_nodes_of_set(const Set_Name setname, const Entity_type type,
                                 Entity_ID_List *entids) const {
   Entity_ID_List setents_mesh;
-  mesh_.get_set_entities(setname, Entity_kind::NODE, type, &setents_mesh);
+  mesh_.get_set_entities(setname, Entity_kind::NODE, Entity_type::ALL,
+                          &setents_mesh);
 
   Entity_ID_List const *entlist_tile;
   switch (type) {
@@ -406,7 +407,8 @@ void MeshTile::get_nodes_of_set(const Set_Name setname, const Entity_type type,
 void MeshTile::get_edges_of_set(const Set_Name setname, const Entity_type type,
                                 Entity_ID_List *entids) const {
   Entity_ID_List setents_mesh;
-  mesh_.get_set_entities(setname, Entity_kind::EDGE, type, &setents_mesh);
+  mesh_.get_set_entities(setname, Entity_kind::EDGE, Entity_type::ALL,
+                          &setents_mesh);
 
   Entity_ID_List const *entlist_tile;
   switch (type) {
@@ -430,7 +432,8 @@ void MeshTile::get_edges_of_set(const Set_Name setname, const Entity_type type,
 void MeshTile::get_faces_of_set(const Set_Name setname, const Entity_type type,
                                 Entity_ID_List *entids) const {
   Entity_ID_List setents_mesh;
-  mesh_.get_set_entities(setname, Entity_kind::FACE, type, &setents_mesh);
+  mesh_.get_set_entities(setname, Entity_kind::FACE, Entity_type::ALL,
+                          &setents_mesh);
 
   Entity_ID_List const *entlist_tile;
   switch (type) {
@@ -454,7 +457,8 @@ void MeshTile::get_faces_of_set(const Set_Name setname, const Entity_type type,
 void MeshTile::get_sides_of_set(const Set_Name setname, const Entity_type type,
                                 Entity_ID_List *entids) const {
   Entity_ID_List setents_mesh;
-  mesh_.get_set_entities(setname, Entity_kind::SIDE, type, &setents_mesh);
+  mesh_.get_set_entities(setname, Entity_kind::SIDE, Entity_type::ALL,
+                          &setents_mesh);
 
   Entity_ID_List const *entlist_tile;
   switch (type) {
@@ -478,7 +482,8 @@ void MeshTile::get_sides_of_set(const Set_Name setname, const Entity_type type,
 void MeshTile::get_wedges_of_set(const Set_Name setname, const Entity_type type,
                                 Entity_ID_List *entids) const {
   Entity_ID_List setents_mesh;
-  mesh_.get_set_entities(setname, Entity_kind::WEDGE, type, &setents_mesh);
+  mesh_.get_set_entities(setname, Entity_kind::WEDGE, Entity_type::ALL,
+                          &setents_mesh);
 
   Entity_ID_List const *entlist_tile;
   switch (type) {
@@ -503,7 +508,8 @@ void MeshTile::get_corners_of_set(const Set_Name setname,
                                   const Entity_type type,
                                   Entity_ID_List *entids) const {
   Entity_ID_List setents_mesh;
-  mesh_.get_set_entities(setname, Entity_kind::CORNER, type, &setents_mesh);
+  mesh_.get_set_entities(setname, Entity_kind::CORNER, Entity_type::ALL,
+                          &setents_mesh);
 
   Entity_ID_List const *entlist_tile;
   switch (type) {
@@ -527,7 +533,8 @@ void MeshTile::get_corners_of_set(const Set_Name setname,
 void MeshTile::get_cells_of_set(const Set_Name setname, const Entity_type type,
                                 Entity_ID_List *entids) const {
   Entity_ID_List setents_mesh;
-  mesh_.get_set_entities(setname, Entity_kind::CELL, type, &setents_mesh);
+  mesh_.get_set_entities(setname, Entity_kind::CELL, Entity_type::ALL,
+                          &setents_mesh);
 
   Entity_ID_List const *entlist_tile;
   switch (type) {
-- 
2.43.0


From fd3749ff71cc35fd889d4ff65cecbe7a76db71ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:04 +0000
Subject: [PATCH 40/63] fix: partitioning into one part with METIS gave part
 numbers other than 0

---
 src/mesh/Mesh.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 67b81fa..d0afaa8 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -3208,7 +3208,9 @@ void Mesh::get_partitioning_with_metis(int const num_parts,
   METIS_SetDefaultOptions(metisopts);  // Get default options from METIS
   metisopts[METIS_OPTION_NUMBERING] = 0;   // Indicate C style numbering
 
-  if (num_parts <= 8)
+  if (num_parts == 1)  // METIS bisects the graph all the same
+    std::fill(idxpart, idxpart + ngraphvtx, 0);
+  else if (num_parts <= 8)
     METIS_PartGraphRecursive(&ngraphvtx, &ncons, xadj, adjncy, vwt, vsize,
                              adjwt, &nparts, tpwts, ubvec,
                              metisopts, &nedgecut, idxpart);
-- 
2.43.0


From 871ec5d7970194eb341b72640253ef8aab6d6ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:43 +0000
Subject: [PATCH 41/63] fix: index space partitioning gave unequal and empty
 parts

---
 src/mesh/Mesh.cc | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index d0afaa8..65483a3 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -3138,23 +3138,15 @@ void Mesh::get_partitioning_by_index_space(int const num_parts,
       "subdividing cell index space into equal parts\n";
 
   int ncells = num_cells<Entity_type::PARALLEL_OWNED>();
-  int maxcells_per_tile = ceil(static_cast<double>(ncells)/num_parts + 0.5);
   int index = 0;
 
-  int *ncells_per_tile = new int[num_parts];
   for (int i = 0; i < num_parts; ++i) {
-    (*partitions)[i].resize(maxcells_per_tile);  // excludes MPI ghosts
-    ncells_per_tile[i] = 0;
-
-    // Owned cells in this partition
-    for (int j = 0; j < maxcells_per_tile && index < ncells; ++j) {
-      (*partitions)[i][j] = index++;
-      (ncells_per_tile[i])++;
-    }
-
-    (*partitions)[i].resize(ncells_per_tile[i]);
+    // Owned cells in this partition (excludes MPI ghosts); the first
+    // ncells%num_parts partitions have one more cell than the others
+    (*partitions)[i].resize(ncells/num_parts + (i < ncells%num_parts ? 1 : 0));
+    for (auto& c : (*partitions)[i])
+      c = index++;
   }
-  delete [] ncells_per_tile;
 }
 
 #ifdef Jali_HAVE_METIS
-- 
2.43.0


From fc2cbbbbfa2eca9caf29df4e319beaff5a206459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:06 +0000
Subject: [PATCH 42/63] fix: block partitioning lost all cells of meshes with
 large coordinates

---
 src/mesh/Mesh.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 65483a3..3cf43b9 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -3257,6 +3257,15 @@ void Mesh::get_partitioning_by_blocks(int const num_parts,
     }
   }
   
+  // Distances much smaller than the domain are taken to be roundoff
+
+  double domainsize2 = 0.0;
+  for (int d = 0; d < space_dim_; ++d) {
+    double const len = domainlimits[2*d+1] - domainlimits[2*d];
+    domainsize2 += len*len;
+  }
+  double const disttol = 1.0e-10*sqrt(domainsize2);
+
   // Try to figure out if this is a regular grid from which we
   // can decipher how many cells are in each direction
 
@@ -3273,7 +3282,7 @@ void Mesh::get_partitioning_by_blocks(int const num_parts,
       double dist = 0.0;
       for (int d = 0; d < space_dim_; d++)
         dist += (domainlimits[2*d] - p[d])*(domainlimits[2*d] - p[d]);
-      if (dist < 1.0e-20) {
+      if (dist <= disttol*disttol) {
         found = true;
         c0 = c;
         break;
@@ -3329,7 +3338,7 @@ void Mesh::get_partitioning_by_blocks(int const num_parts,
             // boundary
 
             JaliGeometry::Point fcen = face_centroid(f);
-            if (fabs(fcen[d]-domainlimits[2*d+1]) < 1.0e-12) {
+            if (fabs(fcen[d]-domainlimits[2*d+1]) <= disttol) {
               done = 1;
               break;
             } else {
-- 
2.43.0


From 7d1f1144183a1f74ae1fed624322aa5f7f479150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:31 +0000
Subject: [PATCH 43/63] fix: 1D meshes made from a number of cells were one
 cell short

---
 src/mesh/mesh_factory/MeshFactory.hh | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/mesh/mesh_factory/MeshFactory.hh b/src/mesh/mesh_factory/MeshFactory.hh
index 03df426..df8423d 100644
--- a/src/mesh/mesh_factory/MeshFactory.hh
+++ b/src/mesh/mesh_factory/MeshFactory.hh
@@ -336,13 +336,11 @@ class MeshFactory {
   std::shared_ptr<Mesh> operator() (double const x0, double const x1,
                                     int const nx) {
     double dX = (x1-x0)/((double)nx);
-    double myX = x0;
 
-    std::vector<double> x(nx);
-    for (auto it = x.begin(); it != x.end(); it++) {
-      *it = myX;
-      myX += dX;
-    }
+    std::vector<double> x(nx > 0 ? nx+1 : 0);  // nx cells have nx+1 nodes
+    for (int i = 0; i < nx; i++)
+      x[i] = x0 + i*dX;
+    if (nx > 0) x[nx] = x1;
 
     return create(x);
   }
-- 
2.43.0


From a09314a935af89125bb9f7615454995bcf0f432a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:31 +0000
Subject: [PATCH 44/63] fix: resetting the mesh factory left sides requested

---
 src/mesh/mesh_factory/MeshFactory.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mesh/mesh_factory/MeshFactory.cc b/src/mesh/mesh_factory/MeshFactory.cc
index e11fb87..11bd2da 100644
--- a/src/mesh/mesh_factory/MeshFactory.cc
+++ b/src/mesh/mesh_factory/MeshFactory.cc
@@ -151,6 +151,7 @@ void MeshFactory::reset_options(void) {
   request_edges_ = request_edges_default_;
   request_faces_ = request_faces_default_;
   request_cells_ = request_cells_default_;
+  request_sides_ = request_sides_default_;
   request_wedges_ = request_wedges_default_;
   request_corners_ = request_corners_default_;
 
-- 
2.43.0


From f44ddb540d62830e197a8989c0f071248f0f8959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:31 +0000
Subject: [PATCH 45/63] fix: 2D meshes no framework can make were returned as
 null pointers

---
 src/mesh/mesh_factory/MeshFactory.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mesh/mesh_factory/MeshFactory.cc b/src/mesh/mesh_factory/MeshFactory.cc
index 11bd2da..472f062 100644
--- a/src/mesh/mesh_factory/MeshFactory.cc
+++ b/src/mesh/mesh_factory/MeshFactory.cc
@@ -429,6 +429,7 @@ MeshFactory::create(double const x0, double const y0,
       }
 #endif
       default: {
+        ierr = 1;
         errmsg.add_data("Chosen framework cannnot generate meshes");        
       }
     }
-- 
2.43.0


From c844d91b797e7fd30f5c78c3d36ce0a2e4ba5f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:31 +0000
Subject: [PATCH 46/63] fix: MSTK was reported available when not built

---
 src/mesh/mesh_factory/MeshFactory.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/mesh/mesh_factory/MeshFactory.cc b/src/mesh/mesh_factory/MeshFactory.cc
index 472f062..634898b 100644
--- a/src/mesh/mesh_factory/MeshFactory.cc
+++ b/src/mesh/mesh_factory/MeshFactory.cc
@@ -90,10 +90,16 @@ std::string framework_name(MeshFramework_t const& f) {
 
 /// Check if a framework is available for use
 bool framework_available(MeshFramework_t const& f) {
-  if (f == Simple || f == MSTK)
-    return true;
-  else
-    return false;
+  switch (f) {
+    case Simple:
+      return true;
+#ifdef HAVE_MSTK_MESH
+    case MSTK:
+      return true;
+#endif
+    default:
+      return false;
+  }
 }
 
 /// Check if a framework can generate a mesh
-- 
2.43.0


From 25ad3d24f4b350fc4597553bedb8fe5b733857c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:31 +0000
Subject: [PATCH 47/63] fix: 1D meshes with repeated or unordered nodes were
 accepted

---
 src/mesh/mesh_factory/MeshFactory.cc | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/mesh/mesh_factory/MeshFactory.cc b/src/mesh/mesh_factory/MeshFactory.cc
index 634898b..a1fa760 100644
--- a/src/mesh/mesh_factory/MeshFactory.cc
+++ b/src/mesh/mesh_factory/MeshFactory.cc
@@ -482,12 +482,15 @@ MeshFactory::create(std::vector<double> const& x) {
   MPI_Allreduce(&ierr, &aerr, 1, MPI_INT, MPI_SUM, comm_);
   if (aerr > 0) Exceptions::Jali_throw(errmsg);
 
-  double delta = x.back() - x.front();
-  if (delta <= 0.0) {
-    ierr = 1;
-    std::stringstream mesgstream;
-    mesgstream << "Invalid mesh spacing requested (" << delta << ")";
-    errmsg.add_data(mesgstream.str());
+  for (std::size_t i = 1; i < x.size(); ++i) {
+    double delta = x[i] - x[i-1];
+    if (delta <= 0.0) {
+      ierr = 1;
+      std::stringstream mesgstream;
+      mesgstream << "Invalid mesh spacing requested (" << delta << ")";
+      errmsg.add_data(mesgstream.str());
+      break;
+    }
   }
   MPI_Allreduce(&ierr, &aerr, 1, MPI_INT, MPI_SUM, comm_);
   if (aerr > 0) Exceptions::Jali_throw(errmsg);
-- 
2.43.0


From 4bac3cfd53e5111ab4b6ffa2ac05aad773e96edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:31 +0000
Subject: [PATCH 48/63] fix: requests for boundary ghosts were ignored by the
 simple mesh

---
 src/mesh/mesh_simple/Mesh_simple.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mesh/mesh_simple/Mesh_simple.cc b/src/mesh/mesh_simple/Mesh_simple.cc
index 0c541d9..432a017 100644
--- a/src/mesh/mesh_simple/Mesh_simple.cc
+++ b/src/mesh/mesh_simple/Mesh_simple.cc
@@ -82,7 +82,9 @@ Mesh_simple::Mesh_simple(double x0, double y0, double z0,
        num_ghost_layers_distmesh, boundary_ghosts_requested,
        partitioner, JaliGeometry::Geom_type::CARTESIAN, mycomm) {
 
-  assert(!boundary_ghosts_requested);  // Cannot yet make boundary ghosts
+  if (boundary_ghosts_requested)  // Cannot yet make boundary ghosts
+    Exceptions::Jali_throw(Errors::Message("Simple mesh cannot make boundary "
+                                           "ghosts"));
 
   Mesh::set_mesh_type(Mesh_type::RECTANGULAR);
   if (gm != (JaliGeometry::GeometricModelPtr) NULL)
@@ -149,7 +151,9 @@ Mesh_simple::Mesh_simple(const std::vector<double>& x,
   set_space_dimension(1);
   set_manifold_dimension(1);
 
-  assert(!boundary_ghosts_requested);  // Cannot yet make boundary ghosts
+  if (boundary_ghosts_requested)  // Cannot yet make boundary ghosts
+    Exceptions::Jali_throw(Errors::Message("Simple mesh cannot make boundary "
+                                           "ghosts"));
 
   if (gm != (JaliGeometry::GeometricModelPtr) NULL)
     Mesh::set_geometric_model(gm);
-- 
2.43.0


From bf64eaa5d4d99602f866c4433da28d330be27dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:12 +0000
Subject: [PATCH 49/63] fix: asking state vectors for their data or, on tiles,
 for their mesh did not compile

---
 src/mesh/MeshTile.hh               | 2 +-
 src/statemanager/JaliStateVector.h | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mesh/MeshTile.hh b/src/mesh/MeshTile.hh
index 4d7cf57..1559ede 100644
--- a/src/mesh/MeshTile.hh
+++ b/src/mesh/MeshTile.hh
@@ -136,7 +136,7 @@ class MeshTile {
 
   /// @brief The mesh that this tile belongs to
 
-  Mesh const & mesh() {
+  Mesh & mesh() {
     return mesh_;
   }
 
diff --git a/src/statemanager/JaliStateVector.h b/src/statemanager/JaliStateVector.h
index 87936c8..837bc0e 100644
--- a/src/statemanager/JaliStateVector.h
+++ b/src/statemanager/JaliStateVector.h
@@ -253,7 +253,7 @@ class UniStateVectorBase : public StateVectorBase {
  protected:
   std::shared_ptr<DomainType> mydomain_;
 
-  const Mesh & get_mesh_of_domain(std::shared_ptr<MeshTile> meshtile) const {
+  Mesh & get_mesh_of_domain(std::shared_ptr<MeshTile> meshtile) const {
      return meshtile->mesh();
   }
   Mesh & get_mesh_of_domain(std::shared_ptr<Mesh> mesh) const {
@@ -392,7 +392,7 @@ class UniStateVector : public UniStateVectorBase<DomainType> {
 
   /// Get a shared pointer to the data
 
-  std::shared_ptr<T> get_data() { return mydata_; }
+  std::shared_ptr<std::vector<T>> get_data() { return mydata_; }
 
   /// Type of data
 
@@ -594,7 +594,7 @@ class MultiStateVectorBase : public StateVectorBase {
  protected:
   std::shared_ptr<DomainType> mydomain_;
 
-  const Mesh & get_mesh_of_domain(std::shared_ptr<MeshTile> meshtile) const {
+  Mesh & get_mesh_of_domain(std::shared_ptr<MeshTile> meshtile) const {
      return meshtile->mesh();
   }
   Mesh & get_mesh_of_domain(std::shared_ptr<Mesh> mesh) const {
-- 
2.43.0


From 66b004bac236055d98fa073c8cf845818815fc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:43 +0000
Subject: [PATCH 50/63] fix: adding copies of state vectors read past their
 end, made duplicates or did not compile

---
 src/statemanager/JaliState.h | 87 +++++++++++++++++++++++++-----------
 1 file changed, 60 insertions(+), 27 deletions(-)

diff --git a/src/statemanager/JaliState.h b/src/statemanager/JaliState.h
index d3ee913..2c05faf 100644
--- a/src/statemanager/JaliState.h
+++ b/src/statemanager/JaliState.h
@@ -1350,38 +1350,20 @@ class State : public std::enable_shared_from_this<State> {
     Entity_kind kind = in_vec.entity_kind();
     Entity_type type = in_vec.entity_type();
 
-    iterator it = find<T, DomainType, StateVecType>(in_vec.name(),
-                                                    in_vec.domain(), kind,
-                                                    type);
-    if (it == end()) {
+    // a vector on another mesh is looked for, and added, on the mesh of
+    // this state manager
 
-      std::shared_ptr<StateVecType<T, DomainType>> vector_copy;
+    iterator it =
+        find<T, DomainType, StateVecType>(in_vec.name(),
+                                          domain_in_state(in_vec),
+                                          kind, type);
+    if (it == end()) {
 
       // a search of the state vectors by name and kind of entity turned up
       // empty, so add the vector to the list
 
-      if (mymesh_.get() != &(in_vec.mesh())) {
-
-        // IT HAS BEEN SUGGESTED THAT THIS IS A BAD IDEA TO DO UNDER
-        // THE THE HOOD SINCE SOMEONE MIGHT DO IT INADVERTENTLY AND
-        // NOT KNOW BUT SINCE WE HAVE TO RETURN A REFERENCE WHAT WILL
-        // WE RETURN?  WE CANNOT THROW AN EXCEPTION EITHER (SINCE GPUs
-        // DON'T HANDLE THOSE)
-
-        // the input vector is defined on a different mesh? copy the
-        // vector data onto a vector defined on mesh and then add
-
-        std::cerr << "Copying data from one mesh to another???\n";
-
-        vector_copy =
-            std::make_shared<StateVecType<T, DomainType>>(in_vec.name(),
-                                                          mymesh_,
-                                                          shared_from_this(),
-                                                          kind, type,
-                                                          &(in_vec[0]));
-      } else {
-        vector_copy = std::make_shared<StateVecType<T, DomainType>>(in_vec);
-      }
+      std::shared_ptr<StateVecType<T, DomainType>> vector_copy =
+          copy_vector(in_vec);
       state_vectors_.emplace_back(vector_copy);
 
       // add the index of this vector in state_vectors_ to the vector of
@@ -1433,6 +1415,57 @@ class State : public std::enable_shared_from_this<State> {
 
  private:
 
+  // Domain on which a copy of a vector has to be put
+
+  template <class T, class DomainType,
+            template<class /* T */, class /* DomainType */> class StateVecType>
+  std::shared_ptr<DomainType>
+  domain_in_state(StateVecType<T, DomainType> const& in_vec) const {
+    return in_vec.domain();
+  }
+
+  template <class T>
+  std::shared_ptr<Mesh>
+  domain_in_state(UniStateVector<T, Mesh> const& in_vec) const {
+    return mymesh_;
+  }
+
+  // Deep copy of a state vector
+
+  template <class T, class DomainType,
+            template<class /* T */, class /* DomainType */> class StateVecType>
+  std::shared_ptr<StateVecType<T, DomainType>>
+  copy_vector(StateVecType<T, DomainType> const& in_vec) {
+    return std::make_shared<StateVecType<T, DomainType>>(in_vec);
+  }
+
+  template <class T>
+  std::shared_ptr<UniStateVector<T, Mesh>>
+  copy_vector(UniStateVector<T, Mesh> const& in_vec) {
+    if (mymesh_.get() == &(in_vec.mesh()))
+      return std::make_shared<UniStateVector<T, Mesh>>(in_vec);
+
+    // IT HAS BEEN SUGGESTED THAT THIS IS A BAD IDEA TO DO UNDER
+    // THE THE HOOD SINCE SOMEONE MIGHT DO IT INADVERTENTLY AND
+    // NOT KNOW BUT SINCE WE HAVE TO RETURN A REFERENCE WHAT WILL
+    // WE RETURN?  WE CANNOT THROW AN EXCEPTION EITHER (SINCE GPUs
+    // DON'T HANDLE THOSE)
+
+    // the input vector is defined on a different mesh? copy as much of
+    // the vector data as there is onto a vector defined on this mesh
+
+    std::cerr << "Copying data from one mesh to another???\n";
+
+    auto vector_copy =
+        std::make_shared<UniStateVector<T, Mesh>>(in_vec.name(), mymesh_,
+                                                  shared_from_this(),
+                                                  in_vec.entity_kind(),
+                                                  in_vec.entity_type());
+    std::copy_n(in_vec.cbegin(), std::min(in_vec.size(), vector_copy->size()),
+                vector_copy->begin());
+    return vector_copy;
+  }
+
   // Constant pointer to the mesh associated with this state
   const std::shared_ptr<Mesh> mymesh_;
 
-- 
2.43.0


From 9e7461e4a675c57f9bf99a578a8c73bcf44bb6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:03 +0000
Subject: [PATCH 51/63] fix: record the index of the vector being added, not of
 the one before it

add() recorded the index of the last vector already in the state manager, so
that iterating by entity kind started before the first vector and gave vectors
on other kinds of entities
---
 src/statemanager/JaliState.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/statemanager/JaliState.h b/src/statemanager/JaliState.h
index 2c05faf..d59ca6c 100644
--- a/src/statemanager/JaliState.h
+++ b/src/statemanager/JaliState.h
@@ -1117,7 +1117,7 @@ class State : public std::enable_shared_from_this<State> {
       // vectors on this entity type with a permutation iterator
 
       int ikind = static_cast<int>(kind);
-      entity_indexes_[ikind].emplace_back(state_vectors_.size()-1);
+      entity_indexes_[ikind].emplace_back(state_vectors_.size());
       names_.emplace_back(name);
 
       auto vector =
@@ -1171,7 +1171,7 @@ class State : public std::enable_shared_from_this<State> {
       // vectors on this entity type with a permutation iterator
 
       int ikind = static_cast<int>(kind);
-      entity_indexes_[ikind].emplace_back(state_vectors_.size()-1);
+      entity_indexes_[ikind].emplace_back(state_vectors_.size());
       names_.emplace_back(name);
 
       auto vector =
@@ -1224,7 +1224,7 @@ class State : public std::enable_shared_from_this<State> {
       // vectors on this entity type with a permutation iterator
 
       int ikind = static_cast<int>(kind);
-      entity_indexes_[ikind].emplace_back(state_vectors_.size()-1);
+      entity_indexes_[ikind].emplace_back(state_vectors_.size());
       names_.emplace_back(name);
 
       auto vector =
-- 
2.43.0


From 9bc2c07516e6ed26b647085caf51e24e3acb8158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:14 +0000
Subject: [PATCH 52/63] fix: renumber the materials of cells when a material is
 removed

rem_material() left the old indices of all later materials in the lists of
materials in cells, and read past the end of a list after erasing from it
---
 src/statemanager/JaliState.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/statemanager/JaliState.cc b/src/statemanager/JaliState.cc
index 2b3ef75..640b0ee 100644
--- a/src/statemanager/JaliState.cc
+++ b/src/statemanager/JaliState.cc
@@ -46,6 +46,7 @@
 
 */
 
+#include <algorithm>
 #include <cassert>
 #include <memory>
 
@@ -104,12 +105,16 @@ void State::rem_material(int m) {
   if (!matset) return;
 
   for (auto const& c : material_cellsets_[m]->entities()) {
-    int nmats = cell_materials_[c].size();
-    for (int i = 0; i < nmats; i++)
-      if (m == cell_materials_[c][i])
-        cell_materials_[c].erase(cell_materials_[c].begin()+i);
+    std::vector<int>& mats = cell_materials_[c];
+    mats.erase(std::remove(mats.begin(), mats.end(), m), mats.end());
   }
 
+  // materials after the removed one move up
+
+  for (auto& mats : cell_materials_)
+    for (auto& m2 : mats)
+      if (m2 > m) m2--;
+
   material_cellsets_.erase(material_cellsets_.begin()+m);
 
   // GO TO EACH MMStateVector AND REMOVE ENTRIES FOR THIS MATERIAL
-- 
2.43.0


From 3229350ecdb71173c7c0b18ae3dbf9a6330988fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:14 +0000
Subject: [PATCH 53/63] fix: keep multi-material vectors on tiles in step with
 the materials

adding cells to a material dereferenced a null pointer when the state had a
multi-material vector on a tile; adding and removing materials skipped it
---
 src/statemanager/JaliState.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/statemanager/JaliState.cc b/src/statemanager/JaliState.cc
index 640b0ee..2a7cc91 100644
--- a/src/statemanager/JaliState.cc
+++ b/src/statemanager/JaliState.cc
@@ -92,6 +92,8 @@ void State::add_material(std::string const& matname,
     if (sv->type() == StateVector_type::MULTIVAL) {
       auto mv = std::dynamic_pointer_cast<MultiStateVectorBase<Mesh>>(sv);
       if (mv) mv->add_material(matcells.size());
+      auto tmv = std::dynamic_pointer_cast<MultiStateVectorBase<MeshTile>>(sv);
+      if (tmv) tmv->add_material(matcells.size());
     }
   }
 }
@@ -122,6 +124,8 @@ void State::rem_material(int m) {
     if (sv->type() == StateVector_type::MULTIVAL) {
       auto mv = std::dynamic_pointer_cast<MultiStateVectorBase<Mesh>>(sv);
       if (mv) mv->rem_material(m);
+      auto tmv = std::dynamic_pointer_cast<MultiStateVectorBase<MeshTile>>(sv);
+      if (tmv) tmv->rem_material(m);
     }
   }
 }
@@ -138,8 +142,9 @@ void State::add_cells_to_material(int m, std::vector<int> const& cells) {
   for (auto & sv : state_vectors_) {
     if (sv->type() == StateVector_type::MULTIVAL) {
       auto mv = std::dynamic_pointer_cast<MultiStateVectorBase<Mesh>>(sv);
-      int size = mv->size(m);
-      mv->resize(m, size+cells.size());
+      if (mv) mv->resize(m, mv->size(m)+cells.size());
+      auto tmv = std::dynamic_pointer_cast<MultiStateVectorBase<MeshTile>>(sv);
+      if (tmv) tmv->resize(m, tmv->size(m)+cells.size());
     }
   }
 }
-- 
2.43.0


From edbb4323334f10f4c6d76881ce6295a6963d5011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:14 +0000
Subject: [PATCH 54/63] fix: add each cell to a material only once

Cells given twice, cells already in the material (also because the mesh has a
set of that name) and boundary ghosts left the cells of the material, the
materials of the cells and the sizes of multi-material vectors out of step
---
 src/statemanager/JaliState.cc | 38 +++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/src/statemanager/JaliState.cc b/src/statemanager/JaliState.cc
index 2a7cc91..78274c1 100644
--- a/src/statemanager/JaliState.cc
+++ b/src/statemanager/JaliState.cc
@@ -55,6 +55,26 @@
 
 namespace Jali {
 
+// Cells of a list that are not in a material yet, each of them once
+// (boundary ghosts cannot be in a material)
+
+static std::vector<int> cells_to_add(Mesh const& mesh, MeshSet const& matset,
+                                     std::vector<int> const& cells) {
+  std::vector<bool> known(mesh.num_entities(Entity_kind::CELL,
+                                            Entity_type::ALL), false);
+  for (auto const& c : matset.entities())
+    known[c] = true;
+
+  std::vector<int> newcells;
+  for (auto const& c : cells)
+    if (!known[c] && mesh.entity_get_type(Entity_kind::CELL, c) !=
+        Entity_type::BOUNDARY_GHOST) {
+      newcells.push_back(c);
+      known[c] = true;
+    }
+  return newcells;
+}
+
 // Add new material to the state
 
 void State::add_material(std::string const& matname,
@@ -76,7 +96,7 @@ void State::add_material(std::string const& matname,
                           owned_entities, ghost_entities, with_reverse_map);
   }
 
-  matset->add_entities(matcells);
+  matset->add_entities(cells_to_add(*mymesh_, *matset, matcells));
 
   material_cellsets_.push_back(matset);
 
@@ -84,16 +104,16 @@ void State::add_material(std::string const& matname,
   if (cell_materials_.size() == 0)
     cell_materials_.resize(mymesh_->num_entities(Jali::Entity_kind::CELL,
                                                  Jali::Entity_type::ALL));
-  for (auto const& c : matcells)
+  for (auto const& c : matset->entities())
     cell_materials_[c].push_back(matid);
 
   // GO TO EACH MMStateVector AND ADD ENTRIES FOR THIS MATERIAL
   for (auto &sv : state_vectors_) {
     if (sv->type() == StateVector_type::MULTIVAL) {
       auto mv = std::dynamic_pointer_cast<MultiStateVectorBase<Mesh>>(sv);
-      if (mv) mv->add_material(matcells.size());
+      if (mv) mv->add_material(matset->num_entities());
       auto tmv = std::dynamic_pointer_cast<MultiStateVectorBase<MeshTile>>(sv);
-      if (tmv) tmv->add_material(matcells.size());
+      if (tmv) tmv->add_material(matset->num_entities());
     }
   }
 }
@@ -134,17 +154,19 @@ void State::rem_material(int m) {
 
 void State::add_cells_to_material(int m, std::vector<int> const& cells) {
   assert(m < material_cellsets_.size());
-  material_cellsets_[m]->add_entities(cells);
+  std::vector<int> newcells = cells_to_add(*mymesh_, *material_cellsets_[m],
+                                           cells);
+  material_cellsets_[m]->add_entities(newcells);
 
-  for (auto const& c : cells)
+  for (auto const& c : newcells)
     cell_materials_[c].push_back(m);
 
   for (auto & sv : state_vectors_) {
     if (sv->type() == StateVector_type::MULTIVAL) {
       auto mv = std::dynamic_pointer_cast<MultiStateVectorBase<Mesh>>(sv);
-      if (mv) mv->resize(m, mv->size(m)+cells.size());
+      if (mv) mv->resize(m, mv->size(m)+newcells.size());
       auto tmv = std::dynamic_pointer_cast<MultiStateVectorBase<MeshTile>>(sv);
-      if (tmv) tmv->resize(m, tmv->size(m)+cells.size());
+      if (tmv) tmv->resize(m, tmv->size(m)+newcells.size());
     }
   }
 }
-- 
2.43.0


From 8911179192347a189e22ce7367e078437c1aa662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:42 +0000
Subject: [PATCH 55/63] fix: keep values of ghost cells when adding owned cells
 to a material

owned cells go before the ghost cells of a material, but multi-material
vectors only got new entries at the end, so that the values of ghost cells
went to other cells
---
 src/statemanager/JaliState.cc      | 19 +++++++++++++++++--
 src/statemanager/JaliStateVector.h |  9 +++++++++
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/statemanager/JaliState.cc b/src/statemanager/JaliState.cc
index 78274c1..b019b3a 100644
--- a/src/statemanager/JaliState.cc
+++ b/src/statemanager/JaliState.cc
@@ -156,17 +156,32 @@ void State::add_cells_to_material(int m, std::vector<int> const& cells) {
   assert(m < material_cellsets_.size());
   std::vector<int> newcells = cells_to_add(*mymesh_, *material_cellsets_[m],
                                            cells);
+  int nowned_old =
+      material_cellsets_[m]->num_entities(Entity_type::PARALLEL_OWNED);
   material_cellsets_[m]->add_entities(newcells);
 
+  // new owned cells go in between the owned and the ghost cells of the
+  // material, new ghost cells go at the end
+
+  int nowned_new =
+      material_cellsets_[m]->num_entities(Entity_type::PARALLEL_OWNED) -
+      nowned_old;
+
   for (auto const& c : newcells)
     cell_materials_[c].push_back(m);
 
   for (auto & sv : state_vectors_) {
     if (sv->type() == StateVector_type::MULTIVAL) {
       auto mv = std::dynamic_pointer_cast<MultiStateVectorBase<Mesh>>(sv);
-      if (mv) mv->resize(m, mv->size(m)+newcells.size());
+      if (mv) {
+        mv->insert(m, nowned_old, nowned_new);
+        mv->resize(m, mv->size(m)+newcells.size()-nowned_new);
+      }
       auto tmv = std::dynamic_pointer_cast<MultiStateVectorBase<MeshTile>>(sv);
-      if (tmv) tmv->resize(m, tmv->size(m)+newcells.size());
+      if (tmv) {
+        tmv->insert(m, nowned_old, nowned_new);
+        tmv->resize(m, tmv->size(m)+newcells.size()-nowned_new);
+      }
     }
   }
 }
diff --git a/src/statemanager/JaliStateVector.h b/src/statemanager/JaliStateVector.h
index 837bc0e..cfc137f 100644
--- a/src/statemanager/JaliStateVector.h
+++ b/src/statemanager/JaliStateVector.h
@@ -560,6 +560,9 @@ class MultiStateVectorBase : public StateVectorBase {
   /// Resize a particular material array
   virtual void resize(int m, size_t newsize) = 0;
 
+  /// Insert new entries into a particular material array
+  virtual void insert(int m, size_t pos, size_t num) = 0;
+
   /// Clear out all the data
   virtual void clear() = 0;
 
@@ -942,6 +945,12 @@ class MultiStateVector : public MultiStateVectorBase<DomainType> {
     (*mydata_)[m].resize(newsize, val);
   }
 
+  /// Insert 'num' new entries at index 'pos' of a particular material array
+  void insert(int m, size_t pos, size_t num) {
+    std::vector<T>& matdata = (*mydata_)[m];
+    matdata.insert(matdata.begin() + std::min(pos, matdata.size()), num, T());
+  }
+
   /// Clear out all the data
   void clear() { mydata_->clear(); }
 
-- 
2.43.0


From e52cf063b0d1de62e550dcc745c8b82df7baadf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:42 +0000
Subject: [PATCH 56/63] fix: find the cells of materials made from existing
 mesh sets

sets made from regions have no reverse map, so that no cell was found in a
material made from such a set: values were read as 0 and could not be set
---
 src/mesh/MeshSet.cc           | 13 +++++++++++++
 src/mesh/MeshSet.hh           |  5 +++++
 src/statemanager/JaliState.cc |  1 +
 3 files changed, 19 insertions(+)

diff --git a/src/mesh/MeshSet.cc b/src/mesh/MeshSet.cc
index 4446243..4991659 100644
--- a/src/mesh/MeshSet.cc
+++ b/src/mesh/MeshSet.cc
@@ -101,6 +101,19 @@ MeshSet::MeshSet(std::string const& name,
 }  // MeshSet::MeshSet
 
 
+// Build the reverse map of a set that was made without it
+
+void MeshSet::make_reverse_map() {
+  if (have_reverse_map_) return;
+
+  have_reverse_map_ = true;
+  mesh2subset_.assign(mesh_.num_entities(kind_, Entity_type::ALL), -1);
+  int nall = entityids_all_.size();
+  for (int i = 0; i < nall; ++i)
+    mesh2subset_[entityids_all_[i]] = i;
+}
+
+
 // Add entity to meshset (no check for duplicates)
 
 void MeshSet::add_entity(Entity_ID const& mesh_entity) {
diff --git a/src/mesh/MeshSet.hh b/src/mesh/MeshSet.hh
index f64991f..356a3e1 100644
--- a/src/mesh/MeshSet.hh
+++ b/src/mesh/MeshSet.hh
@@ -310,6 +310,11 @@ class MeshSet {
   bool have_reverse_map_;
   Entity_ID_List mesh2subset_;
 
+  // Build the map from mesh entities to entities of the set if the set
+  // was made without it
+
+  void make_reverse_map();
+
   // Make the State class a friend so that it can access protected
   // methods for retrieving and storing mesh fields
 
diff --git a/src/statemanager/JaliState.cc b/src/statemanager/JaliState.cc
index b019b3a..47b62ff 100644
--- a/src/statemanager/JaliState.cc
+++ b/src/statemanager/JaliState.cc
@@ -95,6 +95,7 @@ void State::add_material(std::string const& matname,
     matset = make_meshset(matname, *mymesh_, Jali::Entity_kind::CELL,
                           owned_entities, ghost_entities, with_reverse_map);
   }
+  matset->make_reverse_map();  // the set may have been made without it
 
   matset->add_entities(cells_to_add(*mymesh_, *matset, matcells));
 
-- 
2.43.0


From dfdcfa5bb41e284a3c346a1c691e0e7159264a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:53 +0000
Subject: [PATCH 57/63] fix: empty the cell set of a material that is removed

the set stays in the mesh, so that adding a material of that name again
brought back all cells of the removed one
---
 src/statemanager/JaliState.cc | 8 ++++++++
 src/statemanager/JaliState.h  | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/src/statemanager/JaliState.cc b/src/statemanager/JaliState.cc
index 47b62ff..33a5cf9 100644
--- a/src/statemanager/JaliState.cc
+++ b/src/statemanager/JaliState.cc
@@ -94,6 +94,7 @@ void State::add_material(std::string const& matname,
     bool with_reverse_map = true;
     matset = make_meshset(matname, *mymesh_, Jali::Entity_kind::CELL,
                           owned_entities, ghost_entities, with_reverse_map);
+    own_cellsets_.push_back(matset);
   }
   matset->make_reverse_map();  // the set may have been made without it
 
@@ -138,6 +139,13 @@ void State::rem_material(int m) {
     for (auto& m2 : mats)
       if (m2 > m) m2--;
 
+  // The set stays in the mesh; if it was made for the material, empty it
+  // so that a new material of that name does not start with these cells
+
+  if (std::find(own_cellsets_.begin(), own_cellsets_.end(), matset) !=
+      own_cellsets_.end())
+    matset->rem_entities(std::vector<int>(matset->entities()));
+
   material_cellsets_.erase(material_cellsets_.begin()+m);
 
   // GO TO EACH MMStateVector AND REMOVE ENTRIES FOR THIS MATERIAL
diff --git a/src/statemanager/JaliState.h b/src/statemanager/JaliState.h
index d59ca6c..5b014db 100644
--- a/src/statemanager/JaliState.h
+++ b/src/statemanager/JaliState.h
@@ -1474,6 +1474,10 @@ class State : public std::enable_shared_from_this<State> {
   // mesh
   std::vector<std::shared_ptr<MeshSet>> material_cellsets_;
 
+  // Meshsets that were made by this state manager (they stay in the
+  // mesh when a material is removed)
+  std::vector<std::shared_ptr<MeshSet>> own_cellsets_;
+
   // One dummy material set (to return when no materials are defined)
   std::shared_ptr<MeshSet> dummy_cellset_;
 
-- 
2.43.0


From 58716180a02860ea640e475bed8762aad9b666a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:20 +0000
Subject: [PATCH 58/63] fix: allow reading multi-material vectors of any data
 type

reading through a const vector only compiled for types that can be made from
0, and not for arrays
---
 src/statemanager/JaliStateVector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/statemanager/JaliStateVector.h b/src/statemanager/JaliStateVector.h
index cfc137f..54f76d6 100644
--- a/src/statemanager/JaliStateVector.h
+++ b/src/statemanager/JaliStateVector.h
@@ -900,7 +900,7 @@ class MultiStateVector : public MultiStateVectorBase<DomainType> {
     if (cloc != -1)
       return (*mydata_)[m][cloc];
     else
-      return T(0);
+      return T();
   }
     
   typedef T& reference;
-- 
2.43.0


From 65d79e57e5275b65b56dc0605472b724c414aa80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:55 +0000
Subject: [PATCH 59/63] fix: export only state vectors that cover the mesh of
 the state manager

vectors on tiles dereferenced a null pointer; vectors on another mesh or on
owned entities only were read past their end and stored for all entities
---
 src/statemanager/JaliState.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/statemanager/JaliState.cc b/src/statemanager/JaliState.cc
index 33a5cf9..87d8ae6 100644
--- a/src/statemanager/JaliState.cc
+++ b/src/statemanager/JaliState.cc
@@ -290,7 +290,11 @@ void State::export_to_mesh() {
     bool status = false;
 
     // We only know how to store univalued data with the mesh
-    if (vec->type() == StateVector_type::UNIVAL) {
+    // on the mesh of this state manager, with a value for every entity
+    auto uvec = std::dynamic_pointer_cast<UniStateVectorBase<Mesh>>(vec);
+
+    if (uvec && uvec->domain() == mymesh_ &&
+        uvec->size() == mymesh_->num_entities(entity_kind, Entity_type::ALL)) {
       if (vec->data_type() == typeid(double)) {
         auto svec = std::dynamic_pointer_cast<UniStateVector<double>>(vec);
         status = mymesh_->store_field(name, entity_kind, svec->get_raw_data());
-- 
2.43.0


From 9ac4d217b9178530a53f5a9b1a1df9254aa6b9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:17 +0000
Subject: [PATCH 60/63] fix: do not dereference the first element of empty
 state vectors

get_raw_data() formed a reference to an element that does not exist, also when
exporting empty vectors to the mesh
---
 src/statemanager/JaliStateVector.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/statemanager/JaliStateVector.h b/src/statemanager/JaliStateVector.h
index 54f76d6..2a949d0 100644
--- a/src/statemanager/JaliStateVector.h
+++ b/src/statemanager/JaliStateVector.h
@@ -384,11 +384,11 @@ class UniStateVector : public UniStateVectorBase<DomainType> {
 
   /// Get the raw data
 
-  T *get_raw_data() { return &((*mydata_)[0]); }
+  T *get_raw_data() { return mydata_->data(); }
 
   /// Get the raw data
 
-  T const *get_raw_data() const { return &((*mydata_)[0]); }
+  T const *get_raw_data() const { return mydata_->data(); }
 
   /// Get a shared pointer to the data
 
@@ -827,11 +827,11 @@ class MultiStateVector : public MultiStateVectorBase<DomainType> {
 
   /// Get the raw data for a material
 
-  T *get_raw_data(int m) { return &((*mydata_)[m][0]); }
+  T *get_raw_data(int m) { return (*mydata_)[m].data(); }
 
   /// Get the raw data for a material
 
-  T const *get_raw_data(int m) const { return &((*mydata_)[m][0]); }
+  T const *get_raw_data(int m) const { return (*mydata_)[m].data(); }
 
   /// Get a shared ptr to the data
 
-- 
2.43.0


From b7e35fcf44fbbfb32df807c6099ae7c8f1fe2388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:05:56 +0000
Subject: [PATCH 61/63] fix: removing entities named by a set's own lists left
 its reverse map stale

---
 src/mesh/MeshSet.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/mesh/MeshSet.cc b/src/mesh/MeshSet.cc
index 4991659..1b86ff6 100644
--- a/src/mesh/MeshSet.cc
+++ b/src/mesh/MeshSet.cc
@@ -149,6 +149,10 @@ void MeshSet::add_entity(Entity_ID const& mesh_entity) {
 
 void MeshSet::rem_entity(Entity_ID const& mesh_entity) {
   Entity_type etype = mesh_.entity_get_type(kind_, mesh_entity);
+
+    // mesh_entity may refer to an entry of the lists changed below
+    if (have_reverse_map_) mesh2subset_[mesh_entity] = -1;
+
     int size;
     if (etype == Entity_type::PARALLEL_OWNED) {
       size = entityids_owned_.size();
@@ -178,7 +182,6 @@ void MeshSet::rem_entity(Entity_ID const& mesh_entity) {
                           entityids_ghost_.end());
 
     if (have_reverse_map_) {
-      mesh2subset_[mesh_entity] = -1;
       int nall = entityids_all_.size();
       for (int i = 0; i < nall; ++i)
         mesh2subset_[entityids_all_[i]] = i;
@@ -234,6 +237,11 @@ void MeshSet::add_entities(std::vector<Entity_ID> const& in_entities) {
 // Remove a group of entities from a subset
 
 void MeshSet::rem_entities(std::vector<Entity_ID> const& in_entities) {
+  // in_entities may be one of the lists changed below
+  if (have_reverse_map_)
+    for (auto const& mesh_entity : in_entities)
+      mesh2subset_[mesh_entity] = -1;
+
   // Replace each to-be-removed entry with an entry from the end of
   // the list.  Then shrink the lists.
   
@@ -272,8 +280,6 @@ void MeshSet::rem_entities(std::vector<Entity_ID> const& in_entities) {
                         entityids_ghost_.end());
 
   if (have_reverse_map_) {
-    for (auto const& mesh_entity : in_entities)
-      mesh2subset_[mesh_entity] = -1;
     int nall = entityids_all_.size();
     for (int i = 0; i < nall; i++)
       mesh2subset_[entityids_all_[i]] = i;
-- 
2.43.0


From c3f0e6caf77a9c04ee032c111521ee21ceeb9b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:13:36 +0000
Subject: [PATCH 62/63] fix: scaling or setting a point by its own coordinates
 used changed ones

---
 src/geometry/Point.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/geometry/Point.hh b/src/geometry/Point.hh
index 75e323f..1376dd8 100644
--- a/src/geometry/Point.hh
+++ b/src/geometry/Point.hh
@@ -117,12 +117,12 @@ class Point {
     d = N;
     std::copy(val, val+d, xyz);
   }
-  void set(const double& x, const double& y) {
+  void set(double x, double y) {  // by value, may be coordinates of this point
     d = 2;
     xyz[0] = x;
     xyz[1] = y;
   }
-  void set(const double& x, const double& y, const double& z) {
+  void set(double x, double y, double z) {
     d = 3;
     xyz[0] = x;
     xyz[1] = y;
@@ -156,11 +156,11 @@ class Point {
     for (int i = 0; i < d; i++) xyz[i] -= p[i];
     return *this;
   }
-  Point& operator*=(const double& c) {
+  Point& operator*=(double c) {  // by value, may be a coordinate of this point
     for (int i = 0; i < d; i++) xyz[i] *= c;
     return *this;
   }
-  Point& operator/=(const double& c) {
+  Point& operator/=(double c) {
     for (int i = 0; i < d; i++) xyz[i] /= c;
     return *this;
   }
-- 
2.43.0


From ebd3119df55b83a3a3c02a3aabdf897e8d0de324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:14:24 +0000
Subject: [PATCH 63/63] fix: mesh() of state vectors on mesh sets did not
 compile

---
 src/statemanager/JaliStateVector.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/statemanager/JaliStateVector.h b/src/statemanager/JaliStateVector.h
index 2a949d0..2641e18 100644
--- a/src/statemanager/JaliStateVector.h
+++ b/src/statemanager/JaliStateVector.h
@@ -58,6 +58,7 @@
 #include <cassert>
 
 #include "Mesh.hh"    // jali mesh header
+#include "MeshSet.hh"
 
 namespace Jali {
 
@@ -256,6 +257,9 @@ class UniStateVectorBase : public StateVectorBase {
   Mesh & get_mesh_of_domain(std::shared_ptr<MeshTile> meshtile) const {
      return meshtile->mesh();
   }
+  Mesh & get_mesh_of_domain(std::shared_ptr<MeshSet> meshset) const {
+    return meshset->mesh();
+  }
   Mesh & get_mesh_of_domain(std::shared_ptr<Mesh> mesh) const {
     return *mesh;
   }
-- 
2.43.0

