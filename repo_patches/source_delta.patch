From 6371864fb1c59baf9cae74c6df99ec9f53824e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:51 +0000
Subject: [PATCH 001/185] fix: parallel_for counter wrapped around for loop
 counts near the maximum of the index type

---
 include/delfem2/thread.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/thread.h b/include/delfem2/thread.h
index 74e2bbf..5c23fb3 100644
--- a/include/delfem2/thread.h
+++ b/include/delfem2/thread.h
@@ -33,11 +33,14 @@ inline void parallel_for(
     futures.emplace_back(
         std::async(std::launch::async, [&func, &next_idx, &has_error, num]() {
           try {
+            T idx = next_idx.load();
             while (true) {
-              auto idx = next_idx.fetch_add(1);
               if (idx >= num) break;
               if (has_error) break;
+              // the counter stops at num, so that it does not wrap around
+              if (!next_idx.compare_exchange_weak(idx, static_cast<T>(idx + 1))) continue;
               func(idx);
+              idx = next_idx.load();
             }
           } catch (...) {
             has_error = true;
@@ -63,11 +66,14 @@ inline void parallel_for(
     futures.emplace_back(std::async(
         std::launch::async, [&func, &next_idx, &has_error, num1, num2]() {
           try {
+            T j = next_idx.load();
             while (true) {
-              auto j = next_idx.fetch_add(1);
               if (j >= num2) break;
               if (has_error) break;
+              // the counter stops at num2, so that it does not wrap around
+              if (!next_idx.compare_exchange_weak(j, static_cast<T>(j + 1))) continue;
               for (auto i = (T) 0; i < num1; i++) func(i, j);
+              j = next_idx.load();
             }
           } catch (...) {
             has_error = true;
-- 
2.43.0


From e8c0af522533d7fb6b8bf28bfbf376b4000681f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:51 +0000
Subject: [PATCH 002/185] fix: parallel image ray casting passed width as
 height (transposed and out of bounds)

---
 include/delfem2/srch_trimesh3_class.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/srch_trimesh3_class.h b/include/delfem2/srch_trimesh3_class.h
index a77cea9..8e0aeed 100644
--- a/include/delfem2/srch_trimesh3_class.h
+++ b/include/delfem2/srch_trimesh3_class.h
@@ -472,7 +472,7 @@ void Intersection_ImageRay_TriMesh3(
     aPointElemSurf[ih * nwidth + iw] = pos_mesh;
   };
   if( is_parallel ) {
-    parallel_for(nwidth, nheight, func);
+    parallel_for(nheight, nwidth, func);
   }
   else {
     for (unsigned int ih = 0; ih < nheight; ++ih) {
-- 
2.43.0


From 37ac8c781ef28b33ae34136461c7589ac1767a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:21 +0000
Subject: [PATCH 003/185] fix: removing 2D mesh points updated
 point-to-triangle links at the old indices

---
 include/delfem2/dtri2_v2dtri.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/delfem2/dtri2_v2dtri.cpp b/include/delfem2/dtri2_v2dtri.cpp
index b062af1..7a2b90b 100644
--- a/include/delfem2/dtri2_v2dtri.cpp
+++ b/include/delfem2/dtri2_v2dtri.cpp
@@ -576,9 +576,10 @@ DFM2_INLINE void delfem2::DeleteUnrefPoints(
     for (int ifatri = 0; ifatri < 3; ifatri++) {
       const unsigned int ipo = aTri_in[itri].v[ifatri];
       assert(map_po_del[ipo] != UINT_MAX);
-      aTri_in[itri].v[ifatri] = map_po_del[ipo];
-      aPo2D[ipo].e = itri;
-      aPo2D[ipo].d = ifatri;
+      const unsigned int ipo1 = map_po_del[ipo];
+      aTri_in[itri].v[ifatri] = ipo1;
+      aPo2D[ipo1].e = itri;
+      aPo2D[ipo1].d = ifatri;
     }
   }
 }
@@ -622,9 +623,10 @@ DFM2_INLINE void delfem2::DeletePointsFlag(
   for (unsigned int itri = 0; itri < aTri.size(); itri++) {
     for (int ifatri = 0; ifatri < 3; ifatri++) {
       const unsigned int ipo = aTri[itri].v[ifatri];
-      aTri[itri].v[ifatri] = map01[ipo];
-      aPo1[ipo].e = itri;
-      aPo1[ipo].d = ifatri;
+      const unsigned int ipo1 = map01[ipo];
+      aTri[itri].v[ifatri] = ipo1;
+      aPo1[ipo1].e = itri;
+      aPo1[ipo1].d = ifatri;
     }
   }
 }
-- 
2.43.0


From 12158661942a708b78f07f6cdf88dd7527ce00f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:21 +0000
Subject: [PATCH 004/185] fix: JArray_PSuP lost every neighbour of point 0

---
 include/delfem2/dtri_topology.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/dtri_topology.cpp b/include/delfem2/dtri_topology.cpp
index 01a3c40..3feed57 100644
--- a/include/delfem2/dtri_topology.cpp
+++ b/include/delfem2/dtri_topology.cpp
@@ -101,7 +101,8 @@ DFM2_INLINE void delfem2::JArray_PSuP(
     const unsigned int npoin,
     const std::vector<int> &elsup_ind,
     const std::vector<int> &elsup) {
-  std::vector<unsigned int> aflg(npoin, 0);
+  std::vector<unsigned int> aflg(npoin, UINT_MAX);
+  psup_ind.resize(npoin + 1);
   psup_ind[0] = 0;
   for (unsigned int ino = 0; ino < npoin; ino++) {
     psup_ind[ino + 1] = psup_ind[ino];
@@ -117,7 +118,7 @@ DFM2_INLINE void delfem2::JArray_PSuP(
   }
   const int npsup = psup_ind[npoin];
   psup.resize(npsup);
-  for (unsigned int ino = 0; ino < npoin; ino++) { aflg[ino] = 0; }
+  for (unsigned int ino = 0; ino < npoin; ino++) { aflg[ino] = UINT_MAX; }
   unsigned int iedge = 0;
   for (unsigned int ino = 0; ino < npoin; ino++) {
     assert(psup_ind[ino] == (int) iedge);
-- 
2.43.0


From 1d90c74b35922af13d0b9f176ed337cec83564b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:36 +0000
Subject: [PATCH 005/185] fix: ResamplingLoop took the number of added points
 from the wrong edge of reversed loops

---
 include/delfem2/geo_polygon2.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/geo_polygon2.cpp b/include/delfem2/geo_polygon2.cpp
index 18e0956..b381555 100644
--- a/include/delfem2/geo_polygon2.cpp
+++ b/include/delfem2/geo_polygon2.cpp
@@ -341,7 +341,7 @@ void delfem2::ResamplingLoop(
       const int ip_loop = loopIP0[iip_loop];
       loopIP1[ivtx0] = ip_loop;
       ivtx0++;
-      for (std::size_t iadd = 0; iadd < aPoInEd[ip_loop].size(); iadd++) {
+      for (std::size_t iadd = 0; iadd < aPoInEd[iip_loop].size(); iadd++) {
         loopIP1[ivtx0] = aPoInEd[iip_loop][iadd];
         ivtx0++;
       }
-- 
2.43.0


From 723ef753694c587f14397b257af5d0670616e802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:36 +0000
Subject: [PATCH 006/185] fix: boundary check compared loops with a wrong edge
 end point (x taken from y)

---
 include/delfem2/geo_polygon2.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/geo_polygon2.cpp b/include/delfem2/geo_polygon2.cpp
index b381555..eeb9b5f 100644
--- a/include/delfem2/geo_polygon2.cpp
+++ b/include/delfem2/geo_polygon2.cpp
@@ -481,7 +481,7 @@ bool delfem2::CheckInputBoundaryForTriangulation(
             int jpo1 = loopIP_ind[jloop] + jbar + 1;
             if (jbar == nbar_j - 1) { jpo1 = loopIP_ind[jloop]; }
             const double pj0[2] = {aXY[jpo0].p[0], aXY[jpo0].p[1]};
-            const double pj1[2] = {aXY[jpo1].p[1], aXY[jpo1].p[1]};
+            const double pj1[2] = {aXY[jpo1].p[0], aXY[jpo1].p[1]};
             const double xmax_j = (pj1[0] > pj0[0]) ? pj1[0] : pj0[0];
             const double xmin_j = (pj1[0] < pj0[0]) ? pj1[0] : pj0[0];
             const double ymax_j = (pj1[1] > pj0[1]) ? pj1[1] : pj0[1];
-- 
2.43.0


From 428e057372e42c2e230d3f0b2e2319f4949171ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:36 +0000
Subject: [PATCH 007/185] fix: walk around a point in constrained edge recovery
 used the wrong triangle and corner

---
 include/delfem2/dtri2_v2dtri.cpp | 38 ++++++++------------------------
 1 file changed, 9 insertions(+), 29 deletions(-)

diff --git a/include/delfem2/dtri2_v2dtri.cpp b/include/delfem2/dtri2_v2dtri.cpp
index 7a2b90b..e33a118 100644
--- a/include/delfem2/dtri2_v2dtri.cpp
+++ b/include/delfem2/dtri2_v2dtri.cpp
@@ -76,23 +76,13 @@ DFM2_INLINE bool FindEdgePoint_AcrossEdge(
         }
       }
     }
-    {
-      const unsigned int inotri2 = (inotri_cur + 1) % 3;
-      const unsigned int itri_nex = aDTri[itri_cur].s2[inotri2];
-      if (itri_nex == UINT_MAX) { break; }
-      const unsigned int jnob = FindAdjEdgeIndex(aDTri[itri_nex], inotri2, aDTri);
-      const unsigned int inotri3 = (jnob + 1) % 3;
-      assert(itri_nex < aDTri.size());
-      assert(aDTri[itri_nex].v[inotri3] == ipo0);
-      if (itri_nex == itri_ini) {
-        itri0 = 0;
-        inotri0 = 0;
-        inotri1 = 0;
-        ratio = 0.0;
-        return false;
-      }
-      itri_cur = itri_nex;
-      inotri_cur = inotri3;
+    if (!MoveCCW(itri_cur, inotri_cur, UINT_MAX, aDTri)) { break; }
+    if (itri_cur == itri_ini) {
+      itri0 = 0;
+      inotri0 = 0;
+      inotri1 = 0;
+      ratio = 0.0;
+      return false;
     }
   }
 
@@ -120,18 +110,8 @@ DFM2_INLINE bool FindEdgePoint_AcrossEdge(
         }
       }
     }
-    {
-      const unsigned int inotri2 = (inotri_cur + 2) % 3;
-      unsigned int itri_nex = aDTri[itri_cur].s2[inotri2];
-      unsigned int jnob = FindAdjEdgeIndex(aDTri[itri_cur], inotri2, aDTri);
-      const unsigned int inotri3 = (jnob + 1) % 3;
-      assert(aDTri[itri_nex].v[inotri3] == ipo0);
-      if (itri_nex == itri_ini) {
-        assert(0);
-      }
-      itri_cur = itri_nex;
-      inotri_cur = inotri3;
-    }
+    if (!MoveCW(itri_cur, inotri_cur, UINT_MAX, aDTri)) { break; }
+    assert(itri_cur != itri_ini);
   }
 
   itri0 = 0;
-- 
2.43.0


From 0a3a76e8b1f2fa63f3c90c0ca0677a9c67638c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:06 +0000
Subject: [PATCH 008/185] fix: constrained edge recovery flipped edges of
 non-convex quadrilaterals (inverted elements)

---
 include/delfem2/dtri2_v2dtri.cpp | 40 ++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/include/delfem2/dtri2_v2dtri.cpp b/include/delfem2/dtri2_v2dtri.cpp
index e33a118..22adfe1 100644
--- a/include/delfem2/dtri2_v2dtri.cpp
+++ b/include/delfem2/dtri2_v2dtri.cpp
@@ -435,18 +435,34 @@ DFM2_INLINE void delfem2::EnforceEdge
         assert(0);
         abort();
       } else {
-        const int ied0 = 3 - inotri0 - inotri1;
-        assert(aTri[itri0].s2[ied0] < aTri.size());
-#if !defined(NDEBUG)
-        const unsigned int itri1 = aTri[itri0].s2[ied0];
-        const unsigned int ied1 = FindAdjEdgeIndex(aTri[itri0], ied0, aTri);
-        assert(aTri[itri1].s2[ied1] == itri0);
-#endif
-        bool res = FlipEdge(itri0, ied0, aPo2D, aTri);
-//        std::cout << itri0 << " " << ied0 << " " << ratio << " " << res << std::endl;
-//        continue;
-        if (!res) {
-          break;
+        // walk along the edges crossing ip0-ip1 and flip those inside a convex quadrilateral
+        unsigned int itA = itri0;
+        unsigned int edA = 3 - inotri0 - inotri1;
+        for (;;) {
+          const unsigned int itB = aTri[itA].s2[edA];
+          assert(itB < aTri.size());
+          if (itB >= aTri.size()) { return; } // blocked by an enforced edge
+          const unsigned int edB = FindAdjEdgeIndex(aTri[itA], edA, aTri);
+          assert(aTri[itB].s2[edB] == itA);
+          const unsigned int jpA = aTri[itA].v[edA];
+          const unsigned int jp1 = aTri[itA].v[(edA + 1) % 3];
+          const unsigned int jp2 = aTri[itA].v[(edA + 2) % 3];
+          const unsigned int jpB = aTri[itB].v[edB];
+          const double area1 = Area_Tri2(aVec2[jpA], aVec2[jp1], aVec2[jpB]);
+          const double area2 = Area_Tri2(aVec2[jpA], aVec2[jpB], aVec2[jp2]);
+          const double eps = 1.0e-10 * (area1 + area2);
+          const bool is_convex = area1 > eps && area2 > eps;
+          if (is_convex) { FlipEdge(itA, edA, aPo2D, aTri); }
+          if (jpB == ip1) { break; }
+          const bool is_next1 = (Area_Tri2(aVec2[ip0], aVec2[ip1], aVec2[jpB]) > 0)
+              == (Area_Tri2(aVec2[ip0], aVec2[ip1], aVec2[jp2]) > 0); // next crossing edge is jpB-jp1
+          if (is_convex) { // itA = (jp1,jpB,jpA), itB = (jp2,jpA,jpB)
+            edA = is_next1 ? 2 : 1;
+            itA = is_next1 ? itA : itB;
+          } else {
+            edA = is_next1 ? (edB + 1) % 3 : (edB + 2) % 3;
+            itA = itB;
+          }
         }
       }
     }
-- 
2.43.0


From bbf67b77453a00bb6ad0ed9cf05155c524d59d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:06 +0000
Subject: [PATCH 009/185] fix: SecondMomentOfArea_Polygon left the moments
 unset for isotropic sections

---
 include/delfem2/geo_polygon2.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/delfem2/geo_polygon2.cpp b/include/delfem2/geo_polygon2.cpp
index eeb9b5f..5d3f07a 100644
--- a/include/delfem2/geo_polygon2.cpp
+++ b/include/delfem2/geo_polygon2.cpp
@@ -225,6 +225,7 @@ void delfem2::SecondMomentOfArea_Polygon(
   if (fabs(Ix - Iy) + fabs(Ixy) < 1.0e-20) {
     pa1 = CVec2<T>(1, 0);
     pa2 = CVec2<T>(0, 1);
+    I1 = I2 = 0.5 * (Ix + Iy);
     return;
   }
   double phi = 0.5 * atan2(-2 * Ixy, Ix - Iy);
-- 
2.43.0


From 0c0400356bb4636303b5b69c59576faa972c846c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:34 +0000
Subject: [PATCH 010/185] fix: smoothing during mesh generation inverted
 triangles at non-convex stars

---
 include/delfem2/dtri2_v2dtri.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/delfem2/dtri2_v2dtri.cpp b/include/delfem2/dtri2_v2dtri.cpp
index 22adfe1..574af66 100644
--- a/include/delfem2/dtri2_v2dtri.cpp
+++ b/include/delfem2/dtri2_v2dtri.cpp
@@ -36,7 +36,13 @@ DFM2_INLINE bool LaplacianArroundPoint
     if (!MoveCCW(itri0, ino0, UINT_MAX, aTri)) { return false; }
     if (itri0 == aPo[ipoin].e) { break; }
   }
-  aVec2[ipoin] = vec_delta / ntri_around;
+  const CVec2d vec_new = vec_delta / ntri_around;
+  do { // do not move the point if a triangle around it gets inverted
+    const CDynTri &tri = aTri[itri0];
+    if (Area_Tri2(vec_new, aVec2[tri.v[(ino0 + 1) % 3]], aVec2[tri.v[(ino0 + 2) % 3]]) <= 0) { return false; }
+    MoveCCW(itri0, ino0, UINT_MAX, aTri);
+  } while (itri0 != aPo[ipoin].e);
+  aVec2[ipoin] = vec_new;
   return true;
 }
 
-- 
2.43.0


From c9501a076e7ef55c0073e577dc6d57eb25c0fd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:26 +0000
Subject: [PATCH 011/185] fix: JArrayEdgeUnidir_PointSurPoint counted on top of
 stale index values of a reused output

---
 include/delfem2/jagarray.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/delfem2/jagarray.cpp b/include/delfem2/jagarray.cpp
index bb66659..54ba3d6 100644
--- a/include/delfem2/jagarray.cpp
+++ b/include/delfem2/jagarray.cpp
@@ -21,8 +21,7 @@ DFM2_INLINE void delfem2::JArrayEdgeUnidir_PointSurPoint(
     const std::vector<unsigned int> &psup) {
   assert(psup_ind.size() >= 2);
   const std::size_t np = psup_ind.size() - 1;
-  edge_ind.resize(np + 1);
-  edge_ind[0] = 0;
+  edge_ind.assign(np + 1, 0);
   edge.clear();
   //
   for (unsigned int ip = 0; ip < np; ++ip) {
-- 
2.43.0


From 21e2d28f4f136e981ef8a027217bcbd36cc5ad25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:26 +0000
Subject: [PATCH 012/185] fix: mesh topology outputs appended to the previous
 content of the output arrays

---
 include/delfem2/msh_topology_uniform.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/delfem2/msh_topology_uniform.cpp b/include/delfem2/msh_topology_uniform.cpp
index 21aab1f..a9b70b5 100644
--- a/include/delfem2/msh_topology_uniform.cpp
+++ b/include/delfem2/msh_topology_uniform.cpp
@@ -76,6 +76,7 @@ DFM2_INLINE void delfem2::ElemQuad_DihedralTri(
       tri_vtx_idx, num_tri, MESHELEM_TRI,
       num_vtx);
   assert(aElSuEl.size() == num_tri * 3);
+  quad_vtx_idx.clear();
   for (unsigned int itri = 0; itri < num_tri; ++itri) {
     for (int iedtri = 0; iedtri < 3; ++iedtri) {
       const unsigned int jtri = aElSuEl[itri * 3 + iedtri];
@@ -373,6 +374,7 @@ DFM2_INLINE void delfem2::JArrayEdge_MeshElem(
   const std::size_t nPoint0 = elsup_ind.size() - 1;
   edge_ind.resize(nPoint0 + 1);
   edge_ind[0] = 0;
+  edge.clear();
   for (unsigned int ip = 0; ip < nPoint0; ++ip) {
     std::set<unsigned int> setIP;
     for (unsigned int ielsup = elsup_ind[ip]; ielsup < elsup_ind[ip + 1]; ++ielsup) {
@@ -402,6 +404,7 @@ DFM2_INLINE void delfem2::MeshLine_JArrayEdge(
     //
     const std::vector<unsigned int> &psup_ind,
     const std::vector<unsigned int> &psup) {
+  line_vtx.clear();
   line_vtx.reserve(psup.size() * 2);
   const std::size_t np = psup_ind.size() - 1;
   for (unsigned int ip = 0; ip < np; ++ip) {
@@ -519,7 +522,9 @@ void delfem2::UnifySeparateIndexing_PosTex(
   std::vector<unsigned int> elsup1_ind, elsup1;
   JArray_ElSuP_MeshTri(
       elsup1_ind, elsup1, elem_vtx_tex, vtx_tex.size()/2);
-  tri_uni.resize(elem_vtx_xyz.size(),UINT_MAX);
+  tri_uni.assign(elem_vtx_xyz.size(),UINT_MAX);
+  uni_xyz.clear();
+  uni_tex.clear();
   for(unsigned int itri=0;itri<elem_vtx_xyz.size()/3;++itri){
     for(unsigned int ino=0;ino<3;++ino){
       if( tri_uni[itri*3+ino] != UINT_MAX ) { continue; }
-- 
2.43.0


From 87f52d4498b0c5f0004f85547f9a29191ad3a565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:26 +0000
Subject: [PATCH 013/185] fix: edge tables of tetrahedron, pyramid, wedge and
 voxel elements

---
 include/delfem2/mshelm.h | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/include/delfem2/mshelm.h b/include/delfem2/mshelm.h
index d43e3cb..c135561 100644
--- a/include/delfem2/mshelm.h
+++ b/include/delfem2/mshelm.h
@@ -149,7 +149,7 @@ const int noelElemEdge_Tet[6][2] = {
   { 0, 3},
   { 1, 2},
   { 1, 3},
-  { 2, 2},
+  { 2, 3},
 };
 const int noelElemEdge_Quad[4][2] = {
   { 0, 1},
@@ -162,11 +162,19 @@ const int noelElemEdge_Hex[12][2] = {
   {4,5},{5,6},{6,7},{7,4},
   {0,4},{1,5},{2,6},{3,7}
 };
-// TODO: this looks wrong...
-const int noelElemEdge_Vox[12][2] = {
-  {0,1},{3,2},{4,5},{7,6},
-  {0,3},{1,2},{4,7},{5,6},
-  {0,4},{1,5},{3,7},{2,6}
+const int noelElemEdge_Pyram[8][2] = {
+  {0,1},{1,2},{2,3},{3,0},
+  {0,4},{1,4},{2,4},{3,4}
+};
+const int noelElemEdge_Wed[9][2] = {
+  {0,1},{1,2},{2,0},
+  {3,4},{4,5},{5,3},
+  {0,3},{1,4},{2,5}
+};
+const int noelElemEdge_Vox[12][2] = { // this numbering is corresponds to VTK_VOX
+  {0,1},{2,3},{4,5},{6,7},
+  {0,2},{1,3},{4,6},{5,7},
+  {0,4},{1,5},{2,6},{3,7}
 };
 
 // -----------------------------
@@ -195,11 +203,14 @@ inline const int (*noelElemFace(MESHELEM_TYPE type))[4]
 }
 inline const int (*noelElemEdge(MESHELEM_TYPE type))[2]
 {
-  const int (*noelElemEdge0[4])[2] = {
+  const int (*noelElemEdge0[7])[2] = {
     noelElemEdge_Tri,
     noelElemEdge_Tet,
     noelElemEdge_Quad,
-    noelElemEdge_Hex
+    noelElemEdge_Hex,
+    noelElemEdge_Pyram,
+    noelElemEdge_Wed,
+    noelElemEdge_Vox
   };
   return noelElemEdge0[type];
 }
-- 
2.43.0


From 4a97c65c433ad11c19f263d8561b02df0d53bac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:27 +0000
Subject: [PATCH 014/185] fix: AddElement aborted on the first element group of
 a mixed mesh

---
 include/delfem2/msh_topology_mix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/msh_topology_mix.cpp b/include/delfem2/msh_topology_mix.cpp
index 24f39a4..75601c2 100644
--- a/include/delfem2/msh_topology_mix.cpp
+++ b/include/delfem2/msh_topology_mix.cpp
@@ -19,7 +19,7 @@ DFM2_INLINE void delfem2::AddElement
   //
   std::copy(aElemIn.begin(), aElemIn.end(), std::back_inserter(aElem));
   //
-  assert( aElemInd.size() >= 2 );
+  assert( !aElemInd.empty() );
   const std::size_t nelem0 = aElemInd.size()-1;
   const int nei0 = aElemInd[nelem0];
   aElemInd.reserve(aElemInd.size()+nElemIn);
-- 
2.43.0


From 187f3c55b09719085045f9acc15f38e18a7e6a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:08 +0000
Subject: [PATCH 015/185] fix: UnifySeparateIndexing_PosTex aborted when
 texture vertices are shared by different points

---
 include/delfem2/msh_topology_uniform.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/msh_topology_uniform.cpp b/include/delfem2/msh_topology_uniform.cpp
index a9b70b5..60708ee 100644
--- a/include/delfem2/msh_topology_uniform.cpp
+++ b/include/delfem2/msh_topology_uniform.cpp
@@ -544,7 +544,7 @@ void delfem2::UnifySeparateIndexing_PosTex(
       for(unsigned jtri : tris){
         const unsigned int jno = FindIndexTri(elem_vtx_xyz.data()+jtri*3, ixyz);
         assert( elem_vtx_xyz[jtri*3+jno] == ixyz );
-        assert( elem_vtx_tex[jtri*3+jno] == itex );
+        if( elem_vtx_tex[jtri*3+jno] != itex ){ continue; } // itex is at another corner of this triangle
         assert( tri_uni[jtri*3+jno] == UINT_MAX );
         tri_uni[jtri*3+jno] = iuni;
       }
-- 
2.43.0


From a26c160f8de8449e4259446d1b029f04e40f71df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:08 +0000
Subject: [PATCH 016/185] fix: SolidAngleTri3D for solid angles above pi

---
 include/delfem2/mshmisc.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/delfem2/mshmisc.cpp b/include/delfem2/mshmisc.cpp
index 100c30a..bab2282 100644
--- a/include/delfem2/mshmisc.cpp
+++ b/include/delfem2/mshmisc.cpp
@@ -517,8 +517,7 @@ DFM2_INLINE double delfem2::SolidAngleTri3D(
       + (mshmisc::Dot3(v1, v2)) * l3
       + (mshmisc::Dot3(v2, v3)) * l1
       + (mshmisc::Dot3(v3, v1)) * l2;
-  double tho = den / num;
-  double v = atan(tho);
+  double v = atan2(den, num);
   if (v < 0) { v += 2 * M_PI; }
   v *= 2;
   return v;
-- 
2.43.0


From 3a3f696b10ba45ba9a4b0e6a32eb53a683c1699e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:08 +0000
Subject: [PATCH 017/185] fix: GetCenterWidthGroup for elements that are not
 triangles

---
 include/delfem2/msh_boundingbox.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/msh_boundingbox.cpp b/include/delfem2/msh_boundingbox.cpp
index 5bf6096..8b51501 100644
--- a/include/delfem2/msh_boundingbox.cpp
+++ b/include/delfem2/msh_boundingbox.cpp
@@ -448,7 +448,7 @@ void delfem2::GetCenterWidthGroup(
   for (unsigned int ielem = 0; ielem < nelem; ielem++) {
     if (elm_groupidx[ielem] != igroup) { continue; }
     for (unsigned int inotri = 0; inotri < nnoel; inotri++) {
-      const unsigned int ip = elm_vtx[ielem * 3 + inotri];
+      const unsigned int ip = elm_vtx[ielem * nnoel + inotri];
       if (is_ini) {
         x_min = x_max = vtx_xyz[ip * 3 + 0];
         y_min = y_max = vtx_xyz[ip * 3 + 1];
-- 
2.43.0


From c78d80b9b80316446d06c06f7334d9e20412f10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:08 +0000
Subject: [PATCH 018/185] fix: TangentVector_Points3 normalises the projected
 vectors

---
 include/delfem2/msh_affine_transformation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/msh_affine_transformation.cpp b/include/delfem2/msh_affine_transformation.cpp
index c2a8ec7..3a36abf 100644
--- a/include/delfem2/msh_affine_transformation.cpp
+++ b/include/delfem2/msh_affine_transformation.cpp
@@ -372,7 +372,7 @@ void delfem2::TangentVector_Points3(
         o0[0] - on * n[0],
         o0[1] - on * n[1],
         o0[2] - on * n[2]};
-    const double leninv = points::Length3(o1);
+    const double leninv = 1.0 / points::Length3(o1);
     aOdir[ip * 3 + 0] = o1[0] * leninv;
     aOdir[ip * 3 + 1] = o1[1] * leninv;
     aOdir[ip * 3 + 2] = o1[2] * leninv;
-- 
2.43.0


From 37bca22d5867009e4ca71a806050c0dd08f86d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:24 +0000
Subject: [PATCH 019/185] fix: BVHTopology_Morton left the root of a single
 object uninitialised

---
 include/delfem2/srch_bvh.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/delfem2/srch_bvh.cpp b/include/delfem2/srch_bvh.cpp
index f83f76d..6ad955c 100755
--- a/include/delfem2/srch_bvh.cpp
+++ b/include/delfem2/srch_bvh.cpp
@@ -448,6 +448,11 @@ DFM2_INLINE void delfem2::BVHTopology_Morton(
   assert(!sorted_morton_codes.empty());
   bvh_nodes.resize(sorted_morton_codes.size() * 2 - 1);
   bvh_nodes[0].iparent = UINT_MAX;
+  if (sorted_morton_codes.size() == 1) { // the root is the leaf
+    bvh_nodes[0].ichild[0] = sorted_object_indexes[0];
+    bvh_nodes[0].ichild[1] = UINT_MAX;
+    return;
+  }
   const auto nni = static_cast<unsigned int>(sorted_morton_codes.size() - 1); // number of internal node
   for (unsigned int ini = 0; ini < nni; ++ini) {
     const std::pair<unsigned int, unsigned int>
-- 
2.43.0


From 71228091220d7f9eb139cbb8f1a1cd8a884601d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:24 +0000
Subject: [PATCH 020/185] fix: BVHTopology_TopDown_MeshElem failed for a single
 element and for element centers a plane cannot separate

---
 include/delfem2/srch_bvh.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/delfem2/srch_bvh.cpp b/include/delfem2/srch_bvh.cpp
index 6ad955c..de66315 100755
--- a/include/delfem2/srch_bvh.cpp
+++ b/include/delfem2/srch_bvh.cpp
@@ -136,6 +136,7 @@ DFM2_INLINE void DevideElemAryConnex(
   aNodeBVH[iroot_node].ichild[0] = inode_ch0;
   aNodeBVH[iroot_node].ichild[1] = inode_ch1;
   std::vector<unsigned int> list_ch0;
+  if (itri_ker == UINT_MAX) { itri_ker = list[0]; } // all the centers coincide
   {
     // extract the triangles in the child node 0
     // triangles connected to `itri_ker` and in the direction of `dir`
@@ -159,6 +160,12 @@ DFM2_INLINE void DevideElemAryConnex(
       }
     }
     assert(!list_ch0.empty());
+    if (list_ch0.size() == list.size()) { // the plane doesn't separate the elements
+      for (size_t il = list_ch0.size() / 2; il < list_ch0.size(); ++il) {
+        aElem2Node[list_ch0[il]] = iroot_node;
+      }
+      list_ch0.resize(list_ch0.size() / 2);
+    }
   }
   // extract the triangles in child node １
   // exclude the triangles that is included in the child node 0
@@ -278,6 +285,11 @@ DFM2_INLINE int delfem2::BVHTopology_TopDown_MeshElem(
   aElem2Node.resize(nelem, 0);
   aNodeBVH.resize(1);
   aNodeBVH[0].iparent = UINT_MAX;
+  if (nelem == 1) { // the root is the leaf
+    aNodeBVH[0].ichild[0] = 0;
+    aNodeBVH[0].ichild[1] = UINT_MAX;
+    return 0;
+  }
   bvh::DevideElemAryConnex(
       0, aElem2Node, aNodeBVH,
       list, static_cast<int>(nfael), aElSuEl, aElemCenter);
-- 
2.43.0


From 1c8eb9af4dc99dae9120976413be92c122b4a5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:24 +0000
Subject: [PATCH 021/185] fix: CLeafVolumeMaker_Point kept the previous volume
 when the geometry is updated

---
 include/delfem2/srch_bvh.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/delfem2/srch_bvh.h b/include/delfem2/srch_bvh.h
index 2210fe7..306caa4 100755
--- a/include/delfem2/srch_bvh.h
+++ b/include/delfem2/srch_bvh.h
@@ -174,6 +174,7 @@ public:
   void SetVolume(BBOX& bb,
 	  unsigned int ielem) const {
     assert( ielem < nXYZ );
+    bb.Set_Inactive();
     bb.AddPoint(aXYZ+ielem*3, 0.0);
     return;
   }
-- 
2.43.0


From 30ca56393a9786daf83e6acb183afc69f76c84c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:24 +0000
Subject: [PATCH 022/185] fix: proximity query culled face-vertex pairs with
 the volume of an unrelated node

---
 include/delfem2/srch_selfintersection_bvh.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/delfem2/srch_selfintersection_bvh.h b/include/delfem2/srch_selfintersection_bvh.h
index e56c482..0d82f47 100644
--- a/include/delfem2/srch_selfintersection_bvh.h
+++ b/include/delfem2/srch_selfintersection_bvh.h
@@ -295,22 +295,22 @@ void delfem2::GetContactElement_Proximity
     const CVec3d q0(aXYZ[jn0*3+0], aXYZ[jn0*3+1], aXYZ[jn0*3+2]);
     const CVec3d q1(aXYZ[jn1*3+0], aXYZ[jn1*3+1], aXYZ[jn1*3+2]);
     const CVec3d q2(aXYZ[jn2*3+0], aXYZ[jn2*3+1], aXYZ[jn2*3+2]);
-    if( IsContact_FV_Proximity(   in0,in1,in2,jn0, p0,p1,p2,q0, aBB[ichild0_0], delta) ){
+    if( IsContact_FV_Proximity(   in0,in1,in2,jn0, p0,p1,p2,q0, aBB[ibvh0], delta) ){
       aContactElem.insert( CContactElement(true,    in0,in1,in2,jn0) );
     }
-    if( IsContact_FV_Proximity(   in0,in1,in2,jn1, p0,p1,p2,q1, aBB[ichild0_0], delta) ){
+    if( IsContact_FV_Proximity(   in0,in1,in2,jn1, p0,p1,p2,q1, aBB[ibvh0], delta) ){
       aContactElem.insert( CContactElement(true,    in0,in1,in2,jn1) );
     }
-    if( IsContact_FV_Proximity(   in0,in1,in2,jn2, p0,p1,p2,q2, aBB[ichild0_0], delta) ){
+    if( IsContact_FV_Proximity(   in0,in1,in2,jn2, p0,p1,p2,q2, aBB[ibvh0], delta) ){
       aContactElem.insert( CContactElement(true,    in0,in1,in2,jn2) );
     }
-    if( IsContact_FV_Proximity(   jn0,jn1,jn2,in0, q0,q1,q2,p0, aBB[ichild1_0], delta) ){
+    if( IsContact_FV_Proximity(   jn0,jn1,jn2,in0, q0,q1,q2,p0, aBB[ibvh1], delta) ){
       aContactElem.insert( CContactElement(true,    jn0,jn1,jn2,in0) );
     }
-    if( IsContact_FV_Proximity(   jn0,jn1,jn2,in1, q0,q1,q2,p1, aBB[ichild1_0], delta) ){
+    if( IsContact_FV_Proximity(   jn0,jn1,jn2,in1, q0,q1,q2,p1, aBB[ibvh1], delta) ){
       aContactElem.insert( CContactElement(true,    jn0,jn1,jn2,in1) );
     }
-    if( IsContact_FV_Proximity(   jn0,jn1,jn2,in2, q0,q1,q2,p2, aBB[ichild1_0], delta) ){
+    if( IsContact_FV_Proximity(   jn0,jn1,jn2,in2, q0,q1,q2,p2, aBB[ibvh1], delta) ){
       aContactElem.insert( CContactElement(true,    jn0,jn1,jn2,in2) );
     }
     ////
-- 
2.43.0


From ae8c3b36e2e5b3261cae1624acde16667bc7d3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:24 +0000
Subject: [PATCH 023/185] fix: contact set merged a face-vertex and an
 edge-edge contact of the same four points

---
 include/delfem2/srch_selfintersection_bvh.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/delfem2/srch_selfintersection_bvh.h b/include/delfem2/srch_selfintersection_bvh.h
index 0d82f47..a920eff 100644
--- a/include/delfem2/srch_selfintersection_bvh.h
+++ b/include/delfem2/srch_selfintersection_bvh.h
@@ -234,6 +234,7 @@ public:
   }
   bool operator < (const CContactElement& p2) const
   {
+    if( is_fv != p2.is_fv ){ return p2.is_fv; }
     if( ino0 != p2.ino0 ){ return ino0 < p2.ino0; }
     if( ino1 != p2.ino1 ){ return ino1 < p2.ino1; }
     if( ino2 != p2.ino2 ){ return ino2 < p2.ino2; }
-- 
2.43.0


From cab6e7801a312bd36b280e45d047e53d1ddd0dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:24 +0000
Subject: [PATCH 024/185] fix: Project_PointsIncludedInBVH_Outside did not
 compile when instantiated

---
 include/delfem2/srch_trimesh3_class.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/srch_trimesh3_class.h b/include/delfem2/srch_trimesh3_class.h
index 8e0aeed..6bc3f06 100644
--- a/include/delfem2/srch_trimesh3_class.h
+++ b/include/delfem2/srch_trimesh3_class.h
@@ -334,9 +334,9 @@ void Project_PointsIncludedInBVH_Outside(
     double sdf = SDFNormal_NearestPoint(n0,
                                         p0, pes, aXYZ0, aTri0, aNorm0);
     if (sdf + cc < 0) continue;
-    aXYZt[ip * 3 + 0] += (sdf + cc) * n0.x();
-    aXYZt[ip * 3 + 1] += (sdf + cc) * n0.y();
-    aXYZt[ip * 3 + 2] += (sdf + cc) * n0.z();
+    aXYZt[ip * 3 + 0] += (sdf + cc) * n0.x;
+    aXYZt[ip * 3 + 1] += (sdf + cc) * n0.y;
+    aXYZt[ip * 3 + 2] += (sdf + cc) * n0.z;
   }
 }
 
-- 
2.43.0


From 6c54063b4824869e2cadf3904e3e9e456e7bd186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:07 +0000
Subject: [PATCH 025/185] fix: SearchGrid::PostProcess read past the end of the
 object array

---
 include/delfem2/srchgrid.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/srchgrid.h b/include/delfem2/srchgrid.h
index 497809b..81a974f 100644
--- a/include/delfem2/srchgrid.h
+++ b/include/delfem2/srchgrid.h
@@ -97,7 +97,7 @@ public:
     {
       unsigned int i0 = 0;
       for (unsigned int ig = 0; ig < ng; ++ig) {
-        while (aGrid2Obj[i0].igrid <= ig && i0 < aGrid2Obj.size()) { i0++; }
+        while (i0 < aGrid2Obj.size() && aGrid2Obj[i0].igrid <= ig) { i0++; }
         aGrid2Obj_ind[ig + 1] = i0;
       }
     }
-- 
2.43.0


From 4eac23373ac2bd34fccb722fb0ce68ba0b4cd2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:07 +0000
Subject: [PATCH 026/185] fix: SearchGrid had no cell at all for a flat
 bounding box

---
 include/delfem2/srchgrid.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/delfem2/srchgrid.h b/include/delfem2/srchgrid.h
index 81a974f..e4befc6 100644
--- a/include/delfem2/srchgrid.h
+++ b/include/delfem2/srchgrid.h
@@ -51,6 +51,9 @@ public:
     nx = static_cast<unsigned int>(ceil((bbmax[0] - bbmin[0]) / h));
     ny = static_cast<unsigned int>(ceil((bbmax[1] - bbmin[1]) / h));
     nz = static_cast<unsigned int>(ceil((bbmax[2] - bbmin[2]) / h));
+    if (nx == 0) { nx = 1; } // flat bounding box
+    if (ny == 0) { ny = 1; }
+    if (nz == 0) { nz = 1; }
     aGrid2Obj.resize(nobj);
   }
 
-- 
2.43.0


From ff74cc76864a9c5c681b6d28ba31077a20c5e871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:54 +0000
Subject: [PATCH 027/185] fix: KDTTriangle pruned the nearest triangle when its
 box is closest at a face

---
 include/delfem2/srch_kdtree_tri.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/srch_kdtree_tri.h b/include/delfem2/srch_kdtree_tri.h
index e395c37..99b1767 100644
--- a/include/delfem2/srch_kdtree_tri.h
+++ b/include/delfem2/srch_kdtree_tri.h
@@ -61,8 +61,13 @@ struct KDTTriangle {
 					dist.max = hogedist;
 			}
 
-			if (Q[0] < AABBmax[0] && Q[0] > AABBmin[0] && Q[1] < AABBmax[1] && Q[1] > AABBmin[1] && Q[2] < AABBmax[2] && Q[2] > AABBmin[2])
-				dist.min = 0.0;
+			// the nearest point of the box may be inside a face or an edge of the box
+			const VEC nearest {
+				std::min(std::max(Q[0], AABBmin[0]), AABBmax[0]),
+				std::min(std::max(Q[1], AABBmin[1]), AABBmax[1]),
+				std::min(std::max(Q[2], AABBmin[2]), AABBmax[2])
+			};
+			dist.min = (Q - nearest).norm();
 
 			return dist;
 		}
-- 
2.43.0


From 08b4a9e7f26698dcfbf031c6c4b6222b019d4cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:54 +0000
Subject: [PATCH 028/185] fix: KDTTriangle kept stale entries after removing
 candidates

---
 include/delfem2/srch_kdtree_tri.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/srch_kdtree_tri.h b/include/delfem2/srch_kdtree_tri.h
index 99b1767..30e9ea2 100644
--- a/include/delfem2/srch_kdtree_tri.h
+++ b/include/delfem2/srch_kdtree_tri.h
@@ -118,9 +118,9 @@ struct KDTTriangle {
 		} else if (distfromcenter.min < localmin) {
 			localmax = distfromcenter.max;
 			localmin = distfromcenter.min;
-			std::remove_if(Candidates.begin(), Candidates.end(), [localmax](iss x) {
+			Candidates.erase(std::remove_if(Candidates.begin(), Candidates.end(), [localmax](iss x) {
 				return localmax < x.min - 0.001;
-			});
+			}), Candidates.end());
 			Candidates.push_back({ currentInd, distfromcenter.max, distfromcenter.min });
 		} else if (distfromcenter.min < localmax) {
 			Candidates.push_back({ currentInd, distfromcenter.max, distfromcenter.min });
-- 
2.43.0


From d95cb967b9fbe04cf2386a9f2284695558d26d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:59 +0000
Subject: [PATCH 029/185] fix: Distance_Edge2_Edge2 and IsIntersect_AABB2_Edge2
 could not be used

---
 include/delfem2/geo_edge.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/delfem2/geo_edge.cpp b/include/delfem2/geo_edge.cpp
index 1d0e64d..59e3917 100644
--- a/include/delfem2/geo_edge.cpp
+++ b/include/delfem2/geo_edge.cpp
@@ -184,7 +184,7 @@ double delfem2::Distance_Edge2_Edge2(
   const CVec2<T> &po_e0,
   const CVec2<T> &po_s1,
   const CVec2<T> &po_e1) {
-  if (IsCross_LineSeg_LineSeg(po_s0, po_e0, po_s1, po_e1)) return -1;
+  if (IsIntersect_Edge2_Edge2(po_s0, po_e0, po_s1, po_e1)) return -1;
   const double ds1 = Distance_Edge_Point(po_s0, po_s1, po_e1);
   const double de1 = Distance_Edge_Point(po_e0, po_s1, po_e1);
   const double ds0 = Distance_Edge_Point(po_s1, po_s0, po_e0);
@@ -197,7 +197,7 @@ double delfem2::Distance_Edge2_Edge2(
 }
 
 template<typename VEC>
-bool IsIntersect_AABB2_Edge2(
+bool delfem2::IsIntersect_AABB2_Edge2(
   const VEC &pmin,
   const VEC &pmax,
   const VEC &p0,
@@ -268,12 +268,12 @@ bool IsIntersect_AABB2_Edge2(
   return false;
 }
 #ifdef DFM2_STATIC_LIBRARY
-template bool IsIntersect_AABB2_Edge2(
+template bool delfem2::IsIntersect_AABB2_Edge2(
   const delfem2::CVec2d &pmin,
   const delfem2::CVec2d &pmax,
   const delfem2::CVec2d &p0,
   const delfem2::CVec2d &p1);
-template bool IsIntersect_AABB2_Edge2(
+template bool delfem2::IsIntersect_AABB2_Edge2(
   const delfem2::CVec2f &pmin,
   const delfem2::CVec2f &pmax,
   const delfem2::CVec2f &p0,
-- 
2.43.0


From 38bccfbcdc6a6039624f4953990e3d6b64e892a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:59 +0000
Subject: [PATCH 030/185] fix: Distance_Edge3_Edge3 for parallel edges where
 one contains the other

---
 include/delfem2/geo_edge.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/delfem2/geo_edge.cpp b/include/delfem2/geo_edge.cpp
index 59e3917..b55a7e5 100644
--- a/include/delfem2/geo_edge.cpp
+++ b/include/delfem2/geo_edge.cpp
@@ -328,7 +328,7 @@ void delfem2::Nearest_Edge3_Line3(
   Nearest_Line3_Line3(
     D0, Da0, Db0, Dta0, Dtb0,
     lineseg_start, lineseg_end - lineseg_start, line_origin, line_direction);
-  if (abs(D0) < 1.0e-10) { // pararell
+  if (std::abs(D0) < 1.0e-10) { // pararell
     nearest_lineseg = (lineseg_start + lineseg_end) * static_cast<T>(0.5);
     nearest_line = ::delfem2::Nearest_Line3_Point3<VEC>(
       nearest_lineseg, line_origin, line_direction);
@@ -391,11 +391,8 @@ double delfem2::Distance_Edge3_Edge3(
     double p_max = (lp0 > lp1) ? lp0 : lp1;
     double q_min = (lq0 < lq1) ? lq0 : lq1;
     double q_max = (lq0 > lq1) ? lq0 : lq1;
-    double lm;
-    if (p_max < q_min) { lm = (p_max + q_min) * 0.5; }
-    else if (q_max < p_min) { lm = (q_max + p_min) * 0.5; }
-    else if (p_max < q_max) { lm = (p_max + q_min) * 0.5; }
-    else { lm = (q_max + p_min) * 0.5; }
+    // the middle of the overlap (or of the gap) of the two edges
+    const double lm = (((p_min > q_min) ? p_min : q_min) + ((p_max < q_max) ? p_max : q_max)) * 0.5;
     ratio_p = (lm - lp0) / (lp1 - lp0);
     ratio_q = (lm - lq0) / (lq1 - lq0);
     return dist;
-- 
2.43.0


From 007aeb8e349e3d6e2bf366fd0be7020546f6c521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:59 +0000
Subject: [PATCH 031/185] fix: TriHeight, SquareCircumradius and
 CenterCircumcircle did not compile

---
 include/delfem2/vec2.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/vec2.cpp b/include/delfem2/vec2.cpp
index 459dd8a..9ef62de 100644
--- a/include/delfem2/vec2.cpp
+++ b/include/delfem2/vec2.cpp
@@ -323,7 +323,7 @@ double delfem2::SquareDistance(
 // Hight of a triangle : between v1 and line of v2-v3
 template<typename T>
 double delfem2::TriHeight(const CVec2<T> &v1, const CVec2<T> &v2, const CVec2<T> &v3) {
-  const double area = Area_Tri(v1, v2, v3);
+  const double area = Area_Tri2(v1, v2, v3);
   const double len = sqrt(SquareDistance(v2, v3));
   return area * 2.0 / len;
 }
@@ -346,7 +346,7 @@ double delfem2::SquareCircumradius(
     const CVec2<T> &p0,
     const CVec2<T> &p1,
     const CVec2<T> &p2) {
-  const double area = Area_Tri(p0, p1, p2);
+  const double area = Area_Tri2(p0, p1, p2);
 
   const double dtmp0 = SquareDistance(p1, p2);
   const double dtmp1 = SquareDistance(p0, p2);
@@ -362,7 +362,7 @@ bool delfem2::CenterCircumcircle(
     const CVec2<T> &p1,
     const CVec2<T> &p2,
     CVec2<T> &center) {
-  const double area = Area_Tri(p0, p1, p2);
+  const double area = Area_Tri2(p0, p1, p2);
   if (fabs(area) < 1.0e-10) { return false; }
   const double tmp_val = 1.0 / (area * area * 16.0);
 
-- 
2.43.0


From db8d95be9824f1f8f06593a9adea8fb8ece81f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:59 +0000
Subject: [PATCH 032/185] fix: Nearest_Line3_Point3 with parameter and
 Nearest_Plane3_Point3 did not compile

---
 include/delfem2/geo_line.cpp  | 6 +++---
 include/delfem2/geo_plane.cpp | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/delfem2/geo_line.cpp b/include/delfem2/geo_line.cpp
index efdef3b..785017f 100644
--- a/include/delfem2/geo_line.cpp
+++ b/include/delfem2/geo_line.cpp
@@ -168,13 +168,13 @@ delfem2::CVec3<T> delfem2::Nearest_Line3_Point3(
   const CVec3<T> &s, // source
   const CVec3<T> &d) // direction
 {
-  if (Dot(d, d) < 1.0e-20) {
+  if (d.dot(d) < 1.0e-20) {
     t = 0;
     return s;
   }
   const CVec3<T> ps = s - p;
-  double a = Dot(d, d);
-  double b = Dot(d, s - p);
+  double a = d.dot(d);
+  double b = d.dot(s - p);
   t = -b / a;
   return s + t * d;
 }
diff --git a/include/delfem2/geo_plane.cpp b/include/delfem2/geo_plane.cpp
index 94c9f78..bbbeed4 100644
--- a/include/delfem2/geo_plane.cpp
+++ b/include/delfem2/geo_plane.cpp
@@ -57,7 +57,7 @@ delfem2::CVec3<T> delfem2::Nearest_Plane3_Point3(
   const CVec3<T> &n) // normal
 {
   const CVec3<T> n0 = n.normalized();
-  return p + ((o - p) * n0) * n0;
+  return p + ((o - p).dot(n0)) * n0;
 }
 
 // -------------------------------------
-- 
2.43.0


From 7b452b98024d0a13261ead1f4ef04a843dbb2836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:59 +0000
Subject: [PATCH 033/185] fix: ProjectPointOnTriangle did not compile

---
 include/delfem2/geo_tri.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/delfem2/geo_tri.cpp b/include/delfem2/geo_tri.cpp
index 406da70..2c7136f 100644
--- a/include/delfem2/geo_tri.cpp
+++ b/include/delfem2/geo_tri.cpp
@@ -323,10 +323,7 @@ delfem2::CVec3<T> delfem2::ProjectPointOnTriangle(
     const CVec3<T> &tri_p2,
     const CVec3<T> &tri_p3) {
   CVec3<T> normal = Cross(tri_p2 - tri_p1, tri_p3 - tri_p1);
-  double cosAlpha = Dot(p0 - tri_p1, normal) / (Length(p0 - tri_p1) * Length(normal));
-  double lenP0ProjectedP0 = Length(tri_p1 - p0) * cosAlpha;
-  CVec3<T> p0ProjectedP0 = -1 * lenP0ProjectedP0 * normal / Length(normal);
-  return p0 + p0ProjectedP0;
+  return p0 - (normal.dot(p0 - tri_p1) / normal.dot(normal)) * normal;
 }
 
 // ----------------------
-- 
2.43.0


From baadb51db8b3bf17d6364f8633847ed691ebe9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:59 +0000
Subject: [PATCH 034/185] fix: Nearest_Triangle3_Point3 for a point on the
 plane of the triangle

---
 include/delfem2/geo_tri.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/include/delfem2/geo_tri.cpp b/include/delfem2/geo_tri.cpp
index 2c7136f..310b154 100644
--- a/include/delfem2/geo_tri.cpp
+++ b/include/delfem2/geo_tri.cpp
@@ -66,13 +66,10 @@ DFM2_INLINE void delfem2::Nearest_Triangle3_Point3(
   double area, n012[3];
   UnitNormalAreaTri3(n012, area, q0, q1, q2);
   const double pe[3] = {ps[0] + n012[0], ps[1] + n012[1], ps[2] + n012[2]};
-  const double v012 = lcl::Volume_Tet3(ps, q0, q1, q2);
-  if (fabs(v012) > 1.0e-10) {
-    const double sign = (v012 > 0) ? +1 : -1;
-    const double v0 = lcl::Volume_Tet3(ps, q1, q2, pe) * sign;
-    const double v1 = lcl::Volume_Tet3(ps, q2, q0, pe) * sign;
-    const double v2 = lcl::Volume_Tet3(ps, q0, q1, pe) * sign;
-    assert(fabs(v0 + v1 + v2) > 1.0e-10);
+  if (area > 1.0e-9) {
+    const double v0 = lcl::Volume_Tet3(ps, q1, q2, pe);
+    const double v1 = lcl::Volume_Tet3(ps, q2, q0, pe);
+    const double v2 = lcl::Volume_Tet3(ps, q0, q1, pe);
     double inv_v012 = 1.0 / (v0 + v1 + v2);
     r0 = v0 * inv_v012;
     r1 = v1 * inv_v012;
-- 
2.43.0


From bee17dbd27607f709ba385df1133fdf3e62b2c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:59 +0000
Subject: [PATCH 035/185] fix: SolidAngleTri for a solid angle larger than pi

---
 include/delfem2/geo_tri.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/delfem2/geo_tri.cpp b/include/delfem2/geo_tri.cpp
index 310b154..3a53f0f 100644
--- a/include/delfem2/geo_tri.cpp
+++ b/include/delfem2/geo_tri.cpp
@@ -410,8 +410,7 @@ T delfem2::SolidAngleTri(
   const T l3 = v3.norm();
   const T den = (v1.cross(v2)).dot(v3);
   const T num = l1 * l2 * l3 + (v1.dot(v2)) * l3 + (v2.dot(v3)) * l1 + (v3.dot(v1)) * l2;
-  const T tho = den / num;
-  T v = std::atan(tho);
+  T v = std::atan2(den, num);
   if (v < 0) { v += 2 * M_PI; }
   v *= 2;
   return v;
-- 
2.43.0


From 8c934b5805ac5f6d551ea150030d981105f08982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:59 +0000
Subject: [PATCH 036/185] fix: Nearst_Origin3_Quad3 never evaluated the point
 on the quad

---
 include/delfem2/geo_quad.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/geo_quad.cpp b/include/delfem2/geo_quad.cpp
index b2af965..43f53cb 100644
--- a/include/delfem2/geo_quad.cpp
+++ b/include/delfem2/geo_quad.cpp
@@ -66,6 +66,7 @@ DFM2_INLINE delfem2::CVec3<T> delfem2::Nearst_Origin3_Quad3(
     }
     double tol = 1.0e-4;
     if (t0 > -tol && t0 < 1.0 + tol && t1 > -tol && t1 < 1.0 + tol) {
+      q = (1 - t0) * (1 - t1) * q0 + t0 * (1 - t1) * q1 + t0 * t1 * q2 + (1 - t0) * t1 * q3;
       double d0 = q.norm();
       if (dist_min < 0 || d0 < dist_min) {
         dist_min = d0;
@@ -75,7 +76,6 @@ DFM2_INLINE delfem2::CVec3<T> delfem2::Nearst_Origin3_Quad3(
       }
     }
   }
-  if (dist_min > 0) { return q_min; }
   //
   const CVec3<T> q01 = Nearest_Origin_Edge(q0, q1);
   const double d01 = q01.norm();
-- 
2.43.0


From 4f28595e5233025bf575fdc31cc67d321d446dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:59 +0000
Subject: [PATCH 037/185] fix: Tangent_Polyline read past the end for the last
 point

---
 include/delfem2/geo_polyline.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/geo_polyline.h b/include/delfem2/geo_polyline.h
index ab854f9..2a473b9 100644
--- a/include/delfem2/geo_polyline.h
+++ b/include/delfem2/geo_polyline.h
@@ -155,7 +155,7 @@ VEC Tangent_Polyline(
   assert(np>=2);
   if (np < 2) { return VEC(0, 0); }
   if (param <= 0) { return polyline[1] - polyline[0]; }
-  if (param >= static_cast<SCALAR>(np)) {
+  if (param >= static_cast<SCALAR>(np - 1)) {
     return polyline[np - 1] - polyline[np - 2];
   }
   const unsigned int ie = int(param);
-- 
2.43.0


From 7299f7e81a0bb6870d3ce5903cc0e98b812109b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:59 +0000
Subject: [PATCH 038/185] fix: Nearest_Polyline returned NaN for a repeated
 point

---
 include/delfem2/geo_polyline.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/geo_polyline.h b/include/delfem2/geo_polyline.h
index 2a473b9..aadac03 100644
--- a/include/delfem2/geo_polyline.h
+++ b/include/delfem2/geo_polyline.h
@@ -185,7 +185,7 @@ template<typename VEC>
     const VEC &sc = polyline[ip] - scr;
     const SCALAR a = es.squaredNorm();
     const SCALAR b = es.dot(sc);
-    const SCALAR ratio = std::clamp(-b / a, static_cast<SCALAR>(0), static_cast<SCALAR>(1));
+    const SCALAR ratio = (a > 0) ? std::clamp(-b / a, static_cast<SCALAR>(0), static_cast<SCALAR>(1)) : 0;
     VEC p = (1 - ratio) * polyline[ip] + ratio * polyline[ip + 1];
     SCALAR dist = (p - scr).norm();
     if (dist_min < 0 || dist < dist_min) {
-- 
2.43.0


From 4528f4f52ba3686e2e4952c3643bdd854292fabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:17 +0000
Subject: [PATCH 039/185] fix: the AABB functions of geo_aabb.h could not be
 used with CVec3

---
 include/delfem2/vec3.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/delfem2/vec3.h b/include/delfem2/vec3.h
index d8ee52e..f87399c 100644
--- a/include/delfem2/vec3.h
+++ b/include/delfem2/vec3.h
@@ -257,6 +257,7 @@ class CVec3 {
   }
 
   using Scalar = T;
+  static constexpr int SizeAtCompileTime = 3;  // size of vector evaluated at compile time
   using value_type = Scalar;
   static constexpr T NEARLY_ZERO = static_cast<T>(1.e-16);
 
-- 
2.43.0


From e1fbcb9dc2f29b6fd72998872eb551f4b3b99b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:17 +0000
Subject: [PATCH 040/185] fix: Nearest_Point_MeshTetFace3D did not compile

---
 include/delfem2/srch_bruteforce.cpp | 32 ++++++++---------------------
 1 file changed, 8 insertions(+), 24 deletions(-)

diff --git a/include/delfem2/srch_bruteforce.cpp b/include/delfem2/srch_bruteforce.cpp
index d252b6d..20506b6 100644
--- a/include/delfem2/srch_bruteforce.cpp
+++ b/include/delfem2/srch_bruteforce.cpp
@@ -396,7 +396,7 @@ delfem2::PointOnSurfaceMesh<T> delfem2::Nearest_Point_MeshTetFace3D(
   ////
   double dist_min = -1.0;
   int itf_min = -1;
-  CVec3<T> p_min;
+  double r0_min = 0, r1_min = 0;
   for (size_t itf = 0; itf < aTetFaceSrf.size() / 2; ++itf) {
     int itet = aTetFaceSrf[itf * 2 + 0];
     int iface = aTetFaceSrf[itf * 2 + 1];
@@ -412,32 +412,16 @@ delfem2::PointOnSurfaceMesh<T> delfem2::Nearest_Point_MeshTetFace3D(
     if (itf_min == -1 || dist < dist_min) {
       dist_min = dist;
       itf_min = itf;
-      p_min = p2;
+      r0_min = r0;
+      r1_min = r1;
     }
   }
   assert(itf_min != -1);
-  {
-    int itet = aTetFaceSrf[itf_min * 2 + 0];
-    int iface = aTetFaceSrf[itf_min * 2 + 1];
-    const int i0 = aTet[itet * 4 + noelTetFace[iface][0]];
-    const int i1 = aTet[itet * 4 + noelTetFace[iface][1]];
-    const int i2 = aTet[itet * 4 + noelTetFace[iface][2]];
-    CVec3<T> q0(aXYZ[i0 * 3 + 0], aXYZ[i0 * 3 + 1], aXYZ[i0 * 3 + 2]);
-    CVec3<T> q1(aXYZ[i1 * 3 + 0], aXYZ[i1 * 3 + 1], aXYZ[i1 * 3 + 2]);
-    CVec3<T> q2(aXYZ[i2 * 3 + 0], aXYZ[i2 * 3 + 1], aXYZ[i2 * 3 + 2]);
-    double a0 = Area_Tri(p_min, q1, q2);
-    double a1 = Area_Tri(p_min, q2, q0);
-    double a2 = Area_Tri(p_min, q0, q1);
-    double inva = 1.0 / (a0 + a1 + a2);
-    a0 *= inva;
-    a1 *= inva;
-    a2 *= inva;
-    PointOnSurfaceMesh<T> ptf;
-    ptf.itri = itf_min;
-    ptf.r0 = a0;
-    ptf.r1 = a1;
-    return ptf;
-  }
+  PointOnSurfaceMesh<T> ptf;
+  ptf.itri = itf_min;
+  ptf.r0 = r0_min;
+  ptf.r1 = r1_min;
+  return ptf;
 }
 
 // ----------------------------------------
-- 
2.43.0


From a5d0741e05998ee3f789084b142caea51dd9e441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:14 +0000
Subject: [PATCH 041/185] fix: IsIntersect_Points3_Points3_Sat skipped pairs of
 edges

---
 include/delfem2/geo_gjksat3.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/geo_gjksat3.h b/include/delfem2/geo_gjksat3.h
index 1574edd..23a0248 100644
--- a/include/delfem2/geo_gjksat3.h
+++ b/include/delfem2/geo_gjksat3.h
@@ -407,14 +407,17 @@ bool IsIntersect_Points3_Points3_Sat(
 			edgeA[1] = vtxsA[faceA[3 * fiA + 2]] - vtxsA[faceA[3 * fiA + 0]];
 			edgeA[2] = vtxsA[faceA[3 * fiA + 2]] - vtxsA[faceA[3 * fiA + 1]];
 
-			for (unsigned int i = 0; i < 6; i++) {
+			for (unsigned int i = 0; i < 9; i++) {
 
-				constexpr unsigned int FaceToEdge[12] = {
+				constexpr unsigned int FaceToEdge[18] = {
 					0, 0,
 					0, 1,
 					0, 2,
+					1, 0,
 					1, 1,
 					1, 2,
+					2, 0,
+					2, 1,
 					2, 2
 				};
 
-- 
2.43.0


From 1dadfa6c0baf6d8ae426f9ccd411d4335967d64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:27 +0000
Subject: [PATCH 042/185] fix: ConvexHull2 lost hull vertices and ran out of
 bounds

---
 include/delfem2/geo_convhull2.h | 65 +++++++++++++++------------------
 1 file changed, 30 insertions(+), 35 deletions(-)

diff --git a/include/delfem2/geo_convhull2.h b/include/delfem2/geo_convhull2.h
index c2f2511..70dc0ee 100644
--- a/include/delfem2/geo_convhull2.h
+++ b/include/delfem2/geo_convhull2.h
@@ -29,7 +29,6 @@ void ConvexHull2(
     std::vector<unsigned int> &point_idxs,
     const std::vector<VEC> &points) {
   using SCALAR = typename VEC::Scalar;
-  const SCALAR EPSILON = 1.0e-8;
 
   unsigned int p0_idx;
   { // find the index with minimum y coordinate
@@ -44,48 +43,44 @@ void ConvexHull2(
   }
   assert(p0_idx < points.size());
 
-  std::vector<std::pair<unsigned int, SCALAR> > idxcos;
-  { // compute and sort points by cosine value
-    VEC x_axis = {1, 0};
-    for (unsigned int i = 0; i < points.size(); i++) {
-      if (i == p0_idx) { continue; }
-      VEC dir = points[i] - points[p0_idx];
-      idxcos.emplace_back(i, x_axis.dot(dir) / dir.norm());
-    }
-  }
+  // positive if the direction from p0 to the point b is in the left of that to a
+  // (the cosine to the x-axis can not tell small angles)
+  auto cross = [&points, &p0_idx](unsigned int a, unsigned int b) {
+    const VEC da = points[a] - points[p0_idx];
+    const VEC db = points[b] - points[p0_idx];
+    return da[0] * db[1] - da[1] * db[0];
+  };
 
-  { // sort idxcos
-    auto comp = [&points, &p0_idx, &EPSILON](
-        const std::pair<unsigned int, SCALAR> &a,
-        const std::pair<unsigned int, SCALAR> &b) {
-      if (std::abs(a.second - b.second) > EPSILON) {
-        return a.second > b.second;
-      } else {
-        assert(a.first < points.size() && b.first < points.size() && p0_idx < points.size());
-        const SCALAR dista = (points[a.first] - points[p0_idx]).squaredNorm();
-        const SCALAR distb = (points[b.first] - points[p0_idx]).squaredNorm();
-        return dista > distb;
-      }
-    };
-    std::sort(idxcos.begin(), idxcos.end(), comp);
+  std::vector<unsigned int> idxs;
+  for (unsigned int i = 0; i < points.size(); i++) {
+    if (points[i][0] == points[p0_idx][0] && points[i][1] == points[p0_idx][1]) { continue; }
+    idxs.push_back(i);
   }
 
-  // check for collinear points
-  for (auto itr = ++idxcos.begin(); std::next(itr) != idxcos.end(); itr++) {
-    if (std::abs((*itr).second - (*std::next(itr)).second) < EPSILON) {
-      idxcos.erase(std::next(itr)); // only keep the furthest
-    }
-  }
+  // sort points by angle
+  std::sort(idxs.begin(), idxs.end(), [&points, &p0_idx, &cross](unsigned int a, unsigned int b) {
+    const SCALAR c = cross(a, b);
+    if (c != 0) { return c > 0; }
+    return (points[a] - points[p0_idx]).squaredNorm() > (points[b] - points[p0_idx]).squaredNorm();
+  });
+
+  // check for collinear points (only keep the furthest)
+  idxs.erase(
+      std::unique(idxs.begin(), idxs.end(), [&cross](unsigned int a, unsigned int b) {
+        return cross(a, b) == 0;
+      }),
+      idxs.end());
+  assert(!idxs.empty());
 
-  idxcos.emplace_back(p0_idx, 0);
+  idxs.push_back(p0_idx);
 
   point_idxs.clear();
   point_idxs.push_back(p0_idx);
-  point_idxs.push_back(idxcos.begin()->first);
+  point_idxs.push_back(*idxs.begin());
   unsigned int stack_top = 1;
-  for (auto itr = ++idxcos.begin(); itr != idxcos.end(); itr++) {
-    unsigned int p3_idx = itr->first;
-    while (true) {
+  for (auto itr = ++idxs.begin(); itr != idxs.end(); itr++) {
+    unsigned int p3_idx = *itr;
+    while (stack_top > 0) {
       unsigned int p1_idx = point_idxs[stack_top - 1];
       unsigned int p2_idx = point_idxs[stack_top];
       const VEC p1p2 = points[p2_idx] - points[p1_idx];
-- 
2.43.0


From d9d05de7107c4b0a4ae6d13e8703a13225c67aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:18 +0000
Subject: [PATCH 043/185] fix: Hessian in Nearest_LineSeg_LineSeg_CCD_Iteration

---
 include/delfem2/geo_ccd.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/geo_ccd.cpp b/include/delfem2/geo_ccd.cpp
index b6c8009..518f403 100644
--- a/include/delfem2/geo_ccd.cpp
+++ b/include/delfem2/geo_ccd.cpp
@@ -163,7 +163,7 @@ DFM2_INLINE double delfem2::Nearest_LineSeg_LineSeg_CCD_Iteration(
     double R[3] = {v0.dot(ds), v0.dot(dt), v0.dot(du)};
     double A[9] = {
       ds.dot(ds), ds.dot(dt), ds.dot(du) + v0.dot(dsu),
-      dt.dot(ds), dt.dot(dt), dt.dot(du) * v0.dot(dtu),
+      dt.dot(ds), dt.dot(dt), dt.dot(du) + v0.dot(dtu),
       du.dot(ds) + v0.dot(dsu), du.dot(dt) + v0.dot(dtu), du.dot(du)};
     {
       double eps = (A[0] + A[4] + A[8]) * 1.0e-10 + 1.0e-20;
-- 
2.43.0


From c1e375d09450c9be18ab8ecb27193e5922cf2204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:18 +0000
Subject: [PATCH 044/185] fix: collision detection looked at one of the times
 four points are coplanar only

---
 include/delfem2/geo_ccd.cpp                 | 137 ++++++++++----------
 include/delfem2/geo_ccd.h                   |  11 ++
 include/delfem2/srch_selfintersection_bvh.h |  31 ++---
 3 files changed, 99 insertions(+), 80 deletions(-)

diff --git a/include/delfem2/geo_ccd.cpp b/include/delfem2/geo_ccd.cpp
index 518f403..1d1fa2d 100644
--- a/include/delfem2/geo_ccd.cpp
+++ b/include/delfem2/geo_ccd.cpp
@@ -187,10 +187,10 @@ DFM2_INLINE double delfem2::Nearest_LineSeg_LineSeg_CCD_Iteration(
 
 
 
-// compute time where four points gets coplaner
+// compute all the times where four points gets coplaner
 template<typename T>
-bool delfem2::FindCoplanerInterp(
-  double &r,
+unsigned int delfem2::FindCoplanerInterps(
+  double r[3],
   const CVec3<T> &s0,
   const CVec3<T> &s1,
   const CVec3<T> &s2,
@@ -212,58 +212,64 @@ bool delfem2::FindCoplanerInterp(
   const T k2 = ScalarTripleProduct(v3, v1, x2) + ScalarTripleProduct(v3, x1, v2) + ScalarTripleProduct(x3, v1, v2);
   const T k3 = ScalarTripleProduct(v3, v1, v2);
   // cubic funciton is f(x) = k0 + k1*x + k2*x^2 + k3*x^3
-  const T r0 = +0.0;
-  const T r1 = +1.0;
-  const T f0 = lcl::EvaluateCubic(r0, k0, k1, k2, k3);
-  const T f1 = lcl::EvaluateCubic(r1, k0, k1, k2, k3);
-  if (f0 * f1 <= 0) {
-    r = lcl::FindRootCubic_Bisect(r0, r1, f0, f1, k0, k1, k2, k3);
-    return true;
-  }
+  // x[0]=0, extreme points in (0,1), x[nx-1]=1. the function is monotonous between them
+  double x[4] = {0., 1., 1., 1.};
+  unsigned int nx = 1;
   if (fabs(k3) > 1.0e-30) { // cubic function
     const double det = k2 * k2 - 3 * k1 * k3; // if det > 0, the cubic function takes extreme value
-    if (det < 0) { return false; } // monotonus function
-    //
-    const double r3 = (-k2 - sqrt(det)) / (3 * k3); // smaller extreme value
-    if (r3 > 0 && r3 < 1) {
-      const double f3 = lcl::EvaluateCubic(r3, k0, k1, k2, k3);
-      if (f3 == 0) {
-        r = r3;
-        return true;
-      }
-      if (f0 * f3 < 0) {
-        r = lcl::FindRootCubic_Bisect(r0, r3, f0, f3, k0, k1, k2, k3);
-        return true;
-      }
+    if (det > 0) {
+      // avoid the cancellation when k3 is small
+      const double q = (k2 > 0) ? -k2 - sqrt(det) : -k2 + sqrt(det);
+      const double a = q / (3 * k3);
+      const double b = k1 / q;
+      const double r3 = (a < b) ? a : b; // smaller extreme value
+      const double r4 = (a < b) ? b : a; // larger extreme value
+      if (r3 > 0 && r3 < 1) { x[nx++] = r3; }
+      if (r4 > 0 && r4 < 1) { x[nx++] = r4; }
     }
-    const double r4 = (-k2 + sqrt(det)) / (3 * k3); // larger extreme value
-    if (r4 > 0 && r4 < 1) {
-      const double f4 = lcl::EvaluateCubic(r4, k0, k1, k2, k3);
-      if (f4 == 0) {
-        r = r4;
-        return true;
-      }
-      if (f0 * f4 < 0) {
-        r = lcl::FindRootCubic_Bisect(r0, r4, f0, f4, k0, k1, k2, k3);
-        return true;
-      }
-    }
-    return false;
-  }
-  //
-  if (fabs(k2) > 1.0e-30) { // quadric function
+  } else if (fabs(k2) > 1.0e-30) { // quadric function
     const double r2 = -k1 / (2 * k2); // extreme valuse
-    if (r2 > 0 && r2 < 1) {
-      const double f2 = lcl::EvaluateCubic(r2, k0, k1, k2, k3);
-      if (f0 * f2 < 0) {
-        r = lcl::FindRootCubic_Bisect(r0, r2, f0, f2, k0, k1, k2, k3);
-        return true;
-      }
-    }
-    return false;
+    if (r2 > 0 && r2 < 1) { x[nx++] = r2; }
   }
-  return false;
+  x[nx++] = 1.;
+  unsigned int nr = 0;
+  for (unsigned int ix = 0; ix < nx - 1; ++ix) {
+    const double f0 = lcl::EvaluateCubic<double>(x[ix], k0, k1, k2, k3);
+    const double f1 = lcl::EvaluateCubic<double>(x[ix + 1], k0, k1, k2, k3);
+    if (f0 * f1 > 0) { continue; }
+    if (ix != 0 && f0 == 0) { continue; } // found as the end of the previous interval
+    r[nr++] = lcl::FindRootCubic_Bisect(x[ix], x[ix + 1], f0, f1, k0, k1, k2, k3);
+  }
+  return nr;
+}
+
+// compute the first time where four points gets coplaner
+template<typename T>
+bool delfem2::FindCoplanerInterp(
+  double &r,
+  const CVec3<T> &s0,
+  const CVec3<T> &s1,
+  const CVec3<T> &s2,
+  const CVec3<T> &s3,
+  const CVec3<T> &e0,
+  const CVec3<T> &e1,
+  const CVec3<T> &e2,
+  const CVec3<T> &e3) {
+  double rs[3];
+  if (FindCoplanerInterps(rs, s0, s1, s2, s3, e0, e1, e2, e3) == 0) { return false; }
+  r = rs[0];
+  return true;
 }
+#ifdef DFM2_STATIC_LIBRARY
+template unsigned int delfem2::FindCoplanerInterps(
+  double r[3],
+  const CVec3d &s0, const CVec3d &s1, const CVec3d &s2, const CVec3d &s3,
+  const CVec3d &e0, const CVec3d &e1, const CVec3d &e2, const CVec3d &e3);
+template bool delfem2::FindCoplanerInterp(
+  double &r,
+  const CVec3d &s0, const CVec3d &s1, const CVec3d &s2, const CVec3d &s3,
+  const CVec3d &e0, const CVec3d &e1, const CVec3d &e2, const CVec3d &e3);
+#endif
 
 // CCDのFVで接触する要素を検出
 template<typename T>
@@ -307,25 +313,26 @@ bool delfem2::IsContact_FV_CCD2(
       if (dist01 > max_app && dist12 > max_app && dist20 > max_app) { return false; }
     }
   }
-  double t;
-  {
-    bool res = FindCoplanerInterp(
-      t,
+  double ts[3];
+  const unsigned int nt = FindCoplanerInterps(
+      ts,
       p0, p1, p2, p3, q0, q1, q2, q3);
-    if (!res) return false;
+  for (unsigned int it = 0; it < nt; ++it) {
+    const double t = ts[it];
     assert(t >= 0 && t <= 1);
+    CVec3<T> p0m = (1 - t) * p0 + t * q0;
+    CVec3<T> p1m = (1 - t) * p1 + t * q1;
+    CVec3<T> p2m = (1 - t) * p2 + t * q2;
+    CVec3<T> p3m = (1 - t) * p3 + t * q3;
+    double w0, w1;
+    DistanceFaceVertex(p0m, p1m, p2m, p3m, w0, w1);
+    double w2 = 1 - w0 - w1;
+    if (w0 < 0 || w0 > 1) { continue; }
+    if (w1 < 0 || w1 > 1) { continue; }
+    if (w2 < 0 || w2 > 1) { continue; }
+    return true;
   }
-  CVec3<T> p0m = (1 - t) * p0 + t * q0;
-  CVec3<T> p1m = (1 - t) * p1 + t * q1;
-  CVec3<T> p2m = (1 - t) * p2 + t * q2;
-  CVec3<T> p3m = (1 - t) * p3 + t * q3;
-  double w0, w1;
-  DistanceFaceVertex(p0m, p1m, p2m, p3m, w0, w1);
-  double w2 = 1 - w0 - w1;
-  if (w0 < 0 || w0 > 1) return false;
-  if (w1 < 0 || w1 > 1) return false;
-  if (w2 < 0 || w2 > 1) return false;
-  return true;
+  return false;
 }
 #ifdef DFM2_STATIC_LIBRARY
 template bool delfem2::IsContact_FV_CCD2(
diff --git a/include/delfem2/geo_ccd.h b/include/delfem2/geo_ccd.h
index fe34dc2..9d8383b 100644
--- a/include/delfem2/geo_ccd.h
+++ b/include/delfem2/geo_ccd.h
@@ -21,6 +21,17 @@
 
 namespace delfem2 {
 
+/**
+ * times in [0,1] (in the ascending order) where four linearly moving points are coplanar
+ * @return number of the times (at most 3)
+ */
+template<typename T>
+unsigned int FindCoplanerInterps(
+    double r[3],
+    const CVec3<T> &s0, const CVec3<T> &s1, const CVec3<T> &s2, const CVec3<T> &s3,
+    const CVec3<T> &e0, const CVec3<T> &e1, const CVec3<T> &e2, const CVec3<T> &e3);
+
+//! the first of the times where four linearly moving points are coplanar
 template<typename T>
 bool FindCoplanerInterp(
     double &r,
diff --git a/include/delfem2/srch_selfintersection_bvh.h b/include/delfem2/srch_selfintersection_bvh.h
index a920eff..fab7d09 100644
--- a/include/delfem2/srch_selfintersection_bvh.h
+++ b/include/delfem2/srch_selfintersection_bvh.h
@@ -177,24 +177,25 @@ bool delfem2::IsContact_EE_CCD
   bbp.AddPoint(p1e.data(), eps);
   if( !bbp.IsIntersect(bbq) ) return false;
   //
-  double t;
-  {
-    const bool res = FindCoplanerInterp(
-      t,
+  double ts[3];
+  const unsigned int nt = FindCoplanerInterps(
+      ts,
       p0s,p1s,q0s,q1s, p0e,p1e,q0e,q1e);
-    if( !res ) return false;
+  for(unsigned int it=0;it<nt;++it){
+    const double t = ts[it];
     assert( t >= 0 && t <= 1 );
+    CVec3d p0m = (1-t)*p0s + t*p0e;
+    CVec3d p1m = (1-t)*p1s + t*p1e;
+    CVec3d q0m = (1-t)*q0s + t*q0e;
+    CVec3d q1m = (1-t)*q1s + t*q1e;
+    double w0,w1;
+    double dist = Distance_Edge3_Edge3(p0m, p1m, q0m, q1m, w0,w1);
+    if( w0 < 0 || w0 > 1 ) continue;
+    if( w1 < 0 || w1 > 1 ) continue;
+    if( dist > 1.0e-2 ) continue;
+    return true;
   }
-  CVec3d p0m = (1-t)*p0s + t*p0e;
-  CVec3d p1m = (1-t)*p1s + t*p1e;
-  CVec3d q0m = (1-t)*q0s + t*q0e;
-  CVec3d q1m = (1-t)*q1s + t*q1e;
-  double w0,w1;
-  double dist = Distance_Edge3_Edge3(p0m, p1m, q0m, q1m, w0,w1);
-  if( w0 < 0 || w0 > 1 ) return false;
-  if( w1 < 0 || w1 > 1 ) return false;
-  if( dist > 1.0e-2 ) return false;
-  return true;
+  return false;
 }
 
 
-- 
2.43.0


From 1a59a148dd4b5b0e576828059ab58673e398c738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:25 +0000
Subject: [PATCH 045/185] fix: inertia tensor of the rigid impact zone

---
 include/delfem2/cloth_selfcollision.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/cloth_selfcollision.cpp b/include/delfem2/cloth_selfcollision.cpp
index a2d4a6c..44f3fce 100755
--- a/include/delfem2/cloth_selfcollision.cpp
+++ b/include/delfem2/cloth_selfcollision.cpp
@@ -332,9 +332,9 @@ void ApplyRigidImpactZone
       dfm2::CVec3d v(aUVWm0[ino*3+0],aUVWm0[ino*3+1],aUVWm0[ino*3+2]);
       L += Cross(p-gc,v-av);
       dfm2::CVec3d q = p-gc;
-      I[0] += v.dot(v) - q[0]*q[0];  I[1] +=          - q[0]*q[1];  I[2] +=          - q[0]*q[2];
-      I[3] +=          - q[1]*q[0];  I[4] += v.dot(v) - q[1]*q[1];  I[5] +=          - q[1]*q[2];
-      I[6] +=          - q[2]*q[0];  I[7] +=          - q[2]*q[1];  I[8] += v.dot(v) - q[2]*q[2];
+      I[0] += q.dot(q) - q[0]*q[0];  I[1] +=          - q[0]*q[1];  I[2] +=          - q[0]*q[2];
+      I[3] +=          - q[1]*q[0];  I[4] += q.dot(q) - q[1]*q[1];  I[5] +=          - q[1]*q[2];
+      I[6] +=          - q[2]*q[0];  I[7] +=          - q[2]*q[1];  I[8] += q.dot(q) - q[2]*q[2];
     }
     // 角速度を求める
     double Iinv[9];
-- 
2.43.0


From d761b4cd78c07b74eb0c4d3b76719abfa0e333ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:32 +0000
Subject: [PATCH 046/185] fix: GJK in 3D missed overlaps of small convex shapes
 because of an absolute volume threshold

---
 include/delfem2/geo_gjksat3.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/delfem2/geo_gjksat3.h b/include/delfem2/geo_gjksat3.h
index 23a0248..7837bff 100644
--- a/include/delfem2/geo_gjksat3.h
+++ b/include/delfem2/geo_gjksat3.h
@@ -88,7 +88,8 @@ auto FindIntersectingSimplexForGjk3(const std::vector<VEC>& vtxsA, const std::ve
 		AD = simplex[0] - simplex[3];
 		AO = O - simplex[3];
 
-		if (std::abs(AB.dot(AC.cross(AD))) < 0.000001) {
+		// the flatness is judged relative to the size of the tetrahedron
+		if (std::abs(AB.dot(AC.cross(AD))) <= 1.0e+4 * std::numeric_limits<typename VEC::Scalar>::epsilon() * AB.norm() * AC.norm() * AD.norm()) {
 			return std::vector<VEC>();
 		}
 
-- 
2.43.0


From cb7fb524492930939ef465e2caf6e5613f1799ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:44 +0000
Subject: [PATCH 047/185] fix: RootInInterval_Bisection lost a root hit exactly
 by a bisection point

---
 include/delfem2/polynomial_root.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/delfem2/polynomial_root.h b/include/delfem2/polynomial_root.h
index 38dd232..9764c8f 100644
--- a/include/delfem2/polynomial_root.h
+++ b/include/delfem2/polynomial_root.h
@@ -5,8 +5,12 @@
 #ifndef POLYNOMIAL_ROOT_H_
 #define POLYNOMIAL_ROOT_H_
 
+#include <cassert>
+#include <cmath>
 #include <stack>
 #include <tuple>
+#include <utility>
+#include <vector>
 
 namespace delfem2 {
 
@@ -247,9 +251,11 @@ inline double RootInInterval_Bisection(
   double fx0 = Eval_Polynomial(x0, a, ndegree_plus1);
   double fx1 = Eval_Polynomial(x1, a, ndegree_plus1);
   assert(fx0 * fx1 <= 0);
+  if (fx1 == 0) { return x1; }
   for (int i = 0; i < num_iteration; i++) {
     const double x2 = (x0 + x1) / 2; // bisection method
     const double fx2 = Eval_Polynomial(x2, a, ndegree_plus1);
+    if (fx2 == 0) { return x2; }
     if (fx1 * fx2 < 0) {
       x0 = x1;
       x1 = x2;
-- 
2.43.0


From 8d51ff3ace518a51bafd08842692bfe2526956aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:44 +0000
Subject: [PATCH 048/185] fix: RootsInRange_QuadraticPolynomial had a wrong
 sign and range test for linear input

---
 include/delfem2/polynomial_root.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/polynomial_root.h b/include/delfem2/polynomial_root.h
index 9764c8f..e9ffae2 100644
--- a/include/delfem2/polynomial_root.h
+++ b/include/delfem2/polynomial_root.h
@@ -213,8 +213,8 @@ std::vector<REAL> RootsInRange_QuadraticPolynomial(
       assert(0);
       return {};
     }
-    const REAL cand = c / b;
-    if (cand > x0 || cand < x1) { return {cand}; }
+    const REAL cand = -c / b;
+    if (cand >= x0 && cand <= x1) { return {cand}; }
     return {};
   }
   delta = std::sqrt(delta);
-- 
2.43.0


From 68f86ce5262c2704f81375aa492f842a383bbb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:44 +0000
Subject: [PATCH 049/185] fix: RootsInRange_QuadraticPolynomial lost the
 accuracy of a root for a small leading coefficient

---
 include/delfem2/polynomial_root.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/polynomial_root.h b/include/delfem2/polynomial_root.h
index e9ffae2..d599f4b 100644
--- a/include/delfem2/polynomial_root.h
+++ b/include/delfem2/polynomial_root.h
@@ -218,9 +218,13 @@ std::vector<REAL> RootsInRange_QuadraticPolynomial(
     return {};
   }
   delta = std::sqrt(delta);
+  // avoid cancellation between -b and delta
+  const REAL q = (b > 0) ? -(b + delta) / 2 : (delta - b) / 2;
+  const REAL r0 = q / a;
+  const REAL r1 = (q == 0) ? r0 : c / q;
   const REAL cands[2] = {
-    (-b - delta) / (2 * a),
-    (-b + delta) / (2 * a)};
+    (b > 0) ? r0 : r1,
+    (b > 0) ? r1 : r0};
   std::vector<REAL> res;
   res.reserve(2);
   for (auto cand: cands) {
-- 
2.43.0


From 3da6c87a586424acf37f7992617db848c76876b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:37 +0000
Subject: [PATCH 050/185] fix: getCubicBezierCurve and the Coons patches called
 a function that does not exist

---
 include/delfem2/geo_curve_cubic.h        |  2 +-
 include/delfem2/geo_surface_parametric.h | 18 ++++++++++--------
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/include/delfem2/geo_curve_cubic.h b/include/delfem2/geo_curve_cubic.h
index 6612a0f..5da8b66 100644
--- a/include/delfem2/geo_curve_cubic.h
+++ b/include/delfem2/geo_curve_cubic.h
@@ -146,7 +146,7 @@ void getCubicBezierCurve(
   for (int is = 0; is < ns; is++) {
     for (int i = 0; i < n; i++) {
       double t = (double) i / n;
-      aP[is * n + i] = getPointCubicBezierCurve(
+      aP[is * n + i] = PointOnCubicBezierCurve(
           t,
           aCP[is * 3 + 0],
           aCP[is * 3 + 1],
diff --git a/include/delfem2/geo_surface_parametric.h b/include/delfem2/geo_surface_parametric.h
index ce52a0a..58f26f2 100644
--- a/include/delfem2/geo_surface_parametric.h
+++ b/include/delfem2/geo_surface_parametric.h
@@ -20,18 +20,20 @@
 #include <cstdio>
 #include <vector>
 
+#include "geo_curve_cubic.h"
+
 namespace delfem2 {
 
 template<typename T>
 T getPointCoonsQuad_CubicBezier(
   double u, double v,
   T aP[12]) {
-  T p01u = getPointCubicBezierCurve(u, aP[0], aP[1], aP[2], aP[3]);
-  T p32u = getPointCubicBezierCurve(u, aP[9], aP[8], aP[7], aP[6]);
+  T p01u = PointOnCubicBezierCurve(u, aP[0], aP[1], aP[2], aP[3]);
+  T p32u = PointOnCubicBezierCurve(u, aP[9], aP[8], aP[7], aP[6]);
   T p = (1 - v) * p01u + v * p32u;
   //
-  T q03v = getPointCubicBezierCurve(v, aP[0], aP[11], aP[10], aP[9]);
-  T q12v = getPointCubicBezierCurve(v, aP[3], aP[4], aP[5], aP[6]);
+  T q03v = PointOnCubicBezierCurve(v, aP[0], aP[11], aP[10], aP[9]);
+  T q12v = PointOnCubicBezierCurve(v, aP[3], aP[4], aP[5], aP[6]);
   T q = (1 - u) * q03v + u * q12v;
   //
   T r = (1 - u) * (1 - v) * aP[0]
@@ -65,12 +67,12 @@ template<typename T>
 T getPointCoonsQuad_CubicBezierEdge(
   double u, double v,
   T aP[12]) {
-  T p01u = getPointCubicBezierCurve(u, aP[0], aP[1], aP[2], aP[3]);
-  T p32u = getPointCubicBezierCurve(u, aP[9], aP[8], aP[7], aP[6]);
+  T p01u = PointOnCubicBezierCurve(u, aP[0], aP[1], aP[2], aP[3]);
+  T p32u = PointOnCubicBezierCurve(u, aP[9], aP[8], aP[7], aP[6]);
   T p = (1 - v) * p01u + v * p32u;
   //
-  T q03v = getPointCubicBezierCurve(v, aP[0], aP[11], aP[10], aP[9]);
-  T q12v = getPointCubicBezierCurve(v, aP[3], aP[4], aP[5], aP[6]);
+  T q03v = PointOnCubicBezierCurve(v, aP[0], aP[11], aP[10], aP[9]);
+  T q12v = PointOnCubicBezierCurve(v, aP[3], aP[4], aP[5], aP[6]);
   T q = (1 - u) * q03v + u * q12v;
   T r = (1 - u) * (1 - v) * aP[0]
     + u * (1 - v) * aP[3]
-- 
2.43.0


From b8d257d3df37937a8b6532b5fd94c50ca49e54c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:10 +0000
Subject: [PATCH 051/185] fix: Length_QuadraticCurve returned NaN for collinear
 curves and was inaccurate for small ones

---
 include/delfem2/geo_curve_quadratic.h | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/delfem2/geo_curve_quadratic.h b/include/delfem2/geo_curve_quadratic.h
index 3b4b2b4..dc7891c 100644
--- a/include/delfem2/geo_curve_quadratic.h
+++ b/include/delfem2/geo_curve_quadratic.h
@@ -64,7 +64,7 @@ double Length_QuadraticCurve(
     const VEC &q0,
     const VEC &q1,
     const VEC &q2) {
-  if (q2.squaredNorm() < 1.0e-5) {
+  if (q2.squaredNorm() <= 1.0e-5 * q1.squaredNorm()) { // almost straight
     return Length_QuadraticCurve_Gauss(q0, q1, q2, 3);
   }
   // dl = sqrt(coe[0] + coe[1]*t + coe[2]*t^2) dt
@@ -72,12 +72,14 @@ double Length_QuadraticCurve(
       q1.squaredNorm(),
       4 * q1.dot(q2),
       4 * q2.squaredNorm()};
-  auto intt = [&coe](double t) -> double {
-    const double tmp0 = (coe[1] + 2 * coe[2] * t) * std::sqrt(coe[0] + t * (coe[1] + coe[2] * t));
-    const double tmp3 = sqrt(coe[2]);
-    const double tmp1 = coe[1] + 2 * coe[2] * t + 2 * tmp3 * sqrt(coe[0] + t * (coe[1] + coe[2] * t));
-    const double tmp2 = (coe[1] * coe[1] - 4 * coe[0] * coe[2]) * std::log(tmp1);
-    return tmp0 / (4. * coe[2]) - tmp2 / (8. * coe[2] * tmp3);
+  // dl = sqrt(coe[2]) * sqrt((t+h)^2 + k) dt,  where k is zero for a collinear control polygon
+  const double h = coe[1] / (2. * coe[2]);
+  const double k = std::max(0., coe[0] / coe[2] - h * h);
+  auto intt = [&coe, h, k](double t) -> double {
+    const double x = t + h;
+    const double tmp0 = x * std::sqrt(x * x + k);
+    const double tmp1 = (k > 0.) ? k * std::asinh(x / std::sqrt(k)) : 0.;
+    return std::sqrt(coe[2]) * (tmp0 + tmp1) / 2.;
   };
   return intt(1) - intt(0);
 }
-- 
2.43.0


From 8b65904f4e04f008c3f05d1b27b197da8f0a82e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:10 +0000
Subject: [PATCH 052/185] fix: AABB_CubicBezierCurve missed extremes when the
 cubic coefficient is tiny

---
 include/delfem2/geo_curve_cubic.h | 33 ++++++++++++++-----------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/include/delfem2/geo_curve_cubic.h b/include/delfem2/geo_curve_cubic.h
index 5da8b66..f311682 100644
--- a/include/delfem2/geo_curve_cubic.h
+++ b/include/delfem2/geo_curve_cubic.h
@@ -314,8 +314,6 @@ auto AABB_CubicBezierCurve(
   using SCALAR = typename VEC::Scalar;
   constexpr int ndim = VEC::SizeAtCompileTime;
 
-  const double EPSILON = 1.0e-10;
-
   const VEC a = -p0 + 3 * p1 - 3 * p2 + p3;
   const VEC b = 3 * p0 - 6 * p1 + 3 * p2;
   const VEC c = -3 * p0 + 3 * p1;
@@ -323,22 +321,21 @@ auto AABB_CubicBezierCurve(
 
   std::array<SCALAR, ndim * 2> res;
   for (int i = 0; i < ndim; i++) {
-    if (fabs(a[i]) < EPSILON) {
-      SCALAR r = c[i] / (-2 * b[i]);
-      r = std::clamp<SCALAR>(r, 0, 1);
-      const SCALAR e = d[i] + r * (c[i] + r * (b[i] + r * a[i]));
-      res[i] = std::min({p0[i], p3[i], e});
-      res[i + ndim] = std::max({p0[i], p3[i], e});
-    } else {
-      const SCALAR det = std::sqrt(b[i] * b[i] - 3 * a[i] * c[i]);
-      SCALAR r0 = (-b[i] + det) / (3 * a[i]);
-      SCALAR r1 = (-b[i] - det) / (3 * a[i]);
-      r0 = std::clamp<SCALAR>(r0, 0, 1);
-      r1 = std::clamp<SCALAR>(r1, 0, 1);
-      const SCALAR e0 = d[i] + r0 * (c[i] + r0 * (b[i] + r0 * a[i]));
-      const SCALAR e1 = d[i] + r1 * (c[i] + r1 * (b[i] + r1 * a[i]));
-      res[i] = std::min({p0[i], p3[i], e0, e1});
-      res[i + ndim] = std::max({p0[i], p3[i], e0, e1});
+    res[i] = std::min(p0[i], p3[i]);
+    res[i + ndim] = std::max(p0[i], p3[i]);
+    const SCALAR det = b[i] * b[i] - 3 * a[i] * c[i];
+    if (det < 0) { continue; } // monotonic
+    // roots of 3*a*t^2 + 2*b*t + c computed without cancellation
+    const SCALAR q = (b[i] > 0) ? -b[i] - std::sqrt(det) : -b[i] + std::sqrt(det);
+    SCALAR r[2];
+    int nr = 0;
+    if (a[i] != 0) { r[nr++] = q / (3 * a[i]); }
+    if (q != 0) { r[nr++] = c[i] / q; }
+    for (int ir = 0; ir < nr; ++ir) {
+      const SCALAR t = std::clamp<SCALAR>(r[ir], 0, 1);
+      const SCALAR e = d[i] + t * (c[i] + t * (b[i] + t * a[i]));
+      res[i] = std::min(res[i], e);
+      res[i + ndim] = std::max(res[i + ndim], e);
     }
   }
   return res;
-- 
2.43.0


From 7df4f5e25d561a6bd0ff9c2f1cc7d913d0e59100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:10 +0000
Subject: [PATCH 053/185] fix: Nearest_QuadraticBezierCurve and
 Nearest_CubicBezierCurve returned NaN for a curve degenerated to a point

---
 include/delfem2/geo_curve_cubic.h     | 2 +-
 include/delfem2/geo_curve_quadratic.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/geo_curve_cubic.h b/include/delfem2/geo_curve_cubic.h
index f311682..8cf0e2b 100644
--- a/include/delfem2/geo_curve_cubic.h
+++ b/include/delfem2/geo_curve_cubic.h
@@ -230,7 +230,7 @@ typename VEC::Scalar Nearest_CubicBezierCurve(
     t = (t < 0) ? 0 : t;
     t = (t > 1) ? 1 : t;
     SCALAR dist0 = (a * (t * t * t) + b * (t * t) + c * t + d).norm();
-    if (dist0 > dist_min) {
+    if (!(dist0 <= dist_min)) { // farther, or not a number because of zero ddw
       t = t0;
       break;
     }   // winding back
diff --git a/include/delfem2/geo_curve_quadratic.h b/include/delfem2/geo_curve_quadratic.h
index dc7891c..a8be65c 100644
--- a/include/delfem2/geo_curve_quadratic.h
+++ b/include/delfem2/geo_curve_quadratic.h
@@ -268,7 +268,7 @@ typename VEC::Scalar Nearest_QuadraticBezierCurve(
     t = (t < 0) ? 0 : t;
     t = (t > 1) ? 1 : t;
     SCALAR dist0 = (a * (t * t) + b * t + c).norm();
-    if (dist0 > dist_min) {
+    if (!(dist0 <= dist_min)) { // farther, or not a number because of zero ddw
       t = t0;
       break;
     }   // winding back
-- 
2.43.0


From 38e1c94fb3c8a213289a1b17cf65e0cf089fa11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:09 +0000
Subject: [PATCH 054/185] fix: RootsOfPolynomial failed an assertion for a root
 without sign change

---
 include/delfem2/polynomial_root.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/delfem2/polynomial_root.h b/include/delfem2/polynomial_root.h
index d599f4b..758ce8e 100644
--- a/include/delfem2/polynomial_root.h
+++ b/include/delfem2/polynomial_root.h
@@ -290,6 +290,18 @@ std::vector<double> RootsOfPolynomial(
   std::vector<std::pair<double, double>> intvls = RootInterval_SturmSequence<ndegplus1>(0, 1, strum);
   std::vector<double> res;
   for (auto intvl: intvls) {
+    const double f0 = Eval_Polynomial(intvl.first, coe, ndegplus1);
+    const double f1 = Eval_Polynomial(intvl.second, coe, ndegplus1);
+    if (f0 * f1 > 0) { // no sign change: multiple root, or root at an end of the range up to round-off
+      double x0 = intvl.first, x1 = intvl.second;
+      const int n0 = SturmNumber<ndegplus1>(x0, strum);
+      for (int i = 0; i < num_bisection; ++i) {
+        const double x2 = (x0 + x1) / 2;
+        if (SturmNumber<ndegplus1>(x2, strum) < n0) { x1 = x2; } else { x0 = x2; }
+      }
+      res.push_back((x0 + x1) / 2);
+      continue;
+    }
     double y0 = RootInInterval_Bisection(
       intvl.first, intvl.second,
       coe, ndegplus1, num_bisection);
-- 
2.43.0


From 703848f73bd2b62d91adbb2f19ffcc16d6076aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:25 +0000
Subject: [PATCH 055/185] fix: getParameterCubicBezier_IntersectionWithPlane
 diverged

---
 include/delfem2/geo_curve_cubic.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/delfem2/geo_curve_cubic.h b/include/delfem2/geo_curve_cubic.h
index 8cf0e2b..78a6dbf 100644
--- a/include/delfem2/geo_curve_cubic.h
+++ b/include/delfem2/geo_curve_cubic.h
@@ -120,7 +120,8 @@ bool getParameterCubicBezier_IntersectionWithPlane(
     return true;
   }
   t = 0.5;
-  for (int itr = 0; itr < 10; ++itr) {
+  double t0 = 0.0, t1 = 1.0;  // the heights at t0 and t1 have opposite signs
+  for (int itr = 0; itr < 50; ++itr) {
     double tp = 1.0 - t;
     double h = t * t * t * h4
         + 3 * t * t * tp * h3
@@ -131,7 +132,9 @@ bool getParameterCubicBezier_IntersectionWithPlane(
         + 3 * t * (2 - 3 * t) * h3
         + 3 * tp * (1 - 3 * t) * h2
         - 3 * tp * tp * h1;
+    if (h * h1 > 0) { t0 = t; } else { t1 = t; }
     t -= (h / dh);
+    if (!(t > t0 && t < t1)) { t = (t0 + t1) / 2; } // the newton step left the bracket
   }
   return false;
 }
-- 
2.43.0


From 01eafda64566e4c5c1a2e37775c73b8c26a0383a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:25 +0000
Subject: [PATCH 056/185] fix: getPointCoonsTri_CubicBezierEdge returned NaN at
 the corners

---
 include/delfem2/geo_surface_parametric.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/delfem2/geo_surface_parametric.h b/include/delfem2/geo_surface_parametric.h
index 58f26f2..b0d10fe 100644
--- a/include/delfem2/geo_surface_parametric.h
+++ b/include/delfem2/geo_surface_parametric.h
@@ -85,6 +85,9 @@ template<typename T>
 T getPointCoonsTri_CubicBezierEdge(
   double u, double v, double w,
   T aP[9]) {
+  if (u == 1) { return aP[0]; }
+  if (v == 1) { return aP[3]; }
+  if (w == 1) { return aP[6]; }
   T peu = PointOnCubicBezierCurve(w / (1 - u), aP[3], aP[4], aP[5], aP[6]);
   T pev = PointOnCubicBezierCurve(u / (1 - v), aP[6], aP[7], aP[8], aP[0]);
   T pew = PointOnCubicBezierCurve(v / (1 - w), aP[0], aP[1], aP[2], aP[3]);
-- 
2.43.0


From 8bc9bc9d68fbf7a5cfa7ac9e2e812803ce288c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:11 +0000
Subject: [PATCH 057/185] fix: the Sturm sequence was corrupted by round-off in
 vanishing leading coefficients and undefined at multiple roots

---
 include/delfem2/polynomial_root.h | 47 +++++++++++++++++++++++++++----
 1 file changed, 42 insertions(+), 5 deletions(-)

diff --git a/include/delfem2/polynomial_root.h b/include/delfem2/polynomial_root.h
index 758ce8e..a88ce38 100644
--- a/include/delfem2/polynomial_root.h
+++ b/include/delfem2/polynomial_root.h
@@ -121,6 +121,17 @@ inline void SturmSequenceOfPolynomial(
     }
   }
 
+  // trim leading coefficients that are only round-off error
+  auto trim = [](double a[n], double scale) {
+    for (int l = n - 1; l >= 0 && std::fabs(a[l]) <= scale * 1.0e-13; --l) { a[l] = 0.; }
+  };
+  double scale = 0.;
+  for (int i = 0; i < n; i++) {
+    scale = (std::fabs(coe[i]) > scale) ? std::fabs(coe[i]) : scale;
+  }
+  trim(strum[0], scale);
+  trim(strum[1], scale);
+
   for (int i = 0; i < n - 2; i++) {
     int j = i + 1, k1 = n - i - 1, k2 = n - j - 1;
     while (strum[i][k1] == 0) {
@@ -132,8 +143,10 @@ inline void SturmSequenceOfPolynomial(
       if (k2 < 0) { return; }
     }
     double poly[n];
+    scale = 0.;
     for (int l = 0; l < n; l++) {
       poly[l] = strum[i][l];
+      scale = (std::fabs(poly[l]) > scale) ? std::fabs(poly[l]) : scale;
     }
     while (k1 >= k2) {
       while (poly[k1] == 0.) {
@@ -144,13 +157,16 @@ inline void SturmSequenceOfPolynomial(
         double quotient = poly[k1] / strum[j][k2];
         poly[k1] = 0.;
         for (int l = 1; l <= k2; l++) {
-          poly[k1 - l] -= quotient * strum[j][k2 - l];
+          const double d = quotient * strum[j][k2 - l];
+          poly[k1 - l] -= d;
+          scale = (std::fabs(d) > scale) ? std::fabs(d) : scale;
         }
       }
     }
     for (int l = 0; l < n; l++) {
       strum[j + 1][l] = -poly[l];
     }
+    trim(strum[j + 1], scale);
   }
 }
 
@@ -175,6 +191,11 @@ inline std::vector<std::pair<double, double> > RootInterval_SturmSequence(
     delfem2::SturmNumber<n>(x0, strum),
     delfem2::SturmNumber<n>(x1, strum));
 
+  double scale = 0.;
+  for (int i = 0; i < n; ++i) {
+    scale = (std::fabs(strum[0][i]) > scale) ? std::fabs(strum[0][i]) : scale;
+  }
+
   std::vector<std::pair<double, double>> res;
   while (!next.empty()) {
     const auto intvl = next.top();
@@ -184,7 +205,11 @@ inline std::vector<std::pair<double, double> > RootInterval_SturmSequence(
     const double x_left = std::get<0>(intvl);
     const double x_right = std::get<1>(intvl);
     if (n_left - n_right > 1) {  // do the bi-section
-      const double x_mid = (x_left + x_right) / 2;
+      double x_mid = (x_left + x_right) / 2;
+      if (std::fabs(Eval_Polynomial(x_mid, strum[0], n)) <= scale * 1.0e-12 &&
+          n > 1 && std::fabs(Eval_Polynomial(x_mid, strum[1], n)) <= scale * 1.0e-12) {
+        x_mid = x_left * 0.45 + x_right * 0.55; // the sturm number is not defined at a multiple root
+      }
       const int n_mid = delfem2::SturmNumber<n>(x_mid, strum);
       if (n_left > n_mid) {  // left half interval
         next.emplace(x_left, x_mid, n_left, n_mid);
@@ -287,7 +312,18 @@ std::vector<double> RootsOfPolynomial(
   static_assert(ndegplus1 >= 1, "degree of polynominal should not be negative");
   double strum[ndegplus1][ndegplus1];
   SturmSequenceOfPolynomial<ndegplus1>(strum, coe);
-  std::vector<std::pair<double, double>> intvls = RootInterval_SturmSequence<ndegplus1>(0, 1, strum);
+  // Sturm's theorem does not hold if an end of the range is a multiple root
+  double scale = 0.;
+  for (int i = 0; i < ndegplus1; ++i) {
+    scale = (std::fabs(coe[i]) > scale) ? std::fabs(coe[i]) : scale;
+  }
+  auto is_multiple_root = [&](double x) {
+    return std::fabs(Eval_Polynomial(x, strum[0], ndegplus1)) <= scale * 1.0e-12
+        && ndegplus1 > 1 && std::fabs(Eval_Polynomial(x, strum[1], ndegplus1)) <= scale * 1.0e-12;
+  };
+  const double x_min = is_multiple_root(0) ? -1.0e-3 : 0.;
+  const double x_max = is_multiple_root(1) ? 1. + 1.0e-3 : 1.;
+  std::vector<std::pair<double, double>> intvls = RootInterval_SturmSequence<ndegplus1>(x_min, x_max, strum);
   std::vector<double> res;
   for (auto intvl: intvls) {
     const double f0 = Eval_Polynomial(intvl.first, coe, ndegplus1);
@@ -299,13 +335,14 @@ std::vector<double> RootsOfPolynomial(
         const double x2 = (x0 + x1) / 2;
         if (SturmNumber<ndegplus1>(x2, strum) < n0) { x1 = x2; } else { x0 = x2; }
       }
-      res.push_back((x0 + x1) / 2);
+      const double xm = (x0 + x1) / 2;
+      res.push_back(xm < 0. ? 0. : (xm > 1. ? 1. : xm));
       continue;
     }
     double y0 = RootInInterval_Bisection(
       intvl.first, intvl.second,
       coe, ndegplus1, num_bisection);
-    res.push_back(y0);
+    res.push_back(y0 < 0. ? 0. : (y0 > 1. ? 1. : y0));
   }
   return res;
 }
-- 
2.43.0


From 808efb830b80afea812b374a9e93182fc0dc0ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:09 +0000
Subject: [PATCH 058/185] fix: CMat3::MatMatTrans referred to a nonexistent
 member

---
 include/delfem2/mat3.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/mat3.cpp b/include/delfem2/mat3.cpp
index 8926237..23d673d 100644
--- a/include/delfem2/mat3.cpp
+++ b/include/delfem2/mat3.cpp
@@ -185,7 +185,7 @@ delfem2::CMat3<T> delfem2::CMat3<T>::MatMatTrans(const CMat3<T> &mat0) const {
   CMat3 m;
   for (unsigned int i = 0; i < 3; i++) {
     for (unsigned int j = 0; j < 3; j++) {
-      m.mat[i * 3 + j] =
+      m.p_[i * 3 + j] =
           p_[0 * 3 + i] * mat0.p_[0 * 3 + j] +
           p_[1 * 3 + i] * mat0.p_[1 * 3 + j] +
           p_[2 * 3 + i] * mat0.p_[2 * 3 + j];
-- 
2.43.0


From 20e1f1b806d17ba63986d3aa49139b248b626254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:09 +0000
Subject: [PATCH 059/185] fix: CMat3::SecondInvarint referred to a nonexistent
 function

---
 include/delfem2/mat3.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/mat3.h b/include/delfem2/mat3.h
index 3ad583e..2c0776b 100644
--- a/include/delfem2/mat3.h
+++ b/include/delfem2/mat3.h
@@ -235,8 +235,8 @@ class CMat3 {
   }
   [[nodiscard]] double SecondInvarint() const {
     const CMat3 &m2 = (*this) * (*this);
-    const double tr = this->Trace();
-    return 0.5 * (tr * tr - m2.Trace());
+    const double tr = this->trace();
+    return 0.5 * (tr * tr - m2.trace());
   }
   void Print() const {
     std::cout << p_[0] << " " << p_[1] << " " << p_[2] << std::endl;
-- 
2.43.0


From 4b7c5689b601afc1332c5d60d27a97e7936a0b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:09 +0000
Subject: [PATCH 060/185] fix: Vec3_SpinVectorFromMat3 repeated the second
 component

---
 include/delfem2/mat3_funcs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/mat3_funcs.cpp b/include/delfem2/mat3_funcs.cpp
index 73f9346..3b33d98 100644
--- a/include/delfem2/mat3_funcs.cpp
+++ b/include/delfem2/mat3_funcs.cpp
@@ -710,7 +710,7 @@ std::array<T, 3> delfem2::Vec3_SpinVectorFromMat3(
   return {
       (m[7] - m[5]) * half,
       (m[2] - m[6]) * half,
-      (m[2] - m[6]) * half};
+      (m[3] - m[1]) * half};
 }
 
 template<typename MAT, typename T>
-- 
2.43.0


From 347f3bd3a1a9423d9174c67dadb111d44f66a0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:03 +0000
Subject: [PATCH 061/185] fix: RotateVec3WithAxisAngleVector failed for a
 vector parallel to the axis up to round-off

---
 include/delfem2/vec3_funcs.cpp | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/include/delfem2/vec3_funcs.cpp b/include/delfem2/vec3_funcs.cpp
index ef0d9bc..8868470 100644
--- a/include/delfem2/vec3_funcs.cpp
+++ b/include/delfem2/vec3_funcs.cpp
@@ -36,22 +36,15 @@ VEC delfem2::RotateVec3WithAxisAngleVector(
   }
   VEC e0 = rot;
   Normalize3(e0);
-  VEC e2 = Cross(e0, vec0);
-  if (Length3(e2) < 1.0e-30) {
-    return vec0;
-  }
-  Normalize3(e2);
-  VEC e1 = Cross(e2, e0);
-  assert(fabs(Length3(e1) - 1) < 1.0e-10);
-  //	assert( e2.p[0]*vec_0.p[0] + e2.p[1]*vec_0.p[1] + e2.p[2]*vec_0.p[2] < 1.0e-10 );
-  const T dot00 = Dot3(vec0, e0);
-  const T dot01 = Dot3(vec0, e1);
+  const VEC e2 = Cross(e0, vec0);
   const T cost = std::cos(theta);
   const T sint = std::sin(theta);
+  const T dot00 = Dot3(vec0, e0) * (1 - cost);
+  // Rodrigues' rotation formula
   return {
-      dot00 * e0[0] + dot01 * cost * e1[0] + dot01 * sint * e2[0],
-      dot00 * e0[1] + dot01 * cost * e1[1] + dot01 * sint * e2[1],
-      dot00 * e0[2] + dot01 * cost * e1[2] + dot01 * sint * e2[2]};
+      cost * vec0[0] + sint * e2[0] + dot00 * e0[0],
+      cost * vec0[1] + sint * e2[1] + dot00 * e0[1],
+      cost * vec0[2] + sint * e2[2] + dot00 * e0[2]};
 }
 
 // ----------
-- 
2.43.0


From 052400dd1f63a517b5d9e84f3fec2a1adc45936e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:08 +0000
Subject: [PATCH 062/185] fix: Mat3_MinimumRotation was wrong for opposite
 vectors

---
 include/delfem2/mat3_funcs.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/delfem2/mat3_funcs.cpp b/include/delfem2/mat3_funcs.cpp
index 3b33d98..0c008ab 100644
--- a/include/delfem2/mat3_funcs.cpp
+++ b/include/delfem2/mat3_funcs.cpp
@@ -825,12 +825,18 @@ std::array<REAL, 9> delfem2::Mat3_MinimumRotation(
     } else {
       VEC epx, epy;
       FrameFromVectorZ(epx, epy, ep);
-      const VEC eqx = epx - eq.dot(epx) * eq; // vector orthogonal to eq
+      const VEC eqx = (epx - eq.dot(epx) * eq).normalized(); // vector orthogonal to eq
       const VEC eqy = eq.cross(eqx);
       return {
-          eqx.dot(epx), eqy.dot(epx), eq.dot(epx),
-          eqx.dot(epy), eqy.dot(epy), eq.dot(epy),
-          eqx.dot(ep), eqy.dot(ep), eq.dot(ep)};
+          eqx[0] * epx[0] + eqy[0] * epy[0] + eq[0] * ep[0],
+          eqx[0] * epx[1] + eqy[0] * epy[1] + eq[0] * ep[1],
+          eqx[0] * epx[2] + eqy[0] * epy[2] + eq[0] * ep[2],
+          eqx[1] * epx[0] + eqy[1] * epy[0] + eq[1] * ep[0],
+          eqx[1] * epx[1] + eqy[1] * epy[1] + eq[1] * ep[1],
+          eqx[1] * epx[2] + eqy[1] * epy[2] + eq[1] * ep[2],
+          eqx[2] * epx[0] + eqy[2] * epy[0] + eq[2] * ep[0],
+          eqx[2] * epx[1] + eqy[2] * epy[1] + eq[2] * ep[1],
+          eqx[2] * epx[2] + eqy[2] * epy[2] + eq[2] * ep[2]};
       /*
       const CMat3<REAL> Rp = Mat3_3Bases(epx, epy, ep);
       const CMat3<REAL> Rq = Mat3_3Bases(eqx, eqy, eq);
-- 
2.43.0


From 7f6782eb6e50c5db0f3a409331e52984f4130578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:08 +0000
Subject: [PATCH 063/185] fix: SphericalLinearInterp gave NaN for equal
 quaternions

---
 include/delfem2/quat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/quat.cpp b/include/delfem2/quat.cpp
index 0534778..383ccd3 100644
--- a/include/delfem2/quat.cpp
+++ b/include/delfem2/quat.cpp
@@ -368,7 +368,7 @@ delfem2::CQuat<T> delfem2::SphericalLinearInterp(
   const T qr = Dot_Quat(q0.p, q1.p);
   const T ss = 1 - qr * qr;
 
-  if (ss == 0.0) { return q0; }
+  if (ss <= 0.0) { return q0; }
   const T sp = std::sqrt(ss);
   const T ph = std::acos(qr);
   const T pt = ph * t;
-- 
2.43.0


From eb0d3bad2cbd6f8957e59127b2170d8d6a1a9ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:08 +0000
Subject: [PATCH 064/185] fix: Inverse_Mat4 lost all accuracy for a tiny
 positive pivot

---
 include/delfem2/mat4.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/include/delfem2/mat4.cpp b/include/delfem2/mat4.cpp
index 9b9feb2..614c7ff 100644
--- a/include/delfem2/mat4.cpp
+++ b/include/delfem2/mat4.cpp
@@ -746,13 +746,8 @@ DFM2_INLINE void delfem2::Inverse_Mat4(
     REAL minv[16],
     const REAL m[16]) {
   for (int i = 0; i < 16; ++i) { minv[i] = m[i]; }
-  int info;
-  mat4::CalcInvMat(minv, 4, info);
-  if (info != 0) {
-    for (int i = 0; i < 16; ++i) { minv[i] = m[i]; }
-    unsigned int tmp[4];
-    mat4::CalcInvMatPivot(minv, 4, tmp);
-  }
+  unsigned int tmp[4];
+  mat4::CalcInvMatPivot(minv, 4, tmp);
 }
 #ifdef DFM2_STATIC_LIBRARY
 template void delfem2::Inverse_Mat4(float minv[], const float m[]);
-- 
2.43.0


From e7dfa015834bc676217fe6be7f7e6bf6489eca4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:03 +0000
Subject: [PATCH 065/185] fix: Sturm sequence: tighter round-off threshold
 (clustered roots)

---
 include/delfem2/polynomial_root.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/polynomial_root.h b/include/delfem2/polynomial_root.h
index a88ce38..f637313 100644
--- a/include/delfem2/polynomial_root.h
+++ b/include/delfem2/polynomial_root.h
@@ -123,7 +123,7 @@ inline void SturmSequenceOfPolynomial(
 
   // trim leading coefficients that are only round-off error
   auto trim = [](double a[n], double scale) {
-    for (int l = n - 1; l >= 0 && std::fabs(a[l]) <= scale * 1.0e-13; --l) { a[l] = 0.; }
+    for (int l = n - 1; l >= 0 && std::fabs(a[l]) <= scale * 1.0e-15; --l) { a[l] = 0.; }
   };
   double scale = 0.;
   for (int i = 0; i < n; i++) {
-- 
2.43.0


From ea80047c30c9589a10a67d9895ab09f859226714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:38 +0000
Subject: [PATCH 066/185] fix: Svd3: decompose matrices of any scale

---
 include/delfem2/svd3.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/delfem2/svd3.cpp b/include/delfem2/svd3.cpp
index c6a5c75..36da31b 100644
--- a/include/delfem2/svd3.cpp
+++ b/include/delfem2/svd3.cpp
@@ -197,8 +197,14 @@ DFM2_INLINE void delfem2::Svd3(
     double U[9],
     double G[3],
     double V[9],
-    const double m[9],
+    const double m_[9],
     int nitr) {
+  // normalize the scale, such that the thresholds below work for the matrices of any size
+  double scale = 0.0;
+  for (int i = 0; i < 9; ++i) { if (fabs(m_[i]) > scale) { scale = fabs(m_[i]); }}
+  const double invscl = (scale > 0.0) ? 1.0 / scale : 0.0;
+  double m[9];
+  for (int i = 0; i < 9; ++i) { m[i] = m_[i] * invscl; }
   // M^TM = VGGV^T
   const double mtm[6] = {
       m[0] * m[0] + m[3] * m[3] + m[6] * m[6],
@@ -236,9 +242,6 @@ DFM2_INLINE void delfem2::Svd3(
     V[1 * 3 + 2] *= -1;
     V[2 * 3 + 2] *= -1;
     G[2] *= -1;
-    U[0 * 3 + 2] *= -1;
-    U[1 * 3 + 2] *= -1;
-    U[2 * 3 + 2] *= -1;
   }
 
   const double sql0 = svd3::SqLength3(u0);
@@ -286,6 +289,7 @@ DFM2_INLINE void delfem2::Svd3(
   U[6] = u0[2];
   U[7] = u1[2];
   U[8] = u2[2];
+  for (int i = 0; i < 3; ++i) { G[i] *= scale; }
 }
 
 DFM2_INLINE void delfem2::GetRotPolarDecomp(
-- 
2.43.0


From 0dc2607f21be13adf26bbaf1c70f5dd7cf7350ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:38 +0000
Subject: [PATCH 067/185] fix: Svd3: rank-one matrices with the left vector
 (1,1,1)

---
 include/delfem2/svd3.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/svd3.cpp b/include/delfem2/svd3.cpp
index 36da31b..43c1668 100644
--- a/include/delfem2/svd3.cpp
+++ b/include/delfem2/svd3.cpp
@@ -249,9 +249,12 @@ DFM2_INLINE void delfem2::Svd3(
     svd3::Normalize3(u0);
     const double sql1 = svd3::SqLength3(u1);
     if (sql1 < 1.0e-20) {
-      u1[0] = 1.0 - fabs(u0[0]);
-      u1[1] = 1.0 - fabs(u0[1]);
-      u1[2] = 1.0 - fabs(u0[2]);
+      // pick up the axis which is the most perpendicular to u0
+      const double a0[3] = {fabs(u0[0]), fabs(u0[1]), fabs(u0[2])};
+      const int iaxis = (a0[0] <= a0[1] && a0[0] <= a0[2]) ? 0 : ((a0[1] <= a0[2]) ? 1 : 2);
+      u1[0] = (iaxis == 0) ? 1.0 : 0.0;
+      u1[1] = (iaxis == 1) ? 1.0 : 0.0;
+      u1[2] = (iaxis == 2) ? 1.0 : 0.0;
     } else {
       svd3::Normalize3(u1);
     }
-- 
2.43.0


From d278480c17bdce768eaf5c22d2b65bfdcdc750a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:55 +0000
Subject: [PATCH 068/185] fix: RotationalComponentOfMatrix2: zero eigenvectors
 of (nearly) diagonal matrices

---
 include/delfem2/mat2.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/delfem2/mat2.cpp b/include/delfem2/mat2.cpp
index 331017a..05ef584 100644
--- a/include/delfem2/mat2.cpp
+++ b/include/delfem2/mat2.cpp
@@ -135,12 +135,17 @@ DFM2_INLINE void delfem2::RotationalComponentOfMatrix2(
       d = sqrt(d);
       l0 = 0.5 * (b + d);
       l1 = 0.5 * (b - d);
-      v0[0] = G[1];
-      v0[1] = G[3] - l1;
-      if (lcl::SquareLength2(v0) > eps) { lcl::Normalize2(v0); }
-      v1[0] = G[0] - l0;
-      v1[1] = G[2];
-      if (lcl::SquareLength2(v1) > eps) { lcl::Normalize2(v1); }
+      // use the longer one of two expressions of the eigen vector
+      if (G[0] >= G[3]) {
+        v0[0] = G[0] - l1;
+        v0[1] = G[2];
+      } else {
+        v0[0] = G[1];
+        v0[1] = G[3] - l1;
+      }
+      lcl::Normalize2(v0);
+      v1[0] = -v0[1];
+      v1[1] = +v0[0];
     }
   }
   double V[4] = {v0[0], v1[0], v0[1], v1[1]};
-- 
2.43.0


From e9c8fef5a5ceccb7bd3eeb3d58735d3e0868e0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:55 +0000
Subject: [PATCH 069/185] fix: polar_decomposition: NaN for 2x2 reflections and
 zero

---
 include/delfem2/mat2.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/mat2.cpp b/include/delfem2/mat2.cpp
index 05ef584..7858574 100644
--- a/include/delfem2/mat2.cpp
+++ b/include/delfem2/mat2.cpp
@@ -238,9 +238,10 @@ void delfem2::polar_decomposition(
     const CMat2<T> &m) {
   auto x = m(0, 0) + m(1, 1);
   auto y = m(1, 0) - m(0, 1);
-  auto scale = static_cast<T>(1) / std::sqrt(x * x + y * y);
-  auto c = x * scale;
-  auto s = y * scale;
+  const T len = std::sqrt(x * x + y * y);
+  // any rotation works for zero matrix and the matrices of reflection
+  const T c = (len > 0) ? x / len : static_cast<T>(1);
+  const T s = (len > 0) ? y / len : static_cast<T>(0);
   R(0, 0) = c;
   R(0, 1) = -s;
   R(1, 0) = s;
-- 
2.43.0


From 98120663bf356bbef8dc4be015cfac61e0f234c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:55 +0000
Subject: [PATCH 070/185] fix: svd of CMat2: set off-diagonals and work for any
 scale

---
 include/delfem2/mat2.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/mat2.cpp b/include/delfem2/mat2.cpp
index 7858574..25c4043 100644
--- a/include/delfem2/mat2.cpp
+++ b/include/delfem2/mat2.cpp
@@ -257,8 +257,10 @@ void delfem2::svd(CMat2<T> &U,
   CMat2<T> S;
   polar_decomposition(U, S, m);
   T c, s;
-  if (std::abs(S(0, 1)) < 1e-6f) {
-    sig = S;
+  sig(0, 1) = sig(1, 0) = 0;
+  if (S(0, 1) == 0) {
+    sig(0, 0) = S(0, 0);
+    sig(1, 1) = S(1, 1);
     c = 1;
     s = 0;
   } else {
-- 
2.43.0


From a482d08ded39c7e6ef70a13880f51e2c9ba77ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:43 +0000
Subject: [PATCH 071/185] fix: Svd3Differential: opposite singular values

---
 include/delfem2/svd3.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/delfem2/svd3.h b/include/delfem2/svd3.h
index 9968eb1..9a58c9c 100644
--- a/include/delfem2/svd3.h
+++ b/include/delfem2/svd3.h
@@ -80,7 +80,9 @@ DFM2_INLINE void Svd3Differential(
     const MAT &S,
     const MAT &V) {
   auto invmat2 = [](T a0, T a1) -> std::array<T, 2> {
-    if (fabs(a0 - a1) < 1.0e-6) { a0 += 1.0e-6; }
+    constexpr T eps = static_cast<T>(1.0e-6);
+    if (fabs(a0 - a1) < eps) { a0 = a1 + eps; }
+    if (fabs(a0 + a1) < eps) { a0 = eps - a1; }
     T detinv = 1 / (a0 * a0 - a1 * a1);
     return {+detinv * a0, -detinv * a1};
   };
-- 
2.43.0


From 042031f4d4e33ef3e7c8cd2ec0f8e7a936148615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:06 +0000
Subject: [PATCH 072/185] fix: RootsOfPolynomial: leading coefficients of
 round-off size

---
 include/delfem2/polynomial_root.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/polynomial_root.h b/include/delfem2/polynomial_root.h
index f637313..dd2c210 100644
--- a/include/delfem2/polynomial_root.h
+++ b/include/delfem2/polynomial_root.h
@@ -310,13 +310,20 @@ std::vector<double> RootsOfPolynomial(
   const double coe[ndegplus1],
   int num_bisection) {
   static_assert(ndegplus1 >= 1, "degree of polynominal should not be negative");
-  double strum[ndegplus1][ndegplus1];
-  SturmSequenceOfPolynomial<ndegplus1>(strum, coe);
-  // Sturm's theorem does not hold if an end of the range is a multiple root
   double scale = 0.;
   for (int i = 0; i < ndegplus1; ++i) {
     scale = (std::fabs(coe[i]) > scale) ? std::fabs(coe[i]) : scale;
   }
+  // leading coefficients of round-off size make no difference in [0,1] but spoil the sequence
+  double coe_trim[ndegplus1];
+  bool is_leading = true;
+  for (int i = ndegplus1 - 1; i >= 0; --i) {
+    if (std::fabs(coe[i]) > scale * 1.0e-13) { is_leading = false; }
+    coe_trim[i] = is_leading ? 0. : coe[i];
+  }
+  double strum[ndegplus1][ndegplus1];
+  SturmSequenceOfPolynomial<ndegplus1>(strum, coe_trim);
+  // Sturm's theorem does not hold if an end of the range is a multiple root
   auto is_multiple_root = [&](double x) {
     return std::fabs(Eval_Polynomial(x, strum[0], ndegplus1)) <= scale * 1.0e-12
         && ndegplus1 > 1 && std::fabs(Eval_Polynomial(x, strum[1], ndegplus1)) <= scale * 1.0e-12;
-- 
2.43.0


From f80a0ef4e2ea61762c206831661e86f248a99c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:32 +0000
Subject: [PATCH 073/185] fix: CMatrixSparse: copy assignment names nonexistent
 members

---
 include/delfem2/ls_block_sparse.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/delfem2/ls_block_sparse.h b/include/delfem2/ls_block_sparse.h
index 6ac30b2..f8c8e1a 100755
--- a/include/delfem2/ls_block_sparse.h
+++ b/include/delfem2/ls_block_sparse.h
@@ -59,14 +59,14 @@ class CMatrixSparse {
    * @param m
    */
   void operator=(const CMatrixSparse &m) {
-    this->nrowblk = m.nrowblk;
-    this->nrowdim = m.nrowdim;
-    this->ncolblk = m.ncolblk;
-    this->ncoldim = m.ncoldim;
-    col_ind_ = m.colInd;
-    row_ptr_ = m.rowPtr;
-    val_crs_ = m.valCrs;
-    val_dia_ = m.valDia; // copy value
+    this->nrowblk_ = m.nrowblk_;
+    this->nrowdim_ = m.nrowdim_;
+    this->ncolblk_ = m.ncolblk_;
+    this->ncoldim_ = m.ncoldim_;
+    col_ind_ = m.col_ind_;
+    row_ptr_ = m.row_ptr_;
+    val_crs_ = m.val_crs_;
+    val_dia_ = m.val_dia_; // copy value
   }
 
   void SetPattern(
-- 
2.43.0


From 4f06a56c9e45b06a3241ea7bfa3ded120fe78f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:32 +0000
Subject: [PATCH 074/185] fix: CMatrixSparse: AddDia_LumpedMass names
 nonexistent members

---
 include/delfem2/ls_block_sparse.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/delfem2/ls_block_sparse.h b/include/delfem2/ls_block_sparse.h
index f8c8e1a..3e9e68e 100755
--- a/include/delfem2/ls_block_sparse.h
+++ b/include/delfem2/ls_block_sparse.h
@@ -172,14 +172,14 @@ class CMatrixSparse {
   void AddDia_LumpedMass(
       const T *lm,
       double scale) {
-    assert(this->nblk_row == this->nblk_col);
-    assert(this->len_row == this->nrowdim);
+    assert(this->nrowblk_ == this->ncolblk_);
+    assert(this->nrowdim_ == this->ncoldim_);
     const int blksize = nrowdim_ * ncoldim_;
-    const int nlen = this->nrowdim;
+    const int nlen = this->nrowdim_;
     if (val_dia_.empty()) { return; }
     for (unsigned int iblk = 0; iblk < nrowblk_; ++iblk) {
       for (int ilen = 0; ilen < nlen; ++ilen) {
-        val_dia_[iblk * blksize + ilen * nlen + ilen] += lm[iblk] * scale;
+        val_dia_[iblk * blksize + ilen * nlen + ilen] += lm[iblk] * static_cast<T>(scale);
       }
     }
   }
-- 
2.43.0


From 0a4d42950fbbee98faef236ff2b10bea28b3d4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:32 +0000
Subject: [PATCH 075/185] fix: Merge: diagonal block when rows and columns are
 listed differently

---
 include/delfem2/ls_block_sparse.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/ls_block_sparse.h b/include/delfem2/ls_block_sparse.h
index 3e9e68e..2fe46a0 100755
--- a/include/delfem2/ls_block_sparse.h
+++ b/include/delfem2/ls_block_sparse.h
@@ -232,7 +232,7 @@ bool Mearge(
       const unsigned int jblk1 = aIpCol[jcol];
       assert(jblk1 < A.ncolblk_);
       if (iblk1 == jblk1) {  // Marge Diagonal
-        const T *pval_in = &emat[(irow * ncol + irow) * blksize];
+        const T *pval_in = &emat[(irow * ncol + jcol) * blksize];
         T *pval_out = &vdia[iblk1 * blksize];
         for (unsigned int i = 0; i < blksize; i++) { pval_out[i] += pval_in[i]; }
       } else {  // Marge Non-Diagonal
@@ -284,7 +284,7 @@ bool Merge(
       const unsigned int jblk1 = aIpCol[jcol];
       assert(jblk1 < A.ncolblk_);
       if (iblk1 == jblk1) {  // Marge Diagonal
-        const T *pval_in = &emat[irow][irow][0][0];
+        const T *pval_in = &emat[irow][jcol][0][0];
         T *pval_out = &vdia[iblk1 * blksize];
         for (unsigned int i = 0; i < blksize; i++) { pval_out[i] += pval_in[i]; }
       } else {  // Marge Non-Diagonal
@@ -335,7 +335,7 @@ bool Merge(
       const unsigned int jblk1 = aIpCol[jcol];
       assert(jblk1 < A.ncolblk_);
       if (iblk1 == jblk1) {  // Marge Diagonal
-        vdia[iblk1] += emat[irow][irow];
+        vdia[iblk1] += emat[irow][jcol];
       } else {  // Marge Non-Diagonal
         if (merge_buffer[jblk1] == UINT_MAX) {
           assert(0);
-- 
2.43.0


From a43480c3be36e86f060cc9c9f440e69221e2dad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:32 +0000
Subject: [PATCH 076/185] fix: Merge: initialize a fresh merge buffer

---
 include/delfem2/ls_block_sparse.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/ls_block_sparse.h b/include/delfem2/ls_block_sparse.h
index 2fe46a0..5f2844d 100755
--- a/include/delfem2/ls_block_sparse.h
+++ b/include/delfem2/ls_block_sparse.h
@@ -215,7 +215,7 @@ bool Mearge(
   assert(!A.val_crs_.empty());
   assert(!A.val_dia_.empty());
   assert(blksize == A.nrowdim_ * A.ncoldim_);
-  merge_buffer.resize(A.ncolblk_);
+  merge_buffer.resize(A.ncolblk_, UINT_MAX);
   const unsigned int *colind = A.col_ind_.data();
   const unsigned int *rowptr = A.row_ptr_.data();
   T *vcrs = A.val_crs_.data();
@@ -318,7 +318,7 @@ bool Merge(
     std::vector<unsigned int> &merge_buffer) {
   assert(!A.val_crs_.empty());
   assert(!A.val_dia_.empty());
-  merge_buffer.resize(A.ncolblk_);
+  merge_buffer.resize(A.ncolblk_, UINT_MAX);
   const unsigned int *colind = A.col_ind_.data();
   const unsigned int *rowptr = A.row_ptr_.data();
   T *vcrs = A.val_crs_.data();
-- 
2.43.0


From a944316e69f70ad7b4a67d520a50f3f2adb06a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:21 +0000
Subject: [PATCH 077/185] fix: JArray_AddMasterSlavePattern: incomplete pattern

---
 include/delfem2/ls_masterslave.cpp | 99 +++++++++++-------------------
 1 file changed, 35 insertions(+), 64 deletions(-)

diff --git a/include/delfem2/ls_masterslave.cpp b/include/delfem2/ls_masterslave.cpp
index 2f69c15..efef9bc 100755
--- a/include/delfem2/ls_masterslave.cpp
+++ b/include/delfem2/ls_masterslave.cpp
@@ -35,7 +35,7 @@ DFM2_INLINE void delfem2::JArray_AddMasterSlavePattern(
 {
   assert(npsup_ind0>0);
   const size_t nno = npsup_ind0-1;
-  std::vector< std::vector<int> > mapM2S(nno);
+  std::vector< std::vector<unsigned int> > mapM2S(nno);
   for(unsigned int ino1=0;ino1<nno;++ino1){
     for(unsigned int idim1=0;idim1<ndim;++idim1){
       unsigned int idof0 = aMSFlag[ino1*ndim+idim1];
@@ -50,86 +50,57 @@ DFM2_INLINE void delfem2::JArray_AddMasterSlavePattern(
   index.assign(nno+1,0);
   array.clear();
   std::vector<unsigned int> aflg(nno,UINT_MAX);
-  //
-  for(unsigned int ino0=0;ino0<nno;++ino0){
+  // call "func" for each node in the row of ino0 of the constrained matrix.
+  // The rows of the slaves are added to the row of the master,
+  // and the columns of the slaves are added to the column of their master.
+  auto visit = [&](unsigned int ino0, auto&& func) {
+    auto add = [&](unsigned int jno) {
+      if( aflg[jno] == ino0 ){ return; }
+      aflg[jno] = ino0;
+      func(jno);
+    };
+    auto add_masters = [&](unsigned int jno) {
+      for(unsigned int jdim=0;jdim<ndim;++jdim){
+        const unsigned int kdof = aMSFlag[jno*ndim+jdim];
+        if( kdof == UINT_MAX ) continue;
+        add(kdof/ndim);
+      }
+    };
     aflg[ino0] = ino0;
     for(unsigned int icrs=psup_ind0[ino0];icrs<psup_ind0[ino0+1];++icrs){
-      const unsigned int jno = psup0[icrs];
-      if( aflg[jno] == ino0 ){ continue; }
-      aflg[jno] = ino0;
-      index[ino0+1]++;
+      add(psup0[icrs]);
     }
-    for(int iino1=0;iino1<(int)mapM2S[ino0].size();++iino1){
-      const int ino1 = mapM2S[ino0][iino1];
-      if( aflg[ino1] != ino0 ){
-        aflg[ino1] = ino0;
-        index[ino0+1]++;
-      }
+    for(unsigned int ino1 : mapM2S[ino0]){
+      add(ino1);
       for(unsigned int jcrs=psup_ind0[ino1];jcrs<psup_ind0[ino1+1];++jcrs){
-        const unsigned int jno1 = psup0[jcrs];
-        if( aflg[jno1] == ino0 ){ continue; }
-        aflg[jno1] = ino0;
-        index[ino0+1]++;
+        add(psup0[jcrs]);
       }
     }
+    add_masters(ino0);
     for(unsigned int icrs=psup_ind0[ino0];icrs<psup_ind0[ino0+1];++icrs){
-      const unsigned int jno = psup0[icrs];
-      for(unsigned int jdim=0;jdim<ndim;++jdim){
-        unsigned int kdof = aMSFlag[jno*ndim+jdim];
-        if( kdof == UINT_MAX ) continue;
-        unsigned int kno = kdof/ndim;
-        if( aflg[kno] == ino0 ){ continue; }
-        aflg[kno] = ino0;
-        index[ino0+1]++;
+      add_masters(psup0[icrs]);
+    }
+    for(unsigned int ino1 : mapM2S[ino0]){
+      add_masters(ino1);
+      for(unsigned int jcrs=psup_ind0[ino1];jcrs<psup_ind0[ino1+1];++jcrs){
+        add_masters(psup0[jcrs]);
       }
     }
+  };
+  for(unsigned int ino0=0;ino0<nno;++ino0){
+    visit(ino0, [&](unsigned int){ index[ino0+1]++; });
   }
   //
   for(unsigned int ino=0;ino<nno;ino++){ index[ino+1] += index[ino]; }
   const unsigned int narray = index[nno];
   array.resize(narray);
-  for(unsigned int ino=0;ino<nno;ino++){ aflg[ino] = -1; }
+  for(unsigned int ino=0;ino<nno;ino++){ aflg[ino] = UINT_MAX; }
   //
   for(unsigned int ino0=0;ino0<nno;++ino0){
-    aflg[ino0] = ino0;
-    for(unsigned int icrs=psup_ind0[ino0];icrs<psup_ind0[ino0+1];++icrs){
-      const unsigned int jno = psup0[icrs];
-      if( aflg[jno] == ino0 ){ continue; }
-      aflg[jno] = ino0;
-      const unsigned int ind = index[ino0];
-      array[ind] = jno;
+    visit(ino0, [&](unsigned int jno){
+      array[index[ino0]] = jno;
       index[ino0]++;
-    }
-    for(std::size_t jjno=0;jjno<mapM2S[ino0].size();++jjno){
-      const int jno = mapM2S[ino0][jjno];
-      if( aflg[jno] != ino0 ){
-        aflg[jno] = ino0;
-        const unsigned int ind = index[ino0];
-        array[ind] = jno;
-        index[ino0]++;
-      }
-      for(unsigned int jcrs=psup_ind0[jno];jcrs<psup_ind0[jno+1];++jcrs){
-        const unsigned int kno = psup0[jcrs];
-        if( aflg[kno] == ino0 ){ continue; }
-        aflg[kno] = ino0;
-        const unsigned int ind = index[ino0];
-        array[ind] = kno;
-        index[ino0]++;
-      }
-    }
-    for(unsigned int icrs=psup_ind0[ino0];icrs<psup_ind0[ino0+1];++icrs){
-      const unsigned int jno = psup0[icrs];
-      for(unsigned int jdim=0;jdim<ndim;++jdim){
-        unsigned int kdof = aMSFlag[jno*ndim+jdim];
-        if( kdof == UINT_MAX ) continue;
-        unsigned int kno = kdof/ndim;
-        if( aflg[kno] == ino0 ){ continue; }
-        aflg[kno] = ino0;
-        const unsigned int ind = index[ino0];
-        array[ind] = kno;
-        index[ino0]++;
-      }
-    }
+    });
   }
   // ---------
   for(int ino=static_cast<int>(nno);ino>0;--ino){ index[ino] = index[ino-1]; }
-- 
2.43.0


From bc5ce432b89338b961433980ef23ce93dc002580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:41 +0000
Subject: [PATCH 078/185] fix: JArray_AddMasterSlavePattern: nodes that are
 both master and slave

---
 include/delfem2/ls_masterslave.cpp | 35 +++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/include/delfem2/ls_masterslave.cpp b/include/delfem2/ls_masterslave.cpp
index efef9bc..a8df8c3 100755
--- a/include/delfem2/ls_masterslave.cpp
+++ b/include/delfem2/ls_masterslave.cpp
@@ -35,7 +35,8 @@ DFM2_INLINE void delfem2::JArray_AddMasterSlavePattern(
 {
   assert(npsup_ind0>0);
   const size_t nno = npsup_ind0-1;
-  std::vector< std::vector<unsigned int> > mapM2S(nno);
+  // nodes directly connected as slaves / masters
+  std::vector< std::vector<unsigned int> > mapM2S0(nno), mapS2M0(nno);
   for(unsigned int ino1=0;ino1<nno;++ino1){
     for(unsigned int idim1=0;idim1<ndim;++idim1){
       unsigned int idof0 = aMSFlag[ino1*ndim+idim1];
@@ -43,13 +44,35 @@ DFM2_INLINE void delfem2::JArray_AddMasterSlavePattern(
       unsigned int ino0 = idof0/ndim;
       assert( ino0 < nno && idof0 < ndim + ino0*ndim );
       assert( idim1 + ino0*ndim == idof0  );
-      mapM2S[ino0].push_back(ino1);
+      mapM2S0[ino0].push_back(ino1);
+      mapS2M0[ino1].push_back(ino0);
     }
   }
+  std::vector<unsigned int> aflg(nno,UINT_MAX);
+  // a node can be a master in one direction and a slave in another
+  auto reachable = [&](const std::vector< std::vector<unsigned int> >& map0) {
+    std::vector< std::vector<unsigned int> > map1(nno);
+    aflg.assign(nno,UINT_MAX);
+    for(unsigned int ino0=0;ino0<nno;++ino0){
+      aflg[ino0] = ino0;
+      std::vector<unsigned int> stack = map0[ino0];
+      while(!stack.empty()){
+        const unsigned int ino1 = stack.back();
+        stack.pop_back();
+        if( aflg[ino1] == ino0 ){ continue; }
+        aflg[ino1] = ino0;
+        map1[ino0].push_back(ino1);
+        stack.insert(stack.end(), map0[ino1].begin(), map0[ino1].end());
+      }
+    }
+    return map1;
+  };
+  const std::vector< std::vector<unsigned int> > mapM2S = reachable(mapM2S0);
+  const std::vector< std::vector<unsigned int> > mapS2M = reachable(mapS2M0);
   //
   index.assign(nno+1,0);
   array.clear();
-  std::vector<unsigned int> aflg(nno,UINT_MAX);
+  aflg.assign(nno,UINT_MAX);
   // call "func" for each node in the row of ino0 of the constrained matrix.
   // The rows of the slaves are added to the row of the master,
   // and the columns of the slaves are added to the column of their master.
@@ -60,11 +83,7 @@ DFM2_INLINE void delfem2::JArray_AddMasterSlavePattern(
       func(jno);
     };
     auto add_masters = [&](unsigned int jno) {
-      for(unsigned int jdim=0;jdim<ndim;++jdim){
-        const unsigned int kdof = aMSFlag[jno*ndim+jdim];
-        if( kdof == UINT_MAX ) continue;
-        add(kdof/ndim);
-      }
+      for(unsigned int kno : mapS2M[jno]){ add(kno); }
     };
     aflg[ino0] = ino0;
     for(unsigned int icrs=psup_ind0[ino0];icrs<psup_ind0[ino0+1];++icrs){
-- 
2.43.0


From bd7e93517032d9440b334ec795d63e69620abca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:26 +0000
Subject: [PATCH 079/185] fix: complex Krylov solvers: follow the renamed
 matrix members

---
 include/delfem2/vecxitrsol.h | 56 ++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 28 deletions(-)

diff --git a/include/delfem2/vecxitrsol.h b/include/delfem2/vecxitrsol.h
index 84d79fa..39e8093 100755
--- a/include/delfem2/vecxitrsol.h
+++ b/include/delfem2/vecxitrsol.h
@@ -157,18 +157,18 @@ Solve_CG_Complex(
     const MAT& mat)
 {
   using COMPLEX = std::complex<REAL>;
-  assert(!mat.valDia.empty());
-  assert(mat.nblk_col == mat.nblk_row);
-  assert(mat.nrowdim == mat.len_row);
-  const unsigned int ndof = mat.nblk_col * mat.nrowdim;
+  assert(!mat.val_dia_.empty());
+  assert(mat.nrowblk_ == mat.ncolblk_);
+  assert(mat.nrowdim_ == mat.ncoldim_);
+  const unsigned int ndof = mat.nrowblk_ * mat.nrowdim_;
   assert(r_vec.size() == ndof);
   std::vector<double> aConv;
   u_vec.assign(ndof, 0.0);   // {x} = 0
   double sqnorm_res = Dot(r_vec, r_vec).real();
   if (sqnorm_res < 1.0e-30) { return aConv; }
   const double inv_sqnorm_res_ini = 1.0 / sqnorm_res;
-  COMPLEX Ap_vec(ndof);
-  COMPLEX p_vec = r_vec;// {p} = {r} (Set Initial Serch Direction)
+  std::vector<COMPLEX> Ap_vec(ndof);
+  std::vector<COMPLEX> p_vec = r_vec;// {p} = {r} (Set Initial Serch Direction)
   for (unsigned int iitr = 0; iitr < max_iteration; iitr++) {
     double alpha;
     {  // alpha = (r,r) / (p,Ap)
@@ -285,10 +285,10 @@ Solve_BiCGSTAB_Complex(
 {
   using COMPLEX = std::complex<REAL>;
   //
-  assert(!mat.valDia.empty());
-  assert(mat.nblk_col == mat.nblk_row);
-  assert(mat.nrowdim == mat.len_row);
-  const unsigned int ndof = mat.nblk_col * mat.nrowdim;
+  assert(!mat.val_dia_.empty());
+  assert(mat.nrowblk_ == mat.ncolblk_);
+  assert(mat.nrowdim_ == mat.ncoldim_);
+  const unsigned int ndof = mat.nrowblk_ * mat.nrowdim_;
   assert(r_vec.size() == ndof);
   
   std::vector<double> aConv;
@@ -447,17 +447,17 @@ std::vector<double> Solve_PBiCGStab_Complex(
 {
   using COMPLEX = std::complex<REAL>;
   
-  assert( !mat.valDia.empty() );
-  assert( mat.nblk_col == mat.nblk_row );
-  assert( mat.nrowdim == mat.len_row );
-  const unsigned int ndof = mat.nblk_col*mat.nrowdim;
+  assert( !mat.val_dia_.empty() );
+  assert( mat.nrowblk_ == mat.ncolblk_ );
+  assert( mat.nrowdim_ == mat.ncoldim_ );
+  const unsigned int ndof = mat.nrowblk_ * mat.nrowdim_;
   std::vector<double> aResHistry;
   
   for(unsigned int i=0;i<ndof;++i){ x_vec[i] = COMPLEX(0.0,0.0); }   // {u} = 0
   
   double sq_inv_norm_res_ini;
   {
-    const double sq_norm_res_ini = Dot(r_vec,r_vec,ndof).real();
+    const double sq_norm_res_ini = DotX(r_vec,r_vec,ndof).real();
     if( sq_norm_res_ini < 1.0e-60 ){
       aResHistry.push_back( sqrt( sq_norm_res_ini ) );
       return aResHistry;
@@ -475,12 +475,12 @@ std::vector<double> Solve_PBiCGStab_Complex(
   std::vector<COMPLEX> p_vec(r_vec,r_vec+ndof);  // {p} = {r}
   
   // calc (r,r0*)
-  COMPLEX r_r0 = Dot(r_vec,r0_vec.data(),ndof);
+  COMPLEX r_r0 = DotX(r_vec,r0_vec.data(),ndof);
   
   for(unsigned int itr=0;itr<max_niter;itr++){
     // {Mp_vec} = [M^-1]*{p}
     Mp_vec.assign(p_vec.begin(),p_vec.end());
-    ilu.SolvePrecond(Mp_vec);
+    ilu.SolvePrecond(Mp_vec.data());
     // calc {AMp_vec} = [A]*{Mp_vec}
     mat.MatVec(AMp_vec.data(),
                COMPLEX(1,0), Mp_vec.data(), COMPLEX(0,0));
@@ -491,7 +491,7 @@ std::vector<double> Solve_PBiCGStab_Complex(
     AXPY(-alpha,AMp_vec,s_vec);
     // {Ms_vec} = [M^-1]*{s}
     Ms_vec.assign(s_vec.begin(),s_vec.end());
-    ilu.SolvePrecond(Ms_vec);
+    ilu.SolvePrecond(Ms_vec.data());
     // calc {AMs_vec} = [A]*{Ms_vec}
     mat.MatVec(AMs_vec.data(),
                COMPLEX(1,0),Ms_vec.data(), COMPLEX(0,0));
@@ -499,14 +499,14 @@ std::vector<double> Solve_PBiCGStab_Complex(
     for(unsigned int i=0;i<ndof;++i){ x_vec[i] = x_vec[i]+alpha*Mp_vec[i]+omega*Ms_vec[i]; }
     for(unsigned int i=0;i<ndof;++i){ r_vec[i] = s_vec[i]-omega*AMs_vec[i]; }
     {
-      const double sq_norm_res = Dot(r_vec,r_vec,ndof).real();
+      const double sq_norm_res = DotX(r_vec,r_vec,ndof).real();
       const double conv_ratio = sqrt(sq_norm_res * sq_inv_norm_res_ini);
       aResHistry.push_back( conv_ratio );
       if( conv_ratio < conv_ratio_tol ){ return aResHistry; }
     }
     COMPLEX beta;
     {  // calc beta
-      const COMPLEX tmp1 = Dot(r_vec,r0_vec.data(),ndof);
+      const COMPLEX tmp1 = DotX(r_vec,r0_vec.data(),ndof);
       beta = (tmp1*alpha)/(r_r0*omega);
       r_r0 = tmp1;
     }
@@ -528,14 +528,14 @@ std::vector<double> Solve_PCG_Complex(
 {
   using COMPLEX = std::complex<REAL>;
 
-  const unsigned int ndof = mat.nblk_col * mat.nrowdim;
+  const unsigned int ndof = mat.nrowblk_ * mat.nrowdim_;
   std::vector<double> aResHistry;
   
   for (unsigned int i = 0; i < ndof; i++) { x_vec[i] = COMPLEX(0.0, 0.0); }    // {x} = 0
   
   double inv_sqnorm_res0;
   {
-    const double sqnorm_res0 = Dot(r_vec, r_vec, ndof).real();
+    const double sqnorm_res0 = DotX(r_vec, r_vec, ndof).real();
     aResHistry.push_back(sqnorm_res0);
     if (sqnorm_res0 < 1.0e-30) { return aResHistry; }
     inv_sqnorm_res0 = 1.0 / sqnorm_res0;
@@ -543,11 +543,11 @@ std::vector<double> Solve_PCG_Complex(
   
   // {Pr} = [P]{r}
   std::vector<COMPLEX> Pr_vec(r_vec, r_vec + ndof);
-  ilu.SolvePrecond(Pr_vec);
+  ilu.SolvePrecond(Pr_vec.data());
   // {p} = {Pr}
   std::vector<COMPLEX> p_vec = Pr_vec;
   // rPr = ({r},{Pr})
-  COMPLEX rPr = Dot(r_vec, Pr_vec.data(), ndof);
+  COMPLEX rPr = DotX(r_vec, Pr_vec.data(), ndof);
   for (unsigned int iitr = 0; iitr < max_nitr; iitr++) {
     {
       std::vector<COMPLEX> &Ap_vec = Pr_vec;
@@ -561,7 +561,7 @@ std::vector<double> Solve_PCG_Complex(
       AXPY(+alpha, p_vec.data(), x_vec, ndof);       // {x} = +alpha*{p } + {x}
     }
     {  // Converge Judgement
-      double sqnorm_res = Dot(r_vec, r_vec, ndof).real();
+      double sqnorm_res = DotX(r_vec, r_vec, ndof).real();
       double conv_ratio = sqrt(sqnorm_res * inv_sqnorm_res0);
       aResHistry.push_back(conv_ratio);
       if (conv_ratio < conv_ratio_tol) { return aResHistry; }
@@ -569,9 +569,9 @@ std::vector<double> Solve_PCG_Complex(
     {  // calc beta
        // {Pr} = [P]{r}
       for (unsigned int i = 0; i < ndof; i++) { Pr_vec[i] = r_vec[i]; }
-      ilu.SolvePrecond(Pr_vec);
+      ilu.SolvePrecond(Pr_vec.data());
       // rPr1 = ({r},{Pr})
-      const COMPLEX rPr1 = Dot(r_vec, Pr_vec.data(), ndof);
+      const COMPLEX rPr1 = DotX(r_vec, Pr_vec.data(), ndof);
       // beta = rPr1/rPr
       COMPLEX beta = rPr1 / rPr;
       rPr = rPr1;
@@ -581,7 +581,7 @@ std::vector<double> Solve_PCG_Complex(
   }
   {
     // Converge Judgement
-    double sq_norm_res = Dot(r_vec, r_vec, ndof).real();
+    double sq_norm_res = DotX(r_vec, r_vec, ndof).real();
     aResHistry.push_back(sqrt(sq_norm_res));
   }
   return aResHistry;
-- 
2.43.0


From 792500d15f674dbcb8a0695aad0fa605af7c1d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:26 +0000
Subject: [PATCH 080/185] fix: Solve_CG_Complex: test convergence on the
 current residual

---
 include/delfem2/vecxitrsol.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/vecxitrsol.h b/include/delfem2/vecxitrsol.h
index 39e8093..69cb3fd 100755
--- a/include/delfem2/vecxitrsol.h
+++ b/include/delfem2/vecxitrsol.h
@@ -182,7 +182,7 @@ Solve_CG_Complex(
     AXPY(COMPLEX(+alpha), p_vec, u_vec);    // {x} = +alpha*{ p} + {x} (updatex)
     AXPY(COMPLEX(-alpha), Ap_vec, r_vec);  // {r} = -alpha*{Ap} + {r}
     double sqnorm_res_new = Dot(r_vec, r_vec).real();
-    const double conv_ratio = sqrt(sqnorm_res * inv_sqnorm_res_ini);
+    const double conv_ratio = sqrt(sqnorm_res_new * inv_sqnorm_res_ini);
     aConv.push_back(conv_ratio);
     if (conv_ratio < conv_ratio_tol) { return aConv; }
     { // update p
-- 
2.43.0


From 5502d77e32723c8fe519447bd7985baefad36894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:26 +0000
Subject: [PATCH 081/185] fix: Solve_PCG_Complex: residual norms in the history

---
 include/delfem2/vecxitrsol.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/vecxitrsol.h b/include/delfem2/vecxitrsol.h
index 69cb3fd..8d17bd5 100755
--- a/include/delfem2/vecxitrsol.h
+++ b/include/delfem2/vecxitrsol.h
@@ -536,7 +536,7 @@ std::vector<double> Solve_PCG_Complex(
   double inv_sqnorm_res0;
   {
     const double sqnorm_res0 = DotX(r_vec, r_vec, ndof).real();
-    aResHistry.push_back(sqnorm_res0);
+    aResHistry.push_back(sqrt(sqnorm_res0));
     if (sqnorm_res0 < 1.0e-30) { return aResHistry; }
     inv_sqnorm_res0 = 1.0 / sqnorm_res0;
   }
@@ -562,8 +562,8 @@ std::vector<double> Solve_PCG_Complex(
     }
     {  // Converge Judgement
       double sqnorm_res = DotX(r_vec, r_vec, ndof).real();
+      aResHistry.push_back(sqrt(sqnorm_res));
       double conv_ratio = sqrt(sqnorm_res * inv_sqnorm_res0);
-      aResHistry.push_back(conv_ratio);
       if (conv_ratio < conv_ratio_tol) { return aResHistry; }
     }
     {  // calc beta
-- 
2.43.0


From 7db4112a949e6b8be6fa64d15b000136dc8d0010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:26 +0000
Subject: [PATCH 082/185] fix: BiCGStab: clear the solution before the early
 return

---
 include/delfem2/vecxitrsol.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/delfem2/vecxitrsol.h b/include/delfem2/vecxitrsol.h
index 8d17bd5..3dad26a 100755
--- a/include/delfem2/vecxitrsol.h
+++ b/include/delfem2/vecxitrsol.h
@@ -209,6 +209,8 @@ std::vector<REAL> Solve_BiCGStab(
   assert(r_vec.size() == ndof);
   
   std::vector<double> aConv;
+  x_vec.assign(ndof, 0.0);
+
   double sq_inv_norm_res_ini;
   {
     const double sq_norm_res_ini = Dot(r_vec, r_vec);
@@ -222,8 +224,6 @@ std::vector<REAL> Solve_BiCGStab(
   std::vector<double> Ap_vec(ndof);
   std::vector<double> r2_vec(ndof);
   
-  x_vec.assign(ndof, 0.0);
-  
   r2_vec = r_vec;   // {r2} = {r}
   p_vec = r_vec;    // {p} = {r}
   double r_r2 = Dot(r_vec, r2_vec);   // calc ({r},{r2})
@@ -292,6 +292,8 @@ Solve_BiCGSTAB_Complex(
   assert(r_vec.size() == ndof);
   
   std::vector<double> aConv;
+  x_vec.assign(ndof, 0.0);
+
   double sq_inv_norm_res_ini;
   {
     const double sq_norm_res_ini = Dot(r_vec, r_vec).real();
@@ -304,8 +306,6 @@ Solve_BiCGSTAB_Complex(
   std::vector<COMPLEX> p_vec(ndof);
   std::vector<COMPLEX> Ap_vec(ndof);
   
-  x_vec.assign(ndof, 0.0);
-  
   const std::vector<COMPLEX> r0_vec = r_vec;   // {r2} = {r}
   p_vec = r_vec;    // {p} = {r}
   COMPLEX r_r0 = Dot(r_vec, r0_vec);   // calc ({r},{r2})
-- 
2.43.0


From cf4195337229cf4512fe7161d55bab5e41441791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:26 +0000
Subject: [PATCH 083/185] fix: BiCGStab: no 0/0 when the half step is exact

---
 include/delfem2/vecxitrsol.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/delfem2/vecxitrsol.h b/include/delfem2/vecxitrsol.h
index 3dad26a..a722351 100755
--- a/include/delfem2/vecxitrsol.h
+++ b/include/delfem2/vecxitrsol.h
@@ -247,7 +247,7 @@ std::vector<REAL> Solve_BiCGStab(
     { // omega = ({As},{s}) / ({As},{As})
       const double denominator = Dot(As_vec, As_vec);
       const double numerator = Dot(As_vec, s_vec);
-      omega = numerator / denominator;
+      omega = (denominator == 0.0) ? 0.0 : numerator / denominator; // zero if {s} is zero
     }
     // ix += alpha*{p} + omega*{s} (update solution)
     AXPY(alpha, p_vec, x_vec);
@@ -321,7 +321,8 @@ Solve_BiCGSTAB_Complex(
     mat.MatVec(As_vec.data(),
                1.0, s_vec.data(), 0.0);
     // calc omega
-    const COMPLEX omega = Dot(s_vec, As_vec) / Dot(As_vec, As_vec).real();  // omega=({As},{s})/({As},{As})
+    const double sqnorm_As = Dot(As_vec, As_vec).real();
+    const COMPLEX omega = (sqnorm_As == 0.0) ? COMPLEX(0.0) : Dot(s_vec, As_vec) / sqnorm_As;  // omega=({As},{s})/({As},{As})
                                                                                         // ix += alpha*{p} + omega*{s} (update solution)
     AXPY(alpha, p_vec, x_vec);
     AXPY(omega, s_vec, x_vec);
@@ -410,7 +411,7 @@ std::vector<double> Solve_PBiCGStab(
     {  // calc omega
       const double denominator = Dot(AMs_vec,AMs_vec);
       const double numerator = Dot(s_vec,AMs_vec);
-      omega = numerator / denominator;
+      omega = (denominator == 0.0) ? 0.0 : numerator / denominator; // zero if {s} is zero
     }
     AXPY(alpha,Mp_vec.data(),x_vec,ndof);
     AXPY(omega,Ms_vec.data(),x_vec,ndof);
@@ -495,7 +496,8 @@ std::vector<double> Solve_PBiCGStab_Complex(
     // calc {AMs_vec} = [A]*{Ms_vec}
     mat.MatVec(AMs_vec.data(),
                COMPLEX(1,0),Ms_vec.data(), COMPLEX(0,0));
-    const COMPLEX omega = Dot(s_vec,AMs_vec) / Dot(AMs_vec,AMs_vec).real();
+    const double sqnorm_AMs = Dot(AMs_vec,AMs_vec).real();
+    const COMPLEX omega = (sqnorm_AMs == 0.0) ? COMPLEX(0.0) : Dot(s_vec,AMs_vec) / sqnorm_AMs;
     for(unsigned int i=0;i<ndof;++i){ x_vec[i] = x_vec[i]+alpha*Mp_vec[i]+omega*Ms_vec[i]; }
     for(unsigned int i=0;i<ndof;++i){ r_vec[i] = s_vec[i]-omega*AMs_vec[i]; }
     {
-- 
2.43.0


From 009d5a9afd0e9739790dc76d6b084a67ffb33ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:26 +0000
Subject: [PATCH 084/185] fix: CPreconditionerILU: copy constructor

---
 include/delfem2/ls_ilu_block_sparse.cpp | 14 --------------
 include/delfem2/ls_ilu_block_sparse.h   |  2 +-
 2 files changed, 1 insertion(+), 15 deletions(-)

diff --git a/include/delfem2/ls_ilu_block_sparse.cpp b/include/delfem2/ls_ilu_block_sparse.cpp
index 21cbb62..c8e79e8 100755
--- a/include/delfem2/ls_ilu_block_sparse.cpp
+++ b/include/delfem2/ls_ilu_block_sparse.cpp
@@ -132,20 +132,6 @@ class CRowLevNext {
 
 // -----------------------------------------------------------------
 
-template<typename T>
-delfem2::CPreconditionerILU<T>::CPreconditionerILU(
-    const CPreconditionerILU<T> &p) {
-//  std::cout << "CPreconditionerILU -- construct copy" << std::endl;
-  this->mat = p.mat; // deep copy
-  assert(nblk == this->mat.nblk_col);
-  this->m_diaInd.resize(nblk);
-  for (int iblk = 0; iblk < nblk; ++iblk) {
-    this->m_diaInd[iblk] = p.m_diaInd[iblk];
-  }
-}
-
-// -------------------------------------------------------------------
-
 namespace delfem2 {
 
 // numerical factorization
diff --git a/include/delfem2/ls_ilu_block_sparse.h b/include/delfem2/ls_ilu_block_sparse.h
index ae072d2..07770c8 100755
--- a/include/delfem2/ls_ilu_block_sparse.h
+++ b/include/delfem2/ls_ilu_block_sparse.h
@@ -22,7 +22,7 @@ template<typename T>
 class CPreconditionerILU {
  public:
   CPreconditionerILU() noexcept {}
-  CPreconditionerILU(const CPreconditionerILU &); // copy
+  CPreconditionerILU(const CPreconditionerILU &) = default; // copy
   ~CPreconditionerILU() { m_diaInd.clear(); }
   void Clear() {
     colInd.clear();
-- 
2.43.0


From 6c1979e35b687f54ee338545b6059778f0b7d82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:26 +0000
Subject: [PATCH 085/185] fix: ls_ilu_block_sparse: include what is used

---
 include/delfem2/ls_ilu_block_sparse.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/delfem2/ls_ilu_block_sparse.cpp b/include/delfem2/ls_ilu_block_sparse.cpp
index c8e79e8..182959e 100755
--- a/include/delfem2/ls_ilu_block_sparse.cpp
+++ b/include/delfem2/ls_ilu_block_sparse.cpp
@@ -8,6 +8,8 @@
 #include "delfem2/ls_ilu_block_sparse.h"
 
 #include <cstdlib>
+#include <cstring>
+#include <climits>
 #include <cassert>
 #include <vector>
 #include <complex>
-- 
2.43.0


From 57377530713a44b417cd623bc0878c53e6d192de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:51 +0000
Subject: [PATCH 086/185] fix: Distance of vectors: return the distance

---
 include/delfem2/vecxitrsol.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/vecxitrsol.cpp b/include/delfem2/vecxitrsol.cpp
index e025f0b..f52a462 100755
--- a/include/delfem2/vecxitrsol.cpp
+++ b/include/delfem2/vecxitrsol.cpp
@@ -102,7 +102,7 @@ T delfem2::Distance(
   const size_t n = va.size();
   T r = 0.0;
   for (unsigned i = 0; i < n; i++) { r += (va[i] - vb[i]) * (va[i] - vb[i]); }
-  return r;
+  return std::sqrt(r);
 }
 #ifdef DFM2_STATIC_LIBRARY
 template float delfem2::Distance(
-- 
2.43.0


From 38e1b9f15d36fb9aff12f88601d0097fb4e43ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:51 +0000
Subject: [PATCH 087/185] fix: Initialize_ILUk: rows without off-diagonal
 blocks

---
 include/delfem2/ls_ilu_block_sparse.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/ls_ilu_block_sparse.cpp b/include/delfem2/ls_ilu_block_sparse.cpp
index 182959e..d1871e4 100755
--- a/include/delfem2/ls_ilu_block_sparse.cpp
+++ b/include/delfem2/ls_ilu_block_sparse.cpp
@@ -884,11 +884,11 @@ void delfem2::CPreconditionerILU<T>::Initialize_ILUk(
         listNonzero[inz].next = inz + 1;
         inz++;
       }
-      listNonzero[inz - 1].next = UINT_MAX;
+      if (inz > 0) { listNonzero[inz - 1].next = UINT_MAX; }
     }
 
     unsigned int knz_cur = 0;
-    for (;;) {
+    for (; !listNonzero.empty();) {
       const unsigned int kblk0 = listNonzero[knz_cur].row;
       assert(kblk0 < nblk);
       const unsigned int ik_lev0 = listNonzero[knz_cur].lev;
@@ -947,7 +947,7 @@ void delfem2::CPreconditionerILU<T>::Initialize_ILUk(
     {
       aRowLev.resize(colInd[iblk] + listNonzero.size());
       unsigned int icrs0 = colInd[iblk];
-      for (int inz = 0; inz != -1; inz = listNonzero[inz].next) {
+      for (int inz = listNonzero.empty() ? -1 : 0; inz != -1; inz = listNonzero[inz].next) {
         const unsigned int jblk = listNonzero[inz].row;
         const unsigned int jlev = listNonzero[inz].lev;
         assert(jblk < nblk);
-- 
2.43.0


From dd2e24feb86748424bce1ae16e08cda8199dd96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:51 +0000
Subject: [PATCH 088/185] fix: LinearSystemSolver_BlockPentaDiagonal::Merge:
 loop over the columns

---
 include/delfem2/ls_pentadiagonal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/ls_pentadiagonal.h b/include/delfem2/ls_pentadiagonal.h
index 805b2e5..d677117 100644
--- a/include/delfem2/ls_pentadiagonal.h
+++ b/include/delfem2/ls_pentadiagonal.h
@@ -159,7 +159,7 @@ class LinearSystemSolver_BlockPentaDiagonal {
         double *p = dia.GetValuePointer(aIpRow[irow], aIpCol[icol]);
         assert(p != nullptr);
         for (int i = 0; i < ndimrow; ++i) {
-          for (int j = 0; j < ndimrow; ++j) {
+          for (int j = 0; j < ndimcol; ++j) {
             p[i * ndim_ + j] += emat[irow][icol][i][j];
           }
         }
-- 
2.43.0


From 88a20e9d41ab4ac4a96220e2959ee0ee57e4c9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:53 +0000
Subject: [PATCH 089/185] fix: eigen Merge: diagonal block with different row
 and column lists

---
 include/delfem2/eigen/ls_sparse.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/eigen/ls_sparse.h b/include/delfem2/eigen/ls_sparse.h
index b0efc77..422615b 100644
--- a/include/delfem2/eigen/ls_sparse.h
+++ b/include/delfem2/eigen/ls_sparse.h
@@ -90,7 +90,7 @@ bool Merge(
       if (iblk1 == jblk1) {  // Marge Diagonal
         for (int i = 0; i < ndimrow; ++i) {
           for (int j = 0; j < ndimcol; ++j) {
-            A.valDia[iblk1](i, j) += emat[irow][irow][i][j];
+            A.valDia[iblk1](i, j) += emat[irow][jcol][i][j];
           }
         }
       } else {  // Marge Non-Diagonal
-- 
2.43.0


From cd259fb8b0266bf50120a828565ef2a224bb5b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:53 +0000
Subject: [PATCH 090/185] fix: eigen AddMatVec: do not read the output for beta
 = 0

---
 include/delfem2/eigen/ls_dense.h  | 3 ++-
 include/delfem2/eigen/ls_sparse.h | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/eigen/ls_dense.h b/include/delfem2/eigen/ls_dense.h
index 921579a..7178845 100644
--- a/include/delfem2/eigen/ls_dense.h
+++ b/include/delfem2/eigen/ls_dense.h
@@ -11,7 +11,8 @@ void AddMatVec(
     double alpha,
     const Eigen::MatrixXd &mat,
     const Eigen::VectorXd &x_vec) {
-  y_vec = alpha * mat * x_vec + beta * y_vec;
+  if( beta == 0 ){ y_vec = alpha * mat * x_vec; } // y_vec may not be initialized
+  else { y_vec = alpha * mat * x_vec + beta * y_vec; }
 }
 
 
diff --git a/include/delfem2/eigen/ls_sparse.h b/include/delfem2/eigen/ls_sparse.h
index 422615b..e39dfaf 100644
--- a/include/delfem2/eigen/ls_sparse.h
+++ b/include/delfem2/eigen/ls_sparse.h
@@ -187,7 +187,8 @@ void AddMatVec(
   constexpr int nrowdim = MAT::RowsAtCompileTime;
   constexpr int ncoldim = MAT::ColsAtCompileTime;
   assert(lhs.rows()%nrowdim==0);
-  lhs *= beta;
+  if( beta == 0 ){ lhs.setZero(); } // lhs may not be initialized
+  else { lhs *= beta; }
   for (unsigned int iblk = 0; iblk < A.nrowblk; iblk++) {
     for (unsigned int icrs = A.colInd[iblk]; icrs < A.colInd[iblk + 1]; icrs++) {
       assert(icrs < A.rowPtr.size());
@@ -209,7 +210,8 @@ void AddMatVec(
     const Eigen::Matrix<REAL,-1,MAT::ColsAtCompileTime,Eigen::RowMajor,-1,MAT::ColsAtCompileTime> &rhs) {
   assert(lhs.rows() == rhs.rows());
   assert(lhs.rows()%MAT::RowsAtCompileTime==0);
-  lhs *= beta;
+  if( beta == 0 ){ lhs.setZero(); } // lhs may not be initialized
+  else { lhs *= beta; }
   for (unsigned int iblk = 0; iblk < A.nrowblk; iblk++) {
     for (unsigned int icrs = A.colInd[iblk]; icrs < A.colInd[iblk + 1]; icrs++) {
       assert(icrs < A.rowPtr.size());
-- 
2.43.0


From 44738600d49966148cdf4ff621a3301488a4b9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:23 +0000
Subject: [PATCH 091/185] fix: Initialize_ILUk: fill level of an entry is the
 lowest level

---
 include/delfem2/ls_ilu_block_sparse.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/ls_ilu_block_sparse.cpp b/include/delfem2/ls_ilu_block_sparse.cpp
index d1871e4..4d9977b 100755
--- a/include/delfem2/ls_ilu_block_sparse.cpp
+++ b/include/delfem2/ls_ilu_block_sparse.cpp
@@ -908,6 +908,7 @@ void delfem2::CPreconditionerILU<T>::Initialize_ILUk(
         assert(listNonzero[jnz_cur].row < jblk0);
         if (jblk0 == iblk) continue; // already filled-in on the diagonal
 
+        const unsigned int max_lev0 = (ik_lev0 > kj_lev0) ? ik_lev0 : kj_lev0;
         // check if this is fill in
         bool is_fill_in = false;
         for (;;) {
@@ -921,14 +922,16 @@ void delfem2::CPreconditionerILU<T>::Initialize_ILUk(
             is_fill_in = true;
             break;
           }
-          if (listNonzero[jnz_nex].row == jblk0) { break; }
+          if (listNonzero[jnz_nex].row == jblk0) {  // the level of an entry is the lowest one
+            if (listNonzero[jnz_nex].lev > max_lev0 + 1) { listNonzero[jnz_nex].lev = max_lev0 + 1; }
+            break;
+          }
           assert(listNonzero[jnz_nex].row < jblk0);
           jnz_cur = jnz_nex;
         }
         if (!is_fill_in) { continue; }
 
         // pick up fill in
-        const unsigned int max_lev0 = (ik_lev0 > kj_lev0) ? ik_lev0 : kj_lev0;
         const auto inz_last = static_cast<unsigned int>(listNonzero.size());
         listNonzero.resize(listNonzero.size() + 1);
         listNonzero[inz_last].row = jblk0;
-- 
2.43.0


From 41750b6b767a45d23c1ed32fbd300355f5148477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:04 +0000
Subject: [PATCH 092/185] fix: eigen AddMatVec (row-major): wrong size
 assertion

---
 include/delfem2/eigen/ls_sparse.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/eigen/ls_sparse.h b/include/delfem2/eigen/ls_sparse.h
index e39dfaf..b6068e3 100644
--- a/include/delfem2/eigen/ls_sparse.h
+++ b/include/delfem2/eigen/ls_sparse.h
@@ -209,7 +209,7 @@ void AddMatVec(
     const CMatrixSparseBlock<MAT, ALLOCATOR, RowsActive> &A,
     const Eigen::Matrix<REAL,-1,MAT::ColsAtCompileTime,Eigen::RowMajor,-1,MAT::ColsAtCompileTime> &rhs) {
   assert(lhs.rows() == rhs.rows());
-  assert(lhs.rows()%MAT::RowsAtCompileTime==0);
+  assert(lhs.rows() == A.nrowblk);  // one row for each block
   if( beta == 0 ){ lhs.setZero(); } // lhs may not be initialized
   else { lhs *= beta; }
   for (unsigned int iblk = 0; iblk < A.nrowblk; iblk++) {
-- 
2.43.0


From 42702068cd20212cea3cd97399776b7b8289b67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:58 +0000
Subject: [PATCH 093/185] fix: fem_dkt.h includes its implementation under its
 real name

---
 include/delfem2/fem_dkt.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/fem_dkt.h b/include/delfem2/fem_dkt.h
index e08eb28..bf7c406 100644
--- a/include/delfem2/fem_dkt.h
+++ b/include/delfem2/fem_dkt.h
@@ -37,7 +37,7 @@ DFM2_INLINE void MakeMat_PlateBendingDKT
 } // namespace delfem2
 
 #ifndef DFM2_STATIC_LIBRARY
-#  include "delfem2/femdkt.cpp"
+#  include "delfem2/fem_dkt.cpp"
 #endif
   
 #endif /* fem_ematrix_h */
-- 
2.43.0


From 9cf32c79af23be4d0730654cef11faa160e70328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:58 +0000
Subject: [PATCH 094/185] fix: MakePositiveDefinite_Sim22 keeps the eigenvector
 of the positive eigenvalue

---
 include/delfem2/fem_stvk.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/fem_stvk.cpp b/include/delfem2/fem_stvk.cpp
index cc44675..f8e4c42 100644
--- a/include/delfem2/fem_stvk.cpp
+++ b/include/delfem2/fem_stvk.cpp
@@ -228,8 +228,8 @@ DFM2_INLINE void MakePositiveDefinite_Sim22(
     return;
   }
   const double l = b+e;
-  double t0[2] = { s2[0]-l, s2[2]   };
-  double t1[2] = { s2[2],   s2[1]-l };
+  double t0[2] = { s2[2],   l-s2[0] };
+  double t1[2] = { l-s2[1], s2[2]   };
   //  std::cout << t0[0]*t1[1]-t0[1]*t1[0] << std::endl;
   const double sqlen_t0 = t0[0]*t0[0]+t0[1]*t0[1];
   const double sqlen_t1 = t1[0]*t1[0]+t1[1]*t1[1];
-- 
2.43.0


From e515612245c38ff4badf612187841511cecba27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:58 +0000
Subject: [PATCH 095/185] fix: WdWddW_Bend returns the energy its gradient
 derives from

---
 include/delfem2/fem_quadratic_bending.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/fem_quadratic_bending.cpp b/include/delfem2/fem_quadratic_bending.cpp
index 3cdcc3e..549fd4f 100644
--- a/include/delfem2/fem_quadratic_bending.cpp
+++ b/include/delfem2/fem_quadratic_bending.cpp
@@ -101,7 +101,7 @@ DFM2_INLINE void delfem2::WdWddW_Bend(
           dW[ino][idim] += ddW[ino][jno][idim][jdim] * c[jno][jdim];
         }
       }
-      W += dW[ino][idim] * c[ino][idim];
+      W += 0.5 * dW[ino][idim] * c[ino][idim];
     }
   }
 }
-- 
2.43.0


From d895b1e5444820eb7aa09a61739b431305f42369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:58 +0000
Subject: [PATCH 096/185] fix: WdWddW_MIPS mixed terms of the hessian

---
 include/delfem2/fem_mips.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/delfem2/fem_mips.cpp b/include/delfem2/fem_mips.cpp
index ac8a7e4..6762928 100644
--- a/include/delfem2/fem_mips.cpp
+++ b/include/delfem2/fem_mips.cpp
@@ -105,15 +105,15 @@ DFM2_INLINE void delfem2::WdWddW_MIPS(
     dE[1][idim]=EC*dEA*dad1[idim]+EA*dECd1[idim];
     dE[2][idim]=EC*dEA*dad2[idim]+EA*dECd2[idim];
   }
-  CMat3d ddEd0d0 = EC*dEA*ddad0d0 + EC*ddEA*op(dad0,dad0) + EA*CMat3d::Identity(t00) + dEA*op(dad0,dECd0)*2.0;
-  CMat3d ddEd0d1 = EC*dEA*ddad0d1 + EC*ddEA*op(dad0,dad1) + EA*CMat3d::Identity(t01) + dEA*op(dad0,dECd1) + dEA*op(dad1,dECd0);
-  CMat3d ddEd0d2 = EC*dEA*ddad0d2 + EC*ddEA*op(dad0,dad2) + EA*CMat3d::Identity(t02) + dEA*op(dad0,dECd2) + dEA*op(dad2,dECd0);
-  CMat3d ddEd1d0 = EC*dEA*ddad1d0 + EC*ddEA*op(dad1,dad0) + EA*CMat3d::Identity(t01) + dEA*op(dad1,dECd0) + dEA*op(dad0,dECd1);
-  CMat3d ddEd1d1 = EC*dEA*ddad1d1 + EC*ddEA*op(dad1,dad1) + EA*CMat3d::Identity(t11) + dEA*op(dad1,dECd1)*2.0;
-  CMat3d ddEd1d2 = EC*dEA*ddad1d2 + EC*ddEA*op(dad1,dad2) + EA*CMat3d::Identity(t12) + dEA*op(dad1,dECd2) + dEA*op(dad2,dECd1);
-  CMat3d ddEd2d0 = EC*dEA*ddad2d0 + EC*ddEA*op(dad2,dad0) + EA*CMat3d::Identity(t02) + dEA*op(dad2,dECd0) + dEA*op(dad0,dECd2);
-  CMat3d ddEd2d1 = EC*dEA*ddad2d1 + EC*ddEA*op(dad2,dad1) + EA*CMat3d::Identity(t12) + dEA*op(dad2,dECd1) + dEA*op(dad1,dECd2);
-  CMat3d ddEd2d2 = EC*dEA*ddad2d2 + EC*ddEA*op(dad2,dad2) + EA*CMat3d::Identity(t22) + dEA*op(dad2,dECd2)*2.0;
+  CMat3d ddEd0d0 = EC*dEA*ddad0d0 + EC*ddEA*op(dad0,dad0) + EA*CMat3d::Identity(t00) + dEA*op(dad0,dECd0) + dEA*op(dECd0,dad0);
+  CMat3d ddEd0d1 = EC*dEA*ddad0d1 + EC*ddEA*op(dad0,dad1) + EA*CMat3d::Identity(t01) + dEA*op(dad0,dECd1) + dEA*op(dECd0,dad1);
+  CMat3d ddEd0d2 = EC*dEA*ddad0d2 + EC*ddEA*op(dad0,dad2) + EA*CMat3d::Identity(t02) + dEA*op(dad0,dECd2) + dEA*op(dECd0,dad2);
+  CMat3d ddEd1d0 = EC*dEA*ddad1d0 + EC*ddEA*op(dad1,dad0) + EA*CMat3d::Identity(t01) + dEA*op(dad1,dECd0) + dEA*op(dECd1,dad0);
+  CMat3d ddEd1d1 = EC*dEA*ddad1d1 + EC*ddEA*op(dad1,dad1) + EA*CMat3d::Identity(t11) + dEA*op(dad1,dECd1) + dEA*op(dECd1,dad1);
+  CMat3d ddEd1d2 = EC*dEA*ddad1d2 + EC*ddEA*op(dad1,dad2) + EA*CMat3d::Identity(t12) + dEA*op(dad1,dECd2) + dEA*op(dECd1,dad2);
+  CMat3d ddEd2d0 = EC*dEA*ddad2d0 + EC*ddEA*op(dad2,dad0) + EA*CMat3d::Identity(t02) + dEA*op(dad2,dECd0) + dEA*op(dECd2,dad0);
+  CMat3d ddEd2d1 = EC*dEA*ddad2d1 + EC*ddEA*op(dad2,dad1) + EA*CMat3d::Identity(t12) + dEA*op(dad2,dECd1) + dEA*op(dECd2,dad1);
+  CMat3d ddEd2d2 = EC*dEA*ddad2d2 + EC*ddEA*op(dad2,dad2) + EA*CMat3d::Identity(t22) + dEA*op(dad2,dECd2) + dEA*op(dECd2,dad2);
   
   for(int idim=0;idim<3;++idim){
     for(int jdim=0;jdim<3;++jdim){
-- 
2.43.0


From dd3980eb135a3f90ccbfbcd958d2f78a727e8ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:58 +0000
Subject: [PATCH 097/185] fix: EMat_SolidLinear_Static_Tet adds only its own
 residual

---
 include/delfem2/fem_solidlinear.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/delfem2/fem_solidlinear.cpp b/include/delfem2/fem_solidlinear.cpp
index 7503d2c..599b173 100644
--- a/include/delfem2/fem_solidlinear.cpp
+++ b/include/delfem2/fem_solidlinear.cpp
@@ -421,17 +421,16 @@ DFM2_INLINE void delfem2::EMat_SolidLinear_Static_Tet(
     TetDlDx(dldx, const_term, P[0], P[1], P[2], P[3]);
   }
   // ----------------------
-  if (is_add) {
-    femsolidlinear::AddEmat_LinearSolid3<4>(emat, lambda, myu, dldx, vol);
-  } else {
-    SetEmat_LinearSolid3<4>(emat, lambda, myu, dldx, vol);
-  }
+  double emat0[4][4][3][3];
+  SetEmat_LinearSolid3<4>(emat0, lambda, myu, dldx, vol);
   if (!is_add) {
+    for (int i = 0; i < 144; ++i) { (&emat[0][0][0][0])[i] = 0.0; }
     for (int i = 0; i < 12; ++i) { (&eres[0][0])[i] = 0.0; }
   }
+  for (int i = 0; i < 144; ++i) { (&emat[0][0][0][0])[i] += (&emat0[0][0][0][0])[i]; }
   AddEmatEvecScale3<4>(
     eres,
-    emat, disp, -1.);
+    emat0, disp, -1.);
 }
 
 DFM2_INLINE void delfem2::EMat_SolidLinear_NewmarkBeta_MeshTet3D(
-- 
2.43.0


From c4fadad8ae2b7c2be420111bc7d1a01a5a16c8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:27 +0000
Subject: [PATCH 098/185] fix: MergeLinSys_LinearSolid3D_Static_Q1 calls the
 matrix's setZero

---
 include/delfem2/fem_solidlinear.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/fem_solidlinear.h b/include/delfem2/fem_solidlinear.h
index 363d5fa..8ab4886 100644
--- a/include/delfem2/fem_solidlinear.h
+++ b/include/delfem2/fem_solidlinear.h
@@ -251,7 +251,7 @@ void MergeLinSys_LinearSolid3D_Static_Q1(
   const unsigned int np = aXYZ.size()/3;
   const unsigned int nDoF = np*3;
   //
-  mat_A.SetZero();
+  mat_A.setZero();
   vec_b.assign(nDoF, 0.0);
   std::vector<unsigned int> tmp_buffer(np, UINT_MAX);
   for (unsigned int iel = 0; iel<aHex.size()/8; ++iel){
-- 
2.43.0


From 0d537b750648834b12aecb5f72be10fba0e6437c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:28 +0000
Subject: [PATCH 099/185] fix: the plate residual of MITC3 includes the elastic
 force

---
 include/delfem2/fem_mitc3.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/fem_mitc3.h b/include/delfem2/fem_mitc3.h
index 06eec03..e2fe481 100644
--- a/include/delfem2/fem_mitc3.h
+++ b/include/delfem2/fem_mitc3.h
@@ -81,9 +81,10 @@ void MergeLinSys_ShellStaticPlateBendingMITC3_MeshTri2D(
         thick, lambda, myu);
     {
       const double A = delfem2::femutil::TriArea2D(P[0], P[1], P[2]);
-      dW[0][0] = rho * A * thick / 3.0 * gravity_z;
-      dW[1][0] = rho * A * thick / 3.0 * gravity_z;
-      dW[2][0] = rho * A * thick / 3.0 * gravity_z;
+      for (unsigned int i = 0; i < 9; ++i) { (&dW[0][0])[i] *= -1; } // residual force
+      dW[0][0] += rho * A * thick / 3.0 * gravity_z;
+      dW[1][0] += rho * A * thick / 3.0 * gravity_z;
+      dW[2][0] += rho * A * thick / 3.0 * gravity_z;
     }
     for (unsigned int ino = 0; ino < 3; ino++) {
       const unsigned int ip = aIP[ino];
-- 
2.43.0


From 52953f32ead6db89f73f959e183e40ea7faddb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:28 +0000
Subject: [PATCH 100/185] fix: SUPG advection of Navier-Stokes integrates the
 off-diagonal velocity products

---
 include/delfem2/fem_navierstokes.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/fem_navierstokes.cpp b/include/delfem2/fem_navierstokes.cpp
index 999bf45..6d460e8 100644
--- a/include/delfem2/fem_navierstokes.cpp
+++ b/include/delfem2/fem_navierstokes.cpp
@@ -97,6 +97,8 @@ DFM2_INLINE void delfem2::MakeMat_NavierStokes2D_Dynamic_Newmark_P1P1(
         tmp_mat[1][1] += velo[ino][1]*velo[jno][1];
       }
       tmp_mat[0][0] += velo[ino][0]*velo[ino][0];
+      tmp_mat[0][1] += velo[ino][0]*velo[ino][1];
+      tmp_mat[1][0] += velo[ino][1]*velo[ino][0];
       tmp_mat[1][1] += velo[ino][1]*velo[ino][1];
     }
     for(int ino=0;ino<nno;ino++){
@@ -452,9 +454,11 @@ DFM2_INLINE void delfem2::MakeMat_NavierStokes3D_Dynamic_Newmark_P1P1(
         tmp_mat[2][1] += velo[ino][2]*velo[jno][1];
         tmp_mat[2][2] += velo[ino][2]*velo[jno][2];
       }
-      tmp_mat[0][0] += velo[ino][0]*velo[ino][0];
-      tmp_mat[1][1] += velo[ino][1]*velo[ino][1];
-      tmp_mat[2][2] += velo[ino][2]*velo[ino][2];
+      for(int idim=0;idim<ndim;idim++){
+        for(int jdim=0;jdim<ndim;jdim++){
+          tmp_mat[idim][jdim] += velo[ino][idim]*velo[ino][jdim];
+        }
+      }
     }
     for(int ino=0;ino<nno;ino++){
       for(int jno=0;jno<nno;jno++){
-- 
2.43.0


From 1a2cecb25587c1309441933d46c8b22bd39fb194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:28 +0000
Subject: [PATCH 101/185] fix: PSPG inertia of Navier-Stokes has the sign of
 the other PSPG terms

---
 include/delfem2/fem_navierstokes.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/delfem2/fem_navierstokes.cpp b/include/delfem2/fem_navierstokes.cpp
index 6d460e8..1e8142d 100644
--- a/include/delfem2/fem_navierstokes.cpp
+++ b/include/delfem2/fem_navierstokes.cpp
@@ -187,8 +187,8 @@ DFM2_INLINE void delfem2::MakeMat_NavierStokes2D_Dynamic_Newmark_P1P1(
   double eMmat_pu[3][3][2];
   for(int ino=0;ino<nno;ino++){
     for(int jno=0;jno<nno;jno++){
-      eMmat_pu[ino][jno][0] = -tau*area*0.33333333333333333*dldx[ino][0];
-      eMmat_pu[ino][jno][1] = -tau*area*0.33333333333333333*dldx[ino][1];
+      eMmat_pu[ino][jno][0] = tau*area*0.33333333333333333*dldx[ino][0];
+      eMmat_pu[ino][jno][1] = tau*area*0.33333333333333333*dldx[ino][1];
     }
   }
   
@@ -568,9 +568,9 @@ DFM2_INLINE void delfem2::MakeMat_NavierStokes3D_Dynamic_Newmark_P1P1(
   double eMmat_pu[4][4][3];
   for(int ino=0;ino<nno;ino++){
     for(int jno=0;jno<nno;jno++){
-      eMmat_pu[ino][jno][0] = -tau*vol*0.25*dldx[ino][0];
-      eMmat_pu[ino][jno][1] = -tau*vol*0.25*dldx[ino][1];
-      eMmat_pu[ino][jno][2] = -tau*vol*0.25*dldx[ino][2];
+      eMmat_pu[ino][jno][0] = tau*vol*0.25*dldx[ino][0];
+      eMmat_pu[ino][jno][1] = tau*vol*0.25*dldx[ino][1];
+      eMmat_pu[ino][jno][2] = tau*vol*0.25*dldx[ino][2];
     }
   }
   
-- 
2.43.0


From c66c7f533be2b9876334fe92aa08c54597318e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:51 +0000
Subject: [PATCH 102/185] fix: PBD_ConstProj_Rigid3D takes the deformed z
 coordinate

---
 include/delfem2/pbd_geo3.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/pbd_geo3.cpp b/include/delfem2/pbd_geo3.cpp
index 024e347..d497617 100644
--- a/include/delfem2/pbd_geo3.cpp
+++ b/include/delfem2/pbd_geo3.cpp
@@ -121,8 +121,9 @@ DFM2_INLINE void delfem2::PBD_ConstProj_Rigid3D(
   for (int iclstr = 0; iclstr < nclstr; ++iclstr) {
     CVec3d pc(0, 0, 0), qc(0, 0, 0);
     for (int iip = clstr_ind[iclstr]; iip < clstr_ind[iclstr + 1]; iip++) {
+      assert(iip < nclstr0);
       const int ip = clstr[iip];
-      assert(ip < nclstr0);
+      assert(ip < nXYZ0);
       qc += CVec3d(aXYZ0[ip * 3 + 0], aXYZ0[ip * 3 + 1], aXYZ0[ip * 3 + 2]);
       pc += CVec3d(aXYZt[ip * 3 + 0], aXYZt[ip * 3 + 1], aXYZt[ip * 3 + 2]);
     }
@@ -133,7 +134,7 @@ DFM2_INLINE void delfem2::PBD_ConstProj_Rigid3D(
     for (int iip = clstr_ind[iclstr]; iip < clstr_ind[iclstr + 1]; iip++) {
       const int ip = clstr[iip];
       const CVec3d dq = CVec3d(aXYZ0[ip * 3 + 0], aXYZ0[ip * 3 + 1], aXYZ0[ip * 3 + 2]) - qc; // undeform
-      const CVec3d dp = CVec3d(aXYZt[ip * 3 + 0], aXYZt[ip * 3 + 1], aXYZ0[ip * 3 + 2]) - pc; // deform
+      const CVec3d dp = CVec3d(aXYZt[ip * 3 + 0], aXYZt[ip * 3 + 1], aXYZt[ip * 3 + 2]) - pc; // deform
       A[0 * 3 + 0] += dp[0] * dq[0];
       A[0 * 3 + 1] += dp[0] * dq[1];
       A[0 * 3 + 2] += dp[0] * dq[2];
-- 
2.43.0


From 4c7669264e8b5314f3d987654d0027e5a9b3839a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:51 +0000
Subject: [PATCH 103/185] fix: LinearInterpolationOnGrid2 uses the clamped
 position

---
 include/delfem2/fdm_array2.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/fdm_array2.h b/include/delfem2/fdm_array2.h
index 44261aa..3f34b8c 100644
--- a/include/delfem2/fdm_array2.h
+++ b/include/delfem2/fdm_array2.h
@@ -77,8 +77,8 @@ double LinearInterpolationOnGrid2(
   double v10 = data(i + 1, j + 0)[idim];
   double v01 = data(i + 0, j + 1)[idim];
   double v11 = data(i + 1, j + 1)[idim];
-  double rx = x - i;
-  double ry = y - j;
+  double rx = x1 - i;
+  double ry = y1 - j;
   return (1 - rx) * (1 - ry) * v00 + rx * (1 - ry) * v10 + (1 - rx) * ry * v01 + rx * ry * v11;
 }
 
-- 
2.43.0


From 8a602e89eb0145a5b16ea4c868550f54935138b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:51 +0000
Subject: [PATCH 104/185] fix: the cloth step solves for the displacement and
 takes the fixed flags per degree of freedom

---
 include/delfem2/cloth_internal.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/delfem2/cloth_internal.h b/include/delfem2/cloth_internal.h
index ecdca65..211a83b 100755
--- a/include/delfem2/cloth_internal.h
+++ b/include/delfem2/cloth_internal.h
@@ -146,11 +146,9 @@ void StepTime_InternalDynamics(
     mat_A.val_dia_[ip*9+2*3+2] += mass_point / (dt*dt);
   }
   mat_A.SetFixedBC(aBCFlag.data());
-  for(unsigned int ip=0;ip<np;ip++){
-    if( aBCFlag[ip] == 0 ) continue;
-    vec_b[ip*3+0] = 0;
-    vec_b[ip*3+1] = 0;
-    vec_b[ip*3+2] = 0;
+  for(unsigned int i=0;i<nDof;i++){
+    if( aBCFlag[i] == 0 ) continue;
+    vec_b[i] = 0;
   }
   // solve linear system
   std::vector<double> vec_x;
@@ -165,7 +163,7 @@ void StepTime_InternalDynamics(
     auto vs = delfem2::ViewAsVectorXd(tmp0);
     auto vt = delfem2::ViewAsVectorXd(tmp1);
     Solve_CG(
-        vx,vb,vs,vt,
+        vb,vx,vs,vt,
         conv_ratio, iteration, mat_A);
   }
   std::cout << "  conv_ratio:" << conv_ratio << "  iteration:" << iteration << std::endl;
-- 
2.43.0


From d2a2354f92d2d9b266f6baebc46c955ba951af75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:51 +0000
Subject: [PATCH 105/185] fix: UpdateIntermidiateVelocity keeps the fixed
 degrees of freedom at rest

---
 include/delfem2/cloth_internal.h | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/include/delfem2/cloth_internal.h b/include/delfem2/cloth_internal.h
index 211a83b..5ae8053 100755
--- a/include/delfem2/cloth_internal.h
+++ b/include/delfem2/cloth_internal.h
@@ -313,16 +313,12 @@ void UpdateIntermidiateVelocity
   W += AddWdW_Gravity(dW,
                       aXYZ,
                       gravity,mass_point);
-  for(unsigned int ip=0;ip<np;ip++){
-    if( aBCFlag[ip] == 0 ) continue;
-    aUVW[ip*3+0] = 0;
-    aUVW[ip*3+1] = 0;
-    aUVW[ip*3+2] = 0;
-  }
-  for(unsigned int ip=0;ip<np;ip++){
-    aUVW[ip*3+0] += -(0.5*dt/mass_point)*dW[ip*3+0];
-    aUVW[ip*3+1] += -(0.5*dt/mass_point)*dW[ip*3+1];
-    aUVW[ip*3+2] += -(0.5*dt/mass_point)*dW[ip*3+2];
+  for(unsigned int i=0;i<nDof;i++){
+    if( aBCFlag[i] != 0 ){ // fixed
+      aUVW[i] = 0;
+      continue;
+    }
+    aUVW[i] += -(0.5*dt/mass_point)*dW[i];
   }
 }
 
-- 
2.43.0


From e5b8ad9c3cb65ebe92ae06e7e787a49ce1afd999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:04 +0000
Subject: [PATCH 106/185] fix: the hair contact does not act on fixed degrees
 of freedom in the linear system

---
 include/delfem2/hair_darboux_collision.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/delfem2/hair_darboux_collision.cpp b/include/delfem2/hair_darboux_collision.cpp
index 5888faa..a3ffeb5 100644
--- a/include/delfem2/hair_darboux_collision.cpp
+++ b/include/delfem2/hair_darboux_collision.cpp
@@ -24,8 +24,9 @@ class CMatContact {
   CMatContact(
       const CMatrixSparse<double> &mats_,
       const std::vector<CContactHair> &aContact_,
-      const double stiffness_)
-      : mats(mats_), aContact(aContact_), stiffness(stiffness_) {}
+      const double stiffness_,
+      const std::vector<int> &dof_bcflag_)
+      : mats(mats_), aContact(aContact_), stiffness(stiffness_), dof_bcflag(dof_bcflag_) {}
   void MatVec(double *y,
               double alpha, const double *x,
               double beta) const {
@@ -44,9 +45,10 @@ class CMatContact {
           unsigned int jp0 = aIP[jjp];
           double v0[3];
           MatVec3(v0, NN.data(), x + jp0 * 4);
-          y[ip0 * 4 + 0] += alpha * stiffness * aW[iip] * aW[jjp] * v0[0];
-          y[ip0 * 4 + 1] += alpha * stiffness * aW[iip] * aW[jjp] * v0[1];
-          y[ip0 * 4 + 2] += alpha * stiffness * aW[iip] * aW[jjp] * v0[2];
+          for (int idim = 0; idim < 3; ++idim) {
+            if (dof_bcflag[ip0 * 4 + idim] != 0) { continue; } // the row of a fixed DoF is that of identity
+            y[ip0 * 4 + idim] += alpha * stiffness * aW[iip] * aW[jjp] * v0[idim];
+          }
         }
       }
     }
@@ -55,6 +57,7 @@ class CMatContact {
   const CMatrixSparse<double> &mats;
   const std::vector<CContactHair> &aContact;
   const double stiffness;
+  const std::vector<int> &dof_bcflag;
 };
 
 }
@@ -118,7 +121,7 @@ DFM2_INLINE void delfem2::Solve_RodHairContact(
   assert(mats.dof_bcflag.size() == np * 4);
   mats.matrix.SetFixedBC(mats.dof_bcflag.data());
   setRHS_Zero(mats.vec_r, mats.dof_bcflag, 0);
-  lcl::CMatContact mc(mats.matrix, aContact, stiff_contact);
+  lcl::CMatContact mc(mats.matrix, aContact, stiff_contact, mats.dof_bcflag);
   {
     const std::size_t n = mats.ndof();
     mats.vec_x.assign(n, 0.0);
-- 
2.43.0


From 24cd5415e6d81b73390dba153ec3495a91784521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:28 +0000
Subject: [PATCH 107/185] fix: scale the boundary penalty by alpha in the
 system matrices of the deformation solvers

---
 include/delfem2/defarap.cpp | 4 ++--
 include/delfem2/deflap.cpp  | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/delfem2/defarap.cpp b/include/delfem2/defarap.cpp
index 0d0c25d..5f7f3f3 100644
--- a/include/delfem2/defarap.cpp
+++ b/include/delfem2/defarap.cpp
@@ -183,7 +183,7 @@ void delfem2::CDef_ArapEdgeLinearDisponly::MatVec(
   // add diagonal for fixed boundary condition
   for (unsigned int i = 0; i < aBCFlag.size(); ++i) {
     if (aBCFlag[i] == 0) { continue; }
-    y[i] += weight_bc * vec[i];
+    y[i] += alpha * weight_bc * vec[i];
   }
 }
 
@@ -297,7 +297,7 @@ void delfem2::CDef_ArapEdge::MatVec(
   // add diagonal for fixed boundary condition
   for (unsigned int i = 0; i < aBCFlag.size(); ++i) {
     if (aBCFlag[i] == 0) { continue; }
-    y[i] += weight_bc * vec[i];
+    y[i] += alpha * weight_bc * vec[i];
     //      y[np*3+i] += weight_bc*vec[np*3+i];
   }
 }
diff --git a/include/delfem2/deflap.cpp b/include/delfem2/deflap.cpp
index efb93a8..faecc8d 100644
--- a/include/delfem2/deflap.cpp
+++ b/include/delfem2/deflap.cpp
@@ -182,7 +182,7 @@ void delfem2::CDef_LaplacianLinearGram::MatVec
   // add diagonal for fixed boundary condition
   for (unsigned int i = 0; i < aBCFlag.size(); ++i) {
     if (aBCFlag[i] == 0) { continue; }
-    y[i] += weight_bc * vec[i];
+    y[i] += alpha * weight_bc * vec[i];
   }
 }
 
@@ -389,7 +389,7 @@ void delfem2::CDef_LaplacianLinear::MatVec(
   // add diagonal for fixed boundary condition
   for (unsigned int i = 0; i < aBCFlag.size(); ++i) {
     if (aBCFlag[i] == 0) { continue; }
-    y[i] += weight_bc * vec[i];
+    y[i] += alpha * weight_bc * vec[i];
   }
 }
 
@@ -566,7 +566,7 @@ void delfem2::CDef_LaplacianLinearDegenerate::MatVec(
   // add diagonal for fixed boundary condition
   for (unsigned int i = 0; i < aBCFlag.size(); ++i) {
     if (aBCFlag[i] == 0) { continue; }
-    y[i] += weight_bc * vec[i];
+    y[i] += alpha * weight_bc * vec[i];
   }
 }
 
-- 
2.43.0


From 045f426dbec75c2654b2b064eb84789f96c4b37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:22 +0000
Subject: [PATCH 108/185] fix: linear program of GE constraints with
 non-positive right hand sides starts from a valid table

---
 include/delfem2/lp.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/delfem2/lp.cpp b/include/delfem2/lp.cpp
index e7e30b7..85215b2 100644
--- a/include/delfem2/lp.cpp
+++ b/include/delfem2/lp.cpp
@@ -338,7 +338,16 @@ int delfem2::CLinPro::Precomp(int& nitr)
   }
 //  std::cout << "precomp" << std::endl;
 //  ::Print(A, ncol, nrow, map_col2row);
-  if( nart == 0 ){ nitr=0; return 0; }
+  if( nart == 0 ){
+    for(unsigned int ieq=0;ieq<neq;++ieq){ // make the coefficient of the slack +1 (rhs is zero or negative for GE)
+      if( aEq[ieq].itype != GE ) continue;
+      for(unsigned int jrow=0;jrow<nrow;++jrow){
+        A[ieq*nrow+jrow] = -A[ieq*nrow+jrow];
+      }
+    }
+    nitr=0;
+    return 0;
+  }
   ////
   A[(ncol-1)*nrow+1] = 1.0;
   for(unsigned int ieq=0;ieq<aEq.size();++ieq){
-- 
2.43.0


From 4bef70ade3688cf81b5ed30be9dc6ed53e64c684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:22 +0000
Subject: [PATCH 109/185] fix: CLinPro::Precomp starts from a cleared table
 when it is called again

---
 include/delfem2/lp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/lp.cpp b/include/delfem2/lp.cpp
index 85215b2..66db7fd 100644
--- a/include/delfem2/lp.cpp
+++ b/include/delfem2/lp.cpp
@@ -294,7 +294,7 @@ int delfem2::CLinPro::Precomp(int& nitr)
   const unsigned int ncol = (neq+1); // neq,trg
   const unsigned int nrow = (1+1+nvar+nslk+nart); // rhs,trg,var,slk,art
 //  std::cout << neq << " " << nvar << " " << nslk << " " << nart << "  " << ncol << " " << nrow << std::endl;
-  A.resize(ncol*nrow,0.0);
+  A.assign(ncol*nrow,0.0);
   for(unsigned int ieq=0;ieq<neq;++ieq){
     A[ieq*nrow] = aEq[ieq].rhs;
     for(size_t ic=0;ic<aEq[ieq].aCoeff.size();++ic){
-- 
2.43.0


From 824f00669a79c203183624f8988e9b0fcb51cc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:07 +0000
Subject: [PATCH 110/185] fix: pivoting of the simplex method ignores
 round-off, detects unbounded programs at once and does not cycle

---
 include/delfem2/lp.cpp | 108 +++++++++++++++++++++++++----------------
 1 file changed, 65 insertions(+), 43 deletions(-)

diff --git a/include/delfem2/lp.cpp b/include/delfem2/lp.cpp
index 66db7fd..7c11e5d 100644
--- a/include/delfem2/lp.cpp
+++ b/include/delfem2/lp.cpp
@@ -8,7 +8,7 @@
 #include <cmath>
 #include <iostream>
 #include <cassert>
-#include <map>
+#include <algorithm>
 #include <climits>
 
 #include "delfem2/lp.h"
@@ -85,6 +85,26 @@ bool LinPro_CheckTable(
   return true;
 }
 
+// make the variable "jrow_piv" the basic variable of the equation "icol_piv"
+void LinPro_Pivot(
+    std::vector<double>& B,
+    unsigned int icol_piv,
+    unsigned int jrow_piv,
+    unsigned int ncol,
+    unsigned int nrow)
+{
+  const double vpiv = B[icol_piv*nrow+jrow_piv];
+  for(unsigned int jrow=0;jrow<nrow;++jrow){ B[icol_piv*nrow+jrow] /= vpiv; }
+  for(unsigned int icol=0;icol<ncol;++icol){
+    if( icol == icol_piv ) continue;
+    const double vpiv0 = B[icol*nrow+jrow_piv];
+    for(unsigned int jrow=0;jrow<nrow;jrow++){
+      B[icol*nrow+jrow] -= vpiv0*B[icol_piv*nrow+jrow];
+    }
+    if( icol != ncol-1 && B[icol*nrow] < 0 ){ B[icol*nrow] = 0; } // round-off
+  }
+}
+
 // return value
 // 0: converged
 // 1: input value wrong
@@ -116,70 +136,72 @@ int LinPro_SolveTable(
     flg_row[jrow] = 1;
   }
   flg_row[0] = 2;
+  // values smaller than these are regarded as zero
+  double tol_mat = 0, tol_trg = 0, tol_rhs = 0;
+  for(unsigned int icol=0;icol<ncol;++icol){
+    for(unsigned int jrow=2;jrow<nrow;++jrow){
+      double& tol = ( icol == ncol-1 ) ? tol_trg : tol_mat;
+      tol = std::max(tol, 1.0e-11*fabs(B[icol*nrow+jrow]));
+    }
+    if( icol != ncol-1 ){ tol_rhs = std::max(tol_rhs, fabs(B[icol*nrow])); }
+  }
+  const double tol_improve = ( tol_mat > 0 ) ? tol_trg*tol_rhs/(tol_mat*1.0e+11) : 0;
   // -----
   for(int itr=0;itr<nitr;++itr){
 //    std::cout << "iteration: " << itr << " " << nitr << std::endl;
 //    ::Print(B,ncol,nrow,map_col2row);
     assert(LinPro_CheckTable(B, map_col2row, ncol, nrow));
-    { // check convegence
+    unsigned int icol_min = UINT_MAX, jrow_min = UINT_MAX;
+    { // find the pivot that improves the target most
       bool is_optim = true;
-      for(unsigned int jrow=0;jrow<nrow;++jrow){
+      double max_improve = tol_improve;
+      unsigned int jrow_bland = UINT_MAX, icol_bland = UINT_MAX;
+      for(unsigned int jrow=2;jrow<nrow;++jrow){
         if( flg_row[jrow] != 0 ){ continue; }
-        double d0 = B[(ncol-1)*nrow+jrow];
-        if( d0 >= 0 ){ continue; }
+        const double d0 = B[(ncol-1)*nrow+jrow];
+        if( d0 >= -tol_trg ){ continue; }
         is_optim = false;
-      }
-      if( is_optim ){ // no way to furthre increase the value
-        nitr = itr;
-        return 0; // converged
-      }
-    }
-	unsigned int icol_min, jrow_min;
-    { // find minimum row
-      std::map<double, std::pair<unsigned int,unsigned int> > mapBoundIndex;
-      for(unsigned int jrow=0;jrow<nrow;++jrow){
-        if( flg_row[jrow] != 0 ){ continue; }
-        double d0 = B[(ncol-1)*nrow+jrow];
-        if( d0 >= 0 ){ continue; }
         double min_bound = -1;
         unsigned int icol_min_cand = UINT_MAX;
         for(unsigned int icol=0;icol<ncol-1;++icol){
           const double dia0 = B[icol*nrow+jrow];
           const double rhs0 = B[icol*nrow];
-//          std::cout << "hoge" << dia0 << std::endl;
-          if( dia0 <= 0 ){ continue; } // negative dia makes the rhs netgative
-          double bound0 = rhs0/dia0;
-          if( bound0 > 1.0e+10 ) continue;
-          if( icol_min_cand == UINT_MAX || bound0 < min_bound ){
+          if( dia0 <= tol_mat ){ continue; } // negative dia makes the rhs netgative
+          const double bound0 = rhs0/dia0;
+          if( icol_min_cand == UINT_MAX || bound0 < min_bound
+              || ( bound0 == min_bound && map_col2row[icol] < map_col2row[icol_min_cand] ) ){
             min_bound = bound0;
             icol_min_cand = icol;
           }
         }
-        if( icol_min_cand == UINT_MAX ){ continue; }
-        mapBoundIndex.insert( std::make_pair(min_bound*d0,std::make_pair(icol_min_cand,jrow)) );
+        if( icol_min_cand == UINT_MAX ){ // the target can be improved infinitely
+          nitr = itr;
+          std::cout << "no boundary" << std::endl;
+          return 2; // no boundary
+        }
+        if( jrow_bland == UINT_MAX ){
+          jrow_bland = jrow;
+          icol_bland = icol_min_cand;
+        }
+        if( -d0*min_bound > max_improve ){
+          max_improve = -d0*min_bound;
+          icol_min = icol_min_cand;
+          jrow_min = jrow;
+        }
       }
-      if( mapBoundIndex.empty() ){
+      if( is_optim ){ // no way to furthre increase the value
         nitr = itr;
-        std::cout << "no boundary" << std::endl;
-        return 2; // no boundary
+        return 0; // converged
       }
-      icol_min = mapBoundIndex.begin()->second.first;
-      jrow_min = mapBoundIndex.begin()->second.second;
-      assert( icol_min >= 0 && icol_min < ncol );
-      assert( jrow_min >= 0 && jrow_min < nrow );
-    }
-    assert( fabs(B[icol_min*nrow+jrow_min]) > 0 );
-    { // Gauss's sweep
-      const double vpiv = B[icol_min*nrow+jrow_min];
-      for(unsigned int jrow=0;jrow<nrow;++jrow){ B[icol_min*nrow+jrow] /= vpiv; }
-      for(unsigned int icol=0;icol<ncol;++icol){
-        if( icol == icol_min ) continue;
-        const double vpiv0 = B[icol*nrow+jrow_min];
-        for(unsigned int jrow=0;jrow<nrow;jrow++){
-          B[icol*nrow+jrow] -= vpiv0*B[icol_min*nrow+jrow];
-        }
+      if( icol_min == UINT_MAX ){ // no improvement. Bland's rule (smallest index) prevents cycling
+        icol_min = icol_bland;
+        jrow_min = jrow_bland;
       }
+      assert( icol_min < ncol );
+      assert( jrow_min < nrow );
     }
+    assert( fabs(B[icol_min*nrow+jrow_min]) > 0 );
+    LinPro_Pivot(B, icol_min, jrow_min, ncol, nrow); // Gauss's sweep
     // swap basic-nonbasic index
     flg_row[jrow_min] = 1;
     unsigned int jrow_new = map_col2row[icol_min];
-- 
2.43.0


From 652eb343f89354980ed1af9a0bf0cc07b164cff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:15 +0000
Subject: [PATCH 111/185] fix: redundant or degenerate equations do not make a
 linear program infeasible

---
 include/delfem2/lp.cpp | 39 ++++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/include/delfem2/lp.cpp b/include/delfem2/lp.cpp
index 7c11e5d..c123d80 100644
--- a/include/delfem2/lp.cpp
+++ b/include/delfem2/lp.cpp
@@ -399,14 +399,31 @@ int delfem2::CLinPro::Precomp(int& nitr)
 //    std::cout << "no bound in solution" << std::endl;
     return 2;
   }
-  for(unsigned int icol=0;icol<ncol;++icol){
-    unsigned int jrow_dia = map_col2row[icol];
-    if( jrow_dia < 1 || jrow_dia >= 2+nvar+nslk ){
-//      std::cout << "precomputation is not solved: " << jrow_dia << " " << 2+nvar+nslk << std::endl;
-      return 3;
+  double scale_rhs = 0, scale_mat = 0, sum_art = 0;
+  for(unsigned int ieq=0;ieq<neq;++ieq){
+    scale_rhs = std::max(scale_rhs, fabs(aEq[ieq].rhs));
+    for(double c : aEq[ieq].aCoeff){ scale_mat = std::max(scale_mat, fabs(c)); }
+    if( map_col2row[ieq] >= 2+nvar+nslk ){ sum_art += A[ieq*nrow]; }
+  }
+  if( sum_art > 1.0e-9*scale_rhs ){ // artificial variables remains
+    return 3;
+  }
+  std::vector<unsigned int> aEqValid; // equations that are not redundant
+  for(unsigned int ieq=0;ieq<neq;++ieq){
+    if( map_col2row[ieq] >= 2+nvar+nslk ){ // the artificial variable is basic, but its value is zero
+      unsigned int jrow_piv = UINT_MAX;
+      for(unsigned int jrow=2;jrow<2+nvar+nslk;++jrow){
+        const double v0 = fabs(A[ieq*nrow+jrow]);
+        if( v0 < 1.0e-9*std::max(scale_mat,1.0) ){ continue; }
+        if( jrow_piv == UINT_MAX || v0 > fabs(A[ieq*nrow+jrow_piv]) ){ jrow_piv = jrow; }
+      }
+      if( jrow_piv == UINT_MAX ){ continue; } // redundant
+      A[ieq*nrow] = 0;
+      LinPro_Pivot(A, ieq, jrow_piv, ncol, nrow);
+      map_col2row[ieq] = jrow_piv;
     }
+    aEqValid.push_back(ieq);
   }
-  assert( fabs(A[(ncol-1)*nrow]) < 1.0e-8 );
 //  std::cout << "  solved" << std::endl;
 //  ::(A, ncol, nrow, map_col2row);
 //    std::cout << "couldn't found solution" << std::endl;
@@ -414,13 +431,17 @@ int delfem2::CLinPro::Precomp(int& nitr)
 //  }
 //  std::cout << "succesfully found a valid solution" << std::endl;
   const std::vector<double> B = A;
+  const std::vector<unsigned int> map_col2row0 = map_col2row;
   const unsigned int nrow1 = 1+1+nvar+nslk;
 //  std::cout << "hugahugat" << ncol << " " << nrow1 << std::endl;
-  A.resize(ncol*nrow1);
-  for(unsigned int icol=0;icol<ncol;++icol){
+  neq = static_cast<unsigned int>(aEqValid.size());
+  A.assign((neq+1)*nrow1, 0.0); // the coefficients of the target are set in Solve()
+  map_col2row.assign(neq+1, 1);
+  for(unsigned int icol=0;icol<neq;++icol){
     for(unsigned int irow=0;irow<nrow1;++irow){
-      A[icol*nrow1+irow] = B[icol*nrow+irow];
+      A[icol*nrow1+irow] = B[aEqValid[icol]*nrow+irow];
     }
+    map_col2row[icol] = map_col2row0[aEqValid[icol]];
   }
   return 0;
 }
-- 
2.43.0


From 72345b5631ccb81801a49335871696e27b9b29e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:16 +0000
Subject: [PATCH 112/185] fix: the tolerance of the simplex method is that of
 the coefficients given

---
 include/delfem2/lp.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/delfem2/lp.cpp b/include/delfem2/lp.cpp
index c123d80..44f5d40 100644
--- a/include/delfem2/lp.cpp
+++ b/include/delfem2/lp.cpp
@@ -117,6 +117,16 @@ int LinPro_SolveTable(
     unsigned int nrow)
 {
   assert(ncol>0);
+  // values smaller than these are regarded as zero
+  double tol_mat = 0, tol_trg = 0, tol_rhs = 0;
+  for(unsigned int icol=0;icol<ncol;++icol){
+    for(unsigned int jrow=2;jrow<nrow;++jrow){
+      double& tol = ( icol == ncol-1 ) ? tol_trg : tol_mat;
+      tol = std::max(tol, 1.0e-11*fabs(B[icol*nrow+jrow]));
+    }
+    if( icol != ncol-1 ){ tol_rhs = std::max(tol_rhs, fabs(B[icol*nrow])); }
+  }
+  const double tol_improve = ( tol_mat > 0 ) ? tol_trg*tol_rhs/(tol_mat*1.0e+11) : 0;
   for(unsigned int icol=0;icol<ncol-1;++icol){
     unsigned int jrow = map_col2row[icol];
     double b0 = B[icol*nrow+jrow];
@@ -136,16 +146,6 @@ int LinPro_SolveTable(
     flg_row[jrow] = 1;
   }
   flg_row[0] = 2;
-  // values smaller than these are regarded as zero
-  double tol_mat = 0, tol_trg = 0, tol_rhs = 0;
-  for(unsigned int icol=0;icol<ncol;++icol){
-    for(unsigned int jrow=2;jrow<nrow;++jrow){
-      double& tol = ( icol == ncol-1 ) ? tol_trg : tol_mat;
-      tol = std::max(tol, 1.0e-11*fabs(B[icol*nrow+jrow]));
-    }
-    if( icol != ncol-1 ){ tol_rhs = std::max(tol_rhs, fabs(B[icol*nrow])); }
-  }
-  const double tol_improve = ( tol_mat > 0 ) ? tol_trg*tol_rhs/(tol_mat*1.0e+11) : 0;
   // -----
   for(int itr=0;itr<nitr;++itr){
 //    std::cout << "iteration: " << itr << " " << nitr << std::endl;
-- 
2.43.0


From e811ed560bffcdafb0e33965401f9cf055c6bf47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:48 +0000
Subject: [PATCH 113/185] fix: a math expression can start with a sign

---
 include/delfem2/parse_math_expression.cpp | 1188 ++++++++++-----------
 1 file changed, 594 insertions(+), 594 deletions(-)

diff --git a/include/delfem2/parse_math_expression.cpp b/include/delfem2/parse_math_expression.cpp
index 531fc4d..b009126 100644
--- a/include/delfem2/parse_math_expression.cpp
+++ b/include/delfem2/parse_math_expression.cpp
@@ -1,594 +1,594 @@
-/*
- * Copyright (c) 2019 Nobuyuki Umetani
- *
- * This source code is licensed under the MIT license found in the
- * LICENSE file in the root directory of this source tree.
- */
-
-#include "delfem2/parse_math_expression.h"
-
-#include <cassert>
-#include <cerrno>    /* Need for Using "ERANGE" */
-#include <cmath>    /* Need for Using "HUGE_VAL" */
-#include <iostream>
-#include <climits>
-
-namespace delfem2::parse_math_expression {
-
-class COperand : public CCmd {
- public:
-  ~COperand() override = default;
-  explicit COperand(const double val) { m_Value = val; }
-
-  bool DoOperation(std::vector<double> &stack) override {
-    stack.push_back(m_Value);
-    return true;
-  }
-  static double GetValue(const int iopr) {
-    switch (iopr) {
-      case 0:return 3.14159265358979;
-      default:assert(0);
-        return 0.0;
-    }
-    return 0.0;
-  }
-  static int GetMaxOprInd() { return 0; }
-  void SetValue(const double &val) override { m_Value = val; }
-  static int GetOprInd(const std::string &str1) {
-    if (str1 == "PI") { return 0; }
-    else { return -1; }
-    return -1;
-  }
- private:
-  double m_Value;
-};
-
-class CBinaryOperator : public CCmd {
- public:
-  ~CBinaryOperator() override = default;
-  explicit CBinaryOperator(const unsigned int iopr) {
-    assert(iopr < 5);
-    m_iOpr = iopr;
-  }
-
-  bool DoOperation(std::vector<double> &stack) override {
-    const double dright = stack.back();
-    stack.pop_back();
-    double &dleft = stack.back();
-    switch (m_iOpr) {
-      case 0:dleft = dleft + dright;
-        return true;
-      case 1:dleft = dright - dleft;
-        return true;
-      case 2:dleft = dleft * dright;
-        return true;
-      case 3:
-        if (fabs(dleft) < 1.0e-20) {
-          dleft = 0.0;
-          return false;
-        }
-        dleft = dright / dleft;
-        return true;
-      case 4:dleft = pow(dright, dleft);
-        return true;
-      default:std::cout << "Error!-->Illegal iOpr " << m_iOpr << std::endl;
-        assert(0);
-    }
-    return false;
-  }
-  static int MaxOprInd() { return 4; }
-  void SetValue(
-    [[maybe_unused]] const double &val) override {
-    assert(0);
-  };
-  unsigned int m_iOpr;
-};
-
-class CUnaryOperator : public CCmd {
- public:
-  ~CUnaryOperator() override = default;
-  explicit CUnaryOperator(const int iopr) {
-    assert(iopr >= 0 && iopr <= MaxOprInd());
-    m_iOpr = iopr;
-  }
-  bool DoOperation(std::vector<double> &stack) override {
-    const double dright = stack.back();
-    double &dleft = stack.back();
-    switch (m_iOpr) {
-      case 0: dleft = dright;
-        return true;
-      case 1: dleft = -dright;
-        return true;
-      case 2: dleft = fabs(dright);
-        return true;
-      case 8: dleft = floor(dright);
-        return true;
-      case 3: dleft = exp(dright);
-        return true;
-      case 4: dleft = sin(dright);
-        return true;
-      case 5: dleft = cos(dright);
-        return true;
-      case 6:
-        if (dright > 1.0e-30) {
-          dleft = sqrt(dright);
-          return true;
-        } else {
-          dleft = 0.0;
-          return false;
-        }
-      case 7:
-        if (dright > 1.0e-30) {
-          dleft = log(dright);
-          return true;
-        } else {
-          dleft = 0.0;
-          return false;
-        }
-      default:std::cout << "Error!-->Illegal iOpr " << m_iOpr << std::endl;
-        assert(0);
-    }
-    return false;
-  }
-  static int MaxOprInd() { return 8; }
-  static int GetOprInd(const std::string &str1) {
-    if (str1 == "+") return 0;
-    else if (str1 == "-") return 1;
-    else if (str1 == "abs") return 2;
-    else if (str1 == "floor") return 8;
-    else if (str1 == "exp") return 3;
-    else if (str1 == "sin") return 4;
-    else if (str1 == "cos") return 5;
-    else if (str1 == "sqrt") return 6;
-    else if (str1 == "log") return 7;
-    return -1;
-  }
-  void SetValue(
-    [[maybe_unused]] const double &val) override {
-    assert(0);
-  }
- private:
-  int m_iOpr;
-};
-
-// -------------------------------------
-
-DFM2_INLINE void RemoveExpressionSpaceNewline(std::string &exp) {
-  const std::string stemp(exp);
-  unsigned int iexp = 0;
-  for (char itemp: stemp) {
-    if (itemp == ' ' || itemp == 0x0d || itemp == 0x0a) continue;
-    exp[iexp] = itemp;
-    iexp++;
-  }
-  exp.resize(iexp);
-}
-
-DFM2_INLINE void RemoveExpressionBracket(std::string &exp) {
-  if (exp[0] != '(' || exp[exp.size() - 1] != ')') return;
-  {
-    int iBracketDepth = 1;
-    for (size_t ipos = 1; ipos < exp.size() - 1; ipos++) {
-      if (exp[ipos] == '(') { iBracketDepth++; }
-      if (exp[ipos] == ')') { iBracketDepth--; }
-      if (iBracketDepth == 0) return;
-    }
-  }
-  {
-    std::string stemp(exp);
-    for (size_t ipos = 1; ipos < exp.size() - 1; ipos++) {
-      exp[ipos - 1] = stemp[ipos];
-    }
-    exp.resize(exp.size() - 2);
-  }
-  RemoveExpressionBracket(exp);
-}
-
-/**
- * 引数expの中のもっとも優先順位の低いオペレターを検索する。
- * itypeはオペレターの種類
- * itype : 0 --> Numerical variable
- * itype : 1 --> Argebric variable
- * itype : 2 --> Unary Operator
- * itype : 3 --> Binary Operator
- */
-int GetLowestPriorityOperator(
-  unsigned int &ibegin,
-  unsigned int &iend,
-  int &itype,
-  int &iopr,
-  const std::string &exp) {
-  itype = -1;
-  iopr = -1;
-
-  const int ipriority_max = 10;
-
-  unsigned int ipos_min = UINT_MAX;
-  int ipriority_min = ipriority_max;
-  int itype_min = -1;
-  int iopr_min = -1;
-
-  bool is_numeric = true;
-  int iBracketDepth = 0;
-  unsigned int iFirstBracket = UINT_MAX;
-  for (unsigned int ipos_curr = 0; ipos_curr < exp.size(); ipos_curr++) {
-    // 括弧内を読み飛ばす
-    switch (exp[ipos_curr]) {
-      case '(':if (iFirstBracket == UINT_MAX) iFirstBracket = ipos_curr;
-        iBracketDepth++;
-        continue;
-      case ')':iBracketDepth--;
-        continue;
-      default:if (iBracketDepth != 0) continue;
-    }
-    assert(iBracketDepth == 0);
-
-    // ipriority_currを計算する
-    int ipriority_curr;
-    int itype_curr = -1;
-    int iopr_curr = -1;
-    switch (exp[ipos_curr]) {
-      case '+':ibegin = ipos_curr;
-        iend = ipos_curr + 1;
-        if (ipos_curr == 0) { // sign operator
-          ipriority_curr = 5;
-          itype_curr = 2;
-          iopr_curr = 0;
-          break;
-        } else if (exp[ipos_curr - 1] != '*' && exp[ipos_curr - 1] != '/' && exp[ipos_curr - 1] != '^') {
-          iopr = 0;
-          itype = 3;
-          return 0;  // binary operator
-        }
-        continue;
-      case '-':ibegin = ipos_curr;
-        iend = ipos_curr + 1;
-        if (ipos_curr == 0) { // sign operator
-          ipriority_curr = 5;
-          itype_curr = 2;
-          iopr_curr = 1;
-          break;
-        } else if (exp[ipos_curr - 1] != '*' && exp[ipos_curr - 1] != '/' && exp[ipos_curr - 1] != '^') {
-          iopr = 1;
-          itype = 3;
-          return 0;  // binary operator
-        }
-        continue;
-      case '*':ipriority_curr = 3;
-        itype_curr = 3;
-        iopr_curr = 2;
-        break;
-      case '/':ipriority_curr = 4;
-        itype_curr = 3;
-        iopr_curr = 3;
-        break;
-      case '^':ipriority_curr = 6;
-        itype_curr = 3;
-        iopr_curr = 4;
-        break;
-      default:ipriority_curr = ipriority_max;
-        if ((exp[ipos_curr] < '0' || exp[ipos_curr] > '9') && exp[ipos_curr] != '.') {
-          is_numeric = false;
-        }
-        break;
-    }
-    if (ipriority_curr < ipriority_min) {
-      ipos_min = ipos_curr;
-      ipriority_min = ipriority_curr;
-      itype_min = itype_curr;
-      iopr_min = iopr_curr;
-    }
-  }
-
-  if (iBracketDepth != 0) {
-    std::cerr << "Error!-->Not corresponding bracket" << std::endl;
-    return 2;
-  }
-  if ((ipos_min == 0 || ipos_min == exp.size() - 1) && itype_min == 3) {
-    std::cerr << "Error!-->Binary operator misplaced " << std::endl;
-    return 9;
-  }
-  if (iFirstBracket == 0 && ipos_min == UINT_MAX) {
-    std::cerr << "Error!-->(hoge)foo" << std::endl;
-    return 3;
-  }
-  // binary operator(+とか-)
-  if (ipos_min != UINT_MAX) {
-//    std::cout << ipos_min << " " << itype_min << std::endl;
-    assert(itype_min == 3);
-    assert(iopr_min != -1);
-    ibegin = ipos_min;
-    iend = ipos_min + 1;
-    itype = itype_min;
-    iopr = iopr_min;
-    return 0;
-  }
-  // sign operator( -hoge )
-  if (ipos_min == 0) {   // this looks always false
-    assert(itype_min == 2);
-    assert(iopr_min != -1);
-    ibegin = ipos_min;
-    iend = ipos_min + 1;
-    itype = itype_min;
-    iopr = iopr_min;
-    return 0;
-  }
-  // preposition operator ( sin, tanみたいの )
-  if (!is_numeric && iFirstBracket != UINT_MAX) {
-    if (exp[exp.size() - 1] != ')') {  // avoid  sin(x+y)a
-      std::cout << "Error!-->hoge1" << std::endl;
-      return 1;
-    }
-    if (iFirstBracket == exp.size() - 2) {  // avoid sin()
-      std::cout << "Error!-->hoge2" << std::endl;
-      return 2;
-    }
-    std::string str1(exp, 0, iFirstBracket);
-    int iopr0 = CUnaryOperator::GetOprInd(str1);
-    if (iopr0 != -1) {
-      ibegin = 0;
-      iend = iFirstBracket;
-      itype = 2;
-      iopr = iopr0;
-      return 0;
-    } else {
-      std::cout << "Error!-->Unregistered Unary Operator" << std::endl;
-      return 1;
-    }
-  }
-  // variable
-  ibegin = 0;
-  iend = static_cast<unsigned int>(exp.size());
-  if (is_numeric) {
-    itype = 0;
-    iopr = -1;
-  }  // 数値(5.4321みたいの)
-  else {
-    int iopr0 = COperand::GetOprInd(exp);
-    if (iopr0 != -1) {
-      itype = 1;
-      iopr = iopr0;
-    }  // PIみたいなの
-    else {
-      itype = 1;
-      iopr = -1;
-    }
-  }
-  return 0;
-}
-
-struct SExpCompo {
-  std::string sOpe;
-  int iOpeType;
-  int iOpe;
-};
-
-bool MakeRPN(
-  unsigned int icur_old,
-  std::vector<SExpCompo> &exp_node_vec) {
-  assert(icur_old < exp_node_vec.size());
-
-  unsigned int ibegin0, iend0;
-  int itype0, iopr0;
-  {
-    std::string &cur_exp = exp_node_vec[icur_old].sOpe;
-    unsigned int itmp0, itmp1;
-    int itmp2, itmp3;
-    int ierr = GetLowestPriorityOperator(itmp0, itmp1, itmp2, itmp3, cur_exp);
-    if (ierr != 0) {
-      std::cout << "Error!-->Cannot interprit this expression : " << cur_exp << std::endl;
-      return false;
-    }
-    if (itmp0 == 0 && itmp1 == cur_exp.size()) {  // case operand 算術数値(PIみたいなの)
-      assert(itmp2 == 0 || itmp2 == 1);
-      assert(itmp3 >= -1 && itmp3 <= COperand::GetMaxOprInd());
-      exp_node_vec[icur_old].iOpeType = itmp2;
-      exp_node_vec[icur_old].iOpe = itmp3;
-      return true;
-    }
-    assert(itmp2 != 0 && itmp2 != 1);
-    ibegin0 = static_cast<unsigned int>(itmp0);
-    iend0 = static_cast<unsigned int>(itmp1);
-    assert(itmp2 >= 0 && itmp2 <= 3);
-    itype0 = itmp2;
-    assert((itmp2 == 2 && itmp3 >= 0 && itmp3 <= CUnaryOperator::MaxOprInd()) ||
-      (itmp2 == 3 && itmp3 >= 0 && itmp3 <= CBinaryOperator::MaxOprInd()));
-    iopr0 = itmp3;
-  }
-
-  std::string cur_old_exp = exp_node_vec[icur_old].sOpe;
-
-  {
-    unsigned int ileft = icur_old;
-    SExpCompo &left_compo = exp_node_vec[ileft];
-    left_compo.sOpe.assign(cur_old_exp, iend0, cur_old_exp.size() - iend0);
-    RemoveExpressionBracket(left_compo.sOpe);
-    if (left_compo.sOpe.empty()) { return false; }
-    if (!MakeRPN(ileft, exp_node_vec)) { return false; }
-  }
-
-  if (ibegin0 > 0) {
-    const unsigned int iright = static_cast<unsigned int>(exp_node_vec.size());
-    exp_node_vec.resize(exp_node_vec.size() + 1);
-    SExpCompo &right_compo = exp_node_vec[iright];
-    right_compo.sOpe.assign(cur_old_exp, 0, ibegin0);
-    RemoveExpressionBracket(right_compo.sOpe);
-    if (right_compo.sOpe.empty()) { return false; }
-    if (!MakeRPN(iright, exp_node_vec)) { return false; }
-  }
-
-  {
-    const size_t icur_new = exp_node_vec.size();
-    exp_node_vec.resize(exp_node_vec.size() + 1);
-    SExpCompo &new_compo = exp_node_vec[icur_new];
-    new_compo.sOpe.assign(cur_old_exp, ibegin0, iend0 - ibegin0);
-    new_compo.iOpeType = itype0;
-    new_compo.iOpe = iopr0;
-  }
-
-  return true;
-}
-
-bool MakeCmdAry(
-  std::vector<CCmd *> &cmd_vec,
-  std::vector<CKey> &m_aKey,
-  const std::vector<SExpCompo> &exp_node_vec) {
-  cmd_vec.resize(exp_node_vec.size(), nullptr);
-  for (unsigned int iexp = 0; iexp < exp_node_vec.size(); iexp++) {
-    const SExpCompo &compo = exp_node_vec[iexp];
-    if (compo.iOpeType == 0) { // numeric
-      char *e;
-      double val = strtod(compo.sOpe.c_str(), &e);
-      if (errno != ERANGE) {
-        cmd_vec[iexp] = new COperand(val);
-      } else if (val == HUGE_VAL) {
-        std::cout << "Exceeding the range of (double)" << std::endl;
-        return false;
-      }
-    } else if (compo.iOpeType == 1) { // symbol
-      if (compo.iOpe == -1) {
-        bool bflg = false;
-        for (auto &ikey: m_aKey) {
-          if (ikey.m_Name == compo.sOpe) {
-            ikey.m_aiCmd.push_back(iexp);
-            bflg = true;
-            break;
-          }
-        }
-        if (!bflg) {
-          std::cout << "次のオペランドを解釈できませんでした:" << compo.sOpe << std::endl;
-          return false;
-        }
-        cmd_vec[iexp] = new COperand(0.0);
-      } else {
-        int iopr0 = compo.iOpe;
-        if (iopr0 >= 0 && iopr0 <= COperand::GetMaxOprInd()) {
-          cmd_vec[iexp] = new COperand(COperand::GetValue(compo.iOpe));
-        } else {
-          std::cout << "Not assumed Operand" << std::endl;
-          assert(0);
-        }
-      }
-    } else if (compo.iOpeType == 2) { // unary
-      cmd_vec[iexp] = new CUnaryOperator(compo.iOpe);
-    } else if (compo.iOpeType == 3) { // binary
-      cmd_vec[iexp] = new CBinaryOperator(compo.iOpe);
-    } else {
-      std::cout << "Error!--> " << compo.sOpe << " " << compo.iOpeType << std::endl;
-      assert(0);
-    }
-  }
-  return true;
-}
-
-} // delfem2::parse_math_expression
-
-// above: unexposed
-// ---------------------------------------------------------
-// below: exposed
-
-delfem2::CMathExpressionEvaluator::~CMathExpressionEvaluator() {
-  for (auto &icmd: m_apCmd) {
-    delete icmd;
-  }
-}
-
-void delfem2::CMathExpressionEvaluator::SetKey(
-  const std::string &key_name, double key_val) {
-  for (auto &ikey: m_aKey) {
-    if (ikey.m_Name == key_name) {
-      ikey.m_Val = key_val;
-      for (unsigned int icmd0: ikey.m_aiCmd) {    // このKeyをもっている全てのCmdに値をセット
-        assert(icmd0 < m_apCmd.size());
-        m_apCmd[icmd0]->SetValue(key_val);
-      }
-      return;
-    }
-  }
-  // 未登録のKeyの場合は以下のルーティン
-  m_aKey.emplace_back(key_name, key_val);
-}
-
-bool delfem2::CMathExpressionEvaluator::SetExp(
-  const std::string &exp) {
-  namespace lcl = delfem2::parse_math_expression;
-  m_is_valid = false;
-  m_sExp = exp;
-  // 消去
-  for (auto &icmd: m_apCmd) { delete icmd; }
-  for (auto &ikey: m_aKey) { ikey.m_aiCmd.clear(); }
-  m_apCmd.clear();
-
-  std::string tmp_exp = exp;
-  lcl::RemoveExpressionSpaceNewline(tmp_exp);
-  lcl::RemoveExpressionBracket(tmp_exp);
-  if (tmp_exp.empty()) {
-    m_is_valid = false;
-    return false;
-  }
-  {
-    std::vector<lcl::SExpCompo> exp_vec;
-    exp_vec.reserve(exp.size());
-    exp_vec.resize(1);
-    exp_vec[0].sOpe = tmp_exp;
-    if (!MakeRPN(0, exp_vec)) {
-      m_is_valid = false;
-      return false;
-    }
-
-/*		{	// 逆ポーランド表記を表示
-			for(unsigned int iexno=0;iexno<exp_vec.size();iexno++){
-				std::cout << exp_vec[iexno].sOpe << " ";
-			}
-			std::cout << std::endl;
-		}*/
-
-    if (!MakeCmdAry(m_apCmd, m_aKey,
-                    exp_vec)) {
-      m_is_valid = false;
-      return false;
-    }
-
-/*
-		int iflg = true;
-		int stack_size = 0;
-		for(int icmd=0;icmd<m_apCmd.size();icmd++){
-			if( dynamic_cast<COperand*>(m_apCmd[icmd]) != NULL ){
-				stack_size++;
-			}
-			else if( dynamic_cast<CUnaryOperator*>(m_apCmd[icmd]) != NULL ){
-				if( stack_size <= 0 ) iflg = false; break;
-			}
-			else if( dynamic_cast<CBinaryOperator*>(m_apCmd[icmd]) != NULL ){
-				if( stack_size <= 1 ) iflg = false;	break;
-			}
-		}
-		if( !iflg ){
-			std::cout << "Error!-->Operator and Operand mismatch" << std::endl;
-			m_bValid = false;
-			return false;
-		}
-*/
-  }
-  {    // 登録されているキー全ての値を設定
-    for (const auto &key: m_aKey) {
-      double val = key.m_Val;
-      for (unsigned int icmd0: key.m_aiCmd) {    // このKeyをもっている全てのCmdに値をセット
-        assert(icmd0 < m_apCmd.size());
-        m_apCmd[icmd0]->SetValue(val);
-      }
-    }
-  }
-  m_is_valid = true;
-  return true;
-}
-
-double delfem2::CMathExpressionEvaluator::Eval() const { // evaluating the math expression
-  std::vector<double> stack;
-  stack.reserve(128);
-  for (auto icmd: m_apCmd) {
-    icmd->DoOperation(stack);
-  }
-  assert(stack.size() == 1);
-  return stack[0];
-}
+/*
+ * Copyright (c) 2019 Nobuyuki Umetani
+ *
+ * This source code is licensed under the MIT license found in the
+ * LICENSE file in the root directory of this source tree.
+ */
+
+#include "delfem2/parse_math_expression.h"
+
+#include <cassert>
+#include <cerrno>    /* Need for Using "ERANGE" */
+#include <cmath>    /* Need for Using "HUGE_VAL" */
+#include <iostream>
+#include <climits>
+
+namespace delfem2::parse_math_expression {
+
+class COperand : public CCmd {
+ public:
+  ~COperand() override = default;
+  explicit COperand(const double val) { m_Value = val; }
+
+  bool DoOperation(std::vector<double> &stack) override {
+    stack.push_back(m_Value);
+    return true;
+  }
+  static double GetValue(const int iopr) {
+    switch (iopr) {
+      case 0:return 3.14159265358979;
+      default:assert(0);
+        return 0.0;
+    }
+    return 0.0;
+  }
+  static int GetMaxOprInd() { return 0; }
+  void SetValue(const double &val) override { m_Value = val; }
+  static int GetOprInd(const std::string &str1) {
+    if (str1 == "PI") { return 0; }
+    else { return -1; }
+    return -1;
+  }
+ private:
+  double m_Value;
+};
+
+class CBinaryOperator : public CCmd {
+ public:
+  ~CBinaryOperator() override = default;
+  explicit CBinaryOperator(const unsigned int iopr) {
+    assert(iopr < 5);
+    m_iOpr = iopr;
+  }
+
+  bool DoOperation(std::vector<double> &stack) override {
+    const double dright = stack.back();
+    stack.pop_back();
+    double &dleft = stack.back();
+    switch (m_iOpr) {
+      case 0:dleft = dleft + dright;
+        return true;
+      case 1:dleft = dright - dleft;
+        return true;
+      case 2:dleft = dleft * dright;
+        return true;
+      case 3:
+        if (fabs(dleft) < 1.0e-20) {
+          dleft = 0.0;
+          return false;
+        }
+        dleft = dright / dleft;
+        return true;
+      case 4:dleft = pow(dright, dleft);
+        return true;
+      default:std::cout << "Error!-->Illegal iOpr " << m_iOpr << std::endl;
+        assert(0);
+    }
+    return false;
+  }
+  static int MaxOprInd() { return 4; }
+  void SetValue(
+    [[maybe_unused]] const double &val) override {
+    assert(0);
+  };
+  unsigned int m_iOpr;
+};
+
+class CUnaryOperator : public CCmd {
+ public:
+  ~CUnaryOperator() override = default;
+  explicit CUnaryOperator(const int iopr) {
+    assert(iopr >= 0 && iopr <= MaxOprInd());
+    m_iOpr = iopr;
+  }
+  bool DoOperation(std::vector<double> &stack) override {
+    const double dright = stack.back();
+    double &dleft = stack.back();
+    switch (m_iOpr) {
+      case 0: dleft = dright;
+        return true;
+      case 1: dleft = -dright;
+        return true;
+      case 2: dleft = fabs(dright);
+        return true;
+      case 8: dleft = floor(dright);
+        return true;
+      case 3: dleft = exp(dright);
+        return true;
+      case 4: dleft = sin(dright);
+        return true;
+      case 5: dleft = cos(dright);
+        return true;
+      case 6:
+        if (dright > 1.0e-30) {
+          dleft = sqrt(dright);
+          return true;
+        } else {
+          dleft = 0.0;
+          return false;
+        }
+      case 7:
+        if (dright > 1.0e-30) {
+          dleft = log(dright);
+          return true;
+        } else {
+          dleft = 0.0;
+          return false;
+        }
+      default:std::cout << "Error!-->Illegal iOpr " << m_iOpr << std::endl;
+        assert(0);
+    }
+    return false;
+  }
+  static int MaxOprInd() { return 8; }
+  static int GetOprInd(const std::string &str1) {
+    if (str1 == "+") return 0;
+    else if (str1 == "-") return 1;
+    else if (str1 == "abs") return 2;
+    else if (str1 == "floor") return 8;
+    else if (str1 == "exp") return 3;
+    else if (str1 == "sin") return 4;
+    else if (str1 == "cos") return 5;
+    else if (str1 == "sqrt") return 6;
+    else if (str1 == "log") return 7;
+    return -1;
+  }
+  void SetValue(
+    [[maybe_unused]] const double &val) override {
+    assert(0);
+  }
+ private:
+  int m_iOpr;
+};
+
+// -------------------------------------
+
+DFM2_INLINE void RemoveExpressionSpaceNewline(std::string &exp) {
+  const std::string stemp(exp);
+  unsigned int iexp = 0;
+  for (char itemp: stemp) {
+    if (itemp == ' ' || itemp == 0x0d || itemp == 0x0a) continue;
+    exp[iexp] = itemp;
+    iexp++;
+  }
+  exp.resize(iexp);
+}
+
+DFM2_INLINE void RemoveExpressionBracket(std::string &exp) {
+  if (exp[0] != '(' || exp[exp.size() - 1] != ')') return;
+  {
+    int iBracketDepth = 1;
+    for (size_t ipos = 1; ipos < exp.size() - 1; ipos++) {
+      if (exp[ipos] == '(') { iBracketDepth++; }
+      if (exp[ipos] == ')') { iBracketDepth--; }
+      if (iBracketDepth == 0) return;
+    }
+  }
+  {
+    std::string stemp(exp);
+    for (size_t ipos = 1; ipos < exp.size() - 1; ipos++) {
+      exp[ipos - 1] = stemp[ipos];
+    }
+    exp.resize(exp.size() - 2);
+  }
+  RemoveExpressionBracket(exp);
+}
+
+/**
+ * 引数expの中のもっとも優先順位の低いオペレターを検索する。
+ * itypeはオペレターの種類
+ * itype : 0 --> Numerical variable
+ * itype : 1 --> Argebric variable
+ * itype : 2 --> Unary Operator
+ * itype : 3 --> Binary Operator
+ */
+int GetLowestPriorityOperator(
+  unsigned int &ibegin,
+  unsigned int &iend,
+  int &itype,
+  int &iopr,
+  const std::string &exp) {
+  itype = -1;
+  iopr = -1;
+
+  const int ipriority_max = 10;
+
+  unsigned int ipos_min = UINT_MAX;
+  int ipriority_min = ipriority_max;
+  int itype_min = -1;
+  int iopr_min = -1;
+
+  bool is_numeric = true;
+  int iBracketDepth = 0;
+  unsigned int iFirstBracket = UINT_MAX;
+  for (unsigned int ipos_curr = 0; ipos_curr < exp.size(); ipos_curr++) {
+    // 括弧内を読み飛ばす
+    switch (exp[ipos_curr]) {
+      case '(':if (iFirstBracket == UINT_MAX) iFirstBracket = ipos_curr;
+        iBracketDepth++;
+        continue;
+      case ')':iBracketDepth--;
+        continue;
+      default:if (iBracketDepth != 0) continue;
+    }
+    assert(iBracketDepth == 0);
+
+    // ipriority_currを計算する
+    int ipriority_curr;
+    int itype_curr = -1;
+    int iopr_curr = -1;
+    switch (exp[ipos_curr]) {
+      case '+':ibegin = ipos_curr;
+        iend = ipos_curr + 1;
+        if (ipos_curr == 0) { // sign operator
+          ipriority_curr = 5;
+          itype_curr = 2;
+          iopr_curr = 0;
+          break;
+        } else if (exp[ipos_curr - 1] != '*' && exp[ipos_curr - 1] != '/' && exp[ipos_curr - 1] != '^') {
+          iopr = 0;
+          itype = 3;
+          return 0;  // binary operator
+        }
+        continue;
+      case '-':ibegin = ipos_curr;
+        iend = ipos_curr + 1;
+        if (ipos_curr == 0) { // sign operator
+          ipriority_curr = 5;
+          itype_curr = 2;
+          iopr_curr = 1;
+          break;
+        } else if (exp[ipos_curr - 1] != '*' && exp[ipos_curr - 1] != '/' && exp[ipos_curr - 1] != '^') {
+          iopr = 1;
+          itype = 3;
+          return 0;  // binary operator
+        }
+        continue;
+      case '*':ipriority_curr = 3;
+        itype_curr = 3;
+        iopr_curr = 2;
+        break;
+      case '/':ipriority_curr = 4;
+        itype_curr = 3;
+        iopr_curr = 3;
+        break;
+      case '^':ipriority_curr = 6;
+        itype_curr = 3;
+        iopr_curr = 4;
+        break;
+      default:ipriority_curr = ipriority_max;
+        if ((exp[ipos_curr] < '0' || exp[ipos_curr] > '9') && exp[ipos_curr] != '.') {
+          is_numeric = false;
+        }
+        break;
+    }
+    if (ipriority_curr < ipriority_min) {
+      ipos_min = ipos_curr;
+      ipriority_min = ipriority_curr;
+      itype_min = itype_curr;
+      iopr_min = iopr_curr;
+    }
+  }
+
+  if (iBracketDepth != 0) {
+    std::cerr << "Error!-->Not corresponding bracket" << std::endl;
+    return 2;
+  }
+  if ((ipos_min == 0 || ipos_min == exp.size() - 1) && itype_min == 3) {
+    std::cerr << "Error!-->Binary operator misplaced " << std::endl;
+    return 9;
+  }
+  if (iFirstBracket == 0 && ipos_min == UINT_MAX) {
+    std::cerr << "Error!-->(hoge)foo" << std::endl;
+    return 3;
+  }
+  // binary operator(+とか-)
+  if (ipos_min != UINT_MAX && itype_min == 3) {
+//    std::cout << ipos_min << " " << itype_min << std::endl;
+    assert(itype_min == 3);
+    assert(iopr_min != -1);
+    ibegin = ipos_min;
+    iend = ipos_min + 1;
+    itype = itype_min;
+    iopr = iopr_min;
+    return 0;
+  }
+  // sign operator( -hoge )
+  if (ipos_min == 0) {
+    assert(itype_min == 2);
+    assert(iopr_min != -1);
+    ibegin = ipos_min;
+    iend = ipos_min + 1;
+    itype = itype_min;
+    iopr = iopr_min;
+    return 0;
+  }
+  // preposition operator ( sin, tanみたいの )
+  if (!is_numeric && iFirstBracket != UINT_MAX) {
+    if (exp[exp.size() - 1] != ')') {  // avoid  sin(x+y)a
+      std::cout << "Error!-->hoge1" << std::endl;
+      return 1;
+    }
+    if (iFirstBracket == exp.size() - 2) {  // avoid sin()
+      std::cout << "Error!-->hoge2" << std::endl;
+      return 2;
+    }
+    std::string str1(exp, 0, iFirstBracket);
+    int iopr0 = CUnaryOperator::GetOprInd(str1);
+    if (iopr0 != -1) {
+      ibegin = 0;
+      iend = iFirstBracket;
+      itype = 2;
+      iopr = iopr0;
+      return 0;
+    } else {
+      std::cout << "Error!-->Unregistered Unary Operator" << std::endl;
+      return 1;
+    }
+  }
+  // variable
+  ibegin = 0;
+  iend = static_cast<unsigned int>(exp.size());
+  if (is_numeric) {
+    itype = 0;
+    iopr = -1;
+  }  // 数値(5.4321みたいの)
+  else {
+    int iopr0 = COperand::GetOprInd(exp);
+    if (iopr0 != -1) {
+      itype = 1;
+      iopr = iopr0;
+    }  // PIみたいなの
+    else {
+      itype = 1;
+      iopr = -1;
+    }
+  }
+  return 0;
+}
+
+struct SExpCompo {
+  std::string sOpe;
+  int iOpeType;
+  int iOpe;
+};
+
+bool MakeRPN(
+  unsigned int icur_old,
+  std::vector<SExpCompo> &exp_node_vec) {
+  assert(icur_old < exp_node_vec.size());
+
+  unsigned int ibegin0, iend0;
+  int itype0, iopr0;
+  {
+    std::string &cur_exp = exp_node_vec[icur_old].sOpe;
+    unsigned int itmp0, itmp1;
+    int itmp2, itmp3;
+    int ierr = GetLowestPriorityOperator(itmp0, itmp1, itmp2, itmp3, cur_exp);
+    if (ierr != 0) {
+      std::cout << "Error!-->Cannot interprit this expression : " << cur_exp << std::endl;
+      return false;
+    }
+    if (itmp0 == 0 && itmp1 == cur_exp.size()) {  // case operand 算術数値(PIみたいなの)
+      assert(itmp2 == 0 || itmp2 == 1);
+      assert(itmp3 >= -1 && itmp3 <= COperand::GetMaxOprInd());
+      exp_node_vec[icur_old].iOpeType = itmp2;
+      exp_node_vec[icur_old].iOpe = itmp3;
+      return true;
+    }
+    assert(itmp2 != 0 && itmp2 != 1);
+    ibegin0 = static_cast<unsigned int>(itmp0);
+    iend0 = static_cast<unsigned int>(itmp1);
+    assert(itmp2 >= 0 && itmp2 <= 3);
+    itype0 = itmp2;
+    assert((itmp2 == 2 && itmp3 >= 0 && itmp3 <= CUnaryOperator::MaxOprInd()) ||
+      (itmp2 == 3 && itmp3 >= 0 && itmp3 <= CBinaryOperator::MaxOprInd()));
+    iopr0 = itmp3;
+  }
+
+  std::string cur_old_exp = exp_node_vec[icur_old].sOpe;
+
+  {
+    unsigned int ileft = icur_old;
+    SExpCompo &left_compo = exp_node_vec[ileft];
+    left_compo.sOpe.assign(cur_old_exp, iend0, cur_old_exp.size() - iend0);
+    RemoveExpressionBracket(left_compo.sOpe);
+    if (left_compo.sOpe.empty()) { return false; }
+    if (!MakeRPN(ileft, exp_node_vec)) { return false; }
+  }
+
+  if (ibegin0 > 0) {
+    const unsigned int iright = static_cast<unsigned int>(exp_node_vec.size());
+    exp_node_vec.resize(exp_node_vec.size() + 1);
+    SExpCompo &right_compo = exp_node_vec[iright];
+    right_compo.sOpe.assign(cur_old_exp, 0, ibegin0);
+    RemoveExpressionBracket(right_compo.sOpe);
+    if (right_compo.sOpe.empty()) { return false; }
+    if (!MakeRPN(iright, exp_node_vec)) { return false; }
+  }
+
+  {
+    const size_t icur_new = exp_node_vec.size();
+    exp_node_vec.resize(exp_node_vec.size() + 1);
+    SExpCompo &new_compo = exp_node_vec[icur_new];
+    new_compo.sOpe.assign(cur_old_exp, ibegin0, iend0 - ibegin0);
+    new_compo.iOpeType = itype0;
+    new_compo.iOpe = iopr0;
+  }
+
+  return true;
+}
+
+bool MakeCmdAry(
+  std::vector<CCmd *> &cmd_vec,
+  std::vector<CKey> &m_aKey,
+  const std::vector<SExpCompo> &exp_node_vec) {
+  cmd_vec.resize(exp_node_vec.size(), nullptr);
+  for (unsigned int iexp = 0; iexp < exp_node_vec.size(); iexp++) {
+    const SExpCompo &compo = exp_node_vec[iexp];
+    if (compo.iOpeType == 0) { // numeric
+      char *e;
+      double val = strtod(compo.sOpe.c_str(), &e);
+      if (errno != ERANGE) {
+        cmd_vec[iexp] = new COperand(val);
+      } else if (val == HUGE_VAL) {
+        std::cout << "Exceeding the range of (double)" << std::endl;
+        return false;
+      }
+    } else if (compo.iOpeType == 1) { // symbol
+      if (compo.iOpe == -1) {
+        bool bflg = false;
+        for (auto &ikey: m_aKey) {
+          if (ikey.m_Name == compo.sOpe) {
+            ikey.m_aiCmd.push_back(iexp);
+            bflg = true;
+            break;
+          }
+        }
+        if (!bflg) {
+          std::cout << "次のオペランドを解釈できませんでした:" << compo.sOpe << std::endl;
+          return false;
+        }
+        cmd_vec[iexp] = new COperand(0.0);
+      } else {
+        int iopr0 = compo.iOpe;
+        if (iopr0 >= 0 && iopr0 <= COperand::GetMaxOprInd()) {
+          cmd_vec[iexp] = new COperand(COperand::GetValue(compo.iOpe));
+        } else {
+          std::cout << "Not assumed Operand" << std::endl;
+          assert(0);
+        }
+      }
+    } else if (compo.iOpeType == 2) { // unary
+      cmd_vec[iexp] = new CUnaryOperator(compo.iOpe);
+    } else if (compo.iOpeType == 3) { // binary
+      cmd_vec[iexp] = new CBinaryOperator(compo.iOpe);
+    } else {
+      std::cout << "Error!--> " << compo.sOpe << " " << compo.iOpeType << std::endl;
+      assert(0);
+    }
+  }
+  return true;
+}
+
+} // delfem2::parse_math_expression
+
+// above: unexposed
+// ---------------------------------------------------------
+// below: exposed
+
+delfem2::CMathExpressionEvaluator::~CMathExpressionEvaluator() {
+  for (auto &icmd: m_apCmd) {
+    delete icmd;
+  }
+}
+
+void delfem2::CMathExpressionEvaluator::SetKey(
+  const std::string &key_name, double key_val) {
+  for (auto &ikey: m_aKey) {
+    if (ikey.m_Name == key_name) {
+      ikey.m_Val = key_val;
+      for (unsigned int icmd0: ikey.m_aiCmd) {    // このKeyをもっている全てのCmdに値をセット
+        assert(icmd0 < m_apCmd.size());
+        m_apCmd[icmd0]->SetValue(key_val);
+      }
+      return;
+    }
+  }
+  // 未登録のKeyの場合は以下のルーティン
+  m_aKey.emplace_back(key_name, key_val);
+}
+
+bool delfem2::CMathExpressionEvaluator::SetExp(
+  const std::string &exp) {
+  namespace lcl = delfem2::parse_math_expression;
+  m_is_valid = false;
+  m_sExp = exp;
+  // 消去
+  for (auto &icmd: m_apCmd) { delete icmd; }
+  for (auto &ikey: m_aKey) { ikey.m_aiCmd.clear(); }
+  m_apCmd.clear();
+
+  std::string tmp_exp = exp;
+  lcl::RemoveExpressionSpaceNewline(tmp_exp);
+  lcl::RemoveExpressionBracket(tmp_exp);
+  if (tmp_exp.empty()) {
+    m_is_valid = false;
+    return false;
+  }
+  {
+    std::vector<lcl::SExpCompo> exp_vec;
+    exp_vec.reserve(exp.size());
+    exp_vec.resize(1);
+    exp_vec[0].sOpe = tmp_exp;
+    if (!MakeRPN(0, exp_vec)) {
+      m_is_valid = false;
+      return false;
+    }
+
+/*		{	// 逆ポーランド表記を表示
+			for(unsigned int iexno=0;iexno<exp_vec.size();iexno++){
+				std::cout << exp_vec[iexno].sOpe << " ";
+			}
+			std::cout << std::endl;
+		}*/
+
+    if (!MakeCmdAry(m_apCmd, m_aKey,
+                    exp_vec)) {
+      m_is_valid = false;
+      return false;
+    }
+
+/*
+		int iflg = true;
+		int stack_size = 0;
+		for(int icmd=0;icmd<m_apCmd.size();icmd++){
+			if( dynamic_cast<COperand*>(m_apCmd[icmd]) != NULL ){
+				stack_size++;
+			}
+			else if( dynamic_cast<CUnaryOperator*>(m_apCmd[icmd]) != NULL ){
+				if( stack_size <= 0 ) iflg = false; break;
+			}
+			else if( dynamic_cast<CBinaryOperator*>(m_apCmd[icmd]) != NULL ){
+				if( stack_size <= 1 ) iflg = false;	break;
+			}
+		}
+		if( !iflg ){
+			std::cout << "Error!-->Operator and Operand mismatch" << std::endl;
+			m_bValid = false;
+			return false;
+		}
+*/
+  }
+  {    // 登録されているキー全ての値を設定
+    for (const auto &key: m_aKey) {
+      double val = key.m_Val;
+      for (unsigned int icmd0: key.m_aiCmd) {    // このKeyをもっている全てのCmdに値をセット
+        assert(icmd0 < m_apCmd.size());
+        m_apCmd[icmd0]->SetValue(val);
+      }
+    }
+  }
+  m_is_valid = true;
+  return true;
+}
+
+double delfem2::CMathExpressionEvaluator::Eval() const { // evaluating the math expression
+  std::vector<double> stack;
+  stack.reserve(128);
+  for (auto icmd: m_apCmd) {
+    icmd->DoOperation(stack);
+  }
+  assert(stack.size() == 1);
+  return stack[0];
+}
-- 
2.43.0


From fc7d1fbc3d37bd467ca63209f3b64d26c051d00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:48 +0000
Subject: [PATCH 114/185] fix: subtraction and division in a math expression
 are left-associative

---
 include/delfem2/parse_math_expression.cpp | 34 +++++++++++++----------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/include/delfem2/parse_math_expression.cpp b/include/delfem2/parse_math_expression.cpp
index b009126..ffea8ed 100644
--- a/include/delfem2/parse_math_expression.cpp
+++ b/include/delfem2/parse_math_expression.cpp
@@ -208,6 +208,10 @@ int GetLowestPriorityOperator(
   int itype_min = -1;
   int iopr_min = -1;
 
+  auto is_operand_end = [](char c) { // otherwise, the following '+' or '-' is a sign
+    return c != '+' && c != '-' && c != '*' && c != '/' && c != '^';
+  };
+
   bool is_numeric = true;
   int iBracketDepth = 0;
   unsigned int iFirstBracket = UINT_MAX;
@@ -228,30 +232,28 @@ int GetLowestPriorityOperator(
     int itype_curr = -1;
     int iopr_curr = -1;
     switch (exp[ipos_curr]) {
-      case '+':ibegin = ipos_curr;
-        iend = ipos_curr + 1;
-        if (ipos_curr == 0) { // sign operator
+      case '+':if (ipos_curr == 0) { // sign operator
           ipriority_curr = 5;
           itype_curr = 2;
           iopr_curr = 0;
           break;
-        } else if (exp[ipos_curr - 1] != '*' && exp[ipos_curr - 1] != '/' && exp[ipos_curr - 1] != '^') {
-          iopr = 0;
-          itype = 3;
-          return 0;  // binary operator
+        } else if (is_operand_end(exp[ipos_curr - 1])) { // binary operator
+          ipriority_curr = 2;
+          itype_curr = 3;
+          iopr_curr = 0;
+          break;
         }
         continue;
-      case '-':ibegin = ipos_curr;
-        iend = ipos_curr + 1;
-        if (ipos_curr == 0) { // sign operator
+      case '-':if (ipos_curr == 0) { // sign operator
           ipriority_curr = 5;
           itype_curr = 2;
           iopr_curr = 1;
           break;
-        } else if (exp[ipos_curr - 1] != '*' && exp[ipos_curr - 1] != '/' && exp[ipos_curr - 1] != '^') {
-          iopr = 1;
-          itype = 3;
-          return 0;  // binary operator
+        } else if (is_operand_end(exp[ipos_curr - 1])) { // binary operator
+          ipriority_curr = 2;
+          itype_curr = 3;
+          iopr_curr = 1;
+          break;
         }
         continue;
       case '*':ipriority_curr = 3;
@@ -272,7 +274,9 @@ int GetLowestPriorityOperator(
         }
         break;
     }
-    if (ipriority_curr < ipriority_min) {
+    // the last one of '+' and '-', and of '/' because they are left-associative
+    if (ipriority_curr < ipriority_min ||
+      (ipriority_curr == ipriority_min && (ipriority_curr == 2 || ipriority_curr == 4))) {
       ipos_min = ipos_curr;
       ipriority_min = ipriority_curr;
       itype_min = itype_curr;
-- 
2.43.0


From 66d3d5e33be5826d6072d1dad734248689dd844b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:48 +0000
Subject: [PATCH 115/185] fix: a number in a math expression is interpreted
 entirely and regardless of errno

---
 include/delfem2/parse_math_expression.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/delfem2/parse_math_expression.cpp b/include/delfem2/parse_math_expression.cpp
index ffea8ed..d07fad9 100644
--- a/include/delfem2/parse_math_expression.cpp
+++ b/include/delfem2/parse_math_expression.cpp
@@ -442,13 +442,16 @@ bool MakeCmdAry(
     const SExpCompo &compo = exp_node_vec[iexp];
     if (compo.iOpeType == 0) { // numeric
       char *e;
-      double val = strtod(compo.sOpe.c_str(), &e);
-      if (errno != ERANGE) {
-        cmd_vec[iexp] = new COperand(val);
-      } else if (val == HUGE_VAL) {
+      const double val = strtod(compo.sOpe.c_str(), &e);
+      if (e == compo.sOpe.c_str() || *e != '\0') {
+        std::cout << "Error!-->Cannot interprit this number : " << compo.sOpe << std::endl;
+        return false;
+      }
+      if (val == HUGE_VAL) {
         std::cout << "Exceeding the range of (double)" << std::endl;
         return false;
       }
+      cmd_vec[iexp] = new COperand(val);
     } else if (compo.iOpeType == 1) { // symbol
       if (compo.iOpe == -1) {
         bool bflg = false;
-- 
2.43.0


From 3584e8c447232220215b3ed8db1b4506c5134f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:48 +0000
Subject: [PATCH 116/185] fix: a math expression with a closing bracket before
 its opening one is rejected

---
 include/delfem2/parse_math_expression.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/delfem2/parse_math_expression.cpp b/include/delfem2/parse_math_expression.cpp
index d07fad9..7c40563 100644
--- a/include/delfem2/parse_math_expression.cpp
+++ b/include/delfem2/parse_math_expression.cpp
@@ -222,6 +222,10 @@ int GetLowestPriorityOperator(
         iBracketDepth++;
         continue;
       case ')':iBracketDepth--;
+        if (iBracketDepth < 0) {
+          std::cerr << "Error!-->Not corresponding bracket" << std::endl;
+          return 2;
+        }
         continue;
       default:if (iBracketDepth != 0) continue;
     }
-- 
2.43.0


From 55da0e015fb34ccbb8e54e5c98637d31670fd42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:14 +0000
Subject: [PATCH 117/185] fix: a sign without operand in a math expression is
 rejected

---
 include/delfem2/parse_math_expression.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/parse_math_expression.cpp b/include/delfem2/parse_math_expression.cpp
index 7c40563..bae03a0 100644
--- a/include/delfem2/parse_math_expression.cpp
+++ b/include/delfem2/parse_math_expression.cpp
@@ -387,8 +387,8 @@ bool MakeRPN(
       std::cout << "Error!-->Cannot interprit this expression : " << cur_exp << std::endl;
       return false;
     }
-    if (itmp0 == 0 && itmp1 == cur_exp.size()) {  // case operand 算術数値(PIみたいなの)
-      assert(itmp2 == 0 || itmp2 == 1);
+    if (itmp2 == 0 || itmp2 == 1) {  // case operand 算術数値(PIみたいなの)
+      assert(itmp0 == 0 && itmp1 == cur_exp.size());
       assert(itmp3 >= -1 && itmp3 <= COperand::GetMaxOprInd());
       exp_node_vec[icur_old].iOpeType = itmp2;
       exp_node_vec[icur_old].iOpe = itmp3;
-- 
2.43.0


From 51cdb48afd8dd95d7855649c405c6c4a13ac55f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:36 +0000
Subject: [PATCH 118/185] fix: lines of any length are read from OBJ and MTL
 files

---
 include/delfem2/msh_io_obj.cpp | 56 ++++++++++++++--------------------
 1 file changed, 23 insertions(+), 33 deletions(-)

diff --git a/include/delfem2/msh_io_obj.cpp b/include/delfem2/msh_io_obj.cpp
index f387f97..6c0e4f3 100644
--- a/include/delfem2/msh_io_obj.cpp
+++ b/include/delfem2/msh_io_obj.cpp
@@ -266,12 +266,11 @@ DFM2_INLINE void delfem2::Read_Obj(
   tri_vtx.clear();
   vtx_xyz.reserve(256 * 16);
   tri_vtx.reserve(256 * 16);
-  const int BUFF_SIZE = 256;
-  char buff[BUFF_SIZE];
-  while (fin.getline(buff, BUFF_SIZE)) {
+  std::string buff;
+  while (std::getline(fin, buff)) {
     if (buff[0] == '#') { continue; }
     if (buff[0] == 'v' && buff[1] == ' ') {
-      char str[256];
+      std::string str;
       double x, y, z;
       {
         std::istringstream is(buff);
@@ -283,7 +282,7 @@ DFM2_INLINE void delfem2::Read_Obj(
       vtx_xyz.push_back(z);
     }
     if (buff[0] == 'f') {
-      char str[256];
+      std::string str;
       int i0, i1, i2;
       {
         std::istringstream is(buff);
@@ -311,12 +310,11 @@ DFM2_INLINE void delfem2::Read_Obj_MeshQuad3(
   quad_vtx.clear();
   vtx_xyz.reserve(256 * 16);
   quad_vtx.reserve(256 * 16);
-  const int BUFF_SIZE = 256;
-  char buff[BUFF_SIZE];
-  while (fin.getline(buff, BUFF_SIZE)) {
+  std::string buff;
+  while (std::getline(fin, buff)) {
     if (buff[0] == '#') { continue; }
     if (buff[0] == 'v' && buff[1] == ' ') {
-      char str[256];
+      std::string str;
       double x, y, z;
       std::istringstream is(buff);
       is >> str >> x >> y >> z;
@@ -326,7 +324,7 @@ DFM2_INLINE void delfem2::Read_Obj_MeshQuad3(
       vtx_xyz.push_back(z);
     }
     if (buff[0] == 'f') {
-      char str[256];
+      std::string str;
       int i0, i1, i2, i3;
       std::istringstream is(buff);
       is >> str >> i0 >> i1 >> i2 >> i3;
@@ -353,12 +351,11 @@ DFM2_INLINE void delfem2::Read_Obj2(
   aTri.clear();
   aXYZ.reserve(256 * 16);
   aTri.reserve(256 * 16);
-  const int BUFF_SIZE = 256;
-  char buff[BUFF_SIZE];
-  while (fin.getline(buff, BUFF_SIZE)) {
+  std::string buff;
+  while (std::getline(fin, buff)) {
     if (buff[0] == '#') { continue; }
     if (buff[0] == 'v' && buff[1] == ' ') {
-      char str[256];
+      std::string str;
       double x, y, z;
       std::istringstream is(buff);
       is >> str >> x >> y >> z;
@@ -368,15 +365,13 @@ DFM2_INLINE void delfem2::Read_Obj2(
       aXYZ.push_back(z);
     }
     if (buff[0] == 'f') {
-      char str[256], str0[256], str1[256], str2[256];
+      std::string str, str0, str1, str2;
       {
         std::istringstream is(buff);
         is >> str >> str0 >> str1 >> str2;
 //        sscanf(buff, "%s %s %s %s", str, str0, str1, str2);
       }
-      for (unsigned int i = 0; i < strlen(str0); ++i) { if (str0[i] == '/') { str0[i] = '\0'; }}
-      for (unsigned int i = 0; i < strlen(str1); ++i) { if (str1[i] == '/') { str1[i] = '\0'; }}
-      for (unsigned int i = 0; i < strlen(str2); ++i) { if (str2[i] == '/') { str2[i] = '\0'; }}
+      // the number before the first slash
       const int i0 = std::stoi(str0);
       const int i1 = std::stoi(str1);
       const int i2 = std::stoi(str2);
@@ -405,12 +400,11 @@ void delfem2::Read_Obj3(
   tri_vtx.clear();
   vtx_xyz.reserve(256 * 16);
   tri_vtx.reserve(256 * 16);
-  const int BUFF_SIZE = 256;
-  char buff[BUFF_SIZE];
-  while (fin.getline(buff, BUFF_SIZE)) {
+  std::string buff;
+  while (std::getline(fin, buff)) {
     if (buff[0] == '#') { continue; }
     if (buff[0] == 'v' && buff[1] == ' ') {
-      char str[256];
+      std::string str;
       REAL x, y, z;
       std::istringstream is(buff);
       is >> str >> x >> y >> z;
@@ -508,11 +502,10 @@ DFM2_INLINE bool delfem2::Read_WavefrontObjWithMaterialMixedElem(
   group_elem_index.clear();
   group_elem_index.push_back(0);
   //
-  const int BUFF_SIZE = 256;
-  char buff[BUFF_SIZE];
+  std::string buff;
   fname_mtl.clear();
   std::string current_material_name;
-  while (fin.getline(buff, BUFF_SIZE)) {
+  while (std::getline(fin, buff)) {
     if (buff[0] == '#') { continue; }
     if (buff[0] == 'm') {
       std::stringstream ss(buff);
@@ -522,7 +515,7 @@ DFM2_INLINE bool delfem2::Read_WavefrontObjWithMaterialMixedElem(
       continue;
     }
     if (buff[0] == 'v') {
-      char str[256];
+      std::string str;
       T x, y, z;
       std::istringstream is(buff);
       if (buff[1] == ' ') { // vertex
@@ -575,11 +568,9 @@ DFM2_INLINE bool delfem2::Read_WavefrontObjWithMaterialMixedElem(
         }
       }
       for (const auto &str0: vec_str) {
-        char buff1[256];
-        std::strncpy(buff1, str0.c_str(), str0.size());
-        buff1[str0.size()] = '\0';
+        std::string buff1 = str0;
         int ip0, it0, in0;
-        msh_ioobj::ParseVtxObj_(ip0, it0, in0, buff1);
+        msh_ioobj::ParseVtxObj_(ip0, it0, in0, buff1.data());
         elem_vtx_xyz.push_back(ip0);
         elem_vtx_tex.push_back(it0);
         elem_vtx_nrm.push_back(in0);
@@ -627,9 +618,8 @@ void delfem2::Read_WavefrontMaterial(
     return;
   }
   materials.clear();
-  const int BUFF_SIZE = 256;
-  char buff[BUFF_SIZE];
-  while (fin.getline(buff, BUFF_SIZE)) {
+  std::string buff;
+  while (std::getline(fin, buff)) {
     if (buff[0] == '#') { continue; }
     if (buff[0] == '\n') { continue; }
     std::stringstream ss(buff);
-- 
2.43.0


From e6f7709767091a5d9bd142ec0b8ee70c6338c399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:36 +0000
Subject: [PATCH 119/185] fix: the vertex of an OBJ file with too many slashes
 does not overflow the buffer

---
 include/delfem2/msh_io_obj.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/delfem2/msh_io_obj.cpp b/include/delfem2/msh_io_obj.cpp
index 6c0e4f3..73fb0f3 100644
--- a/include/delfem2/msh_io_obj.cpp
+++ b/include/delfem2/msh_io_obj.cpp
@@ -15,6 +15,7 @@
 #include <cassert>
 #include <string>
 #include <cstring>
+#include <stdexcept>
 
 #include "delfem2/msh_affine_transformation.h"
 
@@ -30,9 +31,10 @@ DFM2_INLINE void ParseVtxObj_(
   in = -1;
   std::size_t n = strlen(str);
   int icnt = 0;
-  unsigned int aloc[3];
+  unsigned int aloc[2];
   for (unsigned int i = 0; i < n; ++i) {
     if (str[i] != '/') { continue; }
+    if (icnt == 2) { throw std::invalid_argument("too many slashes in a vertex of OBJ"); }
     str[i] = '\0';
     aloc[icnt] = i;
     icnt++;
-- 
2.43.0


From 2651f924f76f80f0fd364219da3744217cdf480e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:36 +0000
Subject: [PATCH 120/185] fix: OBJ readers do not use uninitialized values for
 incomplete lines

---
 include/delfem2/msh_io_obj.cpp | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/include/delfem2/msh_io_obj.cpp b/include/delfem2/msh_io_obj.cpp
index 73fb0f3..9e6a4e7 100644
--- a/include/delfem2/msh_io_obj.cpp
+++ b/include/delfem2/msh_io_obj.cpp
@@ -273,7 +273,7 @@ DFM2_INLINE void delfem2::Read_Obj(
     if (buff[0] == '#') { continue; }
     if (buff[0] == 'v' && buff[1] == ' ') {
       std::string str;
-      double x, y, z;
+      double x = 0, y = 0, z = 0;
       {
         std::istringstream is(buff);
         is >> str >> x >> y >> z;
@@ -285,15 +285,15 @@ DFM2_INLINE void delfem2::Read_Obj(
     }
     if (buff[0] == 'f') {
       std::string str;
-      int i0, i1, i2;
+      int i0 = 0, i1 = 0, i2 = 0;
       {
         std::istringstream is(buff);
         is >> str >> i0 >> i1 >> i2;
 //       sscanf(buff, "%s %d %d %d", str, &i0, &i1, &i2);
       }
-      tri_vtx.push_back(i0 - 1);
-      tri_vtx.push_back(i1 - 1);
-      tri_vtx.push_back(i2 - 1);
+      tri_vtx.push_back(static_cast<unsigned int>(i0) - 1);
+      tri_vtx.push_back(static_cast<unsigned int>(i1) - 1);
+      tri_vtx.push_back(static_cast<unsigned int>(i2) - 1);
     }
   }
 }
@@ -317,7 +317,7 @@ DFM2_INLINE void delfem2::Read_Obj_MeshQuad3(
     if (buff[0] == '#') { continue; }
     if (buff[0] == 'v' && buff[1] == ' ') {
       std::string str;
-      double x, y, z;
+      double x = 0, y = 0, z = 0;
       std::istringstream is(buff);
       is >> str >> x >> y >> z;
 //      sscanf(buff, "%s %lf %lf %lf", str, &x, &y, &z);
@@ -327,14 +327,14 @@ DFM2_INLINE void delfem2::Read_Obj_MeshQuad3(
     }
     if (buff[0] == 'f') {
       std::string str;
-      int i0, i1, i2, i3;
+      int i0 = 0, i1 = 0, i2 = 0, i3 = 0;
       std::istringstream is(buff);
       is >> str >> i0 >> i1 >> i2 >> i3;
 //      sscanf(buff, "%s %d %d %d %d", str, &i0, &i1, &i2, &i3);
-      quad_vtx.push_back(i0 - 1);
-      quad_vtx.push_back(i1 - 1);
-      quad_vtx.push_back(i2 - 1);
-      quad_vtx.push_back(i3 - 1);
+      quad_vtx.push_back(static_cast<unsigned int>(i0) - 1);
+      quad_vtx.push_back(static_cast<unsigned int>(i1) - 1);
+      quad_vtx.push_back(static_cast<unsigned int>(i2) - 1);
+      quad_vtx.push_back(static_cast<unsigned int>(i3) - 1);
     }
   }
 }
@@ -358,7 +358,7 @@ DFM2_INLINE void delfem2::Read_Obj2(
     if (buff[0] == '#') { continue; }
     if (buff[0] == 'v' && buff[1] == ' ') {
       std::string str;
-      double x, y, z;
+      double x = 0, y = 0, z = 0;
       std::istringstream is(buff);
       is >> str >> x >> y >> z;
 //      sscanf(buff, "%s %lf %lf %lf", str, &x, &y, &z);
@@ -407,7 +407,7 @@ void delfem2::Read_Obj3(
     if (buff[0] == '#') { continue; }
     if (buff[0] == 'v' && buff[1] == ' ') {
       std::string str;
-      REAL x, y, z;
+      REAL x = 0, y = 0, z = 0;
       std::istringstream is(buff);
       is >> str >> x >> y >> z;
 //      sscanf(buff, "%s %lf %lf %lf", str, &x, &y, &z);
@@ -518,7 +518,7 @@ DFM2_INLINE bool delfem2::Read_WavefrontObjWithMaterialMixedElem(
     }
     if (buff[0] == 'v') {
       std::string str;
-      T x, y, z;
+      T x = 0, y = 0, z = 0;
       std::istringstream is(buff);
       if (buff[1] == ' ') { // vertex
         is >> str >> x >> y >> z;
-- 
2.43.0


From ce6c6abc959e4c82933d59bfbae238b3af537bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:36 +0000
Subject: [PATCH 121/185] fix: properties before the first newmtl in an MTL
 file are ignored

---
 include/delfem2/msh_io_obj.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/delfem2/msh_io_obj.cpp b/include/delfem2/msh_io_obj.cpp
index 9e6a4e7..5a544d4 100644
--- a/include/delfem2/msh_io_obj.cpp
+++ b/include/delfem2/msh_io_obj.cpp
@@ -633,6 +633,7 @@ void delfem2::Read_WavefrontMaterial(
       ss >> str1;
       materials[imtl0].name_mtl = str1;
     }
+    if (materials.empty()) { continue; } // nothing to describe before newmtl
     const int imtl0 = static_cast<int>(materials.size()) - 1;
     if (str0 == "Kd") {
       ss >> str1 >> str2 >> str3;
-- 
2.43.0


From d57f6b26dafba849a6eed9d5de31da6a3c916c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:36 +0000
Subject: [PATCH 122/185] fix: Write_WavefrontObj writes the group names
 Read_WavefrontObjWithMaterialMixedElem reads

---
 include/delfem2/msh_io_obj.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/msh_io_obj.cpp b/include/delfem2/msh_io_obj.cpp
index 5a544d4..cafa961 100644
--- a/include/delfem2/msh_io_obj.cpp
+++ b/include/delfem2/msh_io_obj.cpp
@@ -231,8 +231,8 @@ DFM2_INLINE void delfem2::Write_WavefrontObj(
     fout << vtx_nrm[ip * 3 + 2] << std::endl;
   }
   for (size_t ig = 0; ig < group_elem_index.size() - 1; ++ig) {
-    if (ig-1 < group_names.size() && ig != 0) {
-      fout << "g " << group_names[ig-1] << std::endl;
+    if (ig < group_names.size() && ig != 0) { // the first group is the "default" group
+      fout << "g " << group_names[ig] << std::endl;
     }
     for (size_t itri = group_elem_index[ig]; itri < group_elem_index[ig + 1]; itri++) {
       assert(itri<tri_vtx_xyz.size()/3);
-- 
2.43.0


From 7d98463e8af261a5fd8f75d4a3cd9ff4a7ec3145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:36 +0000
Subject: [PATCH 123/185] fix: PLY readers do not use uninitialized sizes and
 values for truncated files

---
 include/delfem2/msh_io_ply.cpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/include/delfem2/msh_io_ply.cpp b/include/delfem2/msh_io_ply.cpp
index 61d0225..91a7c51 100644
--- a/include/delfem2/msh_io_ply.cpp
+++ b/include/delfem2/msh_io_ply.cpp
@@ -35,7 +35,7 @@ DFM2_INLINE void delfem2::Read_Ply(
     if (strncmp(buff, "comment ", 8) != 0) { break; }
   }
   // ----
-  int nno;
+  int nno = 0;
   {
     std::istringstream is(buff);
     is >> buff1 >> buff2 >> nno;
@@ -46,20 +46,20 @@ DFM2_INLINE void delfem2::Read_Ply(
     fin.getline(buff, nbuff);
     if (strncmp(buff, "property ", 9) != 0) { break; }
   }
-  int ntri;
+  int ntri = 0;
   {
     std::istringstream is(buff);
     is >> buff1 >> buff2 >> ntri;
 //    sscanf(buff, "%s %s %d", buff1, buff2, &ntri);
   }
-  aTri.resize(ntri * 3);
+  aTri.resize(static_cast<size_t>(ntri) * 3);
   // ----
   fin.getline(buff, nbuff);  // property list int int vertex_indices
   fin.getline(buff, nbuff);  // end header
   // ----
-  aXYZ.resize(nno * 3);
+  aXYZ.resize(static_cast<size_t>(nno) * 3);
   for (int ino = 0; ino < nno; ++ino) {
-    double x, y, z;
+    double x = 0, y = 0, z = 0;
     fin >> x >> y >> z;
     //    std::cout << ino << " " << x << " " << y << " " << z << std::endl;
     aXYZ[ino * 3 + 0] = x;
@@ -67,7 +67,7 @@ DFM2_INLINE void delfem2::Read_Ply(
     aXYZ[ino * 3 + 2] = z;
   }
   for (int itri = 0; itri < ntri; ++itri) {
-    int itmp, i1, i2, i3;
+    int itmp = 0, i1 = 0, i2 = 0, i3 = 0;
     fin >> itmp >> i1 >> i2 >> i3;
     aTri[itri * 3 + 0] = i1;
     aTri[itri * 3 + 1] = i2;
@@ -166,6 +166,7 @@ DFM2_INLINE void delfem2::Read_Ply(
   /////
   { // read number of points
     //    sscanf(buff, "%s %s %d", buff1, buff2, &nnode_);
+    nnode_ = 0;
     std::stringstream ss(buff);
     ss >> sbuff1 >> sbuff2 >> nnode_;
     std::cout << "Nnode " << nnode_ << std::endl;
@@ -177,6 +178,7 @@ DFM2_INLINE void delfem2::Read_Ply(
   }
   { // read number of triangles
     //    sscanf(buff, "%s %s %d", buff1, buff2, &ntri_);
+    ntri_ = 0;
     std::stringstream ss(buff);
     ss >> sbuff1 >> sbuff2 >> ntri_;
     std::cout << "NTri " << ntri_ << std::endl;
@@ -185,18 +187,18 @@ DFM2_INLINE void delfem2::Read_Ply(
   fin.getline(buff, nbuff);  // property list int int vertex_indices
   fin.getline(buff, nbuff);  // end header
   ////
-  pXYZs_ = new double[nnode_ * 3];
+  pXYZs_ = new double[static_cast<size_t>(nnode_) * 3];
   for (int ino = 0; ino < (int) nnode_; ++ino) {
-    double x, y, z;
+    double x = 0, y = 0, z = 0;
     fin >> x >> y >> z;
     //    std::cout << ino << " " << x << " " << y << " " << z << std::endl;
     pXYZs_[ino * 3 + 0] = x;
     pXYZs_[ino * 3 + 1] = y;
     pXYZs_[ino * 3 + 2] = z;
   }
-  aTri_ = new unsigned int[ntri_ * 3];
+  aTri_ = new unsigned int[static_cast<size_t>(ntri_) * 3];
   for (int itri = 0; itri < (int) ntri_; ++itri) {
-    int itmp, i1, i2, i3;
+    int itmp = 0, i1 = 0, i2 = 0, i3 = 0;
     fin >> itmp >> i1 >> i2 >> i3;
     aTri_[itri * 3 + 0] = i1;
     aTri_[itri * 3 + 1] = i2;
-- 
2.43.0


From b10a77e9c015e8b62d5c41c2889d5a0c8e7c5be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:36 +0000
Subject: [PATCH 124/185] fix: readers of triangle lists and TetGen meshes do
 not use uninitialized sizes

---
 include/delfem2/msh_io_misc.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/delfem2/msh_io_misc.cpp b/include/delfem2/msh_io_misc.cpp
index 5014ea9..a808fba 100644
--- a/include/delfem2/msh_io_misc.cpp
+++ b/include/delfem2/msh_io_misc.cpp
@@ -132,10 +132,10 @@ DFM2_INLINE void delfem2::Read_MeshTet3D_TetGen(
   //    std::string fname("camel_10000.1");
   {
     std::ifstream fin((fname + std::string(".node")).c_str());
-    unsigned int nnode;
+    unsigned int nnode = 0;
     unsigned int i1, i2, i3;
     fin >> nnode >> i1 >> i2 >> i3;
-    aXYZ.resize(nnode * 3);
+    aXYZ.resize(static_cast<size_t>(nnode) * 3);
     for (unsigned int ino = 0; ino < nnode; ino++) {
       fin >> i1 >> aXYZ[ino * 3 + 0] >> aXYZ[ino * 3 + 1] >> aXYZ[ino * 3 + 2];
       //        std::cout << i1 << " " << aXYZ[ino*3+0] << " " << aXYZ[ino*3+1] << " " << aXYZ[ino*3+2] << std::endl;
@@ -143,10 +143,10 @@ DFM2_INLINE void delfem2::Read_MeshTet3D_TetGen(
   }
   {
     std::ifstream fin((fname + std::string(".ele")).c_str());
-    unsigned int ntet;
+    unsigned int ntet = 0;
     unsigned int i1, i2;
     fin >> ntet >> i1 >> i2;
-    aTet.resize(ntet * 4);
+    aTet.resize(static_cast<size_t>(ntet) * 4);
     for (unsigned int itet = 0; itet < ntet; itet++) {
       fin >> i1 >> aTet[itet * 4 + 0] >> aTet[itet * 4 + 1] >> aTet[itet * 4 + 2] >> aTet[itet * 4 + 3];
       //        std::cout << i1 << " " << aTet[itet*4+0] << " ";
@@ -162,10 +162,10 @@ DFM2_INLINE void delfem2::Read_MeshTet3D_TetGen(
   }
   {
     std::ifstream fin((fname + std::string(".face")).c_str());
-    int ntri;
+    int ntri = 0;
     unsigned int i1;
     fin >> ntri >> i1;
-    aTri.resize(ntri * 3);
+    aTri.resize(static_cast<size_t>(ntri) * 3);
     //      char buff[256];
     for (int itri = 0; itri < ntri; itri++) {
       /*
@@ -208,10 +208,10 @@ DFM2_INLINE void delfem2::Read_MeshTri3D(
     std::ifstream &fin,
     std::vector<double> &aXYZ,
     std::vector<int> &aTri) {
-  int nxyz, ntri;
+  int nxyz = 0, ntri = 0;
   fin >> nxyz >> ntri;
-  aXYZ.resize(nxyz * 3);
-  aTri.resize(ntri * 3);
+  aXYZ.resize(static_cast<size_t>(nxyz) * 3);
+  aTri.resize(static_cast<size_t>(ntri) * 3);
   for (int ixyz = 0; ixyz < nxyz; ++ixyz) {
     fin >> aXYZ[ixyz * 3 + 0] >> aXYZ[ixyz * 3 + 1] >> aXYZ[ixyz * 3 + 2];
   }
-- 
2.43.0


From c900a41e8e664d825287a089dc602879a312f4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:36 +0000
Subject: [PATCH 125/185] fix: the Nastran reader reads the last line,
 terminates for long lines and checks indices

---
 include/delfem2/msh_io_misc.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/delfem2/msh_io_misc.cpp b/include/delfem2/msh_io_misc.cpp
index a808fba..a9948a8 100644
--- a/include/delfem2/msh_io_misc.cpp
+++ b/include/delfem2/msh_io_misc.cpp
@@ -15,6 +15,7 @@
 #include <cassert>
 #include <string>
 #include <cstring>
+#include <stdexcept>
 #include <climits>
 
 namespace delfem2::msh_iomisc {
@@ -660,12 +661,10 @@ DFM2_INLINE void delfem2::Read_MeshTri3D_Nas(
   }
   // -----
   std::vector<int> map01;
-  const int nbuff = 256;
-  std::vector<char> buff(nbuff);
+  std::string buff;
   char buff1[16], buff2[16], buff3[16], buff4[16], buff5[16];
-  while (true) {
-    fin.getline(buff.data(), nbuff);
-    if (fin.eof()) { break; } // eof
+  while (std::getline(fin, buff)) {
+    if (buff.size() < 48) { buff.resize(48, '\0'); } // all the fields exist
     if (buff[0] == 'G' && buff[1] == 'R' && buff[2] == 'I' && buff[3] == 'D') {
       for (int i = 0; i < 8; ++i) { buff1[i] = buff[i + 8]; }
       buff1[8] = '\0';
@@ -705,8 +704,9 @@ DFM2_INLINE void delfem2::Read_MeshTri3D_Nas(
       continue;
     }
   }
-  int np1 = map01[0];
+  int np1 = -1;
   for (int ip1 : map01) {
+    if (ip1 < 0) { throw std::runtime_error("point index is not positive"); }
     np1 = (ip1 > np1) ? ip1 : np1;
   }
   np1 += 1;
@@ -717,6 +717,7 @@ DFM2_INLINE void delfem2::Read_MeshTri3D_Nas(
   }
   for (unsigned int &i : aTri) {
     unsigned int j1 = i;
+    if (j1 >= map10.size() || map10[j1] == UINT_MAX) { throw std::runtime_error("triangle refers to a missing point"); }
     i = map10[j1];
   }
 }
-- 
2.43.0


From 74bfaac687982097c2cdeb821ce27e4f2412571c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:36 +0000
Subject: [PATCH 126/185] fix: inconsistent VTK files are reported instead of
 being read out of bounds

---
 include/delfem2/msh_io_misc.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/delfem2/msh_io_misc.cpp b/include/delfem2/msh_io_misc.cpp
index a9948a8..a2533c0 100644
--- a/include/delfem2/msh_io_misc.cpp
+++ b/include/delfem2/msh_io_misc.cpp
@@ -584,7 +584,7 @@ DFM2_INLINE void delfem2::ReadVTK(
   //  std::cout << str0 << " " << str1 << " " << str2 << std::endl;
 
   int np = msh_iomisc::MyStoi_(str1);
-  aXYZ.resize(np * 3);
+  aXYZ.resize(static_cast<size_t>(np) * 3);
   for (int ip = 0; ip < np; ++ip) {
     fin >> str0 >> str1 >> str2;
     aXYZ[ip * 3 + 0] = msh_iomisc::MyStod_(str0);
@@ -609,7 +609,7 @@ DFM2_INLINE void delfem2::ReadVTK(
   if (!fin.eof()) {
     //  std::cout << str0 << " " << str1 << std::endl;
     int np1 = msh_iomisc::MyStoi_(str1);
-    assert(np1 == np);
+    if (np1 != np) { throw std::runtime_error("number of points does not match in VTK"); }
     fin >> str0;
     if (str0 == "VECTORS") {
       fin >> str1 >> str2;
@@ -627,18 +627,18 @@ DFM2_INLINE void delfem2::ReadVTK(
   }
   fin.close();
   // ---------
-  assert(nelem1 == nelem);
-  ielemtype = aElemType[0];
+  if (nelem1 != nelem) { throw std::runtime_error("number of cells does not match in VTK"); }
+  ielemtype = aElemType.empty() ? 0 : aElemType[0];
   for (int ie = 0; ie < nelem; ++ie) {
-    assert(aElemType[ie] == ielemtype);
+    if (aElemType[ie] != ielemtype) { throw std::runtime_error("mixed cell types in VTK"); }
   }
   int nnoel = 0;
   if (ielemtype == 5) { nnoel = 3; } // Tri
   if (ielemtype == 9) { nnoel = 4; } // Quad
   if (ielemtype == 10) { nnoel = 4; } // Tet
   if (ielemtype == 12) { nnoel = 8; } // Hex
-  assert((int) aElembuff.size() == nelem * (nnoel + 1));
-  aElem.resize(nelem * nnoel);
+  if (aElembuff.size() != static_cast<size_t>(nelem) * (nnoel + 1)) { throw std::runtime_error("size of cells does not match in VTK"); }
+  aElem.resize(static_cast<size_t>(nelem) * nnoel);
   for (int ie = 0; ie < nelem; ++ie) {
     for (int ine = 0; ine < nnoel; ++ine) {
       aElem[ie * nnoel + ine] = aElembuff[ie * (nnoel + 1) + ine + 1];
-- 
2.43.0


From 4e211a38bd18af1f7a709e248784e4515e3213be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 127/185] fix: LoadImage_PPMBinary misread the standard header
 and did not check the size of the file

---
 include/delfem2/img_ioppm.cpp | 96 ++++++++++++++++++++++-------------
 1 file changed, 61 insertions(+), 35 deletions(-)

diff --git a/include/delfem2/img_ioppm.cpp b/include/delfem2/img_ioppm.cpp
index fb1838d..2d23eee 100644
--- a/include/delfem2/img_ioppm.cpp
+++ b/include/delfem2/img_ioppm.cpp
@@ -16,6 +16,44 @@
 
 #include "delfem2/img_ioppm.h"
 
+namespace delfem2::img_ioppm {
+
+/**
+ * read one positive integer of a PPM header, skipping white spaces and comments
+ */
+inline bool ReadHeaderNumber(
+    int &value,
+    std::istream &fin) {
+  bool is_separated = false;
+  for (;;) {
+    const int c = fin.peek();
+    if (c == '#') { // comment until the end of the line
+      for (int d = fin.get(); d != '\n' && d != EOF;) { d = fin.get(); }
+    } else if (c == ' ' || (c >= '\t' && c <= '\r')) {
+      fin.get();
+    } else { break; }
+    is_separated = true;
+  }
+  if (!is_separated || fin.peek() < '0' || fin.peek() > '9') { return false; }
+  fin >> value;
+  return !fin.fail() && value > 0;
+}
+
+/**
+ * number of the bytes between the current position and the end of the file
+ */
+inline unsigned long long NumRemainingBytes(
+    std::istream &fin) {
+  const std::streampos pos0 = fin.tellg();
+  fin.seekg(0, std::ios::end);
+  const std::streampos pos1 = fin.tellg();
+  fin.seekg(pos0);
+  if (fin.fail() || pos1 < pos0) { return 0; }
+  return static_cast<unsigned long long>(pos1 - pos0);
+}
+
+}
+
 // https://en.wikipedia.org/wiki/Netpbm_format
 bool delfem2::LoadImage_PPMBinary(
     const std::string& filename,
@@ -27,44 +65,32 @@ bool delfem2::LoadImage_PPMBinary(
   if (!file) {
     return false;
   }
-  
-  std::string header;
-  {
-    char buff[256];
-    file.getline(buff, 256);
-    header = std::string(buff);
+  if (file.get() != 'P' || file.get() != '6') { return false; } // binary format
+  int max;
+  if (!img_ioppm::ReadHeaderNumber(width, file)) { return false; }
+  if (!img_ioppm::ReadHeaderNumber(height, file)) { return false; }
+  if (!img_ioppm::ReadHeaderNumber(max, file)) { return false; }
+  if (max > 255) { return false; } // two bytes per sample
+  { // exactly one white space between the header and the pixels
+    const int c = file.get();
+    if (c != ' ' && !(c >= '\t' && c <= '\r')) { return false; }
   }
-  if (header=="P6") { // binary format
-    {
-      int max;
-      char buff[256];
-      file.getline(buff,256);
-      if (buff[0]=='#'){
-        file>>width>>height>>max;
-      }
-      else{
-        std::stringstream ss(buff);
-        ss>>width>>height>>max;
-      }
-      //      std::cout<<header<<" "<<width<<" "<<height<<" "<<max<<std::endl;
-    }
-    // max is supporse to be 255
-    const int size = width*height*3+1;
-    std::vector<unsigned char> data(size);
-    file.read(reinterpret_cast<char*>(&(data[0])), size);
-    image.resize(3*height*width+256);
-    for (int row = 0; row < height; ++row) {
-      for (int col = 0; col < width; ++col) {
-        int dest_index = 3*((height-row-1) * width+col);
-        int src_index = (row * width+col)*3;
-        image[dest_index+0] = data[src_index+1];
-        image[dest_index+1] = data[src_index+2];
-        image[dest_index+2] = data[src_index+3];
-      }
+  const unsigned long long nbyte = img_ioppm::NumRemainingBytes(file);
+  if (static_cast<unsigned long long>(width) * height > nbyte / 3) { return false; } // truncated
+  const size_t size = static_cast<size_t>(width) * height * 3;
+  std::vector<unsigned char> data(size);
+  file.read(reinterpret_cast<char*>(data.data()), static_cast<std::streamsize>(size));
+  if (file.fail()) { return false; }
+  image.resize(size + 256);
+  for (int row = 0; row < height; ++row) {
+    for (int col = 0; col < width; ++col) {
+      const size_t dest_index = 3 * (static_cast<size_t>(height - row - 1) * width + col);
+      const size_t src_index = 3 * (static_cast<size_t>(row) * width + col);
+      image[dest_index + 0] = data[src_index + 0];
+      image[dest_index + 1] = data[src_index + 1];
+      image[dest_index + 2] = data[src_index + 2];
     }
   }
-
-  file.close();
   return true;
 }
 
-- 
2.43.0


From 708f07f46ef07fb054a4931b785dedc0a0af82fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 128/185] fix: LoadImage_PPMAscii accepted truncated data and
 unchecked sizes

---
 include/delfem2/img_ioppm.cpp | 49 +++++++++++++----------------------
 1 file changed, 18 insertions(+), 31 deletions(-)

diff --git a/include/delfem2/img_ioppm.cpp b/include/delfem2/img_ioppm.cpp
index 2d23eee..8591365 100644
--- a/include/delfem2/img_ioppm.cpp
+++ b/include/delfem2/img_ioppm.cpp
@@ -95,7 +95,6 @@ bool delfem2::LoadImage_PPMBinary(
 }
 
 // https://en.wikipedia.org/wiki/Netpbm_format
-// TODO: cannot process comment out sybol yet '#'
 int delfem2::LoadImage_PPMAscii(
     unsigned int& width, 
 	unsigned int& height,
@@ -108,37 +107,25 @@ int delfem2::LoadImage_PPMAscii(
 
   image.clear();
   width = height = 0;
-  int vmax;
-  {
-    const unsigned int buffSize = 256;
-    char buff[buffSize];
-    // get format
-    if( !fin.getline(buff, buffSize) ){ return 2; }
-    if( buff[0] != 'P' || buff[1] != '3'){ return 2; }
-    // get size
-    if( !fin.getline(buff, buffSize) ){ return 2; }
-    {
-      std::stringstream ss(buff);
-      ss >> width >> height;
+  if (fin.get() != 'P' || fin.get() != '3') { return 2; }
+  int w, h, vmax;
+  if (!img_ioppm::ReadHeaderNumber(w, fin)) { return 2; }
+  if (!img_ioppm::ReadHeaderNumber(h, fin)) { return 2; }
+  if (!img_ioppm::ReadHeaderNumber(vmax, fin)) { return 2; }
+  // a sample takes at least two bytes (separator and digit)
+  const unsigned long long nbyte = img_ioppm::NumRemainingBytes(fin);
+  if (static_cast<unsigned long long>(w) * h > nbyte / 6) { return 2; }
+  const size_t nrow = static_cast<size_t>(w) * 3;
+  std::vector<unsigned char> data(nrow * h);
+  for (int ih = 0; ih < h; ++ih) {
+    for (size_t ic = 0; ic < nrow; ++ic) {
+      int ival;
+      if (!(fin >> ival) || ival < 0 || ival > vmax) { return 2; }
+      data[(h - ih - 1) * nrow + ic] = static_cast<unsigned char>(ival);
     }
-    if( !fin.getline(buff, buffSize) ){ return 2; }
-    {
-      std::stringstream ss(buff);
-      ss >> vmax;
-    }
-  }
-  image.resize(width*height*3);
-  const auto buffSize = (unsigned int)(4*3*width*1.2);
-  std::vector<char> buff(buffSize, 0);
-  unsigned int icnt = 0;
-  while (icnt<width*height*3) {
-    int ival;
-    fin >> ival;
-    unsigned int ih = icnt/(width*3);
-    unsigned int iw = (icnt-ih*width*3)/3;
-    unsigned int ich = icnt - ih*width*3 - iw*3;
-    image[(height-ih-1)*width*3+iw*3+ich] = static_cast<unsigned char>(ival);
-    icnt++;
   }
+  width = w;
+  height = h;
+  image.swap(data);
   return 0;
 }
-- 
2.43.0


From ba93ef57acf5db1683f3828f0464aa662eca3450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 129/185] fix: GrayscaleGradientSobel read outside an image one
 pixel wide or high

---
 include/delfem2/cvimggraygrad.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/delfem2/cvimggraygrad.cpp b/include/delfem2/cvimggraygrad.cpp
index 8e15f1e..4439b32 100644
--- a/include/delfem2/cvimggraygrad.cpp
+++ b/include/delfem2/cvimggraygrad.cpp
@@ -81,10 +81,10 @@ DFM2_INLINE void delfem2::GrayscaleGradientSobel(
   for(int iv = 0; iv < nv; ++iv){
     for (int iy1 = 0; iy1 < ny; ++iy1) {
       for (int ix1 = 0; ix1 < nx; ++ix1) {
-        const int ix0 = abs(ix1-1); // reflection
-        const int iy0 = abs(iy1-1); // reflection
-        const int ix2 = nx - 1 - ::abs(nx - 2 - ix1); // reflection
-        const int iy2 = ny - 1 - ::abs(ny - 2 - iy1); // reflection
+        const int ix0 = (nx == 1) ? 0 : abs(ix1-1); // reflection
+        const int iy0 = (ny == 1) ? 0 : abs(iy1-1); // reflection
+        const int ix2 = (nx == 1) ? 0 : nx - 1 - ::abs(nx - 2 - ix1); // reflection
+        const int iy2 = (ny == 1) ? 0 : ny - 1 - ::abs(ny - 2 - iy1); // reflection
         assert( ix0 >=0 && ix0 < nx );
         assert( iy0 >=0 && iy0 < ny );
         assert( ix1 >=0 && ix1 < nx );
-- 
2.43.0


From 90803f001bc31a036be0a3150238dfa4a41837d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 130/185] fix: LoadNumpy_2Dim and LoadNumpy_1DimF did not check
 the header of the file

---
 include/delfem2/filenpy_str.cpp | 121 ++++++++++++++------------------
 1 file changed, 52 insertions(+), 69 deletions(-)

diff --git a/include/delfem2/filenpy_str.cpp b/include/delfem2/filenpy_str.cpp
index c882ecf..cda3c0d 100644
--- a/include/delfem2/filenpy_str.cpp
+++ b/include/delfem2/filenpy_str.cpp
@@ -13,6 +13,8 @@
 #include <cstdio>
 #include <cstring>
 #include <algorithm>
+#include <cstdlib>
+#include <limits>
 
 #include "delfem2/str.h"
 
@@ -28,41 +30,55 @@ struct NPY
   unsigned short header_len = 0; // 2 bytes
 };
 
-DFM2_INLINE bool LoadNumpy(
-    int& ndim0,
-    int& ndim1,
-    std::ifstream& fp)
+// read the header of a npy file (format version 1.0)
+DFM2_INLINE bool LoadNumpyHeader(
+    std::vector<int>& shape,
+    std::ifstream& fp,
+    const std::string& descr,
+    size_t size_element)
 {
   NPY npy;
-//  size_t n0 = fread(&npy, sizeof(npy), 1, fp);
-//  if( n0 != 1 ){ return false; }
   fp.read((char*)&npy, sizeof(npy));
   if( fp.fail() ){ return false; }
-
   { // check magic string
     unsigned char sMagic[7] = {0x93,'N','U','M','P','Y'};
     if( memcmp(npy.magic_string, sMagic, 6 ) != 0 ){ return false; }
   }
-
-  ndim0 = 0;
-  ndim1 = 0;
-  { // format
-    char buff[256];
-//    size_t n1 = fread(buff, 1, npy.header_len, fp);
-//    if( n1 != npy.header_len ){ return false; }
-    fp.read(buff,npy.header_len);
-    if( fp.fail() ){ return false; }
-    std::map<std::string, std::string> map0 = ReadDictionary_Python(std::string(buff));
-    std::string str_shape = map0["'shape'"];
-    str_shape = Get_Parentheses(str_shape,"()");
-    std::vector<std::string> aToken = Split(str_shape,',');
-    if( aToken.size() != 2 ){ return false; }
-    ndim0 = myStoi(aToken[0]);
-    ndim1 = myStoi(aToken[1]);
+  if( npy.major_version != 1 ){ return false; } // the header length is 4 bytes
+  std::string header(npy.header_len, ' ');
+  fp.read(&header[0],npy.header_len);
+  if( fp.fail() ){ return false; }
+  std::map<std::string, std::string> map0 = ReadDictionary_Python(header);
+  if( map0["'descr'"] != "'" + descr + "'" ){ return false; }
+  const std::string& str_shape = map0["'shape'"];
+  if( str_shape.size() < 2 || str_shape.front() != '(' || str_shape.back() != ')' ){ return false; }
+  shape.clear();
+  unsigned long long num = 1;
+  for( const std::string& token : Split(Get_Parentheses(str_shape,"()"),',') ){
+    if( token.empty() || token.size() > 10 ){ return false; }
+    if( token.find_first_not_of("0123456789") != std::string::npos ){ return false; }
+    const long long n = std::atoll(token.c_str());
+    if( n > std::numeric_limits<int>::max() ){ return false; }
+    shape.push_back(static_cast<int>(n));
+    num *= static_cast<unsigned long long>(n);
+    if( num > static_cast<unsigned long long>(std::numeric_limits<int>::max()) ){ return false; }
+  }
+  if( map0["'fortran_order'"] != "False" ){ // the order doesn't matter for one dimension
+    if( map0["'fortran_order'"] != "True" || shape.size() != 1 ){ return false; }
+  }
+  { // the file should contain all the elements
+    const std::streampos pos0 = fp.tellg();
+    fp.seekg(0, std::ios::end);
+    const std::streampos pos1 = fp.tellg();
+    fp.seekg(pos0);
+    if( fp.fail() || static_cast<unsigned long long>(pos1-pos0) < num * size_element ){ return false; }
   }
   return true;
 }
 
+inline const char* NumpyTypeName(float) { return "<f4"; }
+
+inline const char* NumpyTypeName(double) { return "<f8"; }
 
 }
 }
@@ -133,12 +149,14 @@ DFM2_INLINE bool delfem2::LoadNumpy_2Dim(
 //  FILE* fp = fopen(path.c_str(),"rb");
   std::ifstream fin(path,std::ios::in | std::ios::binary);
   if( fin.fail() ) { return false; }
-  funcs::LoadNumpy(ndim0, ndim1, fin);
-  int size = ndim0*ndim1;
+  std::vector<int> shape;
+  if( !funcs::LoadNumpyHeader(shape, fin, funcs::NumpyTypeName(REAL()), sizeof(REAL)) ){ return false; }
+  if( shape.size() != 2 ){ return false; }
+  ndim0 = shape[0];
+  ndim1 = shape[1];
+  const size_t size = static_cast<size_t>(ndim0) * ndim1;
   aData.resize(size);
-//  size_t n0 = fread(&aData[0], sizeof(float), size, fp);
-//  return (int) n0 == size;
-  fin.read( (char*)&aData[0], sizeof(REAL)*size );
+  fin.read( (char*)aData.data(), static_cast<std::streamsize>(sizeof(REAL)*size) );
   return !fin.fail();
 }
 #ifdef DFM2_STATIC_LIBRARY
@@ -161,47 +179,12 @@ DFM2_INLINE bool delfem2::LoadNumpy_1DimF(
   std::ifstream fin(path,std::ios::in | std::ios::binary);
   if( fin.fail() ) { return false; }
   
-  funcs::NPY npy;
-//  size_t n0 = fread(&npy, sizeof(npy), 1, fp);
-//  if( n0 != 1 ){ return false; }
-  fin.read((char*)&npy,sizeof(npy));
-  if( fin.fail() ){ return false; }
-  
-  { // check magic string
-    unsigned char sMagic[7] = {0x93,'N','U','M','P','Y'};
-    if( memcmp(npy.magic_string, sMagic, 6 ) != 0 ){ return false; }
-  }
-  
-  //    std::cout << npy.major_version << std::endl;
-  //    std::cout << npy.minor_version << std::endl;
-  //    std::cout << npy.header_len << std::endl;
-  
-  ndim0 = 0;
-  { // format
-    char buff[256];
-//    size_t n1 = fread(buff, 1, npy.header_len, fp);
-//    if( n1 != npy.header_len ){ return false; }
-    fin.read(buff,npy.header_len);
-    if(fin.fail()){ return false; }
-    //    std::cout << buff << "###" << strlen(buff) << std::endl;
-    std::map<std::string, std::string> map0 = ReadDictionary_Python(std::string(buff));
-    //    for(std::map<std::string, std::string>::iterator itr=map0.begin();itr!=map0.end();++itr){
-    //      std::cout << itr->first << " --> " << itr->second << std::endl;
-    //    }
-    std::string str_shape = map0["'shape'"];
-    str_shape = Get_Parentheses(str_shape,"()");
-    std::vector<std::string> aToken = Split(str_shape,',');
-    if( aToken.size() != 1 ){ return false; }
-    ndim0 = myStoi(aToken[0]);
-  }
-  //    std::cout << ndim0 << " " << ndim1 << std::endl;
-  
-  //////
-  unsigned int size = ndim0;
+  std::vector<int> shape;
+  if( !funcs::LoadNumpyHeader(shape, fin, funcs::NumpyTypeName(float()), sizeof(float)) ){ return false; }
+  if( shape.size() != 1 ){ return false; }
+  ndim0 = shape[0];
+  const size_t size = static_cast<size_t>(ndim0);
   aData.resize(size);
-  //  double* aRes = (double*)malloc( sizeof(double)*size );
-//  size_t n2 = fread(&aData[0], sizeof(float), size, fp);
-//  return n2 == size;
-  fin.read( (char*)&aData[0], sizeof(float)*size );
+  fin.read( (char*)aData.data(), static_cast<std::streamsize>(sizeof(float)*size) );
   return !fin.fail();
 }
-- 
2.43.0


From 1d63a08b73f2c5703826cec740ccdd1db3dcdc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 131/185] fix: ReadDictionary_Python overflowed fixed size
 buffers

---
 include/delfem2/filenpy_str.cpp | 36 ++++++++++-----------------------
 1 file changed, 11 insertions(+), 25 deletions(-)

diff --git a/include/delfem2/filenpy_str.cpp b/include/delfem2/filenpy_str.cpp
index cda3c0d..ad1d51e 100644
--- a/include/delfem2/filenpy_str.cpp
+++ b/include/delfem2/filenpy_str.cpp
@@ -96,36 +96,22 @@ DFM2_INLINE delfem2::ReadDictionary_Python(
   std::map<std::string, std::string> map0;
   //
   const size_t n =  buff.length();
-  const char* pbuff = buff.c_str();
   //
-  int iend = 1; // first letter is {
-  int icolon = -1;
+  size_t iend = 1; // first letter is {
+  size_t icolon = 0; // 0 if there is no colon after the previous comma
   bool is_parentheses = false;
-  std::string skey;
-  for(unsigned int i=0;i<n;++i){
-    if( buff[i] == ':' ){
-      char str[256];
-//      strncpy(str, pbuff+iend,i-iend);
-      for(unsigned int j=0;j<i-iend;++j){ str[j] = pbuff[iend+j]; }
-      str[i-iend] = '\0';
-      //      std::cout << "key:" << str << "#" << std::endl;
-      skey = std::string(str);
-      //      if( buff[i+1] == ' ' ){ i+=1; }
+  for(size_t i=1;i<n;++i){
+    if( buff[i] == ':' && icolon == 0 ){
       icolon = i;
     }
-    if( buff[i] == ','){
-      assert( icolon != -1 );
-      if( is_parentheses ){ continue; }
-      char str[256];
-//      strncpy(str, pbuff+icolon+1,i-icolon-1);
-      for(unsigned int j=0;j<i-icolon-1;++j){ str[j] = pbuff[icolon+1+j]; }
-      str[i-icolon-1] = '\0';
-      //      std::cout << "val:" << str << "#" << std::endl;
-      std::string svalue(str);
-      map0.insert( std::make_pair(skey,svalue) );
-      //      if( buff[i+1] == ' ' ){ i+=1; }
+    if( buff[i] == ',' && !is_parentheses ){
+      if( icolon != 0 ){
+        const std::string skey(buff,iend,icolon-iend);
+        const std::string svalue(buff,icolon+1,i-icolon-1);
+        map0.insert( std::make_pair(skey,svalue) );
+      }
       iend = i+1;
-      icolon = -1;
+      icolon = 0;
     }
     if( buff[i] == '('){
       is_parentheses = true;
-- 
2.43.0


From df738f7fc2307f9260113dc8af8896d3a19ddbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:01 +0000
Subject: [PATCH 132/185] fix: RemoveBeginning returned the text unchanged when
 all of it is to be removed

---
 include/delfem2/str.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/str.cpp b/include/delfem2/str.cpp
index 6a2ccd5..b7d7864 100644
--- a/include/delfem2/str.cpp
+++ b/include/delfem2/str.cpp
@@ -206,7 +206,7 @@ DFM2_INLINE std::string delfem2::RemoveBeginning(
   const size_t n = str.size();
   const size_t ndel = del.size();
   //
-  int istat = 0;
+  size_t istat = n; // empty if there is nothing but the characters to delete
   for(unsigned int i=0;i<n;++i){
     bool is_del = false;
     for(unsigned int idel=0;idel<ndel;++idel){
-- 
2.43.0


From 5a8321cbb0c5ce5442b163d0733be1205730eba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:01 +0000
Subject: [PATCH 133/185] fix: Split_Parentheses and Split_Quote returned the
 last token twice

---
 include/delfem2/str.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/delfem2/str.cpp b/include/delfem2/str.cpp
index b7d7864..75e4b6f 100644
--- a/include/delfem2/str.cpp
+++ b/include/delfem2/str.cpp
@@ -117,9 +117,6 @@ DFM2_INLINE std::vector<std::string> delfem2::Split_Parentheses(
   unsigned int is=0;
   int ilevel = 0;
   for(unsigned int ie=0;ie<str.size();++ie){
-    if( ie == str.size()-1 ){
-      aToken.emplace_back(str.data()+is,str.data()+ie+1 );
-    }
     if( str[ie] == cs ){ ilevel++; }
     if( str[ie] == ce ){ ilevel--; }
     if( str[ie] == delimiter && ilevel == 0 ){
@@ -127,6 +124,9 @@ DFM2_INLINE std::vector<std::string> delfem2::Split_Parentheses(
       is = ie+1;
     }
   }
+  if( is < str.size() ){ // after the last delimiter
+    aToken.emplace_back(str.data()+is,str.data()+str.size() );
+  }
   return aToken;
 }
 
@@ -139,17 +139,17 @@ DFM2_INLINE std::vector<std::string> delfem2::Split_Quote(
   unsigned int is=0;
   bool is_in = false;
   for(unsigned int ie=0;ie<str.size();++ie){
-    if( ie == str.size()-1 ){
-      aToken.emplace_back(str.data()+is,str.data()+ie+1 );
-    }
     if( str[ie] == quote ){ is_in = !is_in; }
     if( str[ie] == delimiter && !is_in ){
-      if( str[is] != delimiter ) { // skip the sequence of the delimiter
+      if( is != ie ) { // skip the sequence of the delimiter
         aToken.emplace_back(str.data() + is, str.data() + ie);
       }
       is = ie+1;
     }
   }
+  if( is < str.size() ){ // after the last delimiter
+    aToken.emplace_back(str.data()+is,str.data()+str.size() );
+  }
   return aToken;
 }
 
-- 
2.43.0


From 3ea96d993f2254184535923a9c7d68ad03770af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:01 +0000
Subject: [PATCH 134/185] fix: getCmdOptionDouble truncated the default value

---
 include/delfem2/str.cpp | 2 +-
 include/delfem2/str.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/str.cpp b/include/delfem2/str.cpp
index 75e4b6f..eb087cf 100644
--- a/include/delfem2/str.cpp
+++ b/include/delfem2/str.cpp
@@ -359,7 +359,7 @@ DFM2_INLINE bool delfem2::cmdOptionExists
 }
 
 DFM2_INLINE double delfem2::getCmdOptionDouble
- (char ** begin, char ** end, const std::string & option, int ddef)
+ (char ** begin, char ** end, const std::string & option, double ddef)
 {
   char ** itr = std::find(begin, end, option);
   if (itr != end && ++itr != end){ return myStod(*itr); }
diff --git a/include/delfem2/str.h b/include/delfem2/str.h
index f57a0cc..8369279 100644
--- a/include/delfem2/str.h
+++ b/include/delfem2/str.h
@@ -42,7 +42,7 @@ DFM2_INLINE double getCmdOptionDouble(
     char ** begin,
     char ** end,
     const std::string & option,
-    int ddef);
+    double ddef);
 
 DFM2_INLINE bool cmdOptionExists(
     char** begin,
-- 
2.43.0


From d402fc85a8374e2d7e0d76b66bec12d58513f24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:01 +0000
Subject: [PATCH 135/185] fix: XML_SeparateTagContent read beyond an input
 without terminating zero

---
 include/delfem2/str.cpp | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/include/delfem2/str.cpp b/include/delfem2/str.cpp
index eb087cf..fccb55a 100644
--- a/include/delfem2/str.cpp
+++ b/include/delfem2/str.cpp
@@ -370,27 +370,19 @@ DFM2_INLINE void delfem2::XML_SeparateTagContent
 (std::vector<std::string>& aStr,
  const std::vector<char>& input)
 {
-  std::vector<char> buffer = input;
-  char* s = buffer.data();
-  char* mark = s;
+  auto mark = input.begin();
   int state = 1;
-  while (*s) {
-    if (*s == '<' && state == 1) {
-      // Start of a tag
-      *s++ = '\0';
-      aStr.emplace_back(mark);
-      mark = s;
+  for (auto s = input.begin(); s != input.end() && *s != '\0'; ++s) {
+    if (*s == '<' && state == 1) { // Start of a tag
+      aStr.emplace_back(mark, s);
+      mark = s + 1;
       state = 0;
     }
-    else if (*s == '>' && state == 0 ) {       // Start of a content or new tag.
-      *s++ = '\0';
-      aStr.emplace_back(mark);
-      mark = s;
+    else if (*s == '>' && state == 0 ) { // Start of a content or new tag.
+      aStr.emplace_back(mark, s);
+      mark = s + 1;
       state = 1;
     }
-    else {
-      s++;
-    }
   }
   for(auto & is : aStr){
     is = RemoveBeginning(is, " ");
-- 
2.43.0


From aa7993f38bbcd33189c0e66225c3d831a9fe4646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:01 +0000
Subject: [PATCH 136/185] fix: ParseAttributes dropped attributes whose value
 contains an equal sign

---
 include/delfem2/str.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/delfem2/str.cpp b/include/delfem2/str.cpp
index fccb55a..8d668ba 100644
--- a/include/delfem2/str.cpp
+++ b/include/delfem2/str.cpp
@@ -401,10 +401,10 @@ DFM2_INLINE void delfem2::ParseAttributes
   }
    */
   for(const auto & is : aS){
-    std::vector<std::string> aS1 = Split(is, '=');
-    if( aS1.size() != 2 ) continue;
-    std::string s1 = Remove_Quote(aS1[1], '\"');
-    mapAttr.insert( std::make_pair(aS1[0],s1) );
+    const size_t iloc = is.find('='); // the value may also contain '='
+    if( iloc == 0 || iloc == std::string::npos || iloc+1 == is.size() ) continue;
+    std::string s1 = Remove_Quote(is.substr(iloc+1), '\"');
+    mapAttr.insert( std::make_pair(is.substr(0,iloc),s1) );
   }
 }
 
-- 
2.43.0


From 8cb0b94c390a42e649c2d713c64c9b3788c98236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:01 +0000
Subject: [PATCH 137/185] fix: path utilities of file.h removed dots and failed
 without a directory

---
 include/delfem2/file.cpp | 57 ++++++++++++++--------------------------
 1 file changed, 20 insertions(+), 37 deletions(-)

diff --git a/include/delfem2/file.cpp b/include/delfem2/file.cpp
index 324496b..7c39f36 100644
--- a/include/delfem2/file.cpp
+++ b/include/delfem2/file.cpp
@@ -14,27 +14,6 @@
 
 #include "delfem2/file.h"
 
-namespace delfem2{
-namespace file{
-
-DFM2_INLINE void Split(
-    std::vector<std::string>& aToken,
-    const std::string& str,
-    char delimiter)
-{
-  aToken.clear();
-  std::stringstream data(str);
-  std::string line;
-  while(std::getline(data,line,delimiter)){
-    if( line.empty() ){ continue; }
-    aToken.push_back(line);
-  }
-}
-
-}
-}
-
-
 // -------------------------------------
 // file IO
 
@@ -59,33 +38,37 @@ DFM2_INLINE bool delfem2::isFileExists(const std::string& fpath)
   return fin.is_open();
 }
 
+namespace delfem2::file {
+
+// the location of the dot separating the extension (npos if there is no extension)
+inline size_t LocationOfExtensionDot(const std::string& fpath)
+{
+  const size_t iloc = fpath.find_last_of('.');
+  if( iloc == std::string::npos ){ return iloc; }
+  const size_t idir = fpath.find_last_of('/');
+  if( idir != std::string::npos && idir > iloc ){ return std::string::npos; }
+  return iloc;
+}
+
+}
+
 DFM2_INLINE std::string delfem2::pathRemoveExtension(const std::string& fpath)
 {
-  std::vector<std::string> aToken;
-  file::Split(aToken, fpath, '.');
-  std::string sRes;
-  for(int it=0;it<(int)aToken.size()-1;++it){
-    sRes += aToken[it];
-  }
-  return sRes;
+  return fpath.substr(0, file::LocationOfExtensionDot(fpath));
 }
 
 DFM2_INLINE std::string delfem2::pathGetExtension(const std::string& fpath)
 {
-  std::vector<std::string> aToken;
-  file::Split(aToken, fpath, '.');
-  std::string sRes;
-  if( !aToken.empty() ){
-    sRes = aToken[aToken.size()-1];
-  }
-  return sRes;
+  const size_t iloc = file::LocationOfExtensionDot(fpath);
+  if( iloc == std::string::npos ){ return std::string(); }
+  return fpath.substr(iloc+1);
 }
 
 DFM2_INLINE std::string delfem2::getPathDir(const std::string& fpath)
 {
   const size_t iloc = fpath.find_last_of('/');
-  std::string sres = std::string(fpath.begin(),fpath.begin()+iloc);
-  return sres;
+  if( iloc == std::string::npos ){ return "."; }
+  return fpath.substr(0, iloc);
 }
 
 // ----------------------------------
-- 
2.43.0


From ec8c41fb9fcb5b3c19b7caabbec0002a2c4f9bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:01 +0000
Subject: [PATCH 138/185] fix: ReadParam looped endlessly on text and dropped a
 last value without newline

---
 include/delfem2/file.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/delfem2/file.cpp b/include/delfem2/file.cpp
index 7c39f36..9e9e8e8 100644
--- a/include/delfem2/file.cpp
+++ b/include/delfem2/file.cpp
@@ -81,10 +81,8 @@ DFM2_INLINE bool delfem2::ReadParam(
   fin.open(fname.c_str());
   if( !fin.is_open() ) return false;
   aPara.clear();
-  for(;;){
-    double d;
-    fin >> d;
-    if( fin.eof() ) break;
+  double d;
+  while( fin >> d ){
     aPara.push_back(static_cast<float>(d));
   }
   return true;
-- 
2.43.0


From 75ccb6bc8a95bc2524f65870f0aa81796d00c1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:01 +0000
Subject: [PATCH 139/185] fix: the numbers of SVG path data were merged or
 split at newlines and exponents

---
 include/delfem2/cad2_io_svg.cpp | 60 +++++++++++++++++----------------
 1 file changed, 31 insertions(+), 29 deletions(-)

diff --git a/include/delfem2/cad2_io_svg.cpp b/include/delfem2/cad2_io_svg.cpp
index 30327b4..86e5751 100644
--- a/include/delfem2/cad2_io_svg.cpp
+++ b/include/delfem2/cad2_io_svg.cpp
@@ -18,40 +18,41 @@
 
 namespace delfem2::cad2_io_svg {
 
+// separate the path data into the commands (one character) and the numbers
 DFM2_INLINE std::vector<std::string> SVG_Split_Path_d
     (std::string &s0) {
-  unsigned int imark = 0;
   std::vector<std::string> aS;
-  for (unsigned int i = 0; i < s0.size(); ++i) {
-    if (isNumeric(s0[i])) continue;
-    if (s0[i] == ',') {
-      std::string s1(s0.begin() + imark, s0.begin() + i);
-      aS.push_back(s1);
-      imark = i + 1;  // mark shoud be the begining position of the string so move next
+  const size_t n = s0.size();
+  size_t i = 0;
+  while (i < n) {
+    if (isAlphabet(s0[i])) { // command
+      aS.emplace_back(1, s0[i]);
+      ++i;
+      continue;
     }
-    if (s0[i] == ' ') { // sometimes the space act as delimiter in the SVG (inkscape version)
-      if (i > imark) {
-        std::string s1(s0.begin() + imark, s0.begin() + i);
-        aS.push_back(s1);
-      }
-      imark = i + 1; // mark shoud be the begining position of the string so move next
+    // number: sign, digits with a point and exponent
+    size_t j = i;
+    if (s0[j] == '+' || s0[j] == '-') { ++j; }
+    bool is_digit = false;
+    bool is_point = false;
+    for (; j < n; ++j) {
+      if (isNumeric(s0[j])) { is_digit = true; }
+      else if (s0[j] == '.' && !is_point) { is_point = true; }
+      else { break; }
     }
-    if (s0[i] == '-') {
-      if (i > imark) {
-        std::string s1(s0.begin() + imark, s0.begin() + i);
-        aS.push_back(s1);
-      }
-      imark = i;
+    if (!is_digit) { // delimiter
+      ++i;
+      continue;
     }
-    if (isAlphabet(s0[i])) {
-      if (i > imark) {
-        std::string s1(s0.begin() + imark, s0.begin() + i);
-        aS.push_back(s1);
+    if (j < n && (s0[j] == 'e' || s0[j] == 'E')) {
+      size_t k = j + 1;
+      if (k < n && (s0[k] == '+' || s0[k] == '-')) { ++k; }
+      if (k < n && isNumeric(s0[k])) {
+        for (j = k; j < n && isNumeric(s0[j]); ++j) {}
       }
-      const char s2[2] = {s0[i], '\0'};
-      aS.emplace_back(s2);
-      imark = i + 1;
     }
+    aS.push_back(s0.substr(i, j - i));
+    i = j;
   }
   return aS;
 }
@@ -298,12 +299,13 @@ DFM2_INLINE void delfem2::ReadSVG_LoopEdgeCCad2D(
       std::string str_path;
       if (sTagContent.compare(0, 4, "path") == 0 || // adobe illustrator
           sTagContent.compare(0, 5, "path\r") == 0) { // inkscape
-        str_path = std::string(sTagContent.begin() + 5, sTagContent.end());
+        str_path = sTagContent.substr(4);
       }
-      if (str_path == "") { continue; }
+      if (str_path.empty() || isAlphabet(str_path[0])) { continue; }
       // remove new line codes as inkscape svg has new line in side path tag
       // don't remove spaces here as inkscape svg uses space for the delimiter
-      str_path = Remove(str_path, "\n\r");
+      // replace them with a space because a new line is also a delimiter
+      for (char c: {'\n', '\r', '\t'}) { str_path = Replace(str_path, c, ' '); }
 //      std::cout << "str_path: " << str_path << std::endl;
       std::map<std::string, std::string> mapAttr;
       ParseAttributes(mapAttr,
-- 
2.43.0


From 954bbaa7c93eb9c46f44508f6e6c467b95266a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:01 +0000
Subject: [PATCH 140/185] fix: the SVG path reader misread smooth curves and
 accessed out of bounds

---
 include/delfem2/cad2_io_svg.cpp | 268 ++++++++++----------------------
 1 file changed, 85 insertions(+), 183 deletions(-)

diff --git a/include/delfem2/cad2_io_svg.cpp b/include/delfem2/cad2_io_svg.cpp
index 86e5751..7740005 100644
--- a/include/delfem2/cad2_io_svg.cpp
+++ b/include/delfem2/cad2_io_svg.cpp
@@ -60,195 +60,93 @@ DFM2_INLINE std::vector<std::string> SVG_Split_Path_d
 DFM2_INLINE void LoopEdgeCad2D_SVGPathD(
     std::vector<CCad2D_EdgeGeo> &aEdge,
     std::vector<std::string> &aStr1) {
-  assert(aStr1[0] == "M" || aStr1[0] == "m");
-  assert(aStr1[aStr1.size() - 1] == "Z" || aStr1[aStr1.size() - 1] == "z");
-  CVec2d pos_cur;
-  for (int is = 0;;) {
-    if (aStr1[is] == "M") {
-      pos_cur.p[0] = myStod(aStr1[is + 1]);
-      pos_cur.p[1] = myStod(aStr1[is + 2]);
-      is += 3;
-      for (;;) {
-        if (isAlphabet(aStr1[is][0])) { break; }
-        CCad2D_EdgeGeo e;
-        e.p0 = pos_cur;
-        e.p1.x = myStod(aStr1[is + 0]);
-        e.p1.y = myStod(aStr1[is + 1]);
-        pos_cur = e.p1;
-        aEdge.push_back(e);
-        is += 2;
-      }
-    } else if (aStr1[is] == "m") {
-      pos_cur.x = myStod(aStr1[is + 1]);
-      pos_cur.y = myStod(aStr1[is + 2]);
-      is += 3;
-      for (;;) {
-        if (isAlphabet(aStr1[is][0])) { break; }
-        CCad2D_EdgeGeo e;
-        e.p0 = pos_cur;
-        e.p1.x = pos_cur.x + myStod(aStr1[is + 0]);
-        e.p1.y = pos_cur.y + myStod(aStr1[is + 1]);
-        pos_cur = e.p1;
-        aEdge.push_back(e);
-        is += 2;
-      }
-    } else if (aStr1[is] == "C") { // cubic Bezier absolute coordinates
-      ++is;
-      for (;;) { // loop for poly Bezier
-        CCad2D_EdgeGeo e;
-        e.p0 = pos_cur;
-        e.p1 = CVec2d(myStod(aStr1[is + 4]), myStod(aStr1[is + 5]));
-        e.SetCubicBezierCurve(
-            {myStod(aStr1[is + 0]), myStod(aStr1[is + 1])},
-            {myStod(aStr1[is + 2]), myStod(aStr1[is + 3])});
-        aEdge.push_back(e);
-        pos_cur = e.p1;
-        is += 6;
-        if (isAlphabet(aStr1[is][0])) { break; }
+  CVec2d pos_cur(0, 0);
+  CVec2d pos_ctrl(0, 0); // the last control point of the previous curve
+  char cmd_prev = ' ';
+  for (size_t is = 0; is < aStr1.size();) {
+    const char cmd = aStr1[is][0];
+    if (!isAlphabet(cmd) || (is == 0 && cmd != 'M' && cmd != 'm')) { break; }
+    if (cmd == 'z' || cmd == 'Z') { break; }
+    const bool is_relative = !isAlphabetUpper(cmd);
+    const char type = is_relative ? static_cast<char>(cmd - 'a' + 'A') : cmd;
+    unsigned int narg = 0;
+    if (type == 'H' || type == 'V') { narg = 1; }
+    else if (type == 'M' || type == 'L' || type == 'T') { narg = 2; }
+    else if (type == 'S' || type == 'Q') { narg = 4; }
+    else if (type == 'C') { narg = 6; }
+    else {
+      std::cout << "error!--> " << aStr1[is] << std::endl;
+      break;
+    }
+    if (type == 'M' && is != 0) { break; } // only the first loop
+    ++is;
+    bool is_first = true;
+    for (;;) { // the arguments can be repeated
+      double a[6] = {0, 0, 0, 0, 0, 0};
+      unsigned int n = 0;
+      for (; n < narg && is + n < aStr1.size(); ++n) {
+        if (isAlphabet(aStr1[is + n][0])) { break; }
+        a[n] = myStod(aStr1[is + n]);
       }
-    } else if (aStr1[is] == "c") {
-      ++is; // 'c'
-      for (;;) { // loop for poly-Bezeir curve
-        CCad2D_EdgeGeo e;
-        e.p0 = pos_cur;
-        e.p1 = CVec2d(pos_cur.x + myStod(aStr1[is + 4]),
-                      pos_cur.y + myStod(aStr1[is + 5]));
-        e.SetCubicBezierCurve(
-            {pos_cur.x + myStod(aStr1[is + 0]), pos_cur.y + myStod(aStr1[is + 1])},
-            {pos_cur.x + myStod(aStr1[is + 2]), pos_cur.y + myStod(aStr1[is + 3])});
-        aEdge.push_back(e);
-        pos_cur = e.p1;
-        is += 6;
-        if (isAlphabet(aStr1[is][0])) { break; }
+      if (n == 0 && !is_first) { break; } // next command
+      if (n != narg) {
+        std::cout << "error!--> missing argument of " << cmd << std::endl;
+        is = aStr1.size();
+        break;
       }
-    } else if (aStr1[is] == "l") {
-      CCad2D_EdgeGeo e;
-      e.p0 = pos_cur;
-      e.p1.x = pos_cur.x + myStod(aStr1[is + 1]);
-      e.p1.y = pos_cur.y + myStod(aStr1[is + 2]);
-      pos_cur = e.p1;
-      aEdge.push_back(e);
-      is += 3;
-      for (;;) {
-        if (isAlphabet(aStr1[is][0])) { break; }
-        CCad2D_EdgeGeo e0;
-        e0.p0 = pos_cur;
-        e0.p1.x = pos_cur.x + myStod(aStr1[is + 0]);
-        e0.p1.y = pos_cur.y + myStod(aStr1[is + 1]);
-        pos_cur = e0.p1;
-        aEdge.push_back(e0);
-        is += 2;
-      }
-    } else if (aStr1[is] == "L") {
-      CCad2D_EdgeGeo e;
-      e.p0 = pos_cur;
-      e.p1.x = myStod(aStr1[is + 1]);
-      e.p1.y = myStod(aStr1[is + 2]);
-      pos_cur = e.p1;
-      aEdge.push_back(e);
-      is += 3;
-      for (;;) {
-        if (isAlphabet(aStr1[is][0])) { break; }
-        CCad2D_EdgeGeo e0;
-        e0.p0 = pos_cur;
-        e0.p1.x = myStod(aStr1[is + 0]);
-        e0.p1.y = myStod(aStr1[is + 1]);
-        pos_cur = e0.p1;
-        aEdge.push_back(e0);
-        is += 2;
+      is += narg;
+      const CVec2d base = is_relative ? pos_cur : CVec2d(0, 0);
+      if (type == 'M' && is_first) {
+        pos_cur = CVec2d(a[0], a[1]);
+        is_first = false;
+        continue;
       }
-    } else if (aStr1[is] == "S") {
       CCad2D_EdgeGeo e;
       e.p0 = pos_cur;
-      e.p1 = CVec2d(myStod(aStr1[is + 3]), myStod(aStr1[is + 4]));
-      CVec2d p2(myStod(aStr1[is + 1]), myStod(aStr1[is + 2]));
-      CVec2d p3 = e.p1;
-      e.SetCubicBezierCurve(p2,p3);
-      aEdge.push_back(e);
-      pos_cur = e.p1;
-      is += 5;
-    } else if (aStr1[is] == "v") {
-      CCad2D_EdgeGeo e;
-      {
-        e.p0 = pos_cur;
-        e.p1 = CVec2d(pos_cur.x, pos_cur.y + myStod(aStr1[is + 1]));
-        e.type_edge = CCad2D_EdgeGeo::LINE;
-      }
-      pos_cur = e.p1;
-      aEdge.push_back(e);
-      is += 2;
-    } else if (aStr1[is] == "V") {
-      CCad2D_EdgeGeo e;
-      {
-        e.p0 = pos_cur;
-        e.p1 = CVec2d(pos_cur.x, myStod(aStr1[is + 1]));
-        e.SetLine();
+      if (type == 'M' || type == 'L') {
+        e.p1 = base + CVec2d(a[0], a[1]);
+      } else if (type == 'H') {
+        e.p1 = CVec2d(base.x + a[0], pos_cur.y);
+      } else if (type == 'V') {
+        e.p1 = CVec2d(pos_cur.x, base.y + a[0]);
+      } else if (type == 'C') {
+        e.p1 = base + CVec2d(a[4], a[5]);
+        pos_ctrl = base + CVec2d(a[2], a[3]);
+        e.SetCubicBezierCurve(base + CVec2d(a[0], a[1]), pos_ctrl);
+      } else if (type == 'S') { // the first control point is the mirror of the previous one
+        const bool is_smooth = cmd_prev == 'C' || cmd_prev == 'S';
+        const CVec2d q0 = is_smooth ? pos_cur * 2. - pos_ctrl : pos_cur;
+        e.p1 = base + CVec2d(a[2], a[3]);
+        pos_ctrl = base + CVec2d(a[0], a[1]);
+        e.SetCubicBezierCurve(q0, pos_ctrl);
+      } else if (type == 'Q') {
+        e.p1 = base + CVec2d(a[2], a[3]);
+        pos_ctrl = base + CVec2d(a[0], a[1]);
+        e.SetQuadraticBezierCurve(pos_ctrl);
+      } else if (type == 'T') { // the control point is the mirror of the previous one
+        const bool is_smooth = cmd_prev == 'Q' || cmd_prev == 'T';
+        pos_ctrl = is_smooth ? pos_cur * 2. - pos_ctrl : pos_cur;
+        e.p1 = base + CVec2d(a[0], a[1]);
+        e.SetQuadraticBezierCurve(pos_ctrl);
       }
       aEdge.push_back(e);
       pos_cur = e.p1;
-      is += 2;
-    } else if (aStr1[is] == "H") {
-      CCad2D_EdgeGeo e;
-      {
-        e.p0 = pos_cur;
-        e.p1 = CVec2d(myStod(aStr1[is + 1]), pos_cur.y);
-        e.SetLine();
-      }
-      aEdge.push_back(e);
-      pos_cur = e.p1;
-      is += 2;
-    } else if (aStr1[is] == "h") {
-      CCad2D_EdgeGeo e;
-      {
-        e.p0 = pos_cur;
-        e.p1 = CVec2d(e.p0.x + myStod(aStr1[is + 1]), pos_cur.y);
-        e.SetLine();
-      }
-      aEdge.push_back(e);
-      pos_cur = e.p1;
-      is += 2;
-    } else if (aStr1[is] == "q") {  // relative
-      const CVec2d p0 = pos_cur;
-      const CVec2d p1(p0.x + myStod(aStr1[is + 1]), p0.y + myStod(aStr1[is + 2]));
-      const CVec2d p2(p0.x + myStod(aStr1[is + 3]), p0.y + myStod(aStr1[is + 4]));
-      CCad2D_EdgeGeo e;
-      {
-        e.p0 = pos_cur;
-        e.p1 = p2;
-        e.SetQuadraticBezierCurve(p1);
-      }
-      aEdge.push_back(e);
-      pos_cur = e.p1;
-      is += 5;
-    } else if (aStr1[is] == "Q") { // absolute
-      const CVec2d p0 = pos_cur;
-      const CVec2d p1(myStod(aStr1[is + 1]), myStod(aStr1[is + 2]));
-      const CVec2d p2(myStod(aStr1[is + 3]), myStod(aStr1[is + 4]));
-      pos_cur = p2;
-      CCad2D_EdgeGeo e;
-      {
-        e.p0 = p0;
-        e.p1 = p2;
-        e.SetQuadraticBezierCurve(p1);
-      }
-      aEdge.push_back(e);
-      is += 5;
-    } else if (aStr1[is] == "z" || aStr1[is] == "Z") {
-      const CVec2d p1 = aEdge[0].p0;
-      const CVec2d p0 = aEdge[aEdge.size() - 1].p1;
-      double dist0 = (p0 - p1).norm();
-      if (dist0 > 1.0e-9) {
-        CCad2D_EdgeGeo e;
-        e.p0 = p0;
-        e.p1 = p1;
-        e.SetLine();
-        aEdge.push_back(e);
-      }
-      break;
-    } else {
-      std::cout << "error!--> " << aStr1[is] << std::endl;
-      break;
+      cmd_prev = type;
+      is_first = false;
     }
+    cmd_prev = type;
+  }
+  if (aEdge.empty()) { return; }
+  // close the loop
+  const CVec2d p1 = aEdge[0].p0;
+  const CVec2d p0 = aEdge[aEdge.size() - 1].p1;
+  const double dist0 = (p0 - p1).norm();
+  if (dist0 > 1.0e-9) {
+    CCad2D_EdgeGeo e;
+    e.p0 = p0;
+    e.p1 = p1;
+    e.SetLine();
+    aEdge.push_back(e);
   }
 }
 
@@ -328,6 +226,7 @@ DFM2_INLINE void delfem2::ReadSVG_LoopEdgeCCad2D(
         std::cout << ie << " " << aEdge.size() << " " << aEdge[ie].param.size() << std::endl;
       }
        */
+      if (aEdge.empty()) { continue; }
       aaEdge.push_back(aEdge);
     }
   }
@@ -335,8 +234,10 @@ DFM2_INLINE void delfem2::ReadSVG_LoopEdgeCCad2D(
   { // get polygon
     for (auto &sTagContent: aStrTagContent) {
       std::string str_polygon;
-      if (sTagContent.compare(0, 8, "polygon ") == 0) {
-        str_polygon = std::string(sTagContent.begin() + 8, sTagContent.end());
+      if (sTagContent.compare(0, 7, "polygon") == 0) {
+        str_polygon = sTagContent.substr(7);
+        for (char c: {'\n', '\r', '\t'}) { str_polygon = Replace(str_polygon, c, ' '); }
+        if (!str_polygon.empty() && str_polygon[0] != ' ') { continue; }
       }
 //    std::cout << "str_polygon: " << str_polygon << std::endl;
       if (str_polygon == "") { continue; }
@@ -344,7 +245,7 @@ DFM2_INLINE void delfem2::ReadSVG_LoopEdgeCCad2D(
       ParseAttributes(mapAttr,
                       str_polygon);
       std::string str_polygon_points = mapAttr["points"];
-      std::vector<std::string> aS = Split(str_polygon_points, "  ,");
+      std::vector<std::string> aS = Split(str_polygon_points, " ,\n\r\t");
       /*
       for(unsigned int is=0;is<aS.size();++is){
         std::cout << is << " " << aS[is] << std::endl;
@@ -354,6 +255,7 @@ DFM2_INLINE void delfem2::ReadSVG_LoopEdgeCCad2D(
       lcl::LoopEdgeCad2D_SVGPolygonPoints(
           aEdge,
           aS);
+      if (aEdge.empty()) { continue; }
       aaEdge.push_back(aEdge);
     }
   }
-- 
2.43.0


From ac20d954eb104847a7386e6ac6cba39797724a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:47 +0000
Subject: [PATCH 141/185] fix: a face with an isolated vertex claimed to
 include every vertex

---
 include/delfem2/cadtopo.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/cadtopo.h b/include/delfem2/cadtopo.h
index d329f52..9e22849 100644
--- a/include/delfem2/cadtopo.h
+++ b/include/delfem2/cadtopo.h
@@ -59,7 +59,7 @@ class CadTopo_Loop {
       const std::vector<CadTopo_Edge> &edges) const {
     if( iv != UINT_MAX ){
       assert( aIE.empty() );
-      return true;
+      return iv == ivtx;
     }
     for (auto [ie0,dir] : aIE) {
       assert( ie0 < edges.size() );
-- 
2.43.0


From 8a880da81f58a040c21388a67f1bc18f318a5597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:47 +0000
Subject: [PATCH 142/185] fix: VertexIndexs_Face used the face index as a loop
 index

---
 include/delfem2/cadtopo.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/delfem2/cadtopo.h b/include/delfem2/cadtopo.h
index 9e22849..8da8837 100644
--- a/include/delfem2/cadtopo.h
+++ b/include/delfem2/cadtopo.h
@@ -201,7 +201,13 @@ public:
       unsigned int iface) const
   {
     assert(iface < faces.size());
-    return loops[iface].GetArray_IdVertex(this->edges);
+    std::vector<unsigned int> aIdV;
+    for(unsigned int il : faces[iface].aIL) {
+      if( loops[il].iv != UINT_MAX ){ aIdV.push_back(loops[il].iv); continue; }
+      const std::vector<unsigned int> aIdV0 = loops[il].GetArray_IdVertex(this->edges);
+      aIdV.insert( aIdV.end(), aIdV0.begin(), aIdV0.end() );
+    }
+    return aIdV;
   }
 
   std::vector<std::pair<unsigned int,bool> > EdgeIndexes_Face(unsigned int iface) const
-- 
2.43.0


From 927836ef6cff7905db882eb3f90d603920a65092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:47 +0000
Subject: [PATCH 143/185] fix: InvertLoop lost the control point of quadratic
 edges

---
 include/delfem2/cad2.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/delfem2/cad2.cpp b/include/delfem2/cad2.cpp
index c23121f..2c1c26d 100644
--- a/include/delfem2/cad2.cpp
+++ b/include/delfem2/cad2.cpp
@@ -262,6 +262,9 @@ DFM2_INLINE std::vector<delfem2::CCad2D_EdgeGeo> delfem2::InvertLoop(
     eo.p0 = ei.p1;
     eo.type_edge = ei.type_edge;
     eo.param.resize(ei.param.size());
+    if (ei.type_edge == CCad2D_EdgeGeo::BEZIER_QUADRATIC) {
+      eo.SetQuadraticBezierCurve(ei.p0 + CVec2d(ei.param[0], ei.param[1]));
+    }
     if (ei.type_edge == CCad2D_EdgeGeo::BEZIER_CUBIC) {
       CVec2d pA = ei.p0 + CVec2d(ei.param[0], ei.param[1]);
       CVec2d pB = ei.p1 + CVec2d(ei.param[2], ei.param[3]);
-- 
2.43.0


From 974078021e3f06a895c4ce412cae0a5a0f00d2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:47 +0000
Subject: [PATCH 144/185] fix: dragging a handle of a cubic edge did not put it
 at the cursor

---
 include/delfem2/cad2.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/delfem2/cad2.cpp b/include/delfem2/cad2.cpp
index 2c1c26d..035d55e 100644
--- a/include/delfem2/cad2.cpp
+++ b/include/delfem2/cad2.cpp
@@ -425,14 +425,12 @@ DFM2_INLINE void delfem2::Cad2_Ui::DragPicked(
       CCad2D_EdgeGeo &edge = cad.aEdge[iedge_picked];
       if (edge.type_edge == 1) {
         assert(edge.param.size() == 4);
-        const CVec2d lx = (edge.p1 - edge.p0).normalized();
-        const CVec2d ly = CVec2d(lx.y, -lx.x);
         if (ipicked_elem == 1) {
-          edge.param[0] = (CVec2d(p1x, p1y) - edge.p0).dot(lx);
-          edge.param[1] = (CVec2d(p1x, p1y) - edge.p0).dot(ly);
+          edge.param[0] = p1x - edge.p0.x;
+          edge.param[1] = p1y - edge.p0.y;
         } else if (ipicked_elem == 2) {
-          edge.param[2] = (CVec2d(p1x, p1y) - edge.p1).dot(lx);
-          edge.param[3] = (CVec2d(p1x, p1y) - edge.p1).dot(ly);
+          edge.param[2] = p1x - edge.p1.x;
+          edge.param[3] = p1y - edge.p1.y;
         }
       }
     }
-- 
2.43.0


From d9ae7004971238d2e88f3e2adcc0034b961d1567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:47 +0000
Subject: [PATCH 145/185] fix: meshing of a face ignored the extent of its
 curved edges

---
 include/delfem2/cad2_mesher.cpp | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/include/delfem2/cad2_mesher.cpp b/include/delfem2/cad2_mesher.cpp
index c9c62e7..d0964d7 100644
--- a/include/delfem2/cad2_mesher.cpp
+++ b/include/delfem2/cad2_mesher.cpp
@@ -83,15 +83,6 @@ DFM2_INLINE void GenMeshCadFace(
       aPo2D[ixys].d = 0;
     }
   }
-  {
-    double bound_2d[4];
-    GetBound(
-      bound_2d,
-      iface0, topo, aEdgeGeo);
-    MakeSuperTriangle(
-      aVec2, aPo2D, aETri,
-      bound_2d);
-  }
   std::vector<int> aIP;
   { // make list of index of point involved this face
     for (size_t iil = 0; iil < topo.faces[iface0].aIL.size(); ++iil) {
@@ -110,6 +101,22 @@ DFM2_INLINE void GenMeshCadFace(
       }
     }
   }
+  {
+    double bound_2d[4];
+    GetBound(
+      bound_2d,
+      iface0, topo, aEdgeGeo);
+    for (int ip: aIP) { // the points on the curves may be outside of the bound of the vertices
+      const CVec2d &p0 = aVec2[ip];
+      if (p0.x < bound_2d[0]) { bound_2d[0] = p0.x; }
+      if (p0.x > bound_2d[1]) { bound_2d[1] = p0.x; }
+      if (p0.y < bound_2d[2]) { bound_2d[2] = p0.y; }
+      if (p0.y > bound_2d[3]) { bound_2d[3] = p0.y; }
+    }
+    MakeSuperTriangle(
+      aVec2, aPo2D, aETri,
+      bound_2d);
+  }
   {
     const double MIN_TRI_AREA = 1.0e-10;
     for (int ip: aIP) {
-- 
2.43.0


From 336b634751f766e11f27b1470401a765c0b17dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:47 +0000
Subject: [PATCH 146/185] fix: interpolation by the mean value coordinate
 ignored the sign of the angles

---
 include/delfem2/cagedef.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/delfem2/cagedef.h b/include/delfem2/cagedef.h
index ddc3c76..b853162 100644
--- a/include/delfem2/cagedef.h
+++ b/include/delfem2/cagedef.h
@@ -250,10 +250,9 @@ double MeanValueCoordinate_Polygon2(
     const VEC v0(xyw[iv0*3+0] - p[0], xyw[iv0*3+1] - p[1]);
     const VEC v1(xyw[iv1*3+0] - p[0], xyw[iv1*3+1] - p[1]);
     const VEC v2(xyw[iv2*3+0] - p[0], xyw[iv2*3+1] - p[1]);
-    double c01 = v0.dot(v1) / (v0.norm() * v1.norm());
-    double c12 = v1.dot(v2) / (v1.norm() * v2.norm());
-    double t01 = std::sqrt((1 - c01) / (1 + c01));
-    double t12 = std::sqrt((1 - c12) / (1 + c12));
+    // signed tangent of the half of the angle
+    double t01 = Cross(v0, v1) / (v0.norm() * v1.norm() + v0.dot(v1));
+    double t12 = Cross(v1, v2) / (v1.norm() * v2.norm() + v1.dot(v2));
     double w1 = (t01 + t12) / v1.norm();
     weight += w1*xyw[iv1*3+2];
     sum += w1;
-- 
2.43.0


From 9ed2085af2dd70e5923d21b543097fd9537c2667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:47 +0000
Subject: [PATCH 147/185] fix: the deformation weight of an edge omitted the
 other corners of the face

---
 include/delfem2/cad2_mesh_deformation.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/delfem2/cad2_mesh_deformation.h b/include/delfem2/cad2_mesh_deformation.h
index 10a87bd..2404350 100644
--- a/include/delfem2/cad2_mesh_deformation.h
+++ b/include/delfem2/cad2_mesh_deformation.h
@@ -61,9 +61,8 @@ void SetCadMeshDeformationWeightEdge(
     const std::vector<double> &vtx_xy) {
   namespace dfm2 = delfem2;
   vtx_w.assign(vtx_xy.size() / 2, 0.);
-  if (edge_idx >= cad.nVtx()) { return; }
+  if (edge_idx >= cad.nEdge()) { return; }
   std::vector<unsigned int> face_ids = cad.topo.FindFaceIndexes_IncludeEdge(edge_idx);
-  std::cout << face_ids.size() << std::endl;
   assert(face_ids.size() == 1);
   unsigned int face_idx = face_ids[0];
   unsigned int iloop = cad.topo.faces[face_idx].aIL[0];
@@ -74,10 +73,10 @@ void SetCadMeshDeformationWeightEdge(
     if (iv0 == cad.topo.edges[edge_idx].IndexVertex(true) ||
         iv0 == cad.topo.edges[edge_idx].IndexVertex(false)) {
       vtx_w[iv0] = 1.;
-      xyws.push_back(cad.aVtx[iv0].pos.x);
-      xyws.push_back(cad.aVtx[iv0].pos.y);
-      xyws.push_back(vtx_w[iv0]);
     }
+    xyws.push_back(cad.aVtx[iv0].pos.x);
+    xyws.push_back(cad.aVtx[iv0].pos.y);
+    xyws.push_back(vtx_w[iv0]);
     for (auto &point: mesher.edge_point[ie]) {
       unsigned int ip = point.first;
       double w0 = 0.0;
-- 
2.43.0


From 3f4b1ce80f7f9c10db4d0627ee30345db6782da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:02 +0000
Subject: [PATCH 148/185] fix: the bounding box of a cube grid used the x
 coordinate for the upper y and z bounds

---
 include/delfem2/gridcube.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/gridcube.cpp b/include/delfem2/gridcube.cpp
index 044379f..d0f0035 100644
--- a/include/delfem2/gridcube.cpp
+++ b/include/delfem2/gridcube.cpp
@@ -150,8 +150,8 @@ void delfem2::AABB_CubeGrid
     return;
   }
   aabb[0] = aCube[0].ivx;  aabb[1] = aabb[0]+1;
-  aabb[2] = aCube[0].ivy;  aabb[3] = aabb[0]+1;
-  aabb[4] = aCube[0].ivz;  aabb[5] = aabb[0]+1;
+  aabb[2] = aCube[0].ivy;  aabb[3] = aabb[2]+1;
+  aabb[4] = aCube[0].ivz;  aabb[5] = aabb[4]+1;
   
   for(std::size_t ic=1;ic<aCube.size();++ic){
     if( aCube[ic].ivx+0 < aabb[0] ){ aabb[0] = aCube[ic].ivx+0; }
-- 
2.43.0


From a50a121b420976c09813891af46d172768ed7469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:02 +0000
Subject: [PATCH 149/185] fix: the normal of an adaptive distance field outside
 its box was neither outward nor unit

---
 include/delfem2/isrf_adf.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/delfem2/isrf_adf.cpp b/include/delfem2/isrf_adf.cpp
index b3886cf..9b4a26f 100644
--- a/include/delfem2/isrf_adf.cpp
+++ b/include/delfem2/isrf_adf.cpp
@@ -383,11 +383,11 @@ double delfem2::AdaptiveDistanceField3::Projection(
 {
   const CNode &no = aNode[0];
   if (fabs(px - no.cent_[0]) > no.hw_ || fabs(py - no.cent_[1]) > no.hw_ || fabs(pz - no.cent_[2]) > no.hw_) {
-    n[0] = no.cent_[0] - px;
-    n[1] = no.cent_[1] - py;
-    n[2] = no.cent_[2] - pz;
+    n[0] = px - no.cent_[0];
+    n[1] = py - no.cent_[1];
+    n[2] = pz - no.cent_[2];
     const double invlen = 1.0 / sqrt(n[0] * n[0] + n[1] * n[1] + n[2] * n[2]);
-    for (unsigned int i = 0; i < 3; i++) { n[0] *= invlen; }
+    for (unsigned int i = 0; i < 3; i++) { n[i] *= invlen; }
     return -no.hw_;
   }
   return no.FindDistNormal(px, py, pz, n, aNode);
-- 
2.43.0


From 01aabc00b785d635f2cf2f32467fd978f5693ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:02 +0000
Subject: [PATCH 150/185] fix: voxel geodesic lost the smaller distance of a
 seed given twice

---
 include/delfem2/gridvoxel.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/delfem2/gridvoxel.cpp b/include/delfem2/gridvoxel.cpp
index 9da9dd4..8e7f210 100644
--- a/include/delfem2/gridvoxel.cpp
+++ b/include/delfem2/gridvoxel.cpp
@@ -381,6 +381,7 @@ void delfem2::VoxelGeodesic
   for (const auto &idvox_dist: aIdvoxDist) {
     const unsigned int ivox0 = idvox_dist.first;
     const double dist0 = idvox_dist.second;
+    if (aDist[ivox0] >= 0 && aDist[ivox0] <= dist0) { continue; } // the same voxel with smaller distance
     aNext.push(std::make_pair(dist0, ivox0));
     aDist[ivox0] = dist0;
   }
-- 
2.43.0


From 0ca9d9ad79d03d42e9f4683b5361acc00230f995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:02 +0000
Subject: [PATCH 151/185] fix: the traversal of a voxel grid failed for
 segments along an axis or through cell corners

---
 include/delfem2/gridvoxel.cpp | 45 +++++++++++++++--------------------
 include/delfem2/gridvoxel.h   |  1 -
 2 files changed, 19 insertions(+), 27 deletions(-)

diff --git a/include/delfem2/gridvoxel.cpp b/include/delfem2/gridvoxel.cpp
index 8e7f210..ea9f043 100644
--- a/include/delfem2/gridvoxel.cpp
+++ b/include/delfem2/gridvoxel.cpp
@@ -7,6 +7,7 @@
 
 #include "delfem2/gridvoxel.h"
 
+#include <limits>
 #include <queue>
 
 #include "delfem2/vec3.h"
@@ -421,13 +422,10 @@ int signum(double x) {
   return x > 0.0 ? 1 : x < 0.0 ? -1 : 0;
 }
 
-// Find the smallest positive t such that s+t*ds is an integer.
+// Find the smallest t such that s+t*ds leaves the interval [floor(s),floor(s)+1].
 double intbound(double s, double ds) {
-  if (ds < 0) {
-    return intbound(-s, -ds);
-  } else {
-    return (ceil(s) - s) / ds;
-  }
+  if (ds < 0) { return (s - floor(s)) / (-ds); }
+  return (floor(s) + 1.0 - s) / ds;
 }
 
 }
@@ -436,7 +434,6 @@ double intbound(double s, double ds) {
 /**
  * @details this is the implementation of the following paper
  * Amanatides, John, and Andrew Woo. "A fast voxel traversal algorithm for ray tracing." In Eurographics, vol. 87, no. 3, pp. 3-10. 1987.
- * TODO: zero division might occur when (ps - pe ) is aligned to axis.
  */
 void delfem2::Intersection_VoxelGrid_LinSeg(
     std::vector<unsigned int> &aIndVox,
@@ -468,34 +465,30 @@ void delfem2::Intersection_VoxelGrid_LinSeg(
   const int stepX = dfm2::gridvoxel::signum(dx);
   const int stepY = dfm2::gridvoxel::signum(dy);
   const int stepZ = dfm2::gridvoxel::signum(dz);
-  const double tDeltaX = stepX / dx;
-  assert(tDeltaX > 0);
-  const double tDeltaY = stepY / dy;
-  assert(tDeltaY > 0);
-  const double tDeltaZ = stepZ / dz;
-  assert(tDeltaZ > 0);
-  double tMaxX = dfm2::gridvoxel::intbound(Ps.x, dx);
-  assert(tMaxX > 0);
-  double tMaxY = dfm2::gridvoxel::intbound(Ps.y, dy);
-  assert(tMaxY > 0);
-  double tMaxZ = dfm2::gridvoxel::intbound(Ps.z, dz);
-  assert(tMaxZ > 0);
+  // the axes where no (more) step is necessary are never chosen
+  constexpr double tInf = std::numeric_limits<double>::infinity();
+  const double tDeltaX = is[0] != ie[0] ? stepX / dx : tInf;
+  const double tDeltaY = is[1] != ie[1] ? stepY / dy : tInf;
+  const double tDeltaZ = is[2] != ie[2] ? stepZ / dz : tInf;
+  double tMaxX = is[0] != ie[0] ? dfm2::gridvoxel::intbound(Ps.x, dx) : tInf;
+  double tMaxY = is[1] != ie[1] ? dfm2::gridvoxel::intbound(Ps.y, dy) : tInf;
+  double tMaxZ = is[2] != ie[2] ? dfm2::gridvoxel::intbound(Ps.z, dz) : tInf;
   aIndVox.clear();
-  for (int itr = 0; itr < 1000; ++itr) {
+  while (true) {
     if (ic[0] >= 0 && ic[1] >= 0 && ic[2] >= 0 &&
         ic[0] < (int) nx && ic[1] < (int) ny && ic[2] < (int) nz) {
       aIndVox.push_back(ic[2] * ny * nx + ic[1] * nx + ic[0]);
     }
     if (ic[0] == ie[0] && ic[1] == ie[1] && ic[2] == ie[2]) { break; }
-    if (tMaxX < tMaxY && tMaxX < tMaxZ) {
-      tMaxX = tMaxX + tDeltaX;
+    if (tMaxX <= tMaxY && tMaxX <= tMaxZ) {
       ic[0] += stepX;
-    } else if (tMaxY < tMaxX && tMaxY < tMaxZ) {
-      tMaxY = tMaxY + tDeltaY;
+      tMaxX = ic[0] != ie[0] ? tMaxX + tDeltaX : tInf;
+    } else if (tMaxY <= tMaxZ) {
       ic[1] += stepY;
-    } else if (tMaxZ < tMaxX && tMaxZ < tMaxY) {
-      tMaxZ = tMaxZ + tDeltaZ;
+      tMaxY = ic[1] != ie[1] ? tMaxY + tDeltaY : tInf;
+    } else {
       ic[2] += stepZ;
+      tMaxZ = ic[2] != ie[2] ? tMaxZ + tDeltaZ : tInf;
     }
   }
   /*
diff --git a/include/delfem2/gridvoxel.h b/include/delfem2/gridvoxel.h
index 9b22b3d..8229709 100644
--- a/include/delfem2/gridvoxel.h
+++ b/include/delfem2/gridvoxel.h
@@ -105,7 +105,6 @@ void VoxelGeodesic(
 /**
  * @details this is the implementation of the following paper
  * Amanatides, John, and Andrew Woo. "A fast voxel traversal algorithm for ray tracing." In Eurographics, vol. 87, no. 3, pp. 3-10. 1987.
- * TODO: zero division might occur when (ps - pe ) is aligned to axis.
  */
 void Intersection_VoxelGrid_LinSeg(
     std::vector<unsigned int> &aIndVox,
-- 
2.43.0


From 894e4573495750fc14d1e68aaad735970be65c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:51 +0000
Subject: [PATCH 152/185] fix: the point on the +x face of a refined lattice
 cell was decided by the children on the -x side

---
 include/delfem2/isrf_iss.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/isrf_iss.cpp b/include/delfem2/isrf_iss.cpp
index a0aa66f..dea877c 100644
--- a/include/delfem2/isrf_iss.cpp
+++ b/include/delfem2/isrf_iss.cpp
@@ -1841,7 +1841,7 @@ DFM2_INLINE void addEdgeFacePoints(
         icaXc4 = ca.aIC_Cld[4];
         icaXc6 = ca.aIC_Cld[6];
       }
-      if (icc0 >= 0 || icc2 >= 0 || icc4 >= 0 || icc6 >= 0 || icaXc0 >= 0 || icaXc2 >= 0 || icaXc4 >= 0
+      if (icc1 >= 0 || icc3 >= 0 || icc5 >= 0 || icc7 >= 0 || icaXc0 >= 0 || icaXc2 >= 0 || icaXc4 >= 0
           || icaXc6 >= 0) {
         int ip0 = (int) aPoint.size();
         double x0 = aPoint[c.aIP[26]].pos[0] + c.size * 0.5;
-- 
2.43.0


From 5afd91e7173a3f35f3d746698fcbc8d328b22ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:41 +0000
Subject: [PATCH 153/185] fix: mesh sections disagreed on vertices exactly at
 the height

---
 include/delfem2/slice.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/slice.cpp b/include/delfem2/slice.cpp
index 11f1188..e06bff9 100644
--- a/include/delfem2/slice.cpp
+++ b/include/delfem2/slice.cpp
@@ -33,7 +33,7 @@ DFM2_INLINE void IndexElement_OverlapLevels_MeshTri3D(
     for(unsigned int ih=0;ih<nH;ih++){
       unsigned int icnt = 0;
       for(double inotri : ah){
-        if( inotri-aH[ih] > 0 ){ icnt++; }
+        if( inotri-aH[ih] >= 0 ){ icnt++; } // same rule as CSegInfo::Initialize
       }
       if( icnt == 1 || icnt == 2 ){
         aCST[ih].push_back(itri);
-- 
2.43.0


From ea91ae7e9e22adab175a0a88b9f7d96e747529cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:41 +0000
Subject: [PATCH 154/185] fix: contour lost segments next to vertices exactly
 at the threshold

---
 include/delfem2/slice.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/slice.cpp b/include/delfem2/slice.cpp
index e06bff9..48796f5 100644
--- a/include/delfem2/slice.cpp
+++ b/include/delfem2/slice.cpp
@@ -210,9 +210,8 @@ void delfem2::AddContour(
     const double v0 = value_tri[ vec_tri[itri*3+0] ];
     const double v1 = value_tri[ vec_tri[itri*3+1] ];
     const double v2 = value_tri[ vec_tri[itri*3+2] ];
-    if(   (v0-thres)*(v1-thres) >= 0
-       && (v1-thres)*(v2-thres) >= 0
-       && (v2-thres)*(v0-thres) >= 0 ){
+    const bool is_above0 = v0 - thres >= 0; // same rule as CSegInfo::Initialize
+    if( is_above0 == (v1 - thres >= 0) && is_above0 == (v2 - thres >= 0) ){
       continue;
     }
     delfem2::CSegInfo seg;
-- 
2.43.0


From 3037e3aa0592d324fd90c95f856d8f2e410931f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:58 +0000
Subject: [PATCH 155/185] fix: graph of the sections read out of bounds for
 meshes with boundary

---
 include/delfem2/slice.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/delfem2/slice.h b/include/delfem2/slice.h
index 2ea7d66..673c35e 100644
--- a/include/delfem2/slice.h
+++ b/include/delfem2/slice.h
@@ -10,6 +10,7 @@
 #define DFM2_SLICE_H
 
 #include <stdio.h>
+#include <climits>
 #include <set>
 #include <stack>
 #include <vector>
@@ -114,6 +115,7 @@ void MakeReebGraph
       unsigned int itri0 = cs0.IndTri_Seg(iseg);
       for(unsigned int iedtri=0;iedtri<3;iedtri++){
         unsigned int jtri0 = aTriSuTri[itri0*3+iedtri];
+        if( jtri0 == UINT_MAX ){ continue; } // boundary of the mesh
         if( Tri2HCS[jtri0] == -1 ){ continue; }
         unsigned int jhcs = Tri2HCS[jtri0];
         const T& cs1 = aCrossSection[jhcs];
@@ -140,6 +142,7 @@ void MakeReebGraph
       Tri2HCS[jtri0] = -2;
       for(unsigned int jedtri=0;jedtri<3;jedtri++){
         unsigned int ktri0 = aTriSuTri[jtri0*3+jedtri];
+        if( ktri0 == UINT_MAX ){ continue; } // boundary of the mesh
         if(      Tri2HCS[ktri0] == -2 ) continue; // already studied
         else if( Tri2HCS[ktri0] == -1 ){ stackTri.push(ktri0); }
         else{
-- 
2.43.0


From 21a8f2dd9d9a2969bc1de14cf88daaee803a0a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:40 +0000
Subject: [PATCH 156/185] fix: graph of the sections lost the links inside
 triangles crossed by several heights

---
 include/delfem2/slice.h | 58 +++++++++++++++++++++++++++--------------
 1 file changed, 39 insertions(+), 19 deletions(-)

diff --git a/include/delfem2/slice.h b/include/delfem2/slice.h
index 673c35e..6bd54ae 100644
--- a/include/delfem2/slice.h
+++ b/include/delfem2/slice.h
@@ -90,25 +90,30 @@ void MakeReebGraph
   const size_t nCS = aCrossSection.size();
   aConnectivity.clear();
   aConnectivity.resize(nCS);
-  std::vector<int> Tri2HCS;
+  std::vector<int> Tri2HCS; // first section in the triangle
   Tri2HCS.resize(ntri,-1);
+  std::vector< std::vector<unsigned int> > Tri2CSs(ntri); // all the sections in the triangle
   for(unsigned int ics=0;ics<nCS;ics++){
     const T& cs0 = aCrossSection[ics];
     for(unsigned int iseg=0;iseg<cs0.NumSeg();iseg++){
       unsigned int itri0 = cs0.IndTri_Seg(iseg);
-      if( Tri2HCS[itri0] != -1 ){
-        unsigned int jcs0 = Tri2HCS[itri0];
+      for(unsigned int jcs0 : Tri2CSs[itri0]){
         const T& cs1 = aCrossSection[jcs0];
         if( abs( cs0.IndHeight() - cs1.IndHeight()) == 1 ){
           aConnectivity[ics].insert(jcs0);
           aConnectivity[jcs0].insert(ics);
         }
       }
-      else{
-        Tri2HCS[itri0] = ics;
-      }
+      if( Tri2HCS[itri0] == -1 ){ Tri2HCS[itri0] = ics; }
+      Tri2CSs[itri0].push_back(ics);
     }
   }
+  auto has_height = [&](unsigned int itri0, int ih0){
+    for(unsigned int ics0 : Tri2CSs[itri0]){
+      if( aCrossSection[ics0].IndHeight() == ih0 ){ return true; }
+    }
+    return false;
+  };
   for(unsigned int ics=0;ics<nCS;ics++){
     const T& cs0 = aCrossSection[ics];
     for(unsigned int iseg=0;iseg<cs0.NumSeg();iseg++){
@@ -116,12 +121,14 @@ void MakeReebGraph
       for(unsigned int iedtri=0;iedtri<3;iedtri++){
         unsigned int jtri0 = aTriSuTri[itri0*3+iedtri];
         if( jtri0 == UINT_MAX ){ continue; } // boundary of the mesh
-        if( Tri2HCS[jtri0] == -1 ){ continue; }
-        unsigned int jhcs = Tri2HCS[jtri0];
-        const T& cs1 = aCrossSection[jhcs];
-        if( abs( cs0.IndHeight() - cs1.IndHeight() ) != 1 ) continue;
-        aConnectivity[ics].insert(jhcs);
-        aConnectivity[jhcs].insert(ics);
+        for(unsigned int jhcs : Tri2CSs[jtri0]){
+          const T& cs1 = aCrossSection[jhcs];
+          if( abs( cs0.IndHeight() - cs1.IndHeight() ) != 1 ) continue;
+          // if either triangle is crossed by both heights, the link (if any) is made inside it
+          if( has_height(itri0, cs1.IndHeight()) || has_height(jtri0, cs0.IndHeight()) ) continue;
+          aConnectivity[ics].insert(jhcs);
+          aConnectivity[jhcs].insert(ics);
+        }
       }
     }
   }
@@ -133,7 +140,7 @@ void MakeReebGraph
     }
     if( stackTri.empty() )break;
     std::set<unsigned int> setAdjCS;
-    std::vector<int> aFlg; aFlg.resize(nCS,-1);
+    std::vector<unsigned int> aAdjTri; // triangles with sections around the region
     for(;;){
       if( stackTri.empty() ) break;
       unsigned int jtri0 = stackTri.top();
@@ -146,15 +153,28 @@ void MakeReebGraph
         if(      Tri2HCS[ktri0] == -2 ) continue; // already studied
         else if( Tri2HCS[ktri0] == -1 ){ stackTri.push(ktri0); }
         else{
-          unsigned int ihcs = Tri2HCS[ktri0];
-          if( aFlg[ihcs] != -1 ){ continue; }
-          else{
-            setAdjCS.insert(ihcs);
-            aFlg[ihcs] = 1;
-          }
+          aAdjTri.push_back(ktri0);
+          setAdjCS.insert(Tri2HCS[ktri0]);
         }
       }
     }
+    // the region is right below the lowest or right above the highest section of each triangle around it
+    for(unsigned int icand=0;icand<2 && !aAdjTri.empty();icand++){
+      const std::vector<unsigned int>& cs_first = Tri2CSs[aAdjTri[0]];
+      const int ih_above = (icand == 0) // height right above the region
+          ? aCrossSection[cs_first.front()].IndHeight()
+          : aCrossSection[cs_first.back()].IndHeight() + 1;
+      std::set<unsigned int> setCS;
+      bool is_consistent = true;
+      for(unsigned int ktri0 : aAdjTri){
+        const unsigned int ics_low = Tri2CSs[ktri0].front();
+        const unsigned int ics_high = Tri2CSs[ktri0].back();
+        if( aCrossSection[ics_low].IndHeight() == ih_above ){ setCS.insert(ics_low); }
+        else if( aCrossSection[ics_high].IndHeight() + 1 == ih_above ){ setCS.insert(ics_high); }
+        else{ is_consistent = false; break; }
+      }
+      if( is_consistent ){ setAdjCS = setCS; break; }
+    }
     unsigned int nAdjCS = (unsigned int)setAdjCS.size();
     std::vector<unsigned int> aAdjCS;
     aAdjCS.reserve(nAdjCS);
-- 
2.43.0


From 75b7d156464da1a176b9cfeb718c54872ab140b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:23 +0000
Subject: [PATCH 157/185] fix: sparse skin weights kept stale entries of the
 previous contents

---
 include/delfem2/rig_geo3.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/rig_geo3.cpp b/include/delfem2/rig_geo3.cpp
index c9cef85..952e74d 100644
--- a/include/delfem2/rig_geo3.cpp
+++ b/include/delfem2/rig_geo3.cpp
@@ -89,8 +89,8 @@ void delfem2::SparsifyMatrixRow(
     }
     if (icnt > nbone_nonzeroweight) { nbone_nonzeroweight = icnt; }
   }
-  aWBone_RigSparse.resize(nbone_nonzeroweight * nrow);
-  aIdBone_RigSparse.resize(nbone_nonzeroweight * nrow);
+  aWBone_RigSparse.assign(nbone_nonzeroweight * nrow, 0.0);
+  aIdBone_RigSparse.assign(nbone_nonzeroweight * nrow, 0);
   for (unsigned int ip = 0; ip < nrow; ++ip) {
     unsigned icnt = 0;
     double w_sum = 0.0;
-- 
2.43.0


From 376e60ecec425873a4f4ace5841a3eda6a289287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:24 +0000
Subject: [PATCH 158/185] fix: motion files with blank lines read out of bounds

---
 include/delfem2/rig_bvh.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/delfem2/rig_bvh.cpp b/include/delfem2/rig_bvh.cpp
index 893f1a5..7a0354e 100644
--- a/include/delfem2/rig_bvh.cpp
+++ b/include/delfem2/rig_bvh.cpp
@@ -107,11 +107,12 @@ DFM2_INLINE void delfem2::Read_BioVisionHierarchy(
   std::string line;
   std::vector<int> stackIndBone;
   while (std::getline(fin, line)) {
-    if (line[line.size() - 1] == '\n') line.erase(line.size() - 1); // remove the newline code
-    if (line[line.size() - 1] == '\r') line.erase(line.size() - 1); // remove the newline code
+    if (!line.empty() && line[line.size() - 1] == '\n') line.erase(line.size() - 1); // remove the newline code
+    if (!line.empty() && line[line.size() - 1] == '\r') line.erase(line.size() - 1); // remove the newline code
     bvh_header += (line + '\n');
     line = rig_bvh::MyReplace(line, '\t', ' ');
     std::vector<std::string> aToken = rig_bvh::MySplit(line, ' ');
+    if (aToken.empty()) { continue; } // blank line
 //    std::cout << aToken[0] << std::endl;
     if (aToken[0] == "HIERARCHY") {
       assert(bones.empty());
@@ -200,8 +201,8 @@ DFM2_INLINE void delfem2::Read_BioVisionHierarchy(
   for (unsigned int iframe = 0; iframe < nframe; ++iframe) {
     std::getline(fin, line);
     line = rig_bvh::MyReplace(line, '\t', ' ');
-    if (line[line.size() - 1] == '\n') line.erase(line.size() - 1); // remove the newline code
-    if (line[line.size() - 1] == '\r') line.erase(line.size() - 1); // remove the newline code
+    if (!line.empty() && line[line.size() - 1] == '\n') line.erase(line.size() - 1); // remove the newline code
+    if (!line.empty() && line[line.size() - 1] == '\r') line.erase(line.size() - 1); // remove the newline code
     std::vector<std::string> aToken = rig_bvh::MySplit(line, ' ');
 //    std::cout << aToken.size() << " " << aChannelRotTransBone.size() << std::endl;
     assert(aToken.size() == channels.size());
-- 
2.43.0


From 5b04427676651efd4cdb80714e458c7e491e92fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:19 +0000
Subject: [PATCH 159/185] fix: offset of the root joint was lost once a motion
 file was posed

---
 include/delfem2/rig_bvh.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/rig_bvh.cpp b/include/delfem2/rig_bvh.cpp
index 7a0354e..3571d54 100644
--- a/include/delfem2/rig_bvh.cpp
+++ b/include/delfem2/rig_bvh.cpp
@@ -218,9 +218,9 @@ DFM2_INLINE void delfem2::Read_BioVisionHierarchy(
     bone.quatRelativeRot[1] = 0.0;
     bone.quatRelativeRot[2] = 0.0;
     bone.quatRelativeRot[3] = 1.0;
-    bone.transRelative[0] = 0.0;
-    bone.transRelative[1] = 0.0;
-    bone.transRelative[2] = 0.0;
+    bone.transRelative[0] = -bone.invBindMat[3]; // offset of the root
+    bone.transRelative[1] = -bone.invBindMat[7];
+    bone.transRelative[2] = -bone.invBindMat[11];
     if (bone.ibone_parent != -1) {
       const CRigBone &bone_p = bones[bone.ibone_parent];
       bone.transRelative[0] = (-bone.invBindMat[3]) - (-bone_p.invBindMat[3]);
-- 
2.43.0


From f3b86be5fa6878731ccbdcdac444596d6f55c90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:16 +0000
Subject: [PATCH 160/185] fix: signed overflow in the 48-bit random generator

---
 include/delfem2/sampling.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/delfem2/sampling.h b/include/delfem2/sampling.h
index 3a62c90..4223bd8 100644
--- a/include/delfem2/sampling.h
+++ b/include/delfem2/sampling.h
@@ -36,7 +36,9 @@ T MyERand48(std::array<unsigned short, 3> &xseed) {
       (unsigned long) my_rand48_mult[1] * (unsigned long) xseed[0];
   temp[1] = (unsigned short) accu;    /* middle 16 bits */
   accu >>= sizeof(unsigned short) * 8;
-  accu += my_rand48_mult[0] * xseed[2] + my_rand48_mult[1] * xseed[1] + my_rand48_mult[2] * xseed[0];
+  accu += (unsigned long) my_rand48_mult[0] * (unsigned long) xseed[2] +
+      (unsigned long) my_rand48_mult[1] * (unsigned long) xseed[1] +
+      (unsigned long) my_rand48_mult[2] * (unsigned long) xseed[0];
   xseed[0] = temp[0];
   xseed[1] = temp[1];
   xseed[2] = (unsigned short) accu;
-- 
2.43.0


From 2d0a6d81718f43fe32213be5d6ca119c302c7e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:16 +0000
Subject: [PATCH 161/185] fix: uniform sampling of the hemisphere could not be
 instantiated

---
 include/delfem2/sampling.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/sampling.h b/include/delfem2/sampling.h
index 4223bd8..71413b2 100644
--- a/include/delfem2/sampling.h
+++ b/include/delfem2/sampling.h
@@ -109,8 +109,8 @@ template<typename T>
 inline std::array<T, 3> SampleHemisphereZupUniform(
     const std::array<T, 2> &v2) {
   auto z = v2[0];
-  auto r = std::sqrt(std::clamp(1 - z * z, 0, 1));
-  auto phi = 2 * M_PI * v2[1];
+  auto r = std::sqrt(std::clamp<T>(1 - z * z, 0, 1));
+  auto phi = static_cast<T>(2 * M_PI * v2[1]);
   return {r * cos(phi), r * sin(phi), z};
 }
 
-- 
2.43.0


From b202ca2c8d46609dbab44b64f49831f7561a74cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:16 +0000
Subject: [PATCH 162/185] fix: Lloyd step wrote out of bounds when no point is
 within distance 2 of a pixel

---
 include/delfem2/sampler_lloyd2.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/delfem2/sampler_lloyd2.h b/include/delfem2/sampler_lloyd2.h
index 0113c98..adc34f1 100644
--- a/include/delfem2/sampler_lloyd2.h
+++ b/include/delfem2/sampler_lloyd2.h
@@ -10,6 +10,7 @@
 
 #include <vector>
 #include <climits>
+#include <cfloat>
 #include <cassert>
 
 namespace delfem2 {
@@ -39,7 +40,7 @@ void Step_Lloyd2(
       const double ry0 = 1.0 - (ih + 0.5) / ndiv;
       const double x0 = min_aabb[0] + (max_aabb[0] - min_aabb[0]) * rx0;
       const double y0 = min_aabb[1] + (max_aabb[1] - min_aabb[1]) * ry0;
-      double min_dist = 4.0;
+      double min_dist = DBL_MAX;
       unsigned int min_ip = UINT_MAX;
       for (unsigned int ip = 0; ip < np; ++ip) {
         const double x1 = aXY[ip * 2 + 0];
-- 
2.43.0


From ef4c320a0e4a3dcb1f71ac9c0e8b9778f021e33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:16 +0000
Subject: [PATCH 163/185] fix: Lloyd step moved points without importance in
 their cell to (1,1)

---
 include/delfem2/sampler_lloyd2.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/delfem2/sampler_lloyd2.h b/include/delfem2/sampler_lloyd2.h
index adc34f1..f7256f3 100644
--- a/include/delfem2/sampler_lloyd2.h
+++ b/include/delfem2/sampler_lloyd2.h
@@ -54,7 +54,7 @@ void Step_Lloyd2(
     }
   }
 
-  std::vector<double> awpw(np * 3, 1.0e-10);
+  std::vector<double> awpw(np * 3, 0.0);
   for (unsigned int ih = 0; ih < ndiv; ++ih) {
     for (unsigned int iw = 0; iw < ndiv; ++iw) {
       const double rx0 = (iw + 0.5) / ndiv;
@@ -70,6 +70,7 @@ void Step_Lloyd2(
   }
 
   for (unsigned int ip = 0; ip < np; ++ip) {
+    if (awpw[ip * 3 + 2] <= 0.0) { continue; } // nothing in the cell: keep the point
     aXY[ip * 2 + 0] = awpw[ip * 3 + 0] / awpw[ip * 3 + 2];
     aXY[ip * 2 + 1] = awpw[ip * 3 + 1] / awpw[ip * 3 + 2];
   }
-- 
2.43.0


From 03fb21bca5972d4e15768769bc8a48ef63a566fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:16 +0000
Subject: [PATCH 164/185] fix: gradient noise read its table out of bounds for
 long periods

---
 include/delfem2/noise.h | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/include/delfem2/noise.h b/include/delfem2/noise.h
index 1afa41f..338f2de 100644
--- a/include/delfem2/noise.h
+++ b/include/delfem2/noise.h
@@ -61,10 +61,11 @@ double noise_perlin_2d
   const int iy1 = (iy0+1) % np;
   const double ux = x - (int)x; // [0,1]
   const double uy = y - (int)y; // [0,1]
-  const int ig_aa = aP[aP[ix0]+iy0];
-  const int ig_ba = aP[aP[ix1]+iy0];
-  const int ig_ab = aP[aP[ix0]+iy1];
-  const int ig_bb = aP[aP[ix1]+iy1];
+  const auto p = [&aP](int i) { return aP[i % aP.size()]; }; // the table repeats for large np
+  const int ig_aa = p(p(ix0)+iy0);
+  const int ig_ba = p(p(ix1)+iy0);
+  const int ig_ab = p(p(ix0)+iy1);
+  const int ig_bb = p(p(ix1)+iy1);
   double gaa = grad2(  ux,  uy, ig_aa,aGrad);
   double gba = grad2(1-ux,  uy, ig_ba,aGrad);
   double gab = grad2(  ux,1-uy, ig_ab,aGrad);
@@ -95,14 +96,15 @@ double noise_perlin_3d(
   const double ux = x - (int)x; // [0,1]
   const double uy = y - (int)y; // [0,1]
   const double uz = z - (int)z; // [0,1]
-  const int ig_aaa = aP[aP[aP[ix0]+iy0]+iz0];
-  const int ig_baa = aP[aP[aP[ix1]+iy0]+iz0];
-  const int ig_aba = aP[aP[aP[ix0]+iy1]+iz0];
-  const int ig_bba = aP[aP[aP[ix1]+iy1]+iz0];
-  const int ig_aab = aP[aP[aP[ix0]+iy0]+iz1];
-  const int ig_bab = aP[aP[aP[ix1]+iy0]+iz1];
-  const int ig_abb = aP[aP[aP[ix0]+iy1]+iz1];
-  const int ig_bbb = aP[aP[aP[ix1]+iy1]+iz1];
+  const auto p = [&aP](int i) { return aP[i % aP.size()]; }; // the table repeats for large np
+  const int ig_aaa = p(p(p(ix0)+iy0)+iz0);
+  const int ig_baa = p(p(p(ix1)+iy0)+iz0);
+  const int ig_aba = p(p(p(ix0)+iy1)+iz0);
+  const int ig_bba = p(p(p(ix1)+iy1)+iz0);
+  const int ig_aab = p(p(p(ix0)+iy0)+iz1);
+  const int ig_bab = p(p(p(ix1)+iy0)+iz1);
+  const int ig_abb = p(p(p(ix0)+iy1)+iz1);
+  const int ig_bbb = p(p(p(ix1)+iy1)+iz1);
   double gaaa = grad3(  ux,  uy,  uz, ig_aaa,aGrad);
   double gbaa = grad3(1-ux,  uy,  uz, ig_baa,aGrad);
   double gaba = grad3(  ux,1-uy,  uz, ig_aba,aGrad);
-- 
2.43.0


From 7dd7e051545455eebd2122fdb35397d6ac96f31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:16 +0000
Subject: [PATCH 165/185] fix: sign of the spherical harmonics of degree 9 and
 order 8

---
 include/delfem2/specialfuncs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/specialfuncs.cpp b/include/delfem2/specialfuncs.cpp
index be53b69..cd145a1 100644
--- a/include/delfem2/specialfuncs.cpp
+++ b/include/delfem2/specialfuncs.cpp
@@ -211,7 +211,7 @@ DFM2_INLINE void delfem2::makeArray_SphericalHarmonics(
     double v5=-3.0/256*sqrt(2717*invpi)*(85*z4-30*z2+1); //5
     double v6=+1.0/128*sqrt(40755*invpi)*z*(17*z2-3); //6
     double v7=-3.0/512*sqrt(13585*invpi)*(17*z2-1); //7
-    double v8=-3.0/512*sqrt(230945*2*invpi)*z; //7
+    double v8=+3.0/512*sqrt(230945*2*invpi)*z; //8
     double v9=-1.0/512*sqrt(230945*invpi); //7
     Y[81] = v9*i9;
     Y[82] = v8*i8;
-- 
2.43.0


From 4af18110c21b0137dc61755306faa4d89a46cb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:16 +0000
Subject: [PATCH 166/185] fix: colour of a constant field was not a number

---
 include/delfem2/color.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/color.cpp b/include/delfem2/color.cpp
index 20b8eb6..71df74b 100644
--- a/include/delfem2/color.cpp
+++ b/include/delfem2/color.cpp
@@ -119,7 +119,7 @@ DFM2_INLINE delfem2::CColor delfem2::getColor(
     double val0 = colorMap[ic].first;
     double val1 = colorMap[ic + 1].first;
     if (val0 <= input && input <= val1) {
-      auto rp = (float) ((input - val0) / (val1 - val0));
+      auto rp = (val1 > val0) ? (float) ((input - val0) / (val1 - val0)) : 0.f;
       CColor color;
       delfem2::interpolateColor(color, rp, colorMap[ic].second, colorMap[ic + 1].second);
       return color;
-- 
2.43.0


From 7552a8dce5a743e5e7dc5c21c7cb6f930dcd311a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:21 +0000
Subject: [PATCH 167/185] fix: distance of the source point was not zero in the
 point-wise shortest paths

---
 include/delfem2/dijkstra.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/delfem2/dijkstra.h b/include/delfem2/dijkstra.h
index 342501a..0499c66 100644
--- a/include/delfem2/dijkstra.h
+++ b/include/delfem2/dijkstra.h
@@ -276,6 +276,7 @@ void DijkstraPoint_MeshTri3D(
   const size_t np = aXYZ.size()/3;
   aOrder.assign(np,UINT_MAX);
   aDist.assign(np,-1.);
+  aDist[ip_ker] = 0.0;
   std::priority_queue<dijkstra::CNode<double>> que;
   unsigned int icnt = 0;
   que.push(dijkstra::CNode<double>(ip_ker, 0.0));
-- 
2.43.0


From 7d7bf5f69fce39c7630feb26ff46d26d8fa6fdcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:21 +0000
Subject: [PATCH 168/185] fix: pairing of points dropped all but one edge of
 the same score

---
 include/delfem2/clusterpoints.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/delfem2/clusterpoints.cpp b/include/delfem2/clusterpoints.cpp
index 17ae3eb..b7ce225 100644
--- a/include/delfem2/clusterpoints.cpp
+++ b/include/delfem2/clusterpoints.cpp
@@ -37,7 +37,8 @@ class CData{
 public:
   CData(double score0, unsigned int ipsup0): score(score0), ipsup(ipsup0) {}
   bool operator < (const CData& d) const {
-    return score < d.score;
+    if( score != d.score ){ return score < d.score; }
+    return ipsup < d.ipsup; // edges of the same score must be all kept
   }
 public:
   double score;
-- 
2.43.0


From c61e15c7043bf7d8c992ad4837e3b2653e6dc645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:21 +0000
Subject: [PATCH 169/185] fix: exponential map added to the coordinates left in
 its output buffer

---
 include/delfem2/expmap_geo3dijk.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/expmap_geo3dijk.h b/include/delfem2/expmap_geo3dijk.h
index 65f71a2..e543946 100644
--- a/include/delfem2/expmap_geo3dijk.h
+++ b/include/delfem2/expmap_geo3dijk.h
@@ -47,7 +47,7 @@ public:
       psup_ind(psup_ind_), psup(psup_) {
     const size_t np = aXYZ.size() / 3;
     aAxisX.resize(np, CVec3d(0, 0, 0));
-    aTex.resize(np * 2);
+    aTex.assign(np * 2, 0.0);
     aW.assign(np, 0.0);
 
     { // set kernel point information
@@ -116,7 +116,7 @@ public:
     const size_t ntri = aTri.size() / 3;
     assert(it_ker<ntri);
     aAxisX.resize(ntri, CVec3d(0, 0, 0));
-    aTex.resize(ntri * 2);
+    aTex.assign(ntri * 2, 0.0);
     aW.assign(ntri, 0.0);
     { // set kernel point information
       aTex[it_ker * 2 + 0] = 0.0;
-- 
2.43.0


From 5819a2241bd8d703d27d664892f8a0f87a189dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:21 +0000
Subject: [PATCH 170/185] fix: smoothing of the cross field in random order
 changed nothing

---
 include/delfem2/4rotsym.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/4rotsym.h b/include/delfem2/4rotsym.h
index b5d5438..5336b29 100644
--- a/include/delfem2/4rotsym.h
+++ b/include/delfem2/4rotsym.h
@@ -129,7 +129,7 @@ void Smooth4RotSym_RandomPermutation(
       const CVec3d n1 = CVec3d(aNorm.data()+jp1*3);
       const CVec3d o1 = CVec3d(aOdir.data()+jp1*3);
       unsigned int idiff;
-      FindNearestOrientation(idiff,
+      o_new = FindNearestOrientation(idiff,
           o_new,n0, o1,n1,weight);
       weight += 1.0;
     }
-- 
2.43.0


From f02e28707cf5f6b4a1b7329058559e6023f781cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:41 +0000
Subject: [PATCH 171/185] fix: inverse maps of pyramid and wedge could not be
 instantiated

---
 include/delfem2/geosolidelm_v3.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/delfem2/geosolidelm_v3.cpp b/include/delfem2/geosolidelm_v3.cpp
index b940348..ec08899 100644
--- a/include/delfem2/geosolidelm_v3.cpp
+++ b/include/delfem2/geosolidelm_v3.cpp
@@ -236,10 +236,12 @@ void delfem2::iteration_barycentricCoord_Origin_Solid(
   double C[9] = {cxx, cxy, cxz, cxy, cyy, cyz, cxz, cyz, czz};
   double Cinv[9];
   lcl::MyInverse_Mat3(Cinv, C);
-  const CVec3<T> d = damp * Mat3Vec(Cinv, q);
-  r0 -= dpdr0 * d;
-  r1 -= dpdr1 * d;
-  r2 -= dpdr2 * d;
+  CVec3<T> d;
+  lcl::MyMatVec3(d.p, Cinv, q.p);
+  d *= damp;
+  r0 -= dpdr0.dot(d);
+  r1 -= dpdr1.dot(d);
+  r2 -= dpdr2.dot(d);
 }
 
 template<typename T>
-- 
2.43.0


From aac61b527f5268dfed8ae48a2578800ae2b0431b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:41 +0000
Subject: [PATCH 172/185] fix: volume of a wedge left out one of its sides

---
 include/delfem2/geosolidelm_v3.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/geosolidelm_v3.cpp b/include/delfem2/geosolidelm_v3.cpp
index ec08899..227b517 100644
--- a/include/delfem2/geosolidelm_v3.cpp
+++ b/include/delfem2/geosolidelm_v3.cpp
@@ -326,7 +326,7 @@ double delfem2::Volume_Wedge(
   double vm435 = Volume_Tet(pm, p4, p3, p5);
   double vp0143 = Volume_Pyramid(p0, p1, p4, p3, pm);
   double vp1254 = Volume_Pyramid(p1, p2, p5, p4, pm);
-  double vp2035 = Volume_Pyramid(p2, p2, p3, p5, pm);
+  double vp2035 = Volume_Pyramid(p2, p0, p3, p5, pm);
   return vm012 + vm435 + vp0143 + vp1254 + vp2035;
 }
 
-- 
2.43.0


From 8159d79005686abf95a1d4ae9348422eee8b3245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:41 +0000
Subject: [PATCH 173/185] fix: elements made inactive by an insertion broke
 MakeOneTetSurNo

---
 include/delfem2/dtet_v3.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/delfem2/dtet_v3.cpp b/include/delfem2/dtet_v3.cpp
index 8bcda19..049a6f6 100644
--- a/include/delfem2/dtet_v3.cpp
+++ b/include/delfem2/dtet_v3.cpp
@@ -890,6 +890,7 @@ bool delfem2::MakeOneTetSurNo
 	}
 
 	for(unsigned int itet=0;itet<tet.size();itet++){
+		if( !tet[itet].isActive() ){ continue; }
 		for(unsigned int ipotet=0;ipotet<npotet;ipotet++){
 			point[ tet[itet].v[ipotet] ].e = itet;
 			point[ tet[itet].v[ipotet] ].poel = ipotet;
-- 
2.43.0


From 0a48be6665f2a58a68731e933aa56b0378586e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:50 +0000
Subject: [PATCH 174/185] fix: DragHandlerRot_PosQuat turns about the axis of
 the dragged ring

---
 include/delfem2/gizmo_geo3.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/gizmo_geo3.cpp b/include/delfem2/gizmo_geo3.cpp
index 9987521..e983705 100644
--- a/include/delfem2/gizmo_geo3.cpp
+++ b/include/delfem2/gizmo_geo3.cpp
@@ -153,7 +153,7 @@ DFM2_INLINE bool delfem2::DragHandlerRot_PosQuat(
         v0.z * sin(ar * 0.5),
         cos(ar * 0.5)};
     double qtmp[4];
-    QuatQuat(qtmp, dq, quat);
+    QuatQuat(qtmp, quat, dq);
     Copy_Quat(quat, qtmp);
     return true;
   }
-- 
2.43.0


From 090e7fbee758623d2262b333666d556181b72304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:50 +0000
Subject: [PATCH 175/185] fix: DragHandlerRot_Mat4 turns in the direction of
 the cursor

---
 include/delfem2/gizmo_geo3.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/gizmo_geo3.cpp b/include/delfem2/gizmo_geo3.cpp
index e983705..8d7f304 100644
--- a/include/delfem2/gizmo_geo3.cpp
+++ b/include/delfem2/gizmo_geo3.cpp
@@ -178,7 +178,7 @@ bool delfem2::DragHandlerRot_Mat4(
     CVec3d v1(vo[0], vo[1], vo[2]);
     v1.normalize();
     CVec3d pos(mat[3], mat[7], mat[11]);
-    const double ar = DragCircle(sp0, sp1, pos, v1, mMV, mPj);
+    const double ar = -DragCircle(sp0, sp1, pos, v1, mMV, mPj);
     const double dq[4] = {
         v0.x * sin(ar * 0.5),
         v0.y * sin(ar * 0.5),
-- 
2.43.0


From 68dc00445cc03e0fa0fbb9d04e2c1798851484ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:50 +0000
Subject: [PATCH 176/185] fix: CMat4::SetQuaternion calls a function that
 exists

---
 include/delfem2/mat4.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/mat4.h b/include/delfem2/mat4.h
index 7186624..d2a52a1 100644
--- a/include/delfem2/mat4.h
+++ b/include/delfem2/mat4.h
@@ -422,8 +422,8 @@ class CMat4 {
                            x, y, z);
   }
   void SetQuaternion(const REAL *q) {
-    Mat4_Quat(mat,
-              q);
+    Mat4_AffineQuaternion(mat,
+                          q);
   }
 
   /**
-- 
2.43.0


From 611d8714e18133888b682518d2c940c99c00bdcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:41 +0000
Subject: [PATCH 177/185] fix: read the PLY header line by line so that
 comments may be long or anywhere

---
 include/delfem2/msh_io_ply.cpp | 97 +++++++++++-----------------------
 1 file changed, 32 insertions(+), 65 deletions(-)

diff --git a/include/delfem2/msh_io_ply.cpp b/include/delfem2/msh_io_ply.cpp
index 91a7c51..287c688 100644
--- a/include/delfem2/msh_io_ply.cpp
+++ b/include/delfem2/msh_io_ply.cpp
@@ -11,10 +11,36 @@
 #include <fstream>
 #include <sstream>
 #include <vector>
-#include <cstring>
+#include <string>
 
 // ----------------------------------------------------
 
+namespace delfem2::mshio_ply {
+
+/**
+ * @brief read the lines of the header up to "end_header". Comments may be anywhere and of any length
+ */
+DFM2_INLINE void ReadHeader(
+    int &num_vertex,
+    int &num_face,
+    std::istream &fin) {
+  num_vertex = 0;
+  num_face = 0;
+  std::string line;
+  while (std::getline(fin, line)) {
+    std::istringstream is(line);
+    std::string str1, str2;
+    is >> str1 >> str2;
+    if (str1 == "end_header") { break; }
+    if (str1 == "element" && str2 == "vertex") { is >> num_vertex; }
+    if (str1 == "element" && str2 == "face") { is >> num_face; }
+  }
+}
+
+}
+
+// --------------------------------------
+
 DFM2_INLINE void delfem2::Read_Ply(
     std::vector<double> &aXYZ,
     std::vector<unsigned int> &aTri,
@@ -25,38 +51,10 @@ DFM2_INLINE void delfem2::Read_Ply(
     std::cout << "Fail Read Fail" << std::endl;
     return;
   }
-  const unsigned int nbuff = 256;
-  char buff[nbuff], buff1[nbuff], buff2[nbuff];
-  std::string str1, str2;
-  fin.getline(buff, nbuff);  // ply
-  fin.getline(buff, nbuff);  // format asi 1.0
-  for (;;) {
-    fin.getline(buff, nbuff);
-    if (strncmp(buff, "comment ", 8) != 0) { break; }
-  }
-  // ----
-  int nno = 0;
-  {
-    std::istringstream is(buff);
-    is >> buff1 >> buff2 >> nno;
-//    sscanf(buff, "%s %s %d", buff1, buff2, &nno);
-  }
-  // ----
-  for (;;) {
-    fin.getline(buff, nbuff);
-    if (strncmp(buff, "property ", 9) != 0) { break; }
-  }
-  int ntri = 0;
-  {
-    std::istringstream is(buff);
-    is >> buff1 >> buff2 >> ntri;
-//    sscanf(buff, "%s %s %d", buff1, buff2, &ntri);
-  }
+  int nno = 0, ntri = 0;
+  mshio_ply::ReadHeader(nno, ntri, fin);
   aTri.resize(static_cast<size_t>(ntri) * 3);
   // ----
-  fin.getline(buff, nbuff);  // property list int int vertex_indices
-  fin.getline(buff, nbuff);  // end header
-  // ----
   aXYZ.resize(static_cast<size_t>(nno) * 3);
   for (int ino = 0; ino < nno; ++ino) {
     double x = 0, y = 0, z = 0;
@@ -152,40 +150,9 @@ DFM2_INLINE void delfem2::Read_Ply(
     std::cout << "Fail Read Fail" << std::endl;
     return;
   }
-  const unsigned int nbuff = 256;
-  char buff[nbuff];
-  //  char buff1[nbuff], buff2[nbuff];
-  std::string sbuff1, sbuff2;
-  std::string str1, str2;
-  fin.getline(buff, nbuff);  // ply
-  fin.getline(buff, nbuff);  // format asi 1.0
-  for (;;) {
-    fin.getline(buff, nbuff);
-    if (strncmp(buff, "comment ", 8) != 0) { break; }
-  }
-  /////
-  { // read number of points
-    //    sscanf(buff, "%s %s %d", buff1, buff2, &nnode_);
-    nnode_ = 0;
-    std::stringstream ss(buff);
-    ss >> sbuff1 >> sbuff2 >> nnode_;
-    std::cout << "Nnode " << nnode_ << std::endl;
-  }
-  ////
-  for (;;) {
-    fin.getline(buff, nbuff);
-    if (strncmp(buff, "property ", 9) != 0) { break; }
-  }
-  { // read number of triangles
-    //    sscanf(buff, "%s %s %d", buff1, buff2, &ntri_);
-    ntri_ = 0;
-    std::stringstream ss(buff);
-    ss >> sbuff1 >> sbuff2 >> ntri_;
-    std::cout << "NTri " << ntri_ << std::endl;
-  }
-  /////
-  fin.getline(buff, nbuff);  // property list int int vertex_indices
-  fin.getline(buff, nbuff);  // end header
+  mshio_ply::ReadHeader(nnode_, ntri_, fin);
+  std::cout << "Nnode " << nnode_ << std::endl;
+  std::cout << "NTri " << ntri_ << std::endl;
   ////
   pXYZs_ = new double[static_cast<size_t>(nnode_) * 3];
   for (int ino = 0; ino < (int) nnode_; ++ino) {
-- 
2.43.0


From a7e8585ccc7e5bd07b7b3ff735d07ddfc004ec84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:05 +0000
Subject: [PATCH 178/185] fix: transverse shear stiffness of the MITC3 plate
 does not depend on the node numbering

---
 include/delfem2/fem_mitc3.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/fem_mitc3.cpp b/include/delfem2/fem_mitc3.cpp
index 654666c..0fe1fe5 100644
--- a/include/delfem2/fem_mitc3.cpp
+++ b/include/delfem2/fem_mitc3.cpp
@@ -131,8 +131,8 @@ DFM2_INLINE void delfem2::WdWddW_PlateBendingMITC3(
          myu * GuGu2[1] * GuGu2[3]}  // st*st -> ss(1):tt(3)
     };
     const double CnstB[2][2] = {
-        {4.0 * CnstA[0][0], 2.0 * CnstA[0][1]},
-        {2.0 * CnstA[1][0], 4.0 * CnstA[1][1]}};
+        {4.0 * CnstA[0][0], 4.0 * CnstA[0][1]},
+        {4.0 * CnstA[1][0], 4.0 * CnstA[1][1]}};
     const double Ert_01 =
         0.5 * thk * (u[1][0] - u[0][0] + 0.5 * Gd[0][0] * (u[0][2] + u[1][2]) - 0.5 * Gd[0][1] * (u[0][1] + u[1][1]));
     const double Ert_12 =
-- 
2.43.0


From 1de5cb64db1815b9859e499b2ee4e3035b5cde27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:34 +0000
Subject: [PATCH 179/185] fix: BiCGSTAB for dense systems divided zero by zero
 when the half step already solves the system

---
 include/delfem2/bem.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/delfem2/bem.cpp b/include/delfem2/bem.cpp
index ed61e0e..644247c 100644
--- a/include/delfem2/bem.cpp
+++ b/include/delfem2/bem.cpp
@@ -143,6 +143,16 @@ bool delfem2::Solve_BiCGSTAB
     // calc s_vector
     for (unsigned int i = 0; i < n; ++i) { s_vec[i] = r_vec[i] - alpha * Ap_vec[i]; }
 
+    { // the half step may already be the solution, {As} would then be zero
+      const double sq_norm_res = squaredNorm(s_vec);
+      if (sq_norm_res * sq_inv_norm_res < conv_ratio_tol * conv_ratio_tol) {
+        for (unsigned int i = 0; i < n; ++i) { u_vec[i] += alpha * p_vec[i]; }
+        conv_ratio = sqrt(sq_norm_res * sq_inv_norm_res);
+        iteration = iitr;
+        return true;
+      }
+    }
+
     // calc {As} = [A]*{s}
     matVec(As_vec, A, s_vec);
 
-- 
2.43.0


From a5ca6501a5540d43b1f960eb7546840c7e41dc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:11 +0000
Subject: [PATCH 180/185] fix: initialize all members of the rigid body
 assembly built from bodies and joints

---
 include/delfem2/eigen/eigen_rigidbody.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/delfem2/eigen/eigen_rigidbody.cpp b/include/delfem2/eigen/eigen_rigidbody.cpp
index 4bcdb0f..c225f30 100644
--- a/include/delfem2/eigen/eigen_rigidbody.cpp
+++ b/include/delfem2/eigen/eigen_rigidbody.cpp
@@ -613,6 +613,7 @@ CRigidBodyAssembly_Static::CRigidBodyAssembly_Static()
 CRigidBodyAssembly_Static::CRigidBodyAssembly_Static
 (const std::vector<CRigidBody>& aRB,
  const std::vector<CJoint>& aJ)
+ : CRigidBodyAssembly_Static() // the drawing flags would be left uninitialized
 {
   
   nitr = 30;
-- 
2.43.0


From b923d1dffbedcf8bfe1a62fb121ad258dbe086c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:15 +0000
Subject: [PATCH 181/185] fix: contact stiffness was added twice to the second
 derivatives of the rigid body assembly

---
 include/delfem2/eigen/eigen_rigidbody.cpp | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/include/delfem2/eigen/eigen_rigidbody.cpp b/include/delfem2/eigen/eigen_rigidbody.cpp
index c225f30..a746463 100644
--- a/include/delfem2/eigen/eigen_rigidbody.cpp
+++ b/include/delfem2/eigen/eigen_rigidbody.cpp
@@ -749,11 +749,6 @@ void EdEddE_Total
         dE[irb*6+0+idim] += du[idim];
         dE[irb*6+3+idim] += dw[idim];
       }
-      for(unsigned int idim=0;idim<3;idim++){
-        for(unsigned int jdim=0;jdim<3;jdim++){
-          ddE(irb*6+0+idim,irb*6+0+jdim) += ddu.p_[idim*3+jdim];
-        }
-      }
       AddMatrix(ddE, irb*6+0, irb*6+0, ddu,  true );
       AddMatrix(ddE, irb*6+0, irb*6+3, dudw, false);
       //
@@ -774,11 +769,6 @@ void EdEddE_Total
         dE[irb*6+0+idim] += du[idim];
         dE[irb*6+3+idim] += dw[idim];
       }
-      for(unsigned int idim=0;idim<3;idim++){
-        for(unsigned int jdim=0;jdim<3;jdim++){
-          ddE(irb*6+0+idim,irb*6+0+jdim) += ddu.p_[idim*3+jdim];
-        }
-      }
       AddMatrix(ddE, irb*6+0, irb*6+0, ddu,  true );
       AddMatrix(ddE, irb*6+0, irb*6+3, dudw, false);
       //
-- 
2.43.0


From 0291649c1d8b8e57006a0c9e6a14aa8533f194df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:16 +0000
Subject: [PATCH 182/185] fix: patterns rolled with a negative curvature were
 put on a parabola

---
 include/delfem2/garment.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/garment.h b/include/delfem2/garment.h
index 41856b9..d0a0c7f 100644
--- a/include/delfem2/garment.h
+++ b/include/delfem2/garment.h
@@ -36,7 +36,7 @@ public:
   delfem2::CVec3d Transform(const delfem2::CVec2d& pi) const {
     delfem2::CVec3d p0(pi.x-org2.x, pi.y-org2.y,0.0);
     delfem2::CVec3d p2 = p0;
-    if( radinv_x < 1.0e-5 ) {
+    if( fabs(radinv_x) < 1.0e-5 ) {
       double x0 = p0.x;
       p2.p[0] = x0;
       p2.p[2] = -0.5*radinv_x*x0*x0;
-- 
2.43.0


From 82ea4fadd49f52c3642469f17004d7489cb837b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:16 +0000
Subject: [PATCH 183/185] fix: cloth was not pushed out of a body moved onto it

---
 include/delfem2/garment.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/delfem2/garment.h b/include/delfem2/garment.h
index d0a0c7f..4b9c089 100644
--- a/include/delfem2/garment.h
+++ b/include/delfem2/garment.h
@@ -172,6 +172,7 @@ public:
         aNorm_Body.data(),
         aXYZ1_Body.data(), aXYZ1_Body.size()/3,
         aTri_Body.data(), aTri_Body.size()/3);
+    aInfoNearest_Cloth.clear(); // the distances were to the previous pose
   }
   void Project(double* aXYZt, unsigned int nXYZt){
     Project_PointsIncludedInBVH_Outside_Cache(
-- 
2.43.0


From 894f76839fa8cb54162b8a0ff21378832915818f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:52 +0000
Subject: [PATCH 184/185] fix: keep the original line ends of
 parse_math_expression.cpp

---
 include/delfem2/parse_math_expression.cpp | 1210 ++++++++++-----------
 1 file changed, 605 insertions(+), 605 deletions(-)

diff --git a/include/delfem2/parse_math_expression.cpp b/include/delfem2/parse_math_expression.cpp
index bae03a0..0fc7fdc 100644
--- a/include/delfem2/parse_math_expression.cpp
+++ b/include/delfem2/parse_math_expression.cpp
@@ -1,605 +1,605 @@
-/*
- * Copyright (c) 2019 Nobuyuki Umetani
- *
- * This source code is licensed under the MIT license found in the
- * LICENSE file in the root directory of this source tree.
- */
-
-#include "delfem2/parse_math_expression.h"
-
-#include <cassert>
-#include <cerrno>    /* Need for Using "ERANGE" */
-#include <cmath>    /* Need for Using "HUGE_VAL" */
-#include <iostream>
-#include <climits>
-
-namespace delfem2::parse_math_expression {
-
-class COperand : public CCmd {
- public:
-  ~COperand() override = default;
-  explicit COperand(const double val) { m_Value = val; }
-
-  bool DoOperation(std::vector<double> &stack) override {
-    stack.push_back(m_Value);
-    return true;
-  }
-  static double GetValue(const int iopr) {
-    switch (iopr) {
-      case 0:return 3.14159265358979;
-      default:assert(0);
-        return 0.0;
-    }
-    return 0.0;
-  }
-  static int GetMaxOprInd() { return 0; }
-  void SetValue(const double &val) override { m_Value = val; }
-  static int GetOprInd(const std::string &str1) {
-    if (str1 == "PI") { return 0; }
-    else { return -1; }
-    return -1;
-  }
- private:
-  double m_Value;
-};
-
-class CBinaryOperator : public CCmd {
- public:
-  ~CBinaryOperator() override = default;
-  explicit CBinaryOperator(const unsigned int iopr) {
-    assert(iopr < 5);
-    m_iOpr = iopr;
-  }
-
-  bool DoOperation(std::vector<double> &stack) override {
-    const double dright = stack.back();
-    stack.pop_back();
-    double &dleft = stack.back();
-    switch (m_iOpr) {
-      case 0:dleft = dleft + dright;
-        return true;
-      case 1:dleft = dright - dleft;
-        return true;
-      case 2:dleft = dleft * dright;
-        return true;
-      case 3:
-        if (fabs(dleft) < 1.0e-20) {
-          dleft = 0.0;
-          return false;
-        }
-        dleft = dright / dleft;
-        return true;
-      case 4:dleft = pow(dright, dleft);
-        return true;
-      default:std::cout << "Error!-->Illegal iOpr " << m_iOpr << std::endl;
-        assert(0);
-    }
-    return false;
-  }
-  static int MaxOprInd() { return 4; }
-  void SetValue(
-    [[maybe_unused]] const double &val) override {
-    assert(0);
-  };
-  unsigned int m_iOpr;
-};
-
-class CUnaryOperator : public CCmd {
- public:
-  ~CUnaryOperator() override = default;
-  explicit CUnaryOperator(const int iopr) {
-    assert(iopr >= 0 && iopr <= MaxOprInd());
-    m_iOpr = iopr;
-  }
-  bool DoOperation(std::vector<double> &stack) override {
-    const double dright = stack.back();
-    double &dleft = stack.back();
-    switch (m_iOpr) {
-      case 0: dleft = dright;
-        return true;
-      case 1: dleft = -dright;
-        return true;
-      case 2: dleft = fabs(dright);
-        return true;
-      case 8: dleft = floor(dright);
-        return true;
-      case 3: dleft = exp(dright);
-        return true;
-      case 4: dleft = sin(dright);
-        return true;
-      case 5: dleft = cos(dright);
-        return true;
-      case 6:
-        if (dright > 1.0e-30) {
-          dleft = sqrt(dright);
-          return true;
-        } else {
-          dleft = 0.0;
-          return false;
-        }
-      case 7:
-        if (dright > 1.0e-30) {
-          dleft = log(dright);
-          return true;
-        } else {
-          dleft = 0.0;
-          return false;
-        }
-      default:std::cout << "Error!-->Illegal iOpr " << m_iOpr << std::endl;
-        assert(0);
-    }
-    return false;
-  }
-  static int MaxOprInd() { return 8; }
-  static int GetOprInd(const std::string &str1) {
-    if (str1 == "+") return 0;
-    else if (str1 == "-") return 1;
-    else if (str1 == "abs") return 2;
-    else if (str1 == "floor") return 8;
-    else if (str1 == "exp") return 3;
-    else if (str1 == "sin") return 4;
-    else if (str1 == "cos") return 5;
-    else if (str1 == "sqrt") return 6;
-    else if (str1 == "log") return 7;
-    return -1;
-  }
-  void SetValue(
-    [[maybe_unused]] const double &val) override {
-    assert(0);
-  }
- private:
-  int m_iOpr;
-};
-
-// -------------------------------------
-
-DFM2_INLINE void RemoveExpressionSpaceNewline(std::string &exp) {
-  const std::string stemp(exp);
-  unsigned int iexp = 0;
-  for (char itemp: stemp) {
-    if (itemp == ' ' || itemp == 0x0d || itemp == 0x0a) continue;
-    exp[iexp] = itemp;
-    iexp++;
-  }
-  exp.resize(iexp);
-}
-
-DFM2_INLINE void RemoveExpressionBracket(std::string &exp) {
-  if (exp[0] != '(' || exp[exp.size() - 1] != ')') return;
-  {
-    int iBracketDepth = 1;
-    for (size_t ipos = 1; ipos < exp.size() - 1; ipos++) {
-      if (exp[ipos] == '(') { iBracketDepth++; }
-      if (exp[ipos] == ')') { iBracketDepth--; }
-      if (iBracketDepth == 0) return;
-    }
-  }
-  {
-    std::string stemp(exp);
-    for (size_t ipos = 1; ipos < exp.size() - 1; ipos++) {
-      exp[ipos - 1] = stemp[ipos];
-    }
-    exp.resize(exp.size() - 2);
-  }
-  RemoveExpressionBracket(exp);
-}
-
-/**
- * 引数expの中のもっとも優先順位の低いオペレターを検索する。
- * itypeはオペレターの種類
- * itype : 0 --> Numerical variable
- * itype : 1 --> Argebric variable
- * itype : 2 --> Unary Operator
- * itype : 3 --> Binary Operator
- */
-int GetLowestPriorityOperator(
-  unsigned int &ibegin,
-  unsigned int &iend,
-  int &itype,
-  int &iopr,
-  const std::string &exp) {
-  itype = -1;
-  iopr = -1;
-
-  const int ipriority_max = 10;
-
-  unsigned int ipos_min = UINT_MAX;
-  int ipriority_min = ipriority_max;
-  int itype_min = -1;
-  int iopr_min = -1;
-
-  auto is_operand_end = [](char c) { // otherwise, the following '+' or '-' is a sign
-    return c != '+' && c != '-' && c != '*' && c != '/' && c != '^';
-  };
-
-  bool is_numeric = true;
-  int iBracketDepth = 0;
-  unsigned int iFirstBracket = UINT_MAX;
-  for (unsigned int ipos_curr = 0; ipos_curr < exp.size(); ipos_curr++) {
-    // 括弧内を読み飛ばす
-    switch (exp[ipos_curr]) {
-      case '(':if (iFirstBracket == UINT_MAX) iFirstBracket = ipos_curr;
-        iBracketDepth++;
-        continue;
-      case ')':iBracketDepth--;
-        if (iBracketDepth < 0) {
-          std::cerr << "Error!-->Not corresponding bracket" << std::endl;
-          return 2;
-        }
-        continue;
-      default:if (iBracketDepth != 0) continue;
-    }
-    assert(iBracketDepth == 0);
-
-    // ipriority_currを計算する
-    int ipriority_curr;
-    int itype_curr = -1;
-    int iopr_curr = -1;
-    switch (exp[ipos_curr]) {
-      case '+':if (ipos_curr == 0) { // sign operator
-          ipriority_curr = 5;
-          itype_curr = 2;
-          iopr_curr = 0;
-          break;
-        } else if (is_operand_end(exp[ipos_curr - 1])) { // binary operator
-          ipriority_curr = 2;
-          itype_curr = 3;
-          iopr_curr = 0;
-          break;
-        }
-        continue;
-      case '-':if (ipos_curr == 0) { // sign operator
-          ipriority_curr = 5;
-          itype_curr = 2;
-          iopr_curr = 1;
-          break;
-        } else if (is_operand_end(exp[ipos_curr - 1])) { // binary operator
-          ipriority_curr = 2;
-          itype_curr = 3;
-          iopr_curr = 1;
-          break;
-        }
-        continue;
-      case '*':ipriority_curr = 3;
-        itype_curr = 3;
-        iopr_curr = 2;
-        break;
-      case '/':ipriority_curr = 4;
-        itype_curr = 3;
-        iopr_curr = 3;
-        break;
-      case '^':ipriority_curr = 6;
-        itype_curr = 3;
-        iopr_curr = 4;
-        break;
-      default:ipriority_curr = ipriority_max;
-        if ((exp[ipos_curr] < '0' || exp[ipos_curr] > '9') && exp[ipos_curr] != '.') {
-          is_numeric = false;
-        }
-        break;
-    }
-    // the last one of '+' and '-', and of '/' because they are left-associative
-    if (ipriority_curr < ipriority_min ||
-      (ipriority_curr == ipriority_min && (ipriority_curr == 2 || ipriority_curr == 4))) {
-      ipos_min = ipos_curr;
-      ipriority_min = ipriority_curr;
-      itype_min = itype_curr;
-      iopr_min = iopr_curr;
-    }
-  }
-
-  if (iBracketDepth != 0) {
-    std::cerr << "Error!-->Not corresponding bracket" << std::endl;
-    return 2;
-  }
-  if ((ipos_min == 0 || ipos_min == exp.size() - 1) && itype_min == 3) {
-    std::cerr << "Error!-->Binary operator misplaced " << std::endl;
-    return 9;
-  }
-  if (iFirstBracket == 0 && ipos_min == UINT_MAX) {
-    std::cerr << "Error!-->(hoge)foo" << std::endl;
-    return 3;
-  }
-  // binary operator(+とか-)
-  if (ipos_min != UINT_MAX && itype_min == 3) {
-//    std::cout << ipos_min << " " << itype_min << std::endl;
-    assert(itype_min == 3);
-    assert(iopr_min != -1);
-    ibegin = ipos_min;
-    iend = ipos_min + 1;
-    itype = itype_min;
-    iopr = iopr_min;
-    return 0;
-  }
-  // sign operator( -hoge )
-  if (ipos_min == 0) {
-    assert(itype_min == 2);
-    assert(iopr_min != -1);
-    ibegin = ipos_min;
-    iend = ipos_min + 1;
-    itype = itype_min;
-    iopr = iopr_min;
-    return 0;
-  }
-  // preposition operator ( sin, tanみたいの )
-  if (!is_numeric && iFirstBracket != UINT_MAX) {
-    if (exp[exp.size() - 1] != ')') {  // avoid  sin(x+y)a
-      std::cout << "Error!-->hoge1" << std::endl;
-      return 1;
-    }
-    if (iFirstBracket == exp.size() - 2) {  // avoid sin()
-      std::cout << "Error!-->hoge2" << std::endl;
-      return 2;
-    }
-    std::string str1(exp, 0, iFirstBracket);
-    int iopr0 = CUnaryOperator::GetOprInd(str1);
-    if (iopr0 != -1) {
-      ibegin = 0;
-      iend = iFirstBracket;
-      itype = 2;
-      iopr = iopr0;
-      return 0;
-    } else {
-      std::cout << "Error!-->Unregistered Unary Operator" << std::endl;
-      return 1;
-    }
-  }
-  // variable
-  ibegin = 0;
-  iend = static_cast<unsigned int>(exp.size());
-  if (is_numeric) {
-    itype = 0;
-    iopr = -1;
-  }  // 数値(5.4321みたいの)
-  else {
-    int iopr0 = COperand::GetOprInd(exp);
-    if (iopr0 != -1) {
-      itype = 1;
-      iopr = iopr0;
-    }  // PIみたいなの
-    else {
-      itype = 1;
-      iopr = -1;
-    }
-  }
-  return 0;
-}
-
-struct SExpCompo {
-  std::string sOpe;
-  int iOpeType;
-  int iOpe;
-};
-
-bool MakeRPN(
-  unsigned int icur_old,
-  std::vector<SExpCompo> &exp_node_vec) {
-  assert(icur_old < exp_node_vec.size());
-
-  unsigned int ibegin0, iend0;
-  int itype0, iopr0;
-  {
-    std::string &cur_exp = exp_node_vec[icur_old].sOpe;
-    unsigned int itmp0, itmp1;
-    int itmp2, itmp3;
-    int ierr = GetLowestPriorityOperator(itmp0, itmp1, itmp2, itmp3, cur_exp);
-    if (ierr != 0) {
-      std::cout << "Error!-->Cannot interprit this expression : " << cur_exp << std::endl;
-      return false;
-    }
-    if (itmp2 == 0 || itmp2 == 1) {  // case operand 算術数値(PIみたいなの)
-      assert(itmp0 == 0 && itmp1 == cur_exp.size());
-      assert(itmp3 >= -1 && itmp3 <= COperand::GetMaxOprInd());
-      exp_node_vec[icur_old].iOpeType = itmp2;
-      exp_node_vec[icur_old].iOpe = itmp3;
-      return true;
-    }
-    assert(itmp2 != 0 && itmp2 != 1);
-    ibegin0 = static_cast<unsigned int>(itmp0);
-    iend0 = static_cast<unsigned int>(itmp1);
-    assert(itmp2 >= 0 && itmp2 <= 3);
-    itype0 = itmp2;
-    assert((itmp2 == 2 && itmp3 >= 0 && itmp3 <= CUnaryOperator::MaxOprInd()) ||
-      (itmp2 == 3 && itmp3 >= 0 && itmp3 <= CBinaryOperator::MaxOprInd()));
-    iopr0 = itmp3;
-  }
-
-  std::string cur_old_exp = exp_node_vec[icur_old].sOpe;
-
-  {
-    unsigned int ileft = icur_old;
-    SExpCompo &left_compo = exp_node_vec[ileft];
-    left_compo.sOpe.assign(cur_old_exp, iend0, cur_old_exp.size() - iend0);
-    RemoveExpressionBracket(left_compo.sOpe);
-    if (left_compo.sOpe.empty()) { return false; }
-    if (!MakeRPN(ileft, exp_node_vec)) { return false; }
-  }
-
-  if (ibegin0 > 0) {
-    const unsigned int iright = static_cast<unsigned int>(exp_node_vec.size());
-    exp_node_vec.resize(exp_node_vec.size() + 1);
-    SExpCompo &right_compo = exp_node_vec[iright];
-    right_compo.sOpe.assign(cur_old_exp, 0, ibegin0);
-    RemoveExpressionBracket(right_compo.sOpe);
-    if (right_compo.sOpe.empty()) { return false; }
-    if (!MakeRPN(iright, exp_node_vec)) { return false; }
-  }
-
-  {
-    const size_t icur_new = exp_node_vec.size();
-    exp_node_vec.resize(exp_node_vec.size() + 1);
-    SExpCompo &new_compo = exp_node_vec[icur_new];
-    new_compo.sOpe.assign(cur_old_exp, ibegin0, iend0 - ibegin0);
-    new_compo.iOpeType = itype0;
-    new_compo.iOpe = iopr0;
-  }
-
-  return true;
-}
-
-bool MakeCmdAry(
-  std::vector<CCmd *> &cmd_vec,
-  std::vector<CKey> &m_aKey,
-  const std::vector<SExpCompo> &exp_node_vec) {
-  cmd_vec.resize(exp_node_vec.size(), nullptr);
-  for (unsigned int iexp = 0; iexp < exp_node_vec.size(); iexp++) {
-    const SExpCompo &compo = exp_node_vec[iexp];
-    if (compo.iOpeType == 0) { // numeric
-      char *e;
-      const double val = strtod(compo.sOpe.c_str(), &e);
-      if (e == compo.sOpe.c_str() || *e != '\0') {
-        std::cout << "Error!-->Cannot interprit this number : " << compo.sOpe << std::endl;
-        return false;
-      }
-      if (val == HUGE_VAL) {
-        std::cout << "Exceeding the range of (double)" << std::endl;
-        return false;
-      }
-      cmd_vec[iexp] = new COperand(val);
-    } else if (compo.iOpeType == 1) { // symbol
-      if (compo.iOpe == -1) {
-        bool bflg = false;
-        for (auto &ikey: m_aKey) {
-          if (ikey.m_Name == compo.sOpe) {
-            ikey.m_aiCmd.push_back(iexp);
-            bflg = true;
-            break;
-          }
-        }
-        if (!bflg) {
-          std::cout << "次のオペランドを解釈できませんでした:" << compo.sOpe << std::endl;
-          return false;
-        }
-        cmd_vec[iexp] = new COperand(0.0);
-      } else {
-        int iopr0 = compo.iOpe;
-        if (iopr0 >= 0 && iopr0 <= COperand::GetMaxOprInd()) {
-          cmd_vec[iexp] = new COperand(COperand::GetValue(compo.iOpe));
-        } else {
-          std::cout << "Not assumed Operand" << std::endl;
-          assert(0);
-        }
-      }
-    } else if (compo.iOpeType == 2) { // unary
-      cmd_vec[iexp] = new CUnaryOperator(compo.iOpe);
-    } else if (compo.iOpeType == 3) { // binary
-      cmd_vec[iexp] = new CBinaryOperator(compo.iOpe);
-    } else {
-      std::cout << "Error!--> " << compo.sOpe << " " << compo.iOpeType << std::endl;
-      assert(0);
-    }
-  }
-  return true;
-}
-
-} // delfem2::parse_math_expression
-
-// above: unexposed
-// ---------------------------------------------------------
-// below: exposed
-
-delfem2::CMathExpressionEvaluator::~CMathExpressionEvaluator() {
-  for (auto &icmd: m_apCmd) {
-    delete icmd;
-  }
-}
-
-void delfem2::CMathExpressionEvaluator::SetKey(
-  const std::string &key_name, double key_val) {
-  for (auto &ikey: m_aKey) {
-    if (ikey.m_Name == key_name) {
-      ikey.m_Val = key_val;
-      for (unsigned int icmd0: ikey.m_aiCmd) {    // このKeyをもっている全てのCmdに値をセット
-        assert(icmd0 < m_apCmd.size());
-        m_apCmd[icmd0]->SetValue(key_val);
-      }
-      return;
-    }
-  }
-  // 未登録のKeyの場合は以下のルーティン
-  m_aKey.emplace_back(key_name, key_val);
-}
-
-bool delfem2::CMathExpressionEvaluator::SetExp(
-  const std::string &exp) {
-  namespace lcl = delfem2::parse_math_expression;
-  m_is_valid = false;
-  m_sExp = exp;
-  // 消去
-  for (auto &icmd: m_apCmd) { delete icmd; }
-  for (auto &ikey: m_aKey) { ikey.m_aiCmd.clear(); }
-  m_apCmd.clear();
-
-  std::string tmp_exp = exp;
-  lcl::RemoveExpressionSpaceNewline(tmp_exp);
-  lcl::RemoveExpressionBracket(tmp_exp);
-  if (tmp_exp.empty()) {
-    m_is_valid = false;
-    return false;
-  }
-  {
-    std::vector<lcl::SExpCompo> exp_vec;
-    exp_vec.reserve(exp.size());
-    exp_vec.resize(1);
-    exp_vec[0].sOpe = tmp_exp;
-    if (!MakeRPN(0, exp_vec)) {
-      m_is_valid = false;
-      return false;
-    }
-
-/*		{	// 逆ポーランド表記を表示
-			for(unsigned int iexno=0;iexno<exp_vec.size();iexno++){
-				std::cout << exp_vec[iexno].sOpe << " ";
-			}
-			std::cout << std::endl;
-		}*/
-
-    if (!MakeCmdAry(m_apCmd, m_aKey,
-                    exp_vec)) {
-      m_is_valid = false;
-      return false;
-    }
-
-/*
-		int iflg = true;
-		int stack_size = 0;
-		for(int icmd=0;icmd<m_apCmd.size();icmd++){
-			if( dynamic_cast<COperand*>(m_apCmd[icmd]) != NULL ){
-				stack_size++;
-			}
-			else if( dynamic_cast<CUnaryOperator*>(m_apCmd[icmd]) != NULL ){
-				if( stack_size <= 0 ) iflg = false; break;
-			}
-			else if( dynamic_cast<CBinaryOperator*>(m_apCmd[icmd]) != NULL ){
-				if( stack_size <= 1 ) iflg = false;	break;
-			}
-		}
-		if( !iflg ){
-			std::cout << "Error!-->Operator and Operand mismatch" << std::endl;
-			m_bValid = false;
-			return false;
-		}
-*/
-  }
-  {    // 登録されているキー全ての値を設定
-    for (const auto &key: m_aKey) {
-      double val = key.m_Val;
-      for (unsigned int icmd0: key.m_aiCmd) {    // このKeyをもっている全てのCmdに値をセット
-        assert(icmd0 < m_apCmd.size());
-        m_apCmd[icmd0]->SetValue(val);
-      }
-    }
-  }
-  m_is_valid = true;
-  return true;
-}
-
-double delfem2::CMathExpressionEvaluator::Eval() const { // evaluating the math expression
-  std::vector<double> stack;
-  stack.reserve(128);
-  for (auto icmd: m_apCmd) {
-    icmd->DoOperation(stack);
-  }
-  assert(stack.size() == 1);
-  return stack[0];
-}
+/*
+ * Copyright (c) 2019 Nobuyuki Umetani
+ *
+ * This source code is licensed under the MIT license found in the
+ * LICENSE file in the root directory of this source tree.
+ */
+
+#include "delfem2/parse_math_expression.h"
+
+#include <cassert>
+#include <cerrno>    /* Need for Using "ERANGE" */
+#include <cmath>    /* Need for Using "HUGE_VAL" */
+#include <iostream>
+#include <climits>
+
+namespace delfem2::parse_math_expression {
+
+class COperand : public CCmd {
+ public:
+  ~COperand() override = default;
+  explicit COperand(const double val) { m_Value = val; }
+
+  bool DoOperation(std::vector<double> &stack) override {
+    stack.push_back(m_Value);
+    return true;
+  }
+  static double GetValue(const int iopr) {
+    switch (iopr) {
+      case 0:return 3.14159265358979;
+      default:assert(0);
+        return 0.0;
+    }
+    return 0.0;
+  }
+  static int GetMaxOprInd() { return 0; }
+  void SetValue(const double &val) override { m_Value = val; }
+  static int GetOprInd(const std::string &str1) {
+    if (str1 == "PI") { return 0; }
+    else { return -1; }
+    return -1;
+  }
+ private:
+  double m_Value;
+};
+
+class CBinaryOperator : public CCmd {
+ public:
+  ~CBinaryOperator() override = default;
+  explicit CBinaryOperator(const unsigned int iopr) {
+    assert(iopr < 5);
+    m_iOpr = iopr;
+  }
+
+  bool DoOperation(std::vector<double> &stack) override {
+    const double dright = stack.back();
+    stack.pop_back();
+    double &dleft = stack.back();
+    switch (m_iOpr) {
+      case 0:dleft = dleft + dright;
+        return true;
+      case 1:dleft = dright - dleft;
+        return true;
+      case 2:dleft = dleft * dright;
+        return true;
+      case 3:
+        if (fabs(dleft) < 1.0e-20) {
+          dleft = 0.0;
+          return false;
+        }
+        dleft = dright / dleft;
+        return true;
+      case 4:dleft = pow(dright, dleft);
+        return true;
+      default:std::cout << "Error!-->Illegal iOpr " << m_iOpr << std::endl;
+        assert(0);
+    }
+    return false;
+  }
+  static int MaxOprInd() { return 4; }
+  void SetValue(
+    [[maybe_unused]] const double &val) override {
+    assert(0);
+  };
+  unsigned int m_iOpr;
+};
+
+class CUnaryOperator : public CCmd {
+ public:
+  ~CUnaryOperator() override = default;
+  explicit CUnaryOperator(const int iopr) {
+    assert(iopr >= 0 && iopr <= MaxOprInd());
+    m_iOpr = iopr;
+  }
+  bool DoOperation(std::vector<double> &stack) override {
+    const double dright = stack.back();
+    double &dleft = stack.back();
+    switch (m_iOpr) {
+      case 0: dleft = dright;
+        return true;
+      case 1: dleft = -dright;
+        return true;
+      case 2: dleft = fabs(dright);
+        return true;
+      case 8: dleft = floor(dright);
+        return true;
+      case 3: dleft = exp(dright);
+        return true;
+      case 4: dleft = sin(dright);
+        return true;
+      case 5: dleft = cos(dright);
+        return true;
+      case 6:
+        if (dright > 1.0e-30) {
+          dleft = sqrt(dright);
+          return true;
+        } else {
+          dleft = 0.0;
+          return false;
+        }
+      case 7:
+        if (dright > 1.0e-30) {
+          dleft = log(dright);
+          return true;
+        } else {
+          dleft = 0.0;
+          return false;
+        }
+      default:std::cout << "Error!-->Illegal iOpr " << m_iOpr << std::endl;
+        assert(0);
+    }
+    return false;
+  }
+  static int MaxOprInd() { return 8; }
+  static int GetOprInd(const std::string &str1) {
+    if (str1 == "+") return 0;
+    else if (str1 == "-") return 1;
+    else if (str1 == "abs") return 2;
+    else if (str1 == "floor") return 8;
+    else if (str1 == "exp") return 3;
+    else if (str1 == "sin") return 4;
+    else if (str1 == "cos") return 5;
+    else if (str1 == "sqrt") return 6;
+    else if (str1 == "log") return 7;
+    return -1;
+  }
+  void SetValue(
+    [[maybe_unused]] const double &val) override {
+    assert(0);
+  }
+ private:
+  int m_iOpr;
+};
+
+// -------------------------------------
+
+DFM2_INLINE void RemoveExpressionSpaceNewline(std::string &exp) {
+  const std::string stemp(exp);
+  unsigned int iexp = 0;
+  for (char itemp: stemp) {
+    if (itemp == ' ' || itemp == 0x0d || itemp == 0x0a) continue;
+    exp[iexp] = itemp;
+    iexp++;
+  }
+  exp.resize(iexp);
+}
+
+DFM2_INLINE void RemoveExpressionBracket(std::string &exp) {
+  if (exp[0] != '(' || exp[exp.size() - 1] != ')') return;
+  {
+    int iBracketDepth = 1;
+    for (size_t ipos = 1; ipos < exp.size() - 1; ipos++) {
+      if (exp[ipos] == '(') { iBracketDepth++; }
+      if (exp[ipos] == ')') { iBracketDepth--; }
+      if (iBracketDepth == 0) return;
+    }
+  }
+  {
+    std::string stemp(exp);
+    for (size_t ipos = 1; ipos < exp.size() - 1; ipos++) {
+      exp[ipos - 1] = stemp[ipos];
+    }
+    exp.resize(exp.size() - 2);
+  }
+  RemoveExpressionBracket(exp);
+}
+
+/**
+ * 引数expの中のもっとも優先順位の低いオペレターを検索する。
+ * itypeはオペレターの種類
+ * itype : 0 --> Numerical variable
+ * itype : 1 --> Argebric variable
+ * itype : 2 --> Unary Operator
+ * itype : 3 --> Binary Operator
+ */
+int GetLowestPriorityOperator(
+  unsigned int &ibegin,
+  unsigned int &iend,
+  int &itype,
+  int &iopr,
+  const std::string &exp) {
+  itype = -1;
+  iopr = -1;
+
+  const int ipriority_max = 10;
+
+  unsigned int ipos_min = UINT_MAX;
+  int ipriority_min = ipriority_max;
+  int itype_min = -1;
+  int iopr_min = -1;
+
+  auto is_operand_end = [](char c) { // otherwise, the following '+' or '-' is a sign
+    return c != '+' && c != '-' && c != '*' && c != '/' && c != '^';
+  };
+
+  bool is_numeric = true;
+  int iBracketDepth = 0;
+  unsigned int iFirstBracket = UINT_MAX;
+  for (unsigned int ipos_curr = 0; ipos_curr < exp.size(); ipos_curr++) {
+    // 括弧内を読み飛ばす
+    switch (exp[ipos_curr]) {
+      case '(':if (iFirstBracket == UINT_MAX) iFirstBracket = ipos_curr;
+        iBracketDepth++;
+        continue;
+      case ')':iBracketDepth--;
+        if (iBracketDepth < 0) {
+          std::cerr << "Error!-->Not corresponding bracket" << std::endl;
+          return 2;
+        }
+        continue;
+      default:if (iBracketDepth != 0) continue;
+    }
+    assert(iBracketDepth == 0);
+
+    // ipriority_currを計算する
+    int ipriority_curr;
+    int itype_curr = -1;
+    int iopr_curr = -1;
+    switch (exp[ipos_curr]) {
+      case '+':if (ipos_curr == 0) { // sign operator
+          ipriority_curr = 5;
+          itype_curr = 2;
+          iopr_curr = 0;
+          break;
+        } else if (is_operand_end(exp[ipos_curr - 1])) { // binary operator
+          ipriority_curr = 2;
+          itype_curr = 3;
+          iopr_curr = 0;
+          break;
+        }
+        continue;
+      case '-':if (ipos_curr == 0) { // sign operator
+          ipriority_curr = 5;
+          itype_curr = 2;
+          iopr_curr = 1;
+          break;
+        } else if (is_operand_end(exp[ipos_curr - 1])) { // binary operator
+          ipriority_curr = 2;
+          itype_curr = 3;
+          iopr_curr = 1;
+          break;
+        }
+        continue;
+      case '*':ipriority_curr = 3;
+        itype_curr = 3;
+        iopr_curr = 2;
+        break;
+      case '/':ipriority_curr = 4;
+        itype_curr = 3;
+        iopr_curr = 3;
+        break;
+      case '^':ipriority_curr = 6;
+        itype_curr = 3;
+        iopr_curr = 4;
+        break;
+      default:ipriority_curr = ipriority_max;
+        if ((exp[ipos_curr] < '0' || exp[ipos_curr] > '9') && exp[ipos_curr] != '.') {
+          is_numeric = false;
+        }
+        break;
+    }
+    // the last one of '+' and '-', and of '/' because they are left-associative
+    if (ipriority_curr < ipriority_min ||
+      (ipriority_curr == ipriority_min && (ipriority_curr == 2 || ipriority_curr == 4))) {
+      ipos_min = ipos_curr;
+      ipriority_min = ipriority_curr;
+      itype_min = itype_curr;
+      iopr_min = iopr_curr;
+    }
+  }
+
+  if (iBracketDepth != 0) {
+    std::cerr << "Error!-->Not corresponding bracket" << std::endl;
+    return 2;
+  }
+  if ((ipos_min == 0 || ipos_min == exp.size() - 1) && itype_min == 3) {
+    std::cerr << "Error!-->Binary operator misplaced " << std::endl;
+    return 9;
+  }
+  if (iFirstBracket == 0 && ipos_min == UINT_MAX) {
+    std::cerr << "Error!-->(hoge)foo" << std::endl;
+    return 3;
+  }
+  // binary operator(+とか-)
+  if (ipos_min != UINT_MAX && itype_min == 3) {
+//    std::cout << ipos_min << " " << itype_min << std::endl;
+    assert(itype_min == 3);
+    assert(iopr_min != -1);
+    ibegin = ipos_min;
+    iend = ipos_min + 1;
+    itype = itype_min;
+    iopr = iopr_min;
+    return 0;
+  }
+  // sign operator( -hoge )
+  if (ipos_min == 0) {
+    assert(itype_min == 2);
+    assert(iopr_min != -1);
+    ibegin = ipos_min;
+    iend = ipos_min + 1;
+    itype = itype_min;
+    iopr = iopr_min;
+    return 0;
+  }
+  // preposition operator ( sin, tanみたいの )
+  if (!is_numeric && iFirstBracket != UINT_MAX) {
+    if (exp[exp.size() - 1] != ')') {  // avoid  sin(x+y)a
+      std::cout << "Error!-->hoge1" << std::endl;
+      return 1;
+    }
+    if (iFirstBracket == exp.size() - 2) {  // avoid sin()
+      std::cout << "Error!-->hoge2" << std::endl;
+      return 2;
+    }
+    std::string str1(exp, 0, iFirstBracket);
+    int iopr0 = CUnaryOperator::GetOprInd(str1);
+    if (iopr0 != -1) {
+      ibegin = 0;
+      iend = iFirstBracket;
+      itype = 2;
+      iopr = iopr0;
+      return 0;
+    } else {
+      std::cout << "Error!-->Unregistered Unary Operator" << std::endl;
+      return 1;
+    }
+  }
+  // variable
+  ibegin = 0;
+  iend = static_cast<unsigned int>(exp.size());
+  if (is_numeric) {
+    itype = 0;
+    iopr = -1;
+  }  // 数値(5.4321みたいの)
+  else {
+    int iopr0 = COperand::GetOprInd(exp);
+    if (iopr0 != -1) {
+      itype = 1;
+      iopr = iopr0;
+    }  // PIみたいなの
+    else {
+      itype = 1;
+      iopr = -1;
+    }
+  }
+  return 0;
+}
+
+struct SExpCompo {
+  std::string sOpe;
+  int iOpeType;
+  int iOpe;
+};
+
+bool MakeRPN(
+  unsigned int icur_old,
+  std::vector<SExpCompo> &exp_node_vec) {
+  assert(icur_old < exp_node_vec.size());
+
+  unsigned int ibegin0, iend0;
+  int itype0, iopr0;
+  {
+    std::string &cur_exp = exp_node_vec[icur_old].sOpe;
+    unsigned int itmp0, itmp1;
+    int itmp2, itmp3;
+    int ierr = GetLowestPriorityOperator(itmp0, itmp1, itmp2, itmp3, cur_exp);
+    if (ierr != 0) {
+      std::cout << "Error!-->Cannot interprit this expression : " << cur_exp << std::endl;
+      return false;
+    }
+    if (itmp2 == 0 || itmp2 == 1) {  // case operand 算術数値(PIみたいなの)
+      assert(itmp0 == 0 && itmp1 == cur_exp.size());
+      assert(itmp3 >= -1 && itmp3 <= COperand::GetMaxOprInd());
+      exp_node_vec[icur_old].iOpeType = itmp2;
+      exp_node_vec[icur_old].iOpe = itmp3;
+      return true;
+    }
+    assert(itmp2 != 0 && itmp2 != 1);
+    ibegin0 = static_cast<unsigned int>(itmp0);
+    iend0 = static_cast<unsigned int>(itmp1);
+    assert(itmp2 >= 0 && itmp2 <= 3);
+    itype0 = itmp2;
+    assert((itmp2 == 2 && itmp3 >= 0 && itmp3 <= CUnaryOperator::MaxOprInd()) ||
+      (itmp2 == 3 && itmp3 >= 0 && itmp3 <= CBinaryOperator::MaxOprInd()));
+    iopr0 = itmp3;
+  }
+
+  std::string cur_old_exp = exp_node_vec[icur_old].sOpe;
+
+  {
+    unsigned int ileft = icur_old;
+    SExpCompo &left_compo = exp_node_vec[ileft];
+    left_compo.sOpe.assign(cur_old_exp, iend0, cur_old_exp.size() - iend0);
+    RemoveExpressionBracket(left_compo.sOpe);
+    if (left_compo.sOpe.empty()) { return false; }
+    if (!MakeRPN(ileft, exp_node_vec)) { return false; }
+  }
+
+  if (ibegin0 > 0) {
+    const unsigned int iright = static_cast<unsigned int>(exp_node_vec.size());
+    exp_node_vec.resize(exp_node_vec.size() + 1);
+    SExpCompo &right_compo = exp_node_vec[iright];
+    right_compo.sOpe.assign(cur_old_exp, 0, ibegin0);
+    RemoveExpressionBracket(right_compo.sOpe);
+    if (right_compo.sOpe.empty()) { return false; }
+    if (!MakeRPN(iright, exp_node_vec)) { return false; }
+  }
+
+  {
+    const size_t icur_new = exp_node_vec.size();
+    exp_node_vec.resize(exp_node_vec.size() + 1);
+    SExpCompo &new_compo = exp_node_vec[icur_new];
+    new_compo.sOpe.assign(cur_old_exp, ibegin0, iend0 - ibegin0);
+    new_compo.iOpeType = itype0;
+    new_compo.iOpe = iopr0;
+  }
+
+  return true;
+}
+
+bool MakeCmdAry(
+  std::vector<CCmd *> &cmd_vec,
+  std::vector<CKey> &m_aKey,
+  const std::vector<SExpCompo> &exp_node_vec) {
+  cmd_vec.resize(exp_node_vec.size(), nullptr);
+  for (unsigned int iexp = 0; iexp < exp_node_vec.size(); iexp++) {
+    const SExpCompo &compo = exp_node_vec[iexp];
+    if (compo.iOpeType == 0) { // numeric
+      char *e;
+      const double val = strtod(compo.sOpe.c_str(), &e);
+      if (e == compo.sOpe.c_str() || *e != '\0') {
+        std::cout << "Error!-->Cannot interprit this number : " << compo.sOpe << std::endl;
+        return false;
+      }
+      if (val == HUGE_VAL) {
+        std::cout << "Exceeding the range of (double)" << std::endl;
+        return false;
+      }
+      cmd_vec[iexp] = new COperand(val);
+    } else if (compo.iOpeType == 1) { // symbol
+      if (compo.iOpe == -1) {
+        bool bflg = false;
+        for (auto &ikey: m_aKey) {
+          if (ikey.m_Name == compo.sOpe) {
+            ikey.m_aiCmd.push_back(iexp);
+            bflg = true;
+            break;
+          }
+        }
+        if (!bflg) {
+          std::cout << "次のオペランドを解釈できませんでした:" << compo.sOpe << std::endl;
+          return false;
+        }
+        cmd_vec[iexp] = new COperand(0.0);
+      } else {
+        int iopr0 = compo.iOpe;
+        if (iopr0 >= 0 && iopr0 <= COperand::GetMaxOprInd()) {
+          cmd_vec[iexp] = new COperand(COperand::GetValue(compo.iOpe));
+        } else {
+          std::cout << "Not assumed Operand" << std::endl;
+          assert(0);
+        }
+      }
+    } else if (compo.iOpeType == 2) { // unary
+      cmd_vec[iexp] = new CUnaryOperator(compo.iOpe);
+    } else if (compo.iOpeType == 3) { // binary
+      cmd_vec[iexp] = new CBinaryOperator(compo.iOpe);
+    } else {
+      std::cout << "Error!--> " << compo.sOpe << " " << compo.iOpeType << std::endl;
+      assert(0);
+    }
+  }
+  return true;
+}
+
+} // delfem2::parse_math_expression
+
+// above: unexposed
+// ---------------------------------------------------------
+// below: exposed
+
+delfem2::CMathExpressionEvaluator::~CMathExpressionEvaluator() {
+  for (auto &icmd: m_apCmd) {
+    delete icmd;
+  }
+}
+
+void delfem2::CMathExpressionEvaluator::SetKey(
+  const std::string &key_name, double key_val) {
+  for (auto &ikey: m_aKey) {
+    if (ikey.m_Name == key_name) {
+      ikey.m_Val = key_val;
+      for (unsigned int icmd0: ikey.m_aiCmd) {    // このKeyをもっている全てのCmdに値をセット
+        assert(icmd0 < m_apCmd.size());
+        m_apCmd[icmd0]->SetValue(key_val);
+      }
+      return;
+    }
+  }
+  // 未登録のKeyの場合は以下のルーティン
+  m_aKey.emplace_back(key_name, key_val);
+}
+
+bool delfem2::CMathExpressionEvaluator::SetExp(
+  const std::string &exp) {
+  namespace lcl = delfem2::parse_math_expression;
+  m_is_valid = false;
+  m_sExp = exp;
+  // 消去
+  for (auto &icmd: m_apCmd) { delete icmd; }
+  for (auto &ikey: m_aKey) { ikey.m_aiCmd.clear(); }
+  m_apCmd.clear();
+
+  std::string tmp_exp = exp;
+  lcl::RemoveExpressionSpaceNewline(tmp_exp);
+  lcl::RemoveExpressionBracket(tmp_exp);
+  if (tmp_exp.empty()) {
+    m_is_valid = false;
+    return false;
+  }
+  {
+    std::vector<lcl::SExpCompo> exp_vec;
+    exp_vec.reserve(exp.size());
+    exp_vec.resize(1);
+    exp_vec[0].sOpe = tmp_exp;
+    if (!MakeRPN(0, exp_vec)) {
+      m_is_valid = false;
+      return false;
+    }
+
+/*		{	// 逆ポーランド表記を表示
+			for(unsigned int iexno=0;iexno<exp_vec.size();iexno++){
+				std::cout << exp_vec[iexno].sOpe << " ";
+			}
+			std::cout << std::endl;
+		}*/
+
+    if (!MakeCmdAry(m_apCmd, m_aKey,
+                    exp_vec)) {
+      m_is_valid = false;
+      return false;
+    }
+
+/*
+		int iflg = true;
+		int stack_size = 0;
+		for(int icmd=0;icmd<m_apCmd.size();icmd++){
+			if( dynamic_cast<COperand*>(m_apCmd[icmd]) != NULL ){
+				stack_size++;
+			}
+			else if( dynamic_cast<CUnaryOperator*>(m_apCmd[icmd]) != NULL ){
+				if( stack_size <= 0 ) iflg = false; break;
+			}
+			else if( dynamic_cast<CBinaryOperator*>(m_apCmd[icmd]) != NULL ){
+				if( stack_size <= 1 ) iflg = false;	break;
+			}
+		}
+		if( !iflg ){
+			std::cout << "Error!-->Operator and Operand mismatch" << std::endl;
+			m_bValid = false;
+			return false;
+		}
+*/
+  }
+  {    // 登録されているキー全ての値を設定
+    for (const auto &key: m_aKey) {
+      double val = key.m_Val;
+      for (unsigned int icmd0: key.m_aiCmd) {    // このKeyをもっている全てのCmdに値をセット
+        assert(icmd0 < m_apCmd.size());
+        m_apCmd[icmd0]->SetValue(val);
+      }
+    }
+  }
+  m_is_valid = true;
+  return true;
+}
+
+double delfem2::CMathExpressionEvaluator::Eval() const { // evaluating the math expression
+  std::vector<double> stack;
+  stack.reserve(128);
+  for (auto icmd: m_apCmd) {
+    icmd->DoOperation(stack);
+  }
+  assert(stack.size() == 1);
+  return stack[0];
+}
-- 
2.43.0


From 1793022f576d3aacdaeac5df2d78f6f87753ea19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:04 +0000
Subject: [PATCH 185/185] fix: gradient of the implicit stroke function was NaN
 at its sample points

---
 include/delfem2/eigen/implicit_rbf_approximation.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/delfem2/eigen/implicit_rbf_approximation.h b/include/delfem2/eigen/implicit_rbf_approximation.h
index daf99ee..67ca766 100644
--- a/include/delfem2/eigen/implicit_rbf_approximation.h
+++ b/include/delfem2/eigen/implicit_rbf_approximation.h
@@ -93,6 +93,7 @@ class ImplicitRbfApproximation {
       const double dy0 = y - sample_xy[ismpl * 2 + 1];
       const double r = std::sqrt(dx0 * dx0 + dy0 * dy0);
       t += weights[ismpl] * rbf(r);
+      if (r == 0) { continue; } // no direction at the center of the kernel
       dtdx += weights[ismpl] * diff_rbf(r) * dx0 / r;
       dtdy += weights[ismpl] * diff_rbf(r) * dy0 / r;
     }
-- 
2.43.0

