From 3d153c17919aba584a8576e21135a3243dd62df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:02 +0000
Subject: [PATCH 01/24] fix: IntervalNumber::new stores the negated lower bound

---
 src/predicates/interval_number.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/predicates/interval_number.rs b/src/predicates/interval_number.rs
index ccda78c..bc15694 100644
--- a/src/predicates/interval_number.rs
+++ b/src/predicates/interval_number.rs
@@ -16,7 +16,7 @@ impl IntervalNumber {
     #[inline(always)]
     pub fn new(low: f64, high: f64) -> Self {
         Self {
-            data: f64x2::from_array([high, low]),
+            data: f64x2::from_array([high, -low]),
         }
     }
 }
-- 
2.43.0


From 3ecb3339bd7f152653abed6139a7e3f1af7d7f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:02 +0000
Subject: [PATCH 02/24] fix: interval sign tests were swapped for the [high,
 -low] representation

---
 src/predicates/interval_number.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/predicates/interval_number.rs b/src/predicates/interval_number.rs
index bc15694..a710b29 100644
--- a/src/predicates/interval_number.rs
+++ b/src/predicates/interval_number.rs
@@ -47,12 +47,12 @@ impl IntervalNumber {
 
     #[inline(always)]
     pub fn positive(&self) -> bool {
-        self.data[0] < 0.0
+        self.data[1] < 0.0
     }
 
     #[inline(always)]
     pub fn negative(&self) -> bool {
-        self.data[1] < 0.0
+        self.data[0] < 0.0
     }
 
     #[inline(always)]
-- 
2.43.0


From fb8687444df534e91859d2547600b5aabbd3ed75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:02 +0000
Subject: [PATCH 03/24] fix: interval product bounds swapped when a factor
 contains zero

---
 src/predicates/interval_number.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/predicates/interval_number.rs b/src/predicates/interval_number.rs
index a710b29..b0c028b 100644
--- a/src/predicates/interval_number.rs
+++ b/src/predicates/interval_number.rs
@@ -99,7 +99,7 @@ fn mul(a: &IntervalNumber, b: &IntervalNumber) -> IntervalNumber {
         0 => {
             let llhh = a.data * b.data;
             let lhhl = a.data * b.data.reverse();
-            [lhhl.reduce_max(), llhh.reduce_max()].into()
+            [llhh.reduce_max(), lhhl.reduce_max()].into()
         }
 
         1 => a.data.reverse() * f64x2::from([b.data[1], b.data[1]]),
@@ -120,7 +120,7 @@ fn mul(a: &IntervalNumber, b: &IntervalNumber) -> IntervalNumber {
             a.data * f64x2::from_bits(bi).reverse()
         }
 
-        8 => (f64x2::from([a.data[0]; 2]) * b.data).reverse(),
+        8 => f64x2::from([a.data[0]; 2]) * b.data,
 
         9 => {
             let mut ai = a.data.to_bits();
-- 
2.43.0


From 248594c673a8e55c9b8d18c2982aa0e0059dcb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:02 +0000
Subject: [PATCH 04/24] fix: orient3d exact stage used the z tail of c where
 the x tail belongs

---
 src/predicates/predicates.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/predicates/predicates.rs b/src/predicates/predicates.rs
index d344b12..fff11b1 100644
--- a/src/predicates/predicates.rs
+++ b/src/predicates/predicates.rs
@@ -729,7 +729,7 @@ fn orient3d_adapt<A: Allocator + Copy>(
         bdxtail, cdytail, cdztail, cdz, adz, adytail, adztail, &mut fin, allocator,
     );
     helper2(
-        cdztail, adytail, adztail, adz, bdz, bdytail, bdztail, &mut fin, allocator,
+        cdxtail, adytail, adztail, adz, bdz, bdytail, bdztail, &mut fin, allocator,
     );
 
     if adztail != 0.0 {
-- 
2.43.0


From c6eb830f26f2b711e523a33171a3837c4d1baff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:02 +0000
Subject: [PATCH 05/24] fix: fast_expansion_sum_zeroelim dropped the component
 of a single-component input

---
 src/predicates/predicates.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/predicates/predicates.rs b/src/predicates/predicates.rs
index fff11b1..8813f9b 100644
--- a/src/predicates/predicates.rs
+++ b/src/predicates/predicates.rs
@@ -344,7 +344,9 @@ pub fn fast_expansion_sum_zeroelim<A: Allocator>(
         }
         harr
     } else {
-        Vec::new_in(allocator)
+        let mut harr = Vec::with_capacity_in(1, allocator);
+        harr.push(q);
+        harr
     }
 }
 
-- 
2.43.0


From 5cac4d28154f1ec152adce65227c6385d04ae028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:02 +0000
Subject: [PATCH 06/24] fix: grow_expansion_zeroelim returned an empty
 expansion for a zero sum

---
 src/predicates/predicates.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/predicates/predicates.rs b/src/predicates/predicates.rs
index 8813f9b..8a0ff17 100644
--- a/src/predicates/predicates.rs
+++ b/src/predicates/predicates.rs
@@ -229,7 +229,7 @@ pub fn grow_expansion_zeroelim<A: Allocator>(earr: &[f64], b: f64, allocator: A)
             None
         }
     }));
-    if q != 0.0 {
+    if q != 0.0 || h.is_empty() {
         h.push(q);
     }
     h
-- 
2.43.0


From 43bc63c9bdf2ca68c9bb4a5491b0723ff0dcb006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:02 +0000
Subject: [PATCH 07/24] fix: expansion_sum added the first operand's tail
 components instead of the second's

---
 src/predicates/predicates.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/predicates/predicates.rs b/src/predicates/predicates.rs
index 8a0ff17..2f1e88a 100644
--- a/src/predicates/predicates.rs
+++ b/src/predicates/predicates.rs
@@ -245,8 +245,8 @@ pub fn expansion_sum<A: Allocator>(earr: &[f64], farr: &[f64], allocator: A) ->
         r
     }));
     h_arr.push(q);
-    earr.iter().enumerate().skip(1).for_each(|(start, &e)| {
-        q = e;
+    farr.iter().enumerate().skip(1).for_each(|(start, &f)| {
+        q = f;
         for h in &mut h_arr[start..] {
             let (qnew, enew) = two_sum(q, *h);
             q = qnew;
-- 
2.43.0


From 0d03e99d2bf7c69bc26526e8dd7bcee7d2ca4711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:02 +0000
Subject: [PATCH 08/24] fix: less_than interval stage compared y and z against
 x

---
 src/predicates/less_than.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/predicates/less_than.rs b/src/predicates/less_than.rs
index 0219214..3827f92 100644
--- a/src/predicates/less_than.rs
+++ b/src/predicates/less_than.rs
@@ -449,9 +449,9 @@ fn less_than_ii<
         let det = if AXIS == 0 {
             less_than_ii_impl(&pa_dynamic.x, &pa_dynamic.d, &pb_dynamic.x, &pb_dynamic.d)
         } else if AXIS == 1 {
-            less_than_ii_impl(&pa_dynamic.y, &pa_dynamic.d, &pb_dynamic.x, &pb_dynamic.d)
+            less_than_ii_impl(&pa_dynamic.y, &pa_dynamic.d, &pb_dynamic.y, &pb_dynamic.d)
         } else {
-            less_than_ii_impl(&pa_dynamic.z, &pa_dynamic.d, &pb_dynamic.x, &pb_dynamic.d)
+            less_than_ii_impl(&pa_dynamic.z, &pa_dynamic.d, &pb_dynamic.z, &pb_dynamic.d)
         };
 
         if det.not_zero() {
-- 
2.43.0


From d0ea23b561b9d5a6d99fef7d3d1d4e49f4888f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:02 +0000
Subject: [PATCH 09/24] fix: less_than did not reverse the result when it swaps
 its arguments

---
 src/predicates/less_than.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/predicates/less_than.rs b/src/predicates/less_than.rs
index 3827f92..091bbaa 100644
--- a/src/predicates/less_than.rs
+++ b/src/predicates/less_than.rs
@@ -1,20 +1,20 @@
 use std::alloc::Allocator;
 
 use super::{
-    double_to_sign, ExplicitPoint3D, GenericNum, ImplicitPoint3D, ImplicitPointLPI,
+    double_to_sign, sign_reverse, ExplicitPoint3D, GenericNum, ImplicitPoint3D, ImplicitPointLPI,
     ImplicitPointTPI, Orientation, Point3D,
 };
 
 pub fn less_than_on_x<A: Allocator + Copy>(pa: &Point3D, pb: &Point3D, bump: A) -> Orientation {
     match (pa, pb) {
         (Point3D::Explicit(pa), Point3D::Explicit(pb)) => less_than_ee::<0>(pa, pb),
-        (Point3D::Explicit(pa), Point3D::LPI(pb)) => less_than_on_x_le(pb, pa, bump),
-        (Point3D::Explicit(pa), Point3D::TPI(pb)) => less_than_on_x_te(pb, pa, bump),
+        (Point3D::Explicit(pa), Point3D::LPI(pb)) => sign_reverse(less_than_on_x_le(pb, pa, bump)),
+        (Point3D::Explicit(pa), Point3D::TPI(pb)) => sign_reverse(less_than_on_x_te(pb, pa, bump)),
         (Point3D::LPI(pa), Point3D::Explicit(pb)) => less_than_on_x_le(pa, pb, bump),
         (Point3D::LPI(pa), Point3D::LPI(pb)) => less_than_on_x_ll(pa, pb, bump),
         (Point3D::LPI(pa), Point3D::TPI(pb)) => less_than_on_x_lt(pa, pb, bump),
         (Point3D::TPI(pa), Point3D::Explicit(pb)) => less_than_on_x_te(pa, pb, bump),
-        (Point3D::TPI(pa), Point3D::LPI(pb)) => less_than_on_x_lt(pb, pa, bump),
+        (Point3D::TPI(pa), Point3D::LPI(pb)) => sign_reverse(less_than_on_x_lt(pb, pa, bump)),
         (Point3D::TPI(pa), Point3D::TPI(pb)) => less_than_on_x_tt(pa, pb, bump),
     }
 }
@@ -22,13 +22,13 @@ pub fn less_than_on_x<A: Allocator + Copy>(pa: &Point3D, pb: &Point3D, bump: A)
 pub fn less_than_on_y<A: Allocator + Copy>(pa: &Point3D, pb: &Point3D, bump: A) -> Orientation {
     match (pa, pb) {
         (Point3D::Explicit(pa), Point3D::Explicit(pb)) => less_than_ee::<1>(pa, pb),
-        (Point3D::Explicit(pa), Point3D::LPI(pb)) => less_than_on_y_le(pb, pa, bump),
-        (Point3D::Explicit(pa), Point3D::TPI(pb)) => less_than_on_y_te(pb, pa, bump),
+        (Point3D::Explicit(pa), Point3D::LPI(pb)) => sign_reverse(less_than_on_y_le(pb, pa, bump)),
+        (Point3D::Explicit(pa), Point3D::TPI(pb)) => sign_reverse(less_than_on_y_te(pb, pa, bump)),
         (Point3D::LPI(pa), Point3D::Explicit(pb)) => less_than_on_y_le(pa, pb, bump),
         (Point3D::LPI(pa), Point3D::LPI(pb)) => less_than_on_y_ll(pa, pb, bump),
         (Point3D::LPI(pa), Point3D::TPI(pb)) => less_than_on_y_lt(pa, pb, bump),
         (Point3D::TPI(pa), Point3D::Explicit(pb)) => less_than_on_y_te(pa, pb, bump),
-        (Point3D::TPI(pa), Point3D::LPI(pb)) => less_than_on_y_lt(pb, pa, bump),
+        (Point3D::TPI(pa), Point3D::LPI(pb)) => sign_reverse(less_than_on_y_lt(pb, pa, bump)),
         (Point3D::TPI(pa), Point3D::TPI(pb)) => less_than_on_y_tt(pa, pb, bump),
     }
 }
@@ -36,13 +36,13 @@ pub fn less_than_on_y<A: Allocator + Copy>(pa: &Point3D, pb: &Point3D, bump: A)
 pub fn less_than_on_z<A: Allocator + Copy>(pa: &Point3D, pb: &Point3D, bump: A) -> Orientation {
     match (pa, pb) {
         (Point3D::Explicit(pa), Point3D::Explicit(pb)) => less_than_ee::<2>(pa, pb),
-        (Point3D::Explicit(pa), Point3D::LPI(pb)) => less_than_on_z_le(pb, pa, bump),
-        (Point3D::Explicit(pa), Point3D::TPI(pb)) => less_than_on_z_te(pb, pa, bump),
+        (Point3D::Explicit(pa), Point3D::LPI(pb)) => sign_reverse(less_than_on_z_le(pb, pa, bump)),
+        (Point3D::Explicit(pa), Point3D::TPI(pb)) => sign_reverse(less_than_on_z_te(pb, pa, bump)),
         (Point3D::LPI(pa), Point3D::Explicit(pb)) => less_than_on_z_le(pa, pb, bump),
         (Point3D::LPI(pa), Point3D::LPI(pb)) => less_than_on_z_ll(pa, pb, bump),
         (Point3D::LPI(pa), Point3D::TPI(pb)) => less_than_on_z_lt(pa, pb, bump),
         (Point3D::TPI(pa), Point3D::Explicit(pb)) => less_than_on_z_te(pa, pb, bump),
-        (Point3D::TPI(pa), Point3D::LPI(pb)) => less_than_on_z_lt(pb, pa, bump),
+        (Point3D::TPI(pa), Point3D::LPI(pb)) => sign_reverse(less_than_on_z_lt(pb, pa, bump)),
         (Point3D::TPI(pa), Point3D::TPI(pb)) => less_than_on_z_tt(pa, pb, bump),
     }
 }
-- 
2.43.0


From 44e6c1cb9150d38ee0cd36c597dbfa5484298aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:16 +0000
Subject: [PATCH 10/24] fix: PushRelabelFifo::is_sink was answered from stale
 labels

---
 src/graphcut/push_relabel_fifo.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/graphcut/push_relabel_fifo.rs b/src/graphcut/push_relabel_fifo.rs
index fb13a92..313dc40 100644
--- a/src/graphcut/push_relabel_fifo.rs
+++ b/src/graphcut/push_relabel_fifo.rs
@@ -227,6 +227,9 @@ where
                 self.global_relabel();
             }
         }
+        // a label below `not_reached` is only a lower bound on the distance to the sink:
+        // recompute the labels, so that they tell the two sides of the cut apart
+        self.global_relabel();
     }
 
     #[inline(always)]
-- 
2.43.0


From 1d3a2e2faa5c481d3872e5c2d5e87ecff9c0334b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:16 +0000
Subject: [PATCH 11/24] fix: GraphCut left stale sides on nodes that belong to
 no tree

---
 src/graphcut/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/graphcut/mod.rs b/src/graphcut/mod.rs
index 1b94148..66b2f41 100644
--- a/src/graphcut/mod.rs
+++ b/src/graphcut/mod.rs
@@ -514,6 +514,12 @@ impl GraphCut {
                 current_node = INVALID_IND;
             }
         }
+        // free nodes belong to neither tree: put all of them on the source side
+        for (is_sink, &parent) in self.is_sink.iter_mut().zip(&self.parent) {
+            if parent == INVALID_IND {
+                *is_sink = false;
+            }
+        }
         return self.flow;
     }
 }
-- 
2.43.0


From 08f9f10d29c034d8efea8015ae7414cade5d72ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:09 +0000
Subject: [PATCH 12/24] fix: insert_vertex_bw started the next search from a
 deleted tet after filling a large cavity

---
 src/triangle/tetrahedron.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/triangle/tetrahedron.rs b/src/triangle/tetrahedron.rs
index 6f66c17..81add49 100644
--- a/src/triangle/tetrahedron.rs
+++ b/src/triangle/tetrahedron.rs
@@ -1058,10 +1058,11 @@ fn insert_vertex_bw(tets: &mut TetMesh, pid: usize, searchtet: &mut TriFace, bum
                     tets.p2t[vid] = newtet.tet;
                 }
             }
+
+            // any new tet will do, `cave_bdry_list` holds the deleted ones
+            *searchtet = newtet;
         }
 
-        // randomly pick a new tet
-        *searchtet = cave_bdry_list[f_out >> 1].clone();
         tets.p2t[pid] = searchtet.tet;
 
         for mut oldtet in cave_bdry_list {
-- 
2.43.0


From 47396064b36827a565b2d4c1139d9ccaa5013d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:15 +0000
Subject: [PATCH 13/24] fix: tetrahedralize stopped at the first duplicate
 point and then panicked

---
 src/triangle/tetrahedron.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/triangle/tetrahedron.rs b/src/triangle/tetrahedron.rs
index 81add49..4dabd83 100644
--- a/src/triangle/tetrahedron.rs
+++ b/src/triangle/tetrahedron.rs
@@ -1217,9 +1217,8 @@ pub fn tetrahedralize<'a>(points: &'a [f64]) -> TetMesh<'a> {
     let mut bump = Bump::new();
     for i in 4..mesh.n_points {
         bump.reset();
-        if !insert_vertex_bw(&mut mesh, sorted_pt_inds[i], &mut search_tet, &bump) {
-            break;
-        }
+        // a duplicate of an earlier point is not inserted
+        insert_vertex_bw(&mut mesh, sorted_pt_inds[i], &mut search_tet, &bump);
     }
 
     let mut count = 0;
@@ -1243,6 +1242,9 @@ pub fn tetrahedralize<'a>(points: &'a [f64]) -> TetMesh<'a> {
 
     // make p2t[i] not be a ghost
     for i in 0..mesh.n_points {
+        if mesh.p2t[i] == INVALID_IND {
+            continue;
+        }
         mesh.p2t[i] = tet_map[mesh.p2t[i]];
         if mesh.is_hull_tet(mesh.p2t[i]) {
             mesh.p2t[i] = mesh.tets[mesh.p2t[i]].nei[3].tet;
-- 
2.43.0


From 725a50bcccad4ac98c451e556fe712343bb02b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:31 +0000
Subject: [PATCH 14/24] fix: remove_duplicates compared the original points
 instead of the snapped ones

---
 src/polygonlization/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/polygonlization/mod.rs b/src/polygonlization/mod.rs
index b6b2c16..8f69df3 100644
--- a/src/polygonlization/mod.rs
+++ b/src/polygonlization/mod.rs
@@ -27,12 +27,16 @@ pub fn remove_duplicates(points: &[f64], epsilon: f64) -> (Vec<f64>, Vec<usize>)
     let approx_points = Vec::from_iter(points.iter().map(|x| (x / base).round() * base));
     let n_points = points.len() / 3;
     let mut indices = Vec::from_iter(0..n_points);
-    indices.sort_unstable_by(|&i, &j| point(points, i).partial_cmp(point(points, j)).unwrap());
+    indices.sort_unstable_by(|&i, &j| {
+        point(&approx_points, i)
+            .partial_cmp(point(&approx_points, j))
+            .unwrap()
+    });
     let mut pmap = vec![0usize; n_points];
     let mut out_pt_indices = vec![indices[0]];
     for k in 1..n_points {
         let (i, j) = (indices[k], indices[k - 1]);
-        if point(points, i) == point(points, j) {
+        if point(&approx_points, i) == point(&approx_points, j) {
             pmap[i] = out_pt_indices.len() - 1;
         } else {
             pmap[i] = out_pt_indices.len();
-- 
2.43.0


From e95ea85b12921d2abdf8814d276ddd69543c4fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:23 +0000
Subject: [PATCH 15/24] fix: tetrahedralize panicked on fewer than four points

---
 src/triangle/tetrahedron.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/triangle/tetrahedron.rs b/src/triangle/tetrahedron.rs
index 4dabd83..5ec4ee4 100644
--- a/src/triangle/tetrahedron.rs
+++ b/src/triangle/tetrahedron.rs
@@ -1102,6 +1102,10 @@ fn insert_vertex_bw(tets: &mut TetMesh, pid: usize, searchtet: &mut TriFace, bum
 }
 
 pub fn tetrahedralize<'a>(points: &'a [f64]) -> TetMesh<'a> {
+    // fewer than four points do not span a tetrahedron
+    if points.len() < 12 {
+        return TetMesh::new(points);
+    }
     let cmp = |x: &&f64, y: &&f64| x.partial_cmp(y).unwrap();
     let bbox = [
         // min_corner
-- 
2.43.0


From 35c7e46d7873d758c27304f61e960b918473d96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:23 +0000
Subject: [PATCH 16/24] fix: tetrahedralize built a degenerate tetrahedron from
 coincident points

---
 src/triangle/tetrahedron.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/triangle/tetrahedron.rs b/src/triangle/tetrahedron.rs
index 5ec4ee4..440e9b0 100644
--- a/src/triangle/tetrahedron.rs
+++ b/src/triangle/tetrahedron.rs
@@ -1141,6 +1141,10 @@ pub fn tetrahedralize<'a>(points: &'a [f64]) -> TetMesh<'a> {
         sub(&bbox[3..6], &bbox, &mut temp_vec3);
         norm(&temp_vec3)
     };
+    // the distances below are relative to the size of the bounding box
+    if bbox_size1 == 0.0 {
+        return mesh;
+    }
     let bbox_size2 = bbox_size1 * bbox_size1;
     let bbox_size3 = bbox_size2 * bbox_size1;
     let mut i = 1;
-- 
2.43.0


From 36860e7055f0169312e6ff1118175ceed4b1ec2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:01 +0000
Subject: [PATCH 17/24] fix: constrained_edge left the part of a segment up to
 an intervening vertex unmarked

---
 src/triangle/triangle.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/triangle/triangle.rs b/src/triangle/triangle.rs
index 8ae211a..c02f049 100644
--- a/src/triangle/triangle.rs
+++ b/src/triangle/triangle.rs
@@ -1157,18 +1157,18 @@ fn constrained_edge<A: Allocator + Copy>(
             break;
         }
     }
+    // Make the segment, or its part up to the collision, permanent
+    let v = dest(&m.triangles, &fixup_tri);
+    set_mark(
+        &mut m.triangles,
+        &fixup_tri,
+        if v == endpoint1 { twin(mark) } else { mark },
+        true,
+    );
     if collision {
         if !scout_segment(m, ghost, &mut fixup_tri, endpoint2, mark, bump) {
             constrained_edge(m, ghost, &mut fixup_tri, endpoint2, mark, vertex_map, bump);
         }
-    } else {
-        let v = dest(&m.triangles, &fixup_tri);
-        set_mark(
-            &mut m.triangles,
-            &fixup_tri,
-            if v == endpoint2 { mark } else { twin(mark) },
-            true,
-        );
     }
 }
 
-- 
2.43.0


From fd9624bb4ab81d8f651f812fe4973e91d9ea6ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:44 +0000
Subject: [PATCH 18/24] fix: oppositely oriented coplanar triangles were
 compared with the wrong orientation when splitting a cell

The polygon cut out of a cell is oriented as the splitting triangle, but it
was tested with the orientation of each coplanar triangle, so reversed ones
were dropped; and orientations along different axes were compared.
---
 src/polygonlization/bsp_complex.rs | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/polygonlization/bsp_complex.rs b/src/polygonlization/bsp_complex.rs
index 441b926..412918a 100644
--- a/src/polygonlization/bsp_complex.rs
+++ b/src/polygonlization/bsp_complex.rs
@@ -265,6 +265,18 @@ impl BSPComplex {
             bump,
         );
 
+        // orientations of the coplanar triangles along the axis of the splitting one
+        // (coplanar triangles may have been assigned different axes)
+        let axis = self.tri_axes[tid];
+        let coplanar_oris = coplanar_triangles
+            .iter()
+            .map(|&coplanar_tid| {
+                let [pa, pb, pc] =
+                    from_fn::<_, 3, _>(|i| &self.points[self.triangle(coplanar_tid)[i]]);
+                orient2d::orient2d_by_axis(pa, pb, pc, axis, bump)
+            })
+            .collect_vec();
+
         // save the orientation of the triangle for other coplanar triangles
         if coplanar_triangles.len() > 1 {
             let base_tri_ori = self.tri_orientations[tid];
@@ -272,8 +284,7 @@ impl BSPComplex {
                 let ori = *self.vert_orientations[tid].get(&vid).unwrap();
                 for i in 0..coplanar_triangles.len() - 1 {
                     let coplanar_tid = coplanar_triangles[i];
-                    let coplanar_ori = self.tri_orientations[coplanar_tid];
-                    if base_tri_ori == coplanar_ori {
+                    if base_tri_ori == coplanar_oris[i] {
                         self.vert_orientations[coplanar_tid].insert(vid, ori);
                     } else {
                         self.vert_orientations[coplanar_tid].insert(vid, sign_reverse(ori));
@@ -361,14 +372,17 @@ impl BSPComplex {
                 })
                 .collect_vec();
 
+            // the polygon is oriented as the splitting triangle, the others may be reversed
+            let mut coplanar_oris = coplanar_oris.into_iter();
             coplanar_triangles.retain(|&coplanar_tid| {
                 let coplanar_tri = triangle(coplanar_tid, &self.constraints);
                 let coplanar_pts = from_fn::<_, 3, _>(|i| &self.points[coplanar_tri[i]]);
                 is_triangle_intersects_poly(
                     &coplanar_pts,
                     &intersect_poly,
-                    self.tri_orientations[coplanar_tid],
-                    self.tri_axes[coplanar_tid],
+                    coplanar_oris.next().unwrap(),
+                    self.tri_orientations[tid],
+                    axis,
                     bump,
                 )
             });
@@ -1852,7 +1866,8 @@ fn is_triangle_intersects_cell<A: Allocator + Copy>(
 fn is_triangle_intersects_poly<A: Allocator + Copy>(
     tri: &[&Point3D],
     poly: &[&Point3D],
-    base_ori: Orientation,
+    tri_ori: Orientation,
+    poly_ori: Orientation,
     axis: usize,
     alloc: A,
 ) -> bool {
@@ -1866,7 +1881,7 @@ fn is_triangle_intersects_poly<A: Allocator + Copy>(
                     continue;
                 }
 
-                if ori == base_ori {
+                if ori == tri_ori {
                     has_inside = true;
                 } else {
                     all_poly_verts_inside[i] = false;
@@ -1888,7 +1903,7 @@ fn is_triangle_intersects_poly<A: Allocator + Copy>(
                 if ori == Orientation::Zero {
                     continue;
                 }
-                if ori == base_ori {
+                if ori == poly_ori {
                     has_inside = true;
                 }
             }
-- 
2.43.0


From 4f4d21c3e59732ffff2e587774e6308f6368ab3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:15 +0000
Subject: [PATCH 19/24] fix: virtual constraints were built on an edge other
 than the one that was examined

---
 src/polygonlization/conforming_mesh.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/polygonlization/conforming_mesh.rs b/src/polygonlization/conforming_mesh.rs
index 92ecc3d..cb9bf94 100644
--- a/src/polygonlization/conforming_mesh.rs
+++ b/src/polygonlization/conforming_mesh.rs
@@ -41,11 +41,13 @@ impl Constraints {
         let mut edge_map: HashMap<(usize, usize), Vec<(usize, usize)>> = HashMap::new();
         for (idx, tri) in self.triangles.chunks(3).enumerate() {
             for (i, (&va, &vb)) in tri.iter().circular_tuple_windows().enumerate() {
+                // the halfedge is named by the vertex opposite to it
+                let hid = (i + 2) % 3;
                 let key = if va < vb { (va, vb) } else { (vb, va) };
                 if let Some(vec) = edge_map.get_mut(&key) {
-                    vec.push((idx, i));
+                    vec.push((idx, hid));
                 } else {
-                    edge_map.insert(key, vec![(idx, i)]);
+                    edge_map.insert(key, vec![(idx, hid)]);
                 }
             }
         }
-- 
2.43.0


From c3e7a328b5bcb81b8009a8ca126a14e19a429e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:05 +0000
Subject: [PATCH 20/24] fix: coplanar faces inside a triangle were missed when
 only tetrahedra touching it join them

---
 src/polygonlization/conforming_mesh.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/polygonlization/conforming_mesh.rs b/src/polygonlization/conforming_mesh.rs
index cb9bf94..0145b5a 100644
--- a/src/polygonlization/conforming_mesh.rs
+++ b/src/polygonlization/conforming_mesh.rs
@@ -941,6 +941,9 @@ fn interior_intersections<A: Allocator + Copy>(
                 let t = constraint_intersect_tet_type(mesh, triangle, adj_tid, bump);
                 if t < 5 {
                     tet_marks[t][adj_tid].push(cid);
+                }
+                // coplanar faces may be connected only through tets which touch the triangle
+                if t < 6 {
                     info.intersected.push(adj_tid);
                 }
             }
@@ -949,6 +952,8 @@ fn interior_intersections<A: Allocator + Copy>(
     }
 }
 
+/// 0..=3: the face opposite to this vertex is in the triangle, 4: cut by the triangle,
+/// 5: some vertices are in the triangle but nothing is to be marked, 6: not intersected
 fn constraint_intersect_tet_type<A: Allocator + Copy>(
     mesh: &TetMesh,
     c: &[usize],
@@ -956,7 +961,7 @@ fn constraint_intersect_tet_type<A: Allocator + Copy>(
     bump: A,
 ) -> usize {
     if mesh.is_hull_tet(tid) {
-        return 5;
+        return 6;
     }
     let verts = &mesh.tets[tid].data;
     let mut oris = [Orientation::Undefined; 4];
@@ -1003,7 +1008,7 @@ fn constraint_intersect_tet_type<A: Allocator + Copy>(
                     }
                 }
             }
-            return 5;
+            return 6;
         }
     }
 }
-- 
2.43.0


From b782be4e5ca31c5a4366d5298a6d675c8a5a7ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:47 +0000
Subject: [PATCH 21/24] fix: outlines panicked or went astray when an inner
 edge joins two vertices where outlines touch

The successor of an edge was stored per edge, but an inner edge between two
vertices where several outlines meet has one at each end.
---
 src/polygonlization/bsp_complex.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/polygonlization/bsp_complex.rs b/src/polygonlization/bsp_complex.rs
index 412918a..46b7238 100644
--- a/src/polygonlization/bsp_complex.rs
+++ b/src/polygonlization/bsp_complex.rs
@@ -1009,7 +1009,8 @@ impl BSPComplex {
                         if face_signs[fid] < 0 {
                             std::mem::swap(&mut ha, &mut hb);
                         }
-                        he_next_map.insert(*ha, *hb);
+                        // an edge may join two of these vertices, and has a successor at each
+                        he_next_map.insert((*ha, v), *hb);
                     }
                 }
             }
@@ -1045,7 +1046,7 @@ impl BSPComplex {
                             let mut cur = he.0;
                             let next_hid;
                             loop {
-                                let next = *he_next_map.get(&cur).unwrap();
+                                let next = *he_next_map.get(&(cur, vb)).unwrap();
                                 if let Some(&hid) =
                                     group.iter().find(|&&idx| halfedges[idx].0 == next)
                                 {
-- 
2.43.0


From 8276b0bc3975c63347854805df502de0c78514e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:47 +0000
Subject: [PATCH 22/24] fix: faces with all vertices on the boundary of a
 triangle were not found to be covered by it

Thin faces whose rounded centre is not inside lost their triangle, and with
it thin solids were lost.
---
 src/polygonlization/bsp_complex.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/polygonlization/bsp_complex.rs b/src/polygonlization/bsp_complex.rs
index 46b7238..de85e9a 100644
--- a/src/polygonlization/bsp_complex.rs
+++ b/src/polygonlization/bsp_complex.rs
@@ -1340,6 +1340,10 @@ impl BSPComplex {
             }
             orientations.push(vert_orientations);
         }
+        // no vertex is outside (all may be on the boundary)
+        if orientations.iter().all(|oris| vert_in_tri(oris)) {
+            return true;
+        }
         for (i, j) in (0..verts.len()).circular_tuple_windows() {
             for k in 0..3 {
                 if sign_reversed(orientations[i][k], orientations[j][k]) {
-- 
2.43.0


From 5426922bed6f27d19bf49088274a7f20883cd387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:18 +0000
Subject: [PATCH 23/24] fix: outlines dropped a vertex on a straight edge where
 a neighbouring face touches itself

Faces on one side of the edge then skipped the vertex while the outline of the
other side kept it, and the output was not closed.
---
 src/polygonlization/bsp_complex.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/polygonlization/bsp_complex.rs b/src/polygonlization/bsp_complex.rs
index de85e9a..70a6f48 100644
--- a/src/polygonlization/bsp_complex.rs
+++ b/src/polygonlization/bsp_complex.rs
@@ -895,6 +895,15 @@ impl BSPComplex {
             groups.dedup();
             groups
         }));
+        // number of edges between different groups at each vertex
+        let mut vert_outline_edges = vec![0; self.vertex_data.len()];
+        for edge in self.mesh.edges() {
+            if edge_face_groups[*edge].len() > 1 {
+                for vid in self.mesh.e_vertices(*edge) {
+                    vert_outline_edges[vid] += 1;
+                }
+            }
+        }
 
         Vec::from_iter(group_map.into_values().map(|indices| {
             bump.reset();
@@ -929,6 +938,7 @@ impl BSPComplex {
                         &mut edge_groups,
                         &mut edge_in_group,
                         &edge_face_groups,
+                        &vert_outline_edges,
                         axis,
                         &bump,
                     )
@@ -1077,6 +1087,7 @@ impl BSPComplex {
         edge_groups: &mut Vec<EdgeGroup>,
         edge_in_group: &mut [usize],
         edge_face_groups: &[Vec<usize>],
+        vert_outline_edges: &[usize],
         axis: usize,
         bump: A,
     ) -> Vec<VertexId> {
@@ -1099,6 +1110,11 @@ impl BSPComplex {
                 return false;
             }
 
+            // the vertex in between is a corner of some outline
+            if vert_outline_edges[end_vertex(ha)] > 2 {
+                return false;
+            }
+
             if self.edge_data[ha.0].id == self.edge_data[hb.0].id {
                 return true;
             }
-- 
2.43.0


From 323472cb5598d96a382f341a87562cee487d7a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:21 +0000
Subject: [PATCH 24/24] fix: a triangle whose overlap with a section is bounded
 by the section's corners was not inserted

---
 src/polygonlization/conforming_mesh.rs | 43 +++++---------------------
 1 file changed, 7 insertions(+), 36 deletions(-)

diff --git a/src/polygonlization/conforming_mesh.rs b/src/polygonlization/conforming_mesh.rs
index 0145b5a..3c7ddd7 100644
--- a/src/polygonlization/conforming_mesh.rs
+++ b/src/polygonlization/conforming_mesh.rs
@@ -166,24 +166,6 @@ struct IntersectInfo<A: Allocator + Copy> {
     visited: Vec<bool, A>,
 }
 
-#[inline(always)]
-fn vert_inner_segment_cross<A: Allocator + Copy>(
-    mesh: &TetMesh,
-    u1: usize,
-    u2: usize,
-    v1: usize,
-    v2: usize,
-    allocator: A,
-) -> bool {
-    inner_segments_cross(
-        mesh.point(u1),
-        mesh.point(u2),
-        mesh.point(v1),
-        mesh.point(v2),
-        allocator,
-    )
-}
-
 #[inline(always)]
 fn vert_inner_segment_cross_inner_triangle<A: Allocator + Copy>(
     mesh: &TetMesh,
@@ -885,24 +867,13 @@ fn constraint_intersect_empty<A: Allocator + Copy>(
     pos_vs: &[usize],
     bump: A,
 ) -> bool {
-    let mut all_cross = true;
-    for &nv in neg_vs {
-        if !all_cross {
-            break;
-        }
-        for &pv in pos_vs {
-            if !c
-                .iter()
-                .circular_tuple_windows()
-                .any(|(&va, &vb)| vert_inner_segment_cross(mesh, nv, pv, va, vb, bump))
-            {
-                all_cross = false;
-                break;
-            }
-        }
-    }
-
-    if all_cross {
+    // three corners of the section are in the triangle, perhaps on its boundary
+    let n_cross = neg_vs
+        .iter()
+        .flat_map(|&nv| pos_vs.iter().map(move |&pv| (nv, pv)))
+        .filter(|&(nv, pv)| vert_inner_segment_cross_triangle(mesh, nv, pv, c, bump))
+        .count();
+    if n_cross > 2 {
         return true;
     }
 
-- 
2.43.0

