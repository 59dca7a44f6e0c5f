From e12a0ad1207b12b39faa464a8fac89c083a325e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:40 +0000
Subject: [PATCH 01/22] fix: tolerate circle event rounding in the
 point-point-segment range check

The 'is the event within the segment' check of point-point-segment circle
events compared a rounded projection against [0..1] with a 4 ulps fuzz, while
the coordinates are only known to within 128 ulps. Valid circle events were
dropped and build() produced corrupt diagrams or an error.
---
 .../src/predicate/lazy_circle_formation.rs        | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/workspace/boostvoronoi_core/src/predicate/lazy_circle_formation.rs b/workspace/boostvoronoi_core/src/predicate/lazy_circle_formation.rs
index d616568..7f534d7 100644
--- a/workspace/boostvoronoi_core/src/predicate/lazy_circle_formation.rs
+++ b/workspace/boostvoronoi_core/src/predicate/lazy_circle_formation.rs
@@ -261,13 +261,22 @@ pub(crate) fn pps<I: InputType, F: OutputType>(
             cast::<I, f64>(site3.point1().x) - cast::<I, f64>(site3.point0().x),
             cast::<I, f64>(site3.point1().y) - cast::<I, f64>(site3.point0().y),
         );
+        let sqr_len = v_3.0 * v_3.0 + v_3.1 * v_3.1;
         #[allow(clippy::suspicious_operation_groupings)]
-        let dot = (v_3_c.0 * v_3.0 + v_3_c.1 * v_3.1) / (v_3.0 * v_3.0 + v_3.1 * v_3.1);
+        let dot = (v_3_c.0 * v_3.0 + v_3_c.1 * v_3.1) / sqr_len;
         tln!("pps dot:{:.12}", dot);
 
+        // The coordinates of the circle event are only exact to within ULPSX2 ulps, this is how
+        // much of that uncertainty ends up in the dot product.
+        let dot_error = ULPSX2 as f64
+            * f64::EPSILON
+            * (c_event.x().abs() * v_3.0.abs() + c_event.y().abs() * v_3.1.abs())
+            / sqr_len;
+
         // allow the dot to be [0..1] + some ULP fuzz
-        let rv =
-            (-0.0..=1.0).contains(&dot) || approx::ulps_eq!(0.0, dot) || approx::ulps_eq!(1.0, dot);
+        let rv = (-dot_error..=1.0 + dot_error).contains(&dot)
+            || approx::ulps_eq!(0.0, dot)
+            || approx::ulps_eq!(1.0, dot);
 
         #[cfg(feature = "ce_corruption_check")]
         if !rv {
-- 
2.43.0


From c7caba42d19163a6d65735ab7dc1bb48c5987d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:47 +0000
Subject: [PATCH 02/22] fix: compute the cross products of the orientation
 predicates without 64 bit overflow

---
 workspace/boostvoronoi_core/src/predicate.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/workspace/boostvoronoi_core/src/predicate.rs b/workspace/boostvoronoi_core/src/predicate.rs
index e260225..193c8c0 100644
--- a/workspace/boostvoronoi_core/src/predicate.rs
+++ b/workspace/boostvoronoi_core/src/predicate.rs
@@ -63,27 +63,28 @@ fn robust_cross_product<I: InputType, F: OutputType>(s_a1: I, s_b1: I, s_a2: I,
     let u_a2 = if s_a2 < I::zero() { -s_a2 } else { s_a2 };
     let u_b2 = if s_b2 < I::zero() { -s_b2 } else { s_b2 };
 
-    let l = u_a1 * u_b2;
-    let r = u_b1 * u_a2;
+    // The products (and their sum) do not always fit in a 64 bit integer
+    let l = cast::<I, u128>(u_a1) * cast::<I, u128>(u_b2);
+    let r = cast::<I, u128>(u_b1) * cast::<I, u128>(u_a2);
 
     if (s_a1 < I::zero()) ^ (s_b2 < I::zero()) {
         return if (s_a2 < I::zero()) ^ (s_b1 < I::zero()) {
             if l > r {
-                -cast::<I, F>(l - r)
+                -cast::<u128, F>(l - r)
             } else {
-                cast::<I, F>(r - l)
+                cast::<u128, F>(r - l)
             }
         } else {
-            -cast::<I, F>(l + r)
+            -cast::<u128, F>(l + r)
         };
     }
     if (s_a2 < I::zero()) ^ (s_b1 < I::zero()) {
-        return cast::<I, F>(l + r);
+        return cast::<u128, F>(l + r);
     }
     if l < r {
-        -cast::<I, F>(r - l)
+        -cast::<u128, F>(r - l)
     } else {
-        cast::<I, F>(l - r)
+        cast::<u128, F>(l - r)
     }
 }
 
-- 
2.43.0


From 2149f30b70cc15b2810b776eaa7fc72e712798f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:29 +0000
Subject: [PATCH 03/22] fix: insert new beach line nodes next to the position
 they were located at

The position hint was lost when the new arc is above the last node, and for
the temporary bisectors: the search then started at the head of the list, and
rounding in the comparison of other nodes could place them somewhere else.
---
 workspace/boostvoronoi_core/src/beach_line.rs | 10 ++++++++--
 workspace/boostvoronoi_core/src/builder.rs    | 18 +++++++++++-------
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/workspace/boostvoronoi_core/src/beach_line.rs b/workspace/boostvoronoi_core/src/beach_line.rs
index f4f6183..9ccb3c2 100644
--- a/workspace/boostvoronoi_core/src/beach_line.rs
+++ b/workspace/boostvoronoi_core/src/beach_line.rs
@@ -174,6 +174,7 @@ impl<I: InputType, F: OutputType> BeachLine<I, F> {
     #[cfg(feature = "console_debug")]
     pub(crate) fn insert_2(
         &mut self,
+        position: usize,
         key: BeachLineNodeKey<I, F>,
         _ce: &VC::CircleEventQueue,
     ) -> Result<(BeachLineNodeKey<I, F>, BeachLineIndex), BvError> {
@@ -181,7 +182,7 @@ impl<I: InputType, F: OutputType> BeachLine<I, F> {
         let node_index = BeachLineIndex(
             self.beach_line_
                 .borrow_mut()
-                .ordered_insert(key, data_node)?,
+                .ordered_insert_pos(key, data_node, position)?,
         );
         t!("inserted beach_line:");
         self.dbgpa_compat_node_(&key, self.beach_line_.borrow().get_v(node_index.0)?, _ce)?;
@@ -193,10 +194,15 @@ impl<I: InputType, F: OutputType> BeachLine<I, F> {
     #[cfg(not(feature = "console_debug"))]
     pub(crate) fn insert_2(
         &mut self,
+        position: usize,
         key: BeachLineNodeKey<I, F>,
     ) -> Result<(BeachLineNodeKey<I, F>, BeachLineIndex), BvError> {
         let node = Rc::new(Cell::new(None));
-        let node_index = BeachLineIndex(self.beach_line_.borrow_mut().ordered_insert(key, node)?);
+        let node_index = BeachLineIndex(
+            self.beach_line_
+                .borrow_mut()
+                .ordered_insert_pos(key, node, position)?,
+        );
         Ok((key, node_index))
     }
 
diff --git a/workspace/boostvoronoi_core/src/builder.rs b/workspace/boostvoronoi_core/src/builder.rs
index 31647c1..a2c33d8 100644
--- a/workspace/boostvoronoi_core/src/builder.rs
+++ b/workspace/boostvoronoi_core/src/builder.rs
@@ -490,12 +490,12 @@ impl<I: InputType, F: OutputType> Builder<I, F> {
                 let site_arc = *(left_it.get_k()?.right_site());
 
                 // todo: insert_new_arc should return a new pointer
-                // Insert new nodes into the beach line. Update the output.
+                // Insert new nodes into the beach line, after the last node. Update the output.
                 let right_it_idx = self.insert_new_arc(
                     site_arc,
                     site_arc,
                     site_event,
-                    right_it.current(),
+                    left_it.current(),
                     output,
                 )?;
                 right_it = self.beach_line_.get_pointer(right_it_idx)?;
@@ -864,14 +864,15 @@ impl<I: InputType, F: OutputType> Builder<I, F> {
         // Update the output.
         let edges = output.insert_new_edge_2_(site_arc2, site_event);
 
+        // Every new node is inserted right before the previous one.
         #[cfg(not(feature = "console_debug"))]
-        let _ = self.beach_line_.insert(
+        let (_, VB::BeachLineIndex(mut position)) = self.beach_line_.insert(
             position,
             new_right_node,
             Some(VB::BeachLineNodeData::new_1(edges.1)),
-        );
+        )?;
         #[cfg(feature = "console_debug")]
-        let _ = self.beach_line_.insert(
+        let (_, VB::BeachLineIndex(mut position)) = self.beach_line_.insert(
             position,
             new_right_node,
             VB::BeachLineNodeData::new_1(edges.1),
@@ -892,9 +893,12 @@ impl<I: InputType, F: OutputType> Builder<I, F> {
                 VB::BeachLineNodeKey::<I, F>::new_2(site_event, *site_event.clone().inverse());
 
             #[cfg(feature = "console_debug")]
-            let (_, index) = self.beach_line_.insert_2(new_node, &self.circle_events_)?;
+            let (_, index) = self
+                .beach_line_
+                .insert_2(position, new_node, &self.circle_events_)?;
             #[cfg(not(feature = "console_debug"))]
-            let (_, index) = self.beach_line_.insert_2(new_node)?;
+            let (_, index) = self.beach_line_.insert_2(position, new_node)?;
+            position = index.0;
 
             #[cfg(feature = "console_debug")]
             {
-- 
2.43.0


From b8a431dc5ba60a09e5f5f928bc3fa4e1ad5c70f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:46 +0000
Subject: [PATCH 04/22] fix: no circle event for a segment and its two
 endpoints in reverse order

---
 workspace/boostvoronoi_core/src/predicate/circle_existence.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/workspace/boostvoronoi_core/src/predicate/circle_existence.rs b/workspace/boostvoronoi_core/src/predicate/circle_existence.rs
index 2a21d3f..3cac17a 100644
--- a/workspace/boostvoronoi_core/src/predicate/circle_existence.rs
+++ b/workspace/boostvoronoi_core/src/predicate/circle_existence.rs
@@ -96,7 +96,9 @@ pub(crate) fn pps<I: InputType, F: OutputType>(
             return false;
         }
     } else {
-        return (site3.point0() != point1) || (site3.point1() != point2);
+        // No circle touches a segment between its endpoints and passes through both of them.
+        return (site3.point0() != point1 || site3.point1() != point2)
+            && (site3.point0() != point2 || site3.point1() != point1);
     }
     true
 }
-- 
2.43.0


From 3b31b05fd6fe8cb2349cf9894e5598c79c0f40a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:28 +0000
Subject: [PATCH 05/22] fix: decide on which side of a segment's end point a
 new site lies in both directions

The arc of a segment continues the arc of its end point without a kink, so
comparing the two distances is dominated by rounding errors close to where they
meet: the site was inserted into the wrong arc, and arcs (and cells) got lost,
e.g. for the segments (-10000,1)-(0,0) and (0,-10000)-(0,0).
---
 workspace/boostvoronoi_core/src/predicate.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/workspace/boostvoronoi_core/src/predicate.rs b/workspace/boostvoronoi_core/src/predicate.rs
index 193c8c0..814f2e2 100644
--- a/workspace/boostvoronoi_core/src/predicate.rs
+++ b/workspace/boostvoronoi_core/src/predicate.rs
@@ -489,10 +489,14 @@ pub(crate) mod distance_predicate {
         let a = cast::<I, f64>(segment_end.x) - cast::<I, f64>(segment_start.x);
         let b = cast::<I, f64>(segment_end.y) - cast::<I, f64>(segment_start.y);
 
+        // The arc of a segment continues the arc of its own end point without a kink: their distances
+        // can not be told apart there, but the tests below decide both ways.
+        let is_end_point = site_point == segment_start || site_point == segment_end;
+
         if right_site.is_vertical() {
-            if new_point.y < site_point.y && !reverse_order {
+            if new_point.y < site_point.y && (is_end_point || !reverse_order) {
                 return KPredicateResult::MORE;
-            } else if new_point.y > site_point.y && reverse_order {
+            } else if new_point.y > site_point.y && (is_end_point || reverse_order) {
                 return KPredicateResult::LESS;
             }
             return KPredicateResult::UNDEFINED;
@@ -525,8 +529,8 @@ pub(crate) mod distance_predicate {
         let expr_cmp = ulp_comparison(fast_left_expr, fast_right_expr, 4);
 
         if expr_cmp != cmp::Ordering::Equal {
-            if (expr_cmp == cmp::Ordering::Greater) ^ reverse_order {
-                if reverse_order {
+            if is_end_point || (expr_cmp == cmp::Ordering::Greater) ^ reverse_order {
+                if expr_cmp == cmp::Ordering::Less {
                     KPredicateResult::LESS
                 } else {
                     KPredicateResult::MORE
-- 
2.43.0


From d4c76331aa7678ca3532b69280ea1da42d671d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:32 +0000
Subject: [PATCH 06/22] fix: return an IdError for ids that do not exist

---
 workspace/boostvoronoi_core/src/diagram.rs | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/workspace/boostvoronoi_core/src/diagram.rs b/workspace/boostvoronoi_core/src/diagram.rs
index 081fc40..4b62839 100644
--- a/workspace/boostvoronoi_core/src/diagram.rs
+++ b/workspace/boostvoronoi_core/src/diagram.rs
@@ -1045,6 +1045,7 @@ impl<F: OutputType> Diagram<F> {
         vertex_id: VertexIndex,
         color: ColorType,
     ) -> Result<(), BvError> {
+        let _ = self.vertex_get(vertex_id)?;
         self.vertex_set_color_(Some(vertex_id), color);
         Ok(())
     }
@@ -1084,16 +1085,7 @@ impl<F: OutputType> Diagram<F> {
 
     #[inline]
     pub(crate) fn edge_get_(&self, edge_id: Option<EdgeIndex>) -> Option<&EdgeType> {
-        let rv = self.edges_.get(edge_id?.0);
-        debug_assert!({
-            if rv.is_none() {
-                dbg!(edge_id.unwrap().0);
-                // todo: remove this panic and raise error?
-                panic!();
-            };
-            true
-        });
-        rv
+        self.edges_.get(edge_id?.0)
     }
 
     /// Overwrites the content of dest with the content of source.
@@ -1138,8 +1130,8 @@ impl<F: OutputType> Diagram<F> {
 
     #[inline]
     /// Sets the color field with new value
-    // todo: raise proper error when id not found
     pub fn edge_set_color(&self, edge_id: EdgeIndex, color: ColorType) -> Result<(), BvError> {
+        let _ = self.get_edge(edge_id)?;
         self.edge_set_color_(Some(edge_id), color);
         Ok(())
     }
@@ -1159,8 +1151,8 @@ impl<F: OutputType> Diagram<F> {
 
     #[inline]
     /// OR the previous color field value with this new color value
-    // Todo: add error on edge index problems
     pub fn edge_or_color(&self, edge_id: EdgeIndex, color: ColorType) -> Result<(), BvError> {
+        let _ = self.get_edge(edge_id)?;
         self.edge_or_color_(Some(edge_id), color);
         Ok(())
     }
@@ -1247,7 +1239,7 @@ impl<F: OutputType> Diagram<F> {
     /// Returns false if the edge is infinite (ray, line).
     #[inline]
     pub(crate) fn edge_is_finite_(&self, edge_id: Option<EdgeIndex>) -> Option<bool> {
-        let _ = edge_id?;
+        let _ = self.edge_get_(edge_id)?;
         Some(self.edge_get_vertex0_(edge_id).is_some() && self.edge_get_vertex1_(edge_id).is_some())
     }
 
@@ -1346,8 +1338,8 @@ impl<F: OutputType> Diagram<F> {
     }
 
     #[inline]
-    // todo: add error when edge is not found
     pub fn edge_get_vertex0(&self, edge_id: EdgeIndex) -> Result<Option<VertexIndex>, BvError> {
+        let _ = self.get_edge(edge_id)?;
         Ok(self.edge_get_vertex0_(Some(edge_id)))
     }
 
@@ -1359,8 +1351,8 @@ impl<F: OutputType> Diagram<F> {
     }
 
     #[inline]
-    // todo: add error when edge is not found
     pub fn edge_get_vertex1(&self, edge_id: EdgeIndex) -> Result<Option<VertexIndex>, BvError> {
+        let _ = self.get_edge(edge_id)?;
         Ok(self.edge_get_vertex1_(Some(edge_id)))
     }
 
-- 
2.43.0


From c72e6bd0a8abb474821ecd325a9b27a73d2e39cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:12 +0000
Subject: [PATCH 07/22] fix: color exterior edges without recursion

---
 workspace/boostvoronoi_core/src/diagram.rs | 58 +++++++++++-----------
 1 file changed, 30 insertions(+), 28 deletions(-)

diff --git a/workspace/boostvoronoi_core/src/diagram.rs b/workspace/boostvoronoi_core/src/diagram.rs
index 4b62839..98779b4 100644
--- a/workspace/boostvoronoi_core/src/diagram.rs
+++ b/workspace/boostvoronoi_core/src/diagram.rs
@@ -793,35 +793,37 @@ impl<F: OutputType> Diagram<F> {
     /// Mark all edges connected to an 'infinite' edge via primary edges as 'external'
     /// You should only call this on edges that you know are infinite. i.e. lacks one or two vertexes
     fn recurse_color_exterior(&self, edge_id: Option<EdgeIndex>, external_color: ColorType) {
-        if edge_id.is_none() || (self.edge_get_color_(edge_id).unwrap() & external_color) != 0 {
-            // This edge has already been colored, break recursion
-            return;
-        }
-        // Color edge as EXTERNAL
-        self.edge_or_color_(edge_id, external_color);
+        // Use stack to avoid recursion, the path can be as long as the number of edges.
+        let mut edge_stack = vec![edge_id];
+        while let Some(edge_id) = edge_stack.pop() {
+            if edge_id.is_none() || (self.edge_get_color_(edge_id).unwrap() & external_color) != 0 {
+                // This edge has already been colored, go no further
+                continue;
+            }
+            // Color edge as EXTERNAL
+            self.edge_or_color_(edge_id, external_color);
 
-        let v1 = self.edge_get_vertex1_(edge_id);
-        if self.edge_get_vertex0_(edge_id).is_some() && v1.is_none() {
-            // this edge leads to nowhere, break recursion
-            return;
-        }
-        // Color twin edge as EXTERNAL
-        self.edge_or_color_(self.edge_get_twin_(edge_id), external_color);
-        if v1.is_none()
-            || self.vertex_is_site_point_(v1).unwrap_or(true)
-            || !self
-                .get_edge_(edge_id)
-                .map_or(false, |x| x.get().is_primary())
-        {
-            // stop recursion if this edge does not have a vertex1 (e.g is infinite)
-            // or if this edge isn't a primary edge.
-            return;
-        }
-        self.vertex_set_color_(v1, external_color);
-        let incident_edge = self.vertex_get_incident_edge(v1);
-        for e in self.edge_rot_next_iterator(incident_edge) {
-            // mark all surrounding edges as EXTERNAL, but only recurse on primary edges
-            self.recurse_color_exterior(Some(e), external_color);
+            let v1 = self.edge_get_vertex1_(edge_id);
+            if self.edge_get_vertex0_(edge_id).is_some() && v1.is_none() {
+                // this edge leads to nowhere, go no further
+                continue;
+            }
+            // Color twin edge as EXTERNAL
+            self.edge_or_color_(self.edge_get_twin_(edge_id), external_color);
+            if v1.is_none()
+                || self.vertex_is_site_point_(v1).unwrap_or(true)
+                || !self
+                    .get_edge_(edge_id)
+                    .map_or(false, |x| x.get().is_primary())
+            {
+                // go no further if this edge does not have a vertex1 (e.g is infinite)
+                // or if this edge isn't a primary edge.
+                continue;
+            }
+            self.vertex_set_color_(v1, external_color);
+            let incident_edge = self.vertex_get_incident_edge(v1);
+            // mark all surrounding edges as EXTERNAL, but only continue on primary edges
+            edge_stack.extend(self.edge_rot_next_iterator(incident_edge).map(Some));
         }
     }
 
-- 
2.43.0


From 402f6c7bc0cb179c8ca806dc5b329fb5c5e38c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:15 +0000
Subject: [PATCH 08/22] fix: implement Zero::is_zero for ExtendedInt

---
 workspace/boostvoronoi_ext/src/extended_int.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/workspace/boostvoronoi_ext/src/extended_int.rs b/workspace/boostvoronoi_ext/src/extended_int.rs
index 8299d28..bbd7c8e 100644
--- a/workspace/boostvoronoi_ext/src/extended_int.rs
+++ b/workspace/boostvoronoi_ext/src/extended_int.rs
@@ -92,7 +92,7 @@ impl Zero for ExtendedInt {
     }
     #[inline]
     fn is_zero(&self) -> bool {
-        unimplemented!()
+        self.count_ == 0
     }
 }
 
-- 
2.43.0


From a591b5e68ca6efeb8301530521b33a334a37b642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:29 +0000
Subject: [PATCH 09/22] fix: construct an ExtendedInt from i64::MIN

---
 workspace/boostvoronoi_ext/src/extended_int.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/workspace/boostvoronoi_ext/src/extended_int.rs b/workspace/boostvoronoi_ext/src/extended_int.rs
index bbd7c8e..bc7e83e 100644
--- a/workspace/boostvoronoi_ext/src/extended_int.rs
+++ b/workspace/boostvoronoi_ext/src/extended_int.rs
@@ -59,7 +59,7 @@ impl<I: InputType> From<I> for ExtendedInt {
                 }
             }
             cmp::Ordering::Less => {
-                let mut c: u64 = (-that) as u64;
+                let mut c: u64 = that.unsigned_abs();
                 rv.chunks_.push(Wrapping((c & 0xFFFFFFFF) as u32));
                 c >>= 32;
                 if c != 0 {
-- 
2.43.0


From f825d1ef9a7b598f160bb7856f8da554a44d5dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:54 +0000
Subject: [PATCH 10/22] fix: drop all leading zero words of a difference of
 ExtendedInt

---
 workspace/boostvoronoi_ext/src/extended_int.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/workspace/boostvoronoi_ext/src/extended_int.rs b/workspace/boostvoronoi_ext/src/extended_int.rs
index bc7e83e..ab36d82 100644
--- a/workspace/boostvoronoi_ext/src/extended_int.rs
+++ b/workspace/boostvoronoi_ext/src/extended_int.rs
@@ -269,7 +269,6 @@ impl ExtendedInt {
             }
             sz2 = sz1;
         }
-        self.count_ = (sz1 - 1) as i32;
         let mut flag = false;
 
         for _i in self.chunks_.len()..sz1 {
@@ -284,15 +283,11 @@ impl ExtendedInt {
             self.chunks_[i] = c1_i - if flag { Wrapping(1) } else { Wrapping(0) };
             flag = (c1_i.0 == 0) && flag;
         }
-        if self.chunks_[self.count_ as usize].0 != 0 {
-            self.count_ += 1;
-            if (self.count_ as usize) > self.chunks_.len() {
-                self.chunks_.push(Wrapping(0));
-            }
-        }
-        if (self.count_ as usize) < self.chunks_.len() {
+        // any number of the leading words may have cancelled
+        while self.chunks_.last().map_or(false, |c| c.0 == 0) {
             let _ = self.chunks_.pop();
         }
+        self.count_ = self.chunks_.len() as i32;
     }
 
     fn mul_other(&mut self, e1: &Self, e2: &Self) {
-- 
2.43.0


From f08c70a74a0b528f6b00ae0bfa7b11eb10b26780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:17 +0000
Subject: [PATCH 11/22] fix: a zero of any exponent is neutral for sums of
 ExtendedExponentFpt

---
 workspace/boostvoronoi_ext/src/extended_exp_fpt.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/workspace/boostvoronoi_ext/src/extended_exp_fpt.rs b/workspace/boostvoronoi_ext/src/extended_exp_fpt.rs
index 3e29d9e..0c32e77 100644
--- a/workspace/boostvoronoi_ext/src/extended_exp_fpt.rs
+++ b/workspace/boostvoronoi_ext/src/extended_exp_fpt.rs
@@ -273,12 +273,16 @@ impl ops::Add for ExtendedExponentFpt<f64> {
     /// approx::assert_ulps_eq!(c.d(), 3000000000_f64);
     /// ```
     fn add(self, that: Self) -> Self {
-        if self.val_ == 0.0 || that.exp_ > self.exp_ + MAX_SIGNIFICANT_EXP_DIF_F64 {
+        // the exponent of a zero has no significance
+        if self.val_ == 0.0 {
             return that;
         }
         if that.val_ == 0.0 || self.exp_ > that.exp_ + MAX_SIGNIFICANT_EXP_DIF_F64 {
             return self;
         }
+        if that.exp_ > self.exp_ + MAX_SIGNIFICANT_EXP_DIF_F64 {
+            return that;
+        }
         if self.exp_ >= that.exp_ {
             let exp_dif = self.exp_ - that.exp_;
             let val = libm::ldexp(self.val_, exp_dif) + that.val_;
@@ -313,12 +317,16 @@ impl ops::Sub for ExtendedExponentFpt<f64> {
     /// approx::assert_ulps_eq!(c.d(), 1000000000_f64-(-3000000000.0));
     /// ```
     fn sub(self, that: Self) -> Self {
-        if self.val_ == 0.0 || that.exp_ > self.exp_ + MAX_SIGNIFICANT_EXP_DIF_F64 {
-            return Self::new(-that.val_, that.exp_);
+        // the exponent of a zero has no significance
+        if self.val_ == 0.0 {
+            return -that;
         }
         if that.val_ == 0.0 || self.exp_ > that.exp_ + MAX_SIGNIFICANT_EXP_DIF_F64 {
             return self;
         }
+        if that.exp_ > self.exp_ + MAX_SIGNIFICANT_EXP_DIF_F64 {
+            return -that;
+        }
         if self.exp_ >= that.exp_ {
             let exp_dif = self.exp_ - that.exp_;
             let val = libm::ldexp(self.val_, exp_dif) - that.val_;
-- 
2.43.0


From 506192f7ef3980b3cfc8877d86d1ea163005826c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:59 +0000
Subject: [PATCH 12/22] fix: assigning operators of ExtendedExponentFpt give
 the value of the operators

---
 .../boostvoronoi_ext/src/extended_exp_fpt.rs  | 45 ++-----------------
 1 file changed, 4 insertions(+), 41 deletions(-)

diff --git a/workspace/boostvoronoi_ext/src/extended_exp_fpt.rs b/workspace/boostvoronoi_ext/src/extended_exp_fpt.rs
index 0c32e77..d472edb 100644
--- a/workspace/boostvoronoi_ext/src/extended_exp_fpt.rs
+++ b/workspace/boostvoronoi_ext/src/extended_exp_fpt.rs
@@ -462,25 +462,7 @@ impl ops::AddAssign for ExtendedExponentFpt<f64> {
     /// approx::assert_ulps_eq!(a.d(), 3000000000_f64);
     /// ```
     fn add_assign(&mut self, that: Self) {
-        if self.val_ == 0.0 || that.exp_ > self.exp_ + MAX_SIGNIFICANT_EXP_DIF_F64 {
-            self.val_ = that.val_;
-            self.exp_ = that.exp_;
-        }
-        if that.val_ == 0.0 || self.exp_ > that.exp_ + MAX_SIGNIFICANT_EXP_DIF_F64 {
-            // do nothing
-            return;
-        }
-        if self.exp_ >= that.exp_ {
-            let exp_dif = self.exp_ - that.exp_;
-            let val = libm::ldexp(self.val_, exp_dif) + that.val_;
-            self.val_ = val;
-            self.exp_ = that.exp_;
-        } else {
-            let exp_dif = that.exp_ - self.exp_;
-            let val = libm::ldexp(that.val_, exp_dif) + self.val_;
-            self.val_ = val;
-            //self.exp_ = self.exp;
-        }
+        *self = *self + that;
     }
 }
 
@@ -505,24 +487,7 @@ impl ops::SubAssign for ExtendedExponentFpt<f64> {
     /// approx::assert_ulps_eq!(a.d(), 1000000000_f64-(-3000000000.0));
     /// ```
     fn sub_assign(&mut self, that: Self) {
-        if self.val_ == 0.0 || that.exp_ > self.exp_ + MAX_SIGNIFICANT_EXP_DIF_F64 {
-            self.val_ = -that.val_;
-            self.exp_ = that.exp_;
-        }
-        if that.val_ == 0.0 || self.exp_ > that.exp_ + MAX_SIGNIFICANT_EXP_DIF_F64 {
-            return;
-        }
-        if self.exp_ >= that.exp_ {
-            let exp_dif = self.exp_ - that.exp_;
-            let val = libm::ldexp(self.val_, exp_dif) - that.val_;
-            self.val_ = val;
-            self.exp_ = that.exp_;
-        } else {
-            let exp_dif = that.exp_ - self.exp_;
-            let val = libm::ldexp(-that.val_, exp_dif) + self.val_;
-            self.val_ = val;
-            //self.exp_ = self.exp_;
-        }
+        *self = *self - that;
     }
 }
 
@@ -545,8 +510,7 @@ impl ops::MulAssign for ExtendedExponentFpt<f64> {
     /// approx::assert_ulps_eq!(a.d(), 1000000000_f64*2000000000_f64);
     /// ```
     fn mul_assign(&mut self, that: Self) {
-        self.val_ *= that.val_;
-        self.exp_ += that.exp_;
+        *self = *self * that;
     }
 }
 
@@ -569,8 +533,7 @@ impl ops::DivAssign for ExtendedExponentFpt<f64> {
     /// approx::assert_ulps_eq!(a.d(), -1f64);
     /// ```
     fn div_assign(&mut self, that: Self) {
-        self.val_ /= that.val_;
-        self.exp_ -= that.exp_;
+        *self = *self / that;
     }
 }
 
-- 
2.43.0


From 31760220a06dde7956e76e20b96b1a9c8846cdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:51 +0000
Subject: [PATCH 13/22] fix: a RobustDif made from a negative number has that
 value

---
 workspace/boostvoronoi_ext/src/robust_fpt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/workspace/boostvoronoi_ext/src/robust_fpt.rs b/workspace/boostvoronoi_ext/src/robust_fpt.rs
index b96162c..4c5d72c 100644
--- a/workspace/boostvoronoi_ext/src/robust_fpt.rs
+++ b/workspace/boostvoronoi_ext/src/robust_fpt.rs
@@ -454,7 +454,7 @@ impl From<f64> for RobustDif {
         } else {
             Self {
                 positive_sum_: RobustFpt::default(),
-                negative_sum_: RobustFpt::from(value),
+                negative_sum_: RobustFpt::from(-value),
             }
         }
     }
-- 
2.43.0


From 439ec7744e4c5dfbaeee241197ea84e3bf2da65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:51 +0000
Subject: [PATCH 14/22] fix: keep the sums of a RobustDif positive when it is
 multiplied with a negative f64

---
 workspace/boostvoronoi_ext/src/robust_fpt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/workspace/boostvoronoi_ext/src/robust_fpt.rs b/workspace/boostvoronoi_ext/src/robust_fpt.rs
index 4c5d72c..d82ef74 100644
--- a/workspace/boostvoronoi_ext/src/robust_fpt.rs
+++ b/workspace/boostvoronoi_ext/src/robust_fpt.rs
@@ -634,7 +634,7 @@ impl ops::Mul<f64> for RobustDif {
     type Output = RobustDif;
 
     fn mul(self, rhs_: f64) -> Self {
-        let rhs = RobustFpt::from(rhs_);
+        let rhs = RobustFpt::from(rhs_.abs());
         if is_pos_f(rhs_) {
             Self {
                 positive_sum_: self.positive_sum_ * rhs,
-- 
2.43.0


From e79a5d9f02a29e89a8553a4302241d99f37cb901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:51 +0000
Subject: [PATCH 15/22] fix: product of two RobustDif

---
 workspace/boostvoronoi_ext/src/robust_fpt.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/workspace/boostvoronoi_ext/src/robust_fpt.rs b/workspace/boostvoronoi_ext/src/robust_fpt.rs
index d82ef74..c6ea6d6 100644
--- a/workspace/boostvoronoi_ext/src/robust_fpt.rs
+++ b/workspace/boostvoronoi_ext/src/robust_fpt.rs
@@ -624,8 +624,10 @@ impl ops::Mul<RobustDif> for RobustDif {
 
     fn mul(self, rhs: RobustDif) -> Self {
         Self {
-            positive_sum_: self.positive_sum_ * rhs.positive_sum_,
-            negative_sum_: self.negative_sum_ * rhs.negative_sum_,
+            positive_sum_: self.positive_sum_ * rhs.positive_sum_
+                + self.negative_sum_ * rhs.negative_sum_,
+            negative_sum_: self.positive_sum_ * rhs.negative_sum_
+                + self.negative_sum_ * rhs.positive_sum_,
         }
     }
 }
@@ -692,8 +694,7 @@ impl ops::MulAssign<RobustFpt> for RobustDif {
 
 impl ops::MulAssign<RobustDif> for RobustDif {
     fn mul_assign(&mut self, rhs: RobustDif) {
-        self.positive_sum_ = self.positive_sum_ * rhs.positive_sum_;
-        self.negative_sum_ = self.negative_sum_ * rhs.negative_sum_;
+        *self = *self * rhs;
     }
 }
 
-- 
2.43.0


From 4555840f16c3c93d1cc3541a8e4df741aa241cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:51 +0000
Subject: [PATCH 16/22] fix: keep the sums of a RobustDif positive when it is
 divided by a negative RobustFpt

---
 workspace/boostvoronoi_ext/src/robust_fpt.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/workspace/boostvoronoi_ext/src/robust_fpt.rs b/workspace/boostvoronoi_ext/src/robust_fpt.rs
index c6ea6d6..63d2d54 100644
--- a/workspace/boostvoronoi_ext/src/robust_fpt.rs
+++ b/workspace/boostvoronoi_ext/src/robust_fpt.rs
@@ -708,7 +708,11 @@ impl fmt::Debug for RobustDif {
 }
 
 impl ops::DivAssign<RobustFpt> for RobustDif {
-    fn div_assign(&mut self, rhs: RobustFpt) {
+    fn div_assign(&mut self, mut rhs: RobustFpt) {
+        if rhs.is_neg() {
+            rhs = -rhs;
+            self.swap();
+        }
         self.positive_sum_ /= rhs;
         self.negative_sum_ /= rhs;
     }
-- 
2.43.0


From 3cbb364a17fafe03172e194dc0fd892d337df82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:30 +0000
Subject: [PATCH 17/22] fix: report the failure of the source instead of
 reading it for ever

---
 .../boostvoronoi_core/src/file_reader.rs      | 148 +++++++++---------
 1 file changed, 74 insertions(+), 74 deletions(-)

diff --git a/workspace/boostvoronoi_core/src/file_reader.rs b/workspace/boostvoronoi_core/src/file_reader.rs
index 4c555cb..3197613 100644
--- a/workspace/boostvoronoi_core/src/file_reader.rs
+++ b/workspace/boostvoronoi_core/src/file_reader.rs
@@ -123,58 +123,35 @@ pub fn read_boost_input_buffer<I: crate::InputType, F: std::io::Read>(
 
     // Read the file line by line using the lines() iterator from std::io::BufRead.
     for (index, line) in reader.lines().enumerate() {
-        if let Ok(line) = line {
-            //println!("got {:?}, state:{:?}", line, state);
-            if let Some(data) = line_to_data::<I>(&line) {
-                if state == StateMachine::StartingPoints {
-                    if let InputData::Number(n) = data {
-                        expected_points = n;
-                        if expected_points == 0 {
-                            state = StateMachine::StartingLines
-                        } else {
-                            state = StateMachine::ExpectPoints
-                        }
-                        continue;
+        // a source that fails would otherwise be read for ever
+        let line = line?;
+        //println!("got {:?}, state:{:?}", line, state);
+        if let Some(data) = line_to_data::<I>(&line) {
+            if state == StateMachine::StartingPoints {
+                if let InputData::Number(n) = data {
+                    expected_points = n;
+                    if expected_points == 0 {
+                        state = StateMachine::StartingLines
                     } else {
-                        println!(
-                            "#{}: can't read line {}. state:{:?} ignoring line",
-                            index + 1,
-                            line,
-                            state
-                        );
-                        break;
+                        state = StateMachine::ExpectPoints
                     }
-                } else if state == StateMachine::ExpectPoints {
-                    if expected_points > points.len() {
-                        if let InputData::Point(geometry::Point::<I> { x, y }) = data {
-                            points.push(geometry::Point { x, y });
-                            if expected_points == points.len() {
-                                state = StateMachine::StartingLines;
-                            }
-                        } else {
-                            println!(
-                                "#{}: can't read line {}. state:{:?} ignoring line",
-                                index + 1,
-                                line,
-                                state
-                            );
-                            break;
+                    continue;
+                } else {
+                    println!(
+                        "#{}: can't read line {}. state:{:?} ignoring line",
+                        index + 1,
+                        line,
+                        state
+                    );
+                    break;
+                }
+            } else if state == StateMachine::ExpectPoints {
+                if expected_points > points.len() {
+                    if let InputData::Point(geometry::Point::<I> { x, y }) = data {
+                        points.push(geometry::Point { x, y });
+                        if expected_points == points.len() {
+                            state = StateMachine::StartingLines;
                         }
-                        continue;
-                    } else {
-                        println!(
-                            "#{}: Got too many points {}. state:{:?} ignoring it",
-                            index + 1,
-                            line,
-                            state
-                        );
-                        break;
-                    }
-                } else if state == StateMachine::StartingLines {
-                    if let InputData::Number(n) = data {
-                        expected_lines = n;
-                        state = StateMachine::ExpectLines;
-                        continue;
                     } else {
                         println!(
                             "#{}: can't read line {}. state:{:?} ignoring line",
@@ -184,42 +161,65 @@ pub fn read_boost_input_buffer<I: crate::InputType, F: std::io::Read>(
                         );
                         break;
                     }
-                } else if state == StateMachine::ExpectLines {
-                    if expected_lines > lines.len() {
-                        if let InputData::Line(a_line) = data {
-                            lines.push(a_line);
-                            if expected_lines == lines.len() {
-                                break;
-                            }
-                            continue;
-                        } else {
-                            println!(
-                                "#{}: can't read line {} state:{:?} ignoring line",
-                                index + 1,
-                                line,
-                                state
-                            );
+                    continue;
+                } else {
+                    println!(
+                        "#{}: Got too many points {}. state:{:?} ignoring it",
+                        index + 1,
+                        line,
+                        state
+                    );
+                    break;
+                }
+            } else if state == StateMachine::StartingLines {
+                if let InputData::Number(n) = data {
+                    expected_lines = n;
+                    state = StateMachine::ExpectLines;
+                    continue;
+                } else {
+                    println!(
+                        "#{}: can't read line {}. state:{:?} ignoring line",
+                        index + 1,
+                        line,
+                        state
+                    );
+                    break;
+                }
+            } else if state == StateMachine::ExpectLines {
+                if expected_lines > lines.len() {
+                    if let InputData::Line(a_line) = data {
+                        lines.push(a_line);
+                        if expected_lines == lines.len() {
                             break;
                         }
+                        continue;
                     } else {
                         println!(
-                            "#{}: Got too many lines {}. state:{:?} ignoring line",
+                            "#{}: can't read line {} state:{:?} ignoring line",
                             index + 1,
                             line,
                             state
                         );
                         break;
                     }
+                } else {
+                    println!(
+                        "#{}: Got too many lines {}. state:{:?} ignoring line",
+                        index + 1,
+                        line,
+                        state
+                    );
+                    break;
                 }
-            };
-            println!(
-                "#{}: can't parse line {}. state:{:?} ignoring line",
-                index + 1,
-                line,
-                state
-            );
-            break;
-        }
+            }
+        };
+        println!(
+            "#{}: can't parse line {}. state:{:?} ignoring line",
+            index + 1,
+            line,
+            state
+        );
+        break;
     }
     if expected_lines < lines.len() {
         println!(
-- 
2.43.0


From 812083b01e123dcaa5c9243ef8880fe396bb4c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 18/22] fix: keep the start of an edge whose ends project to
 the same place on the segment

---
 workspace/boostvoronoi_core/src/visual_utils.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/workspace/boostvoronoi_core/src/visual_utils.rs b/workspace/boostvoronoi_core/src/visual_utils.rs
index 69cd74b..19895e1 100644
--- a/workspace/boostvoronoi_core/src/visual_utils.rs
+++ b/workspace/boostvoronoi_core/src/visual_utils.rs
@@ -122,9 +122,11 @@ impl VoronoiVisualUtils {
                 point_stack.push(mid_x);
             }
         }
-        // Update last point.
-        let discretization_len = discretization.len();
-        discretization[discretization_len - 1] = last_point;
+        // Update last point, but keep the first one if nothing was added.
+        if discretization.len() > 1 {
+            let _ = discretization.pop();
+        }
+        discretization.push(last_point);
     }
 
     /// Compute y(x) = ((x - a) * (x - a) + b * b) / (2 * b).
-- 
2.43.0


From 14e37a4a6718199142c613ee64b580b0d106db15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:32 +0000
Subject: [PATCH 19/22] fix: split a parabolic edge half way, the slope of a
 short edge has no significance

---
 workspace/boostvoronoi_core/src/visual_utils.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/workspace/boostvoronoi_core/src/visual_utils.rs b/workspace/boostvoronoi_core/src/visual_utils.rs
index 19895e1..792dd3a 100644
--- a/workspace/boostvoronoi_core/src/visual_utils.rs
+++ b/workspace/boostvoronoi_core/src/visual_utils.rs
@@ -93,8 +93,9 @@ impl VoronoiVisualUtils {
             let new_y = Self::parabola_y::<F>(new_x, rot_x, rot_y);
 
             // Compute coordinates of the point of the parabola that is
-            // furthest from the current line segment.
-            let mid_x = (new_y - cur_y) / (new_x - cur_x) * rot_y + rot_x;
+            // furthest from the current line segment. Its tangent is parallel to the line
+            // segment: it is half way between the ends, whatever rounding does to the slope.
+            let mid_x = (new_x + cur_x) / (F::one() + F::one());
             let mid_y = Self::parabola_y::<F>(mid_x, rot_x, rot_y);
 
             // Compute maximum distance between the given parabolic arc
-- 
2.43.0


From be811252050773aad168288363144252664b037a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:04 +0000
Subject: [PATCH 20/22] hook: internals for the model checker, behind
 cfg(boostvoronoi_mc)

---
 workspace/boostvoronoi_core/src/lib.rs       |  4 ++
 workspace/boostvoronoi_core/src/mc_hook.rs   | 71 ++++++++++++++++++++
 workspace/boostvoronoi_core/src/predicate.rs |  2 +
 3 files changed, 77 insertions(+)
 create mode 100644 workspace/boostvoronoi_core/src/mc_hook.rs

diff --git a/workspace/boostvoronoi_core/src/lib.rs b/workspace/boostvoronoi_core/src/lib.rs
index fe13c8f..9392c65 100644
--- a/workspace/boostvoronoi_core/src/lib.rs
+++ b/workspace/boostvoronoi_core/src/lib.rs
@@ -26,6 +26,8 @@
     ellipsis_inclusive_range_patterns,
     elided_lifetimes_in_paths
 )]
+// boostvoronoi_mc: hooks of the model checker
+#![allow(unknown_lints, unexpected_cfgs)]
 #![doc(issue_tracker_base_url = "https://github.com/eadf/boostvoronoi.rs/issues")]
 
 use num_traits::{Float, NumCast, PrimInt, Signed, Zero};
@@ -40,6 +42,8 @@ mod end_point;
 
 pub mod file_reader;
 pub mod geometry;
+#[cfg(boostvoronoi_mc)]
+pub mod mc_hook;
 pub(crate) mod predicate;
 pub(crate) mod robust_sqrt_expr;
 mod site_event;
diff --git a/workspace/boostvoronoi_core/src/mc_hook.rs b/workspace/boostvoronoi_core/src/mc_hook.rs
new file mode 100644
index 0000000..0e0069d
--- /dev/null
+++ b/workspace/boostvoronoi_core/src/mc_hook.rs
@@ -0,0 +1,71 @@
+//! Access to internals for a model checker: only compiled with `--cfg boostvoronoi_mc`.
+//! Not part of the API.
+
+use crate::circle_event::CircleEvent;
+use crate::robust_sqrt_expr as RF;
+use crate::site_event::SiteEvent;
+use crate::{cast, InputType, OutputType};
+use boostvoronoi_ext::extended_exp_fpt::ExtendedExponentFpt;
+use boostvoronoi_ext::extended_int::ExtendedInt;
+use std::cell::RefCell;
+
+/// `A[0] * sqrt(B[0]) + ..` of 1 to 4 terms.
+pub fn eval(a: &[ExtendedInt], b: &[ExtendedInt]) -> ExtendedExponentFpt<f64> {
+    match a.len() {
+        1 => RF::eval1(a, b),
+        2 => RF::eval2(a, b),
+        3 => RF::eval3(a, b),
+        _ => RF::eval4(a, b),
+    }
+}
+
+/// `A[0] * sqrt(B[0]) + A[1] * sqrt(B[1]) + A[2] + A[3] * sqrt(B[0] * B[1])`
+pub fn pss3(a: &[ExtendedInt], b: &[ExtendedInt]) -> ExtendedExponentFpt<f64> {
+    RF::sqrt_expr_evaluator_pss3(a, b)
+}
+
+/// `A[3] + A[0] * sqrt(B[0]) + A[1] * sqrt(B[1]) + A[2] * sqrt(B[3] * (sqrt(B[0] * B[1]) + B[2]))`
+pub fn pss4(a: &[ExtendedInt], b: &[ExtendedInt]) -> ExtendedExponentFpt<f64> {
+    RF::sqrt_expr_evaluator_pss4(a, b)
+}
+
+/// A circle event, and the sites it is made of: the point twice, or both ends of a segment.
+#[derive(Clone, Copy, Debug)]
+pub struct CircleRecord {
+    pub sites: [[i64; 4]; 3],
+    pub x: f64,
+    pub y: f64,
+    pub lower_x: f64,
+}
+
+thread_local! {
+    static CIRCLES: RefCell<Option<Vec<CircleRecord>>> = const { RefCell::new(None) };
+}
+
+/// Start recording the circle events that this thread computes.
+pub fn record_circles() {
+    CIRCLES.with(|c| *c.borrow_mut() = Some(Vec::new()));
+}
+
+/// The circle events since the start of the recording, which ends.
+pub fn take_circles() -> Vec<CircleRecord> {
+    CIRCLES.with(|c| c.borrow_mut().take()).unwrap_or_default()
+}
+
+pub(crate) fn circle<I: InputType, F: OutputType>(
+    sites: [&SiteEvent<I, F>; 3],
+    event: Option<&CircleEvent>,
+) {
+    if let Some(e) = event {
+        CIRCLES.with(|c| {
+            if let Some(list) = c.borrow_mut().as_mut() {
+                list.push(CircleRecord {
+                    sites: sites.map(|s| [s.x0(), s.y0(), s.x1(), s.y1()].map(cast::<I, i64>)),
+                    x: e.x(),
+                    y: e.y(),
+                    lower_x: e.lower_x(),
+                });
+            }
+        });
+    }
+}
diff --git a/workspace/boostvoronoi_core/src/predicate.rs b/workspace/boostvoronoi_core/src/predicate.rs
index 814f2e2..912f4e7 100644
--- a/workspace/boostvoronoi_core/src/predicate.rs
+++ b/workspace/boostvoronoi_core/src/predicate.rs
@@ -827,6 +827,8 @@ pub(crate) mod circle_formation_predicate {
                 return None;
             }
         }
+        #[cfg(boostvoronoi_mc)]
+        crate::mc_hook::circle([site1, site2, site3], circle.as_ref());
         #[cfg(all(feature = "geo", feature = "ce_corruption_check"))]
         if let Some(circle) = circle.as_ref() {
             circle_existence::validate_circle_formation::<I, F>(site1, site2, site3, circle);
-- 
2.43.0


From 46232a3b01d3dc456f992c105e60c085d6861d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:20 +0000
Subject: [PATCH 21/22] fix: no circle event for a point, a point and a segment
 in the wrong order

---
 workspace/boostvoronoi_core/src/predicate.rs | 50 +++++++++++++++++++-
 1 file changed, 49 insertions(+), 1 deletion(-)

diff --git a/workspace/boostvoronoi_core/src/predicate.rs b/workspace/boostvoronoi_core/src/predicate.rs
index 912f4e7..72c1316 100644
--- a/workspace/boostvoronoi_core/src/predicate.rs
+++ b/workspace/boostvoronoi_core/src/predicate.rs
@@ -679,7 +679,7 @@ pub(crate) mod node_comparison_predicate {
 pub(crate) mod circle_formation_predicate {
     use crate::beach_line as VB;
     use crate::ctypes::ulp_comparison;
-    use crate::predicate::{circle_existence, lazy_circle_formation, SiteIndex};
+    use crate::predicate::{circle_existence, lazy_circle_formation, SiteIndex, ULPSX2};
     use crate::{cast, circle_event::CircleEvent, site_event::SiteEvent, InputType, OutputType};
     use std::cmp;
 
@@ -698,6 +698,52 @@ pub(crate) mod circle_formation_predicate {
             || ulp_comparison(cc_y, y1, 64) == cmp::Ordering::Greater
     }
 
+    /// The point where a site touches a circle event, as seen from the center, and the rounding error
+    /// of its coordinates.
+    fn touching_point<I: InputType, F: OutputType>(
+        c: &CircleEvent,
+        s: &SiteEvent<I, F>,
+    ) -> ((f64, f64), (f64, f64)) {
+        let (x0, y0) = (cast::<I, f64>(s.x0()), cast::<I, f64>(s.y0()));
+        if s.is_segment() {
+            // Only the direction matters: the circle is on the right side of the segment.
+            let (x1, y1) = (cast::<I, f64>(s.x1()), cast::<I, f64>(s.y1()));
+            ((y0 - y1, x1 - x0), (0.0, 0.0))
+        } else {
+            let ulps = ULPSX2 as f64 * f64::EPSILON;
+            let error = (c.x().abs() * ulps, c.y().abs() * ulps);
+            ((x0 - c.x(), y0 - c.y()), error)
+        }
+    }
+
+    /// The arcs of a circle event lie on the beach line in the order in which their sites touch the
+    /// circle, clockwise from its rightmost point. Returns true if the site of the first arc certainly
+    /// touches the circle after the site of the last arc. If both arcs of two points are between
+    /// two arcs of one segment the circle is also found in this wrong order.
+    fn is_out_of_order<I: InputType, F: OutputType>(
+        c: &CircleEvent,
+        first: &SiteEvent<I, F>,
+        last: &SiteEvent<I, F>,
+    ) -> bool {
+        let (a, a_err) = touching_point(c, first);
+        let (b, b_err) = touching_point(c, last);
+        let a_level = a.1.abs() <= a_err.1;
+        let b_level = b.1.abs() <= b_err.1;
+        if (a_level && a.0 >= 0.0) || (b_level && b.0 >= 0.0) {
+            return false;
+        }
+        if !a_level && !b_level && (a.1 < 0.0) != (b.1 < 0.0) {
+            return b.1 < 0.0;
+        }
+        let (left, right) = (a.0 * b.1, a.1 * b.0);
+        let error = a_err.0 * b.1.abs()
+            + a_err.1 * b.0.abs()
+            + b_err.0 * a.1.abs()
+            + b_err.1 * a.0.abs()
+            + 4.0 * f64::EPSILON * (left.abs() + right.abs());
+        left - right > error
+    }
+
     /// Create a circle event from the given three sites.
     /// Returns true if the circle event exists, else false.
     /// If exists circle event is saved into the c_event variable.
@@ -737,6 +783,7 @@ pub(crate) mod circle_formation_predicate {
                         SiteIndex::Three,
                         CircleEvent::new(bisector_node),
                     )
+                    .filter(|c| !is_out_of_order(c, site1, site3))
                 }
             } else if !site3.is_segment() {
                 // (point, segment, point) sites.
@@ -786,6 +833,7 @@ pub(crate) mod circle_formation_predicate {
                     SiteIndex::One,
                     CircleEvent::new(bisector_node),
                 )
+                .filter(|c| !is_out_of_order(c, site1, site3))
             } else {
                 // (segment, point, segment) sites.
                 if !circle_existence::pss::<I, F>(site2.point0(), site1, site3, SiteIndex::Two) {
-- 
2.43.0


From 5605a5b477081cf449a5ef5919952265ba6edea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:41 +0000
Subject: [PATCH 22/22] fix: keep circle events of arcs that are nearly tied on
 the beach line

---
 workspace/boostvoronoi_core/src/predicate.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/workspace/boostvoronoi_core/src/predicate.rs b/workspace/boostvoronoi_core/src/predicate.rs
index 72c1316..9435d5a 100644
--- a/workspace/boostvoronoi_core/src/predicate.rs
+++ b/workspace/boostvoronoi_core/src/predicate.rs
@@ -698,8 +698,12 @@ pub(crate) mod circle_formation_predicate {
             || ulp_comparison(cc_y, y1, 64) == cmp::Ordering::Greater
     }
 
-    /// The point where a site touches a circle event, as seen from the center, and the rounding error
-    /// of its coordinates.
+    /// Arcs that touch a circle this close together, relative to its radius, may have been put on the
+    /// beach line in either order: the distance predicate could not tell them apart.
+    const NEARLY_TIED: f64 = 1e-10;
+
+    /// The point where a site touches a circle event, as seen from the center, and the error of its
+    /// coordinates.
     fn touching_point<I: InputType, F: OutputType>(
         c: &CircleEvent,
         s: &SiteEvent<I, F>,
@@ -710,9 +714,11 @@ pub(crate) mod circle_formation_predicate {
             let (x1, y1) = (cast::<I, f64>(s.x1()), cast::<I, f64>(s.y1()));
             ((y0 - y1, x1 - x0), (0.0, 0.0))
         } else {
+            // The rounding error of the center, and that of the order of nearly tied arcs.
             let ulps = ULPSX2 as f64 * f64::EPSILON;
-            let error = (c.x().abs() * ulps, c.y().abs() * ulps);
-            ((x0 - c.x(), y0 - c.y()), error)
+            let radius = (c.lower_x() - c.x()).abs();
+            let error = (c.x().abs() + c.y().abs()) * ulps + radius * NEARLY_TIED;
+            ((x0 - c.x(), y0 - c.y()), (error, error))
         }
     }
 
-- 
2.43.0

