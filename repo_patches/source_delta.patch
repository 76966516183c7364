From 1edfaedf30035741d3c3d04453496a9d4fde16f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:41 +0000
Subject: [PATCH 1/8] fix: fill the concave corner found, not the convex one,
 right of an edge

fill_right_convex_edge_event tests the corner at next_next_node for concavity,
but asked fill_right_concave_edge_event to fill the corner after node_id, the
one already known to be convex. The triangle created there is clockwise, and
spiky polygons ended in overlapping triangles, panics or endless recursion.
The left variant (and the C++ original) pass the next node.
---
 src/sweeper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sweeper.rs b/src/sweeper.rs
index e0b9341..a843f4d 100644
--- a/src/sweeper.rs
+++ b/src/sweeper.rs
@@ -695,7 +695,7 @@ impl Sweeper<'_> {
         .is_ccw()
         {
             // concave
-            self.fill_right_concave_edge_event(edge, node_id, observer);
+            self.fill_right_concave_edge_event(edge, next_node.get_node_id(), observer);
         } else {
             // convex
             // next above or below edge?
-- 
2.43.0


From e8398c52f7ff5e05c608d1cfe0f8ed2d692b730a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:41 +0000
Subject: [PATCH 2/8] fix: mark both sides of a constrained edge that passes
 through a point

The collinear branches of edge_event_process set the constrained flag on one
triangle only, so seen from its neighbor the edge was not constrained: it could
be flipped away, and clean_mesh leaked through it.
---
 src/sweeper.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/sweeper.rs b/src/sweeper.rs
index a843f4d..04211b4 100644
--- a/src/sweeper.rs
+++ b/src/sweeper.rs
@@ -845,10 +845,8 @@ impl Sweeper<'_> {
         );
 
         if o1.is_collinear() {
-            if let Some(edge_index) = triangle.edge_index(eq, p1) {
-                triangle.set_constrained(edge_index, true);
-
-                let neighbor_across_t = triangle.neighbor_across(p);
+            let neighbor_across_t = triangle.neighbor_across(p);
+            if self.try_mark_edge_for_triangle(eq, p1, triangle_id) {
                 self.edge_event_process(
                     ep,
                     p1,
@@ -870,10 +868,8 @@ impl Sweeper<'_> {
             ep.get(&self.points),
         );
         if o2.is_collinear() {
-            if let Some(edge_index) = triangle.edge_index(eq, p2) {
-                triangle.set_constrained(edge_index, true);
-
-                let neighbor_across_t = triangle.neighbor_across(p);
+            let neighbor_across_t = triangle.neighbor_across(p);
+            if self.try_mark_edge_for_triangle(eq, p2, triangle_id) {
                 self.edge_event_process(
                     ep,
                     p2,
-- 
2.43.0


From d77440ce1c472c3b7901d4bc787e35b604045d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:41 +0000
Subject: [PATCH 3/8] fix: bounds check triangle ids in the safe TriangleStore
 accessors

get, get_unchecked and get_mut_unchecked are safe functions, but read out of
bounds for an id that is not in the store: an observer can pass any id made by
TriangleId::from_index, and a self intersecting polyline makes the sweep itself
pass TriangleId::INVALID.
---
 src/triangles.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/triangles.rs b/src/triangles.rs
index 1d69085..f4387af 100644
--- a/src/triangles.rs
+++ b/src/triangles.rs
@@ -68,15 +68,11 @@ impl TriangleStore {
     }
 
     pub fn get(&self, id: TriangleId) -> Option<&InnerTriangle> {
-        if id == TriangleId::INVALID {
-            return None;
-        }
-        unsafe { Some(self.triangles.get_unchecked(id.as_usize())) }
+        self.triangles.get(id.as_usize())
     }
 
     pub fn get_unchecked(&self, id: TriangleId) -> &InnerTriangle {
-        debug_assert!(!id.invalid());
-        unsafe { self.triangles.get_unchecked(id.as_usize()) }
+        &self.triangles[id.as_usize()]
     }
 
     pub fn get_mut(&mut self, id: TriangleId) -> Option<&mut InnerTriangle> {
@@ -158,7 +154,7 @@ impl TriangleStore {
     }
 
     pub fn get_mut_unchecked(&mut self, id: TriangleId) -> &mut InnerTriangle {
-        unsafe { self.triangles.get_unchecked_mut(id.as_usize()) }
+        &mut self.triangles[id.as_usize()]
     }
 
     pub fn iter(&self) -> impl Iterator<Item = (TriangleId, &InnerTriangle)> {
-- 
2.43.0


From 896f1ec1e6b29f4568256533792d9c930dc01b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:41 +0000
Subject: [PATCH 4/8] fix: locate_node returns None for a point before the
 first node

The index underflowed, and without overflow checks the node was read out of
bounds. An observer reaches it with any point left of the front.
---
 src/advancing_front/vec_backed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/advancing_front/vec_backed.rs b/src/advancing_front/vec_backed.rs
index 7029013..b760676 100644
--- a/src/advancing_front/vec_backed.rs
+++ b/src/advancing_front/vec_backed.rs
@@ -200,7 +200,7 @@ impl AdvancingFront {
     pub fn locate_node(&self, point: Point) -> Option<NodeRef> {
         let key = PointKey(point);
         let idx = match self.search_by_key(&key) {
-            Err(idx) => idx - 1,
+            Err(idx) => idx.checked_sub(1)?,
             Ok(idx) => idx,
         };
         // safety: idx is checked
-- 
2.43.0


From c1e8e49f56a9610f6ae70112a41a3452bbb9b9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:41 +0000
Subject: [PATCH 5/8] fix: report malformed files as LoaderError instead of
 panicking

load returns a Result, but an unreadable or non UTF-8 file, a line with less
than two coordinates or one that is not a number panicked.
---
 src/loader.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/loader.rs b/src/loader.rs
index 71684cf..5bbd4f2 100644
--- a/src/loader.rs
+++ b/src/loader.rs
@@ -30,7 +30,7 @@ impl Loader for PlainFileLoader {
     fn load(&mut self, path: &str) -> Result<Builder, LoaderError> {
         let mut f = std::fs::File::options().read(true).open(path)?;
         let mut value = "".to_string();
-        std::io::Read::read_to_string(&mut f, &mut value).unwrap();
+        std::io::Read::read_to_string(&mut f, &mut value)?;
 
         let mut state = ParseState::default();
         let mut polygon = vec![];
@@ -75,10 +75,11 @@ fn parse_point(line: &str) -> Result<Option<Point>, LoaderError> {
         return Ok(None);
     }
     let mut iter = line.split_whitespace();
-    let x = iter.next().unwrap();
-    let y = iter.next().unwrap();
-    let x = x.parse::<Float>().unwrap();
-    let y = y.parse::<Float>().unwrap();
+    let (Some(x), Some(y)) = (iter.next(), iter.next()) else {
+        return Err(LoaderError::Inner(format!("invalid point: {line:?}").into()));
+    };
+    let x = x.parse::<Float>().map_err(|e| LoaderError::Inner(e.into()))?;
+    let y = y.parse::<Float>().map_err(|e| LoaderError::Inner(e.into()))?;
 
     Ok(Some(Point::new(x, y)))
 }
-- 
2.43.0


From 44c40b4e8eea7f4e664d51ead01c4151ce536d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:31 +0000
Subject: [PATCH 6/8] fix: go on from a point on the segment that a flip runs
 into

A flip towards a segment's end whose opposing corner lies on the segment
went on with an arbitrary triangle, never marked the part made and ended in
'Opposing point on constrained edge'. Mark the part and enforce the rest,
as edge_event_process does for a corner of the triangle it is in.
---
 src/sweeper.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/sweeper.rs b/src/sweeper.rs
index 04211b4..fee51aa 100644
--- a/src/sweeper.rs
+++ b/src/sweeper.rs
@@ -948,6 +948,21 @@ impl Sweeper<'_> {
                     ep.get(&self.points),
                 );
 
+                if o.is_collinear() && eq == edge.q_id() && ep == edge.p_id() {
+                    // op lies on the segment, the edge just made is the part up to op
+                    let next_id = triangle_id.get(&self.triangles).neighbor_across(p);
+                    self.try_mark_edge_for_triangle(p, op, triangle_id);
+                    self.edge_event_process(
+                        ep,
+                        op,
+                        &edge.with_q(op, self),
+                        next_id,
+                        op,
+                        legalize_queue,
+                    );
+                    return;
+                }
+
                 let t = Self::next_flip_triangle(o, triangle_id, ot_id, legalize_queue);
                 self.flip_edge_event(ep, eq, edge, t, p, legalize_queue);
             }
-- 
2.43.0


From 65a276f88c62d37bf4d017c7325e6c7b6c753ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:33 +0000
Subject: [PATCH 7/8] fix: a point on a segment may have no triangle beyond it
 on one side

Enforcement went on in the triangle across from the segment's end even where
the mesh ends there, and failed the 'triangle is valid' assertion. Take the
triangle on the other side of the part just marked then.
---
 src/sweeper.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/sweeper.rs b/src/sweeper.rs
index fee51aa..96d0063 100644
--- a/src/sweeper.rs
+++ b/src/sweeper.rs
@@ -576,6 +576,23 @@ impl Sweeper<'_> {
         true
     }
 
+    /// the triangle to go on with at `q`, which lies on the segment starting at `p`.
+    /// `p`-`q` is an edge of `t_id`. It is the one beyond `q` in `t_id`, or, where the mesh
+    /// ends there, the one on the other side of the edge
+    fn triangle_beyond(&self, t_id: TriangleId, p: PointId, q: PointId) -> TriangleId {
+        let t = t_id.get(&self.triangles);
+        let beyond = t.neighbor_across(p);
+        if !beyond.invalid() {
+            return beyond;
+        }
+
+        let Some(index) = t.edge_index(p, q) else { return beyond; };
+        match self.triangles.get(t.neighbors[index]) {
+            Some(ot) => ot.neighbor_across(p),
+            None => beyond,
+        }
+    }
+
     fn fill_edge_event(
         &mut self,
         edge: &ConstrainedEdge,
@@ -845,7 +862,7 @@ impl Sweeper<'_> {
         );
 
         if o1.is_collinear() {
-            let neighbor_across_t = triangle.neighbor_across(p);
+            let neighbor_across_t = self.triangle_beyond(triangle_id, p, p1);
             if self.try_mark_edge_for_triangle(eq, p1, triangle_id) {
                 self.edge_event_process(
                     ep,
@@ -868,7 +885,7 @@ impl Sweeper<'_> {
             ep.get(&self.points),
         );
         if o2.is_collinear() {
-            let neighbor_across_t = triangle.neighbor_across(p);
+            let neighbor_across_t = self.triangle_beyond(triangle_id, p, p2);
             if self.try_mark_edge_for_triangle(eq, p2, triangle_id) {
                 self.edge_event_process(
                     ep,
@@ -950,7 +967,7 @@ impl Sweeper<'_> {
 
                 if o.is_collinear() && eq == edge.q_id() && ep == edge.p_id() {
                     // op lies on the segment, the edge just made is the part up to op
-                    let next_id = triangle_id.get(&self.triangles).neighbor_across(p);
+                    let next_id = self.triangle_beyond(triangle_id, p, op);
                     self.try_mark_edge_for_triangle(p, op, triangle_id);
                     self.edge_event_process(
                         ep,
-- 
2.43.0


From 9e79d42702157012f8eff428cf3f0cfbfdb49354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:50 +0000
Subject: [PATCH 8/8] fix: an outside steiner point at the left of the front
 emptied the result

The search for a triangle to start from looked only at the first front node.
Where that is a steiner point outside of the polyline, which has no
constrained edge, no start was found and the result was empty. Try the next
node then.
---
 src/sweeper.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/sweeper.rs b/src/sweeper.rs
index 96d0063..93ae836 100644
--- a/src/sweeper.rs
+++ b/src/sweeper.rs
@@ -59,9 +59,21 @@ impl Sweeper<'_> {
     }
 
     pub(crate) fn finalize_polygon(&mut self) -> Option<()> {
-        // get an internal triangle to start with
         // the first node is head, artificial point, so skip
-        let node = self.advancing_front.nth(1)?;
+        // a node without constrained edge, e.g. a steiner point outside of the
+        // polyline, leads to no internal triangle, then try the next one
+        let mut n = 1;
+        while !self.finalize_from_node(n)? {
+            n += 1;
+        }
+
+        Some(())
+    }
+
+    /// returns whether there is an internal triangle at the `n`th node
+    fn finalize_from_node(&mut self, n: usize) -> Option<bool> {
+        // get an internal triangle to start with
+        let node = self.advancing_front.nth(n)?;
 
         let mut t = node.triangle?;
 
@@ -82,7 +94,7 @@ impl Sweeper<'_> {
             self.clean_mesh(t);
         }
 
-        Some(())
+        Some(!t.invalid())
     }
 
     fn clean_mesh(&mut self, triangle_id: TriangleId) -> Option<()> {
-- 
2.43.0

