From 2beb97d6e6f96f4058f411395d4bb7f8f8e4c5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:38 +0000
Subject: [PATCH 01/24] fix: the node and edge at index 0 exist

has_node_at_index and has_edge_at_index denied index 0.
---
 src/graph/planar_graph.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph/planar_graph.rs b/src/graph/planar_graph.rs
index de363e8..9e84978 100644
--- a/src/graph/planar_graph.rs
+++ b/src/graph/planar_graph.rs
@@ -137,11 +137,11 @@ where
     }
 
     pub fn has_node_at_index(&self, id: NodeIndex) -> bool {
-        id > 0 && id < self.nodes.len()
+        id < self.nodes.len()
     }
 
     pub fn has_edge_at_index(&self, id: EdgeIndex) -> bool {
-        id > 0 && id < self.edges.len()
+        id < self.edges.len()
     }
 
     /// Returns `true` if an edge exists between 2 nodes with indices `a` and `b` and `false` otherwise.
-- 
2.43.0


From 208e2685a5ac9ed5806101fb1a6a0a4b8233a4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:39 +0000
Subject: [PATCH 02/24] fix: removing an isolated node no longer panics

---
 src/graph/planar_graph.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/graph/planar_graph.rs b/src/graph/planar_graph.rs
index 9e84978..5e19cc5 100644
--- a/src/graph/planar_graph.rs
+++ b/src/graph/planar_graph.rs
@@ -438,7 +438,12 @@ where
 
             // Keep track of the index of the "leftmost" node / edge to-be-deleted
             let min_node_index = marked_nodes.iter().cloned().min().unwrap();
-            let min_edge_index = marked_edges.iter().cloned().min().unwrap();
+            // (an isolated node has no incident edges, in which case no edge changes)
+            let min_edge_index = marked_edges
+                .iter()
+                .cloned()
+                .min()
+                .unwrap_or(self.edge_count());
 
             // All nodes / edges that are to the "right" of the indices calculated above will change
             let changed_nodes = (min_node_index..self.node_count()).collect::<Vec<_>>();
-- 
2.43.0


From 3cf0b8194385ec0cc8e32a14cd41a88e11060c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:40 +0000
Subject: [PATCH 03/24] fix: removing the edge in the last slot no longer
 panics

The last edge was popped and then assigned to its own, no longer existing slot.
---
 src/graph/planar_graph.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/graph/planar_graph.rs b/src/graph/planar_graph.rs
index 5e19cc5..c0eb920 100644
--- a/src/graph/planar_graph.rs
+++ b/src/graph/planar_graph.rs
@@ -396,8 +396,7 @@ where
                 // Make sure to do this BEFORE the call to `pop()`, which changes the array length
                 changed_edges.push(self.edge_count() - 1);
 
-                let last = self.edges.pop().expect("This should never happen");
-                self.edges[id] = last;
+                self.edges.swap_remove(id);
             }
 
             // No nodes should ever be affected by this procedure if we've reached this point
-- 
2.43.0


From 334813a53e2f21b19791d877f28046eca80c1fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:20 +0000
Subject: [PATCH 04/24] fix: adding an edge from a node to itself no longer
 creates a self-loop

Removing a node with a self-loop panicked (its index was marked twice).
---
 src/graph/planar_graph.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/graph/planar_graph.rs b/src/graph/planar_graph.rs
index c0eb920..36a53db 100644
--- a/src/graph/planar_graph.rs
+++ b/src/graph/planar_graph.rs
@@ -207,6 +207,12 @@ where
         dst: NodeIndex,
         data: U,
     ) -> Result<(Vec<NodeIndex>, Vec<EdgeIndex>), PlanarGraphError> {
+        // An edge from a node to itself draws nothing, so there is nothing to add (and such an edge
+        // would break the assumption that every edge has two different endpoints)
+        if src == dst && self.has_node_at_index(src) {
+            return Ok((vec![], vec![]));
+        }
+
         // Don't add duplicate (collinear) edges
         if !self.has_edge_between_nodes(src, dst) {
             // Make sure `src` and `dst` vertices actually exist
-- 
2.43.0


From edc285d918a96b3a631ae683974008d59ca8f213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:22 +0000
Subject: [PATCH 05/24] fix: unique_points_among keeps one of each set of
 coinciding points

It dropped all of them, so crossings found twice were lost.
---
 src/geometry/utils.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/geometry/utils.rs b/src/geometry/utils.rs
index 85d57ad..948389d 100644
--- a/src/geometry/utils.rs
+++ b/src/geometry/utils.rs
@@ -170,16 +170,16 @@ pub fn close_to(a: &Vec2, b: &Vec2) -> bool {
 
 /// Calculates the (sub)set of "unique" points from an input set, within epsilon.
 pub fn unique_points_among(ps: &Vec<Vec2>) -> Vec<Vec2> {
-    let mut unique = vec![];
+    let mut unique: Vec<Vec2> = vec![];
 
-    for (i, a) in ps.iter().enumerate() {
+    for a in ps.iter() {
         // Assume that this point `a` is unique
         let mut is_unique = true;
 
-        // Iterate through all other points and check if `a` ~= `b` (taking care not
-        // to compare `a` with itself in the inner for-loop)
-        for (j, b) in ps.iter().enumerate() {
-            if i != j && close_to(a, b) {
+        // Iterate through all of the points that were kept so far and check if `a` ~= `b`, so
+        // that the first of several coinciding points is the one that is kept
+        for b in unique.iter() {
+            if close_to(a, b) {
                 is_unique = false;
                 break;
             }
-- 
2.43.0


From 99996da9538b6d9d114e2e69e99ef9e4428bfa4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:23 +0000
Subject: [PATCH 06/24] fix: is_on_line_segment honours include_endpoints and
 the scale of the points

The endpoint flag was ignored, and comparing sums of lengths with an absolute epsilon
rejected points on long segments and accepted points beside short ones.
---
 src/geometry/utils.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/geometry/utils.rs b/src/geometry/utils.rs
index 948389d..86aea6a 100644
--- a/src/geometry/utils.rs
+++ b/src/geometry/utils.rs
@@ -119,17 +119,22 @@ pub fn calculate_perpendicular_bisector(a: &Vec2, b: &Vec2, offset: f32) -> (Vec
 
 /// Checks if the specified point `p` lies along the line segment `ab`.
 pub fn is_on_line_segment(a: &Vec2, b: &Vec2, p: &Vec2, include_endpoints: bool) -> bool {
-    // The total length of the line segment
-    let ab = nalgebra_glm::distance(a, b);
+    // The coordinates are rounded in proportion to their magnitude, so the distance up to which a
+    // point counts as being on the segment has to be relative to that magnitude as well
+    let magnitude = a.amax().max(b.amax()).max(p.amax());
+    let tolerance = 16.0 * std::f32::EPSILON * magnitude;
+
+    // Is the specified point one of the endpoints of the line segment?
+    if nalgebra_glm::distance(a, p) <= tolerance || nalgebra_glm::distance(p, b) <= tolerance {
+        return include_endpoints;
+    }
 
-    // The lengths of the two sub-segments joining each endpoint to the specified point
-    let ap = nalgebra_glm::distance(a, p);
-    let pb = nalgebra_glm::distance(p, b);
+    // Otherwise, the point has to be (nearly) on the line through `a` and `b`, between the two
+    let ab = b - a;
+    let ap = p - a;
+    let along = ab.dot(&ap);
 
-    // Return `false` if the specified point is one of the endpoints of the line segment
-    ((ap + pb) - ab).abs() < nalgebra_glm::epsilon()
-        && ap.abs() > nalgebra_glm::epsilon()
-        && pb.abs() > nalgebra_glm::epsilon()
+    (ab.x * ap.y - ab.y * ap.x).abs() <= tolerance * ab.norm() && along > 0.0 && along < ab.dot(&ab)
 }
 
 /// Finds the index of the vertex that is closest to the specified target vertex `t` among a set of
-- 
2.43.0


From fa0599c5eff191c587960632892940f2408108d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:43 +0000
Subject: [PATCH 07/24] fix: new edges are split at existing nodes and do not
 duplicate existing edges

An edge drawn through existing nodes, end-on against or along existing edges was left
whole (or got extra nodes next to the shared ones), and the reported changes missed the
pieces of the new edge.
---
 src/graph/planar_graph.rs | 63 +++++++++++++++++++++++++++++++--------
 1 file changed, 50 insertions(+), 13 deletions(-)

diff --git a/src/graph/planar_graph.rs b/src/graph/planar_graph.rs
index 36a53db..da9baf1 100644
--- a/src/graph/planar_graph.rs
+++ b/src/graph/planar_graph.rs
@@ -223,17 +223,9 @@ where
                 // TODO: if the edge we just added gets split, do we copy its data over to the child edges?
 
                 // Perform line-segment/line-segment intersection tests
-                let (changed_nodes, mut changed_edges) =
-                    self.split_edges_along_edge(self.edge_count() - 1);
-
-                // If the array of changed edges is empty, this means that no edge splitting was necessary,
-                // but we still want to make sure we return at least one edge index (in this case, the edge
-                // was simply added to the end of the graph's edge array, so just return that index)
-                if changed_edges.is_empty() {
-                    changed_edges.push(self.edge_count() - 1);
-                }
-
-                return Ok((changed_nodes, changed_edges));
+                // (the array of changed edges contains the index of the new edge as well, unless all
+                // of it was already covered by existing edges)
+                return Ok(self.split_edges_along_edge(self.edge_count() - 1));
             }
 
             return Err(PlanarGraphError::NoSuchVertex);
@@ -307,12 +299,31 @@ where
         let mut changed_nodes = vec![];
         let mut changed_edges = vec![];
 
+        // Find all of the existing nodes that lie along the target edge: the target edge will be
+        // split at each of these
+        let (src, dst) = self.edges[id].get_node_indices();
+        let mut nodes_on_edge = (0..self.node_count())
+            .filter(|&node| {
+                utils::is_on_line_segment(
+                    &self.nodes[src].position,
+                    &self.nodes[dst].position,
+                    &self.nodes[node].position,
+                    false,
+                )
+            })
+            .collect::<Vec<_>>();
+
         // An array containing all of the points of intersections
         let mut intersections = vec![];
 
         for (index, edge) in self.edges.iter().enumerate() {
-            // Don't intersect the target edge with itself
-            if id != index {
+            // Don't intersect the target edge with itself or with edges that meet it at an existing
+            // node (otherwise, due to rounding, a second node might be created next to that one)
+            if id != index
+                && !edge.includes(src)
+                && !edge.includes(dst)
+                && !nodes_on_edge.iter().any(|&node| edge.includes(node))
+            {
                 // The point of intersection (or null if no intersection is found)
                 if let Some(intersection) = utils::calculate_line_segment_intersection(
                     &self.nodes[edge.get_node_indices().0].position,
@@ -346,6 +357,9 @@ where
             intersections
         );
 
+        // The target edge (the last edge in the array) is replaced by its pieces below
+        let target = self.edges.remove(id);
+
         for intersection in intersections.iter() {
             // One annoying edge-case we have to consider here is, what happens when the point of
             // intersection coincides (i.e. overlaps with) an existing node? In this case, we want
@@ -358,6 +372,7 @@ where
             if distance < nalgebra_glm::epsilon() {
                 println!("Point of intersection coincides with an existing node");
                 changed_edges.extend(&self.split_edges_at_node(index));
+                nodes_on_edge.push(index);
             } else {
                 // Add a new node at the point of intersection, which returns a node index and a list
                 // of all of the edge indices that changed as a result of the additional node
@@ -365,9 +380,31 @@ where
 
                 changed_nodes.push(node_index);
                 changed_edges.extend(&edge_indices);
+                nodes_on_edge.push(node_index);
             }
         }
 
+        // Add the pieces of the target edge from one node to the next, leaving out those that are
+        // part of the graph already (i.e. wherever the target edge runs along existing edges)
+        let distance_to = |node: &NodeIndex| {
+            nalgebra_glm::distance(&self.nodes[src].position, &self.nodes[*node].position)
+        };
+        nodes_on_edge.sort_by(|a, b| distance_to(a).partial_cmp(&distance_to(b)).unwrap());
+        nodes_on_edge.push(dst);
+
+        let mut last = src;
+        for node in nodes_on_edge.into_iter() {
+            if node != last && !self.has_edge_between_nodes(last, node) {
+                self.edges
+                    .push(Edge::new(last, node, *target.get_data(), DEFAULT_LABEL));
+            }
+            last = node;
+        }
+
+        // Everything from the original position of the target edge on is new
+        changed_edges.retain(|&index| index < id);
+        changed_edges.extend(id..self.edge_count());
+
         (changed_nodes, changed_edges)
     }
 
-- 
2.43.0


From bbc13ac15dd657faf59627e7e952e4ab5dfe4af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:55 +0000
Subject: [PATCH 08/24] fix: calculate segment intersections in double
 precision

In single precision, nearly collinear segments far apart from each other were reported to
intersect, and a crossing at a representable point was stored several ulps away from it.
---
 src/geometry/utils.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/geometry/utils.rs b/src/geometry/utils.rs
index 86aea6a..98e604e 100644
--- a/src/geometry/utils.rs
+++ b/src/geometry/utils.rs
@@ -1,4 +1,4 @@
-use nalgebra_glm::Vec2;
+use nalgebra_glm::{DVec2, Vec2};
 
 /// Determines whether the vector from `a` to `b` is (nearly) parallel to the vector pointing
 /// from `c` to `d` (within an epsilon).
@@ -64,6 +64,14 @@ pub fn calculate_triangle_incenter(a: &Vec2, b: &Vec2, c: &Vec2) -> Option<(Vec2
 
 /// Calculates the intersection between two line segments (`ab` and `cd`) or `None` if they do not intersect.
 pub fn calculate_line_segment_intersection(a: &Vec2, b: &Vec2, c: &Vec2, d: &Vec2) -> Option<Vec2> {
+    // The quantities below suffer from cancellation (especially if the segments are nearly
+    // parallel), so calculate them in double precision and round the final result only
+    let magnitude = a.amax().max(b.amax()).max(c.amax()).max(d.amax());
+    let a: DVec2 = nalgebra_glm::convert(*a);
+    let b: DVec2 = nalgebra_glm::convert(*b);
+    let c: DVec2 = nalgebra_glm::convert(*c);
+    let d: DVec2 = nalgebra_glm::convert(*d);
+
     let delta_x0 = b.x - a.x;
     let delta_y0 = b.y - a.y;
     let delta_x1 = d.x - c.x;
@@ -74,7 +82,15 @@ pub fn calculate_line_segment_intersection(a: &Vec2, b: &Vec2, c: &Vec2, d: &Vec
     let t = (delta_x1 * (a.y - c.y) - delta_y1 * (a.x - c.x)) / denom;
 
     if s >= 0.0 && s <= 1.0 && t >= 0.0 && t <= 1.0 {
-        return Some(Vec2::new(a.x + (t * delta_x0), a.y + (t * delta_y0)));
+        // If the segments are parallel up to rounding, `s` and `t` are arbitrary, so make sure that
+        // they do denote the same point
+        let p = DVec2::new(a.x + (t * delta_x0), a.y + (t * delta_y0));
+        let q = DVec2::new(c.x + (s * delta_x1), c.y + (s * delta_y1));
+        if nalgebra_glm::distance(&p, &q) > (std::f32::EPSILON * magnitude) as f64 {
+            return None;
+        }
+
+        return Some(Vec2::new(p.x as f32, p.y as f32));
     }
 
     None
-- 
2.43.0


From 9570fa8a12527ce4ed8c213295e236eb41854d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:56 +0000
Subject: [PATCH 09/24] fix: nodes that coincide up to rounding are recognised
 at any scale

The absolute epsilon is less than one ulp for coordinates above 1, so a node added where
an existing crossing had been rounded to was duplicated.
---
 src/geometry/utils.rs     | 6 ++++++
 src/graph/planar_graph.rs | 4 ++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/geometry/utils.rs b/src/geometry/utils.rs
index 98e604e..5f7df60 100644
--- a/src/geometry/utils.rs
+++ b/src/geometry/utils.rs
@@ -133,6 +133,12 @@ pub fn calculate_perpendicular_bisector(a: &Vec2, b: &Vec2, offset: f32) -> (Vec
     (midpoint, second)
 }
 
+/// The distance from `p` within which other points can't be distinguished reliably from `p`: the
+/// coordinates are rounded in proportion to their magnitude.
+pub fn rounding_tolerance(p: &Vec2) -> f32 {
+    (16.0 * std::f32::EPSILON * p.amax()).max(nalgebra_glm::epsilon())
+}
+
 /// Checks if the specified point `p` lies along the line segment `ab`.
 pub fn is_on_line_segment(a: &Vec2, b: &Vec2, p: &Vec2, include_endpoints: bool) -> bool {
     // The coordinates are rounded in proportion to their magnitude, so the distance up to which a
diff --git a/src/graph/planar_graph.rs b/src/graph/planar_graph.rs
index da9baf1..049e53e 100644
--- a/src/graph/planar_graph.rs
+++ b/src/graph/planar_graph.rs
@@ -181,7 +181,7 @@ where
         // Check if the vertex is the same as an existing vertex (within epsilon)
         let (index, distance) = utils::find_closest_to(position, &self.gather_node_positions());
 
-        if distance < nalgebra_glm::epsilon() {
+        if distance <= utils::rounding_tolerance(position) {
             // If the found distance is less than the specified threshold, the specified
             // node is considered a "duplicate," so we return the index of the existing
             // node and an empty array (since by definition, no edges were modified)
@@ -369,7 +369,7 @@ where
             let (index, distance) =
                 utils::find_closest_to(intersection, &self.gather_node_positions());
 
-            if distance < nalgebra_glm::epsilon() {
+            if distance <= utils::rounding_tolerance(intersection) {
                 println!("Point of intersection coincides with an existing node");
                 changed_edges.extend(&self.split_edges_at_node(index));
                 nodes_on_edge.push(index);
-- 
2.43.0


From bf49a09e661932a04a998bc49c3375842b690f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:36 +0000
Subject: [PATCH 10/24] fix: the perpendicular bisector point is offset units
 away from the segment

It was offset in the x-direction instead, and NaN for horizontal segments.
---
 src/geometry/utils.rs | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/geometry/utils.rs b/src/geometry/utils.rs
index 5f7df60..3e14d54 100644
--- a/src/geometry/utils.rs
+++ b/src/geometry/utils.rs
@@ -118,17 +118,9 @@ pub fn calculate_perpendicular_bisector(a: &Vec2, b: &Vec2, offset: f32) -> (Vec
     // First, calculate the midpoint of the line segment from `a` to `b`
     let midpoint = calculate_midpoint(a, b);
 
-    // Then, calculate the slope of the line segment and the slope of the perpendicular
-    let slope = (b.y - a.y) / (b.x - a.x);
-    let slope_perpendicular = -1.0 / slope;
-    let intercept = midpoint.y - slope_perpendicular * midpoint.x;
-
-    // Add a small offset in the x-direction (this is arbitrary)
-    let offset_point = midpoint + Vec2::new(offset, 0.0);
-    let second = Vec2::new(
-        offset_point.x,
-        offset_point.x * slope_perpendicular + intercept,
-    );
+    // Then, move away from the midpoint in the direction perpendicular to the line segment
+    let perpendicular = Vec2::new(a.y - b.y, b.x - a.x).normalize();
+    let second = midpoint + perpendicular * offset;
 
     (midpoint, second)
 }
-- 
2.43.0


From d1186175a3693b416254d8c7ad02ca679ad0e9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:38 +0000
Subject: [PATCH 11/24] fix: infinite lines intersect outside of the segments
 that define them

Points outside of the segments were discarded, and lines given by short segments were
always considered to be parallel.
---
 src/geometry/utils.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/geometry/utils.rs b/src/geometry/utils.rs
index 3e14d54..d56a29d 100644
--- a/src/geometry/utils.rs
+++ b/src/geometry/utils.rs
@@ -218,14 +218,11 @@ pub fn unique_points_among(ps: &Vec<Vec2>) -> Vec<Vec2> {
 pub fn calculate_line_intersection(a: &Vec2, b: &Vec2, c: &Vec2, d: &Vec2) -> Option<Vec2> {
     let determinant = (d.y - c.y) * (b.x - a.x) - (d.x - c.x) * (b.y - a.y);
 
-    if determinant.abs() > nalgebra_glm::epsilon() {
-        let u_a = ((d.x - c.x) * (a.y - c.y) - (d.y - c.y) * (a.x - c.x)) / determinant;
-        let u_b = ((b.x - a.x) * (a.y - c.y) - (b.y - a.y) * (a.x - c.x)) / determinant;
-
-        if !((0.0 <= u_a && u_a <= 1.0) && (0.0 <= u_b && u_b <= 1.0)) {
-            return None;
-        }
+    // The determinant is the sine of the angle between the lines, times both of these lengths
+    let scale = nalgebra_glm::distance(a, b) * nalgebra_glm::distance(c, d);
 
+    if determinant.abs() > std::f32::EPSILON * scale {
+        let u_a = ((d.x - c.x) * (a.y - c.y) - (d.y - c.y) * (a.x - c.x)) / determinant;
         let x = a.x + u_a * (b.x - a.x);
         let y = a.y + u_a * (b.y - a.y);
 
-- 
2.43.0


From 83be6571e58b8059a3c9085de3c40b94a3c43702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:39 +0000
Subject: [PATCH 12/24] fix: parallel segments are recognised despite rounding
 errors

Segments with exactly the same direction were reported not to be parallel whenever the
normalised dot product was off by a single ulp.
---
 src/geometry/utils.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geometry/utils.rs b/src/geometry/utils.rs
index d56a29d..036a235 100644
--- a/src/geometry/utils.rs
+++ b/src/geometry/utils.rs
@@ -10,7 +10,8 @@ pub fn parallel(a: &Vec2, b: &Vec2, c: &Vec2, d: &Vec2) -> bool {
     // the absolute value
     let abs_dot = nalgebra_glm::normalize_dot(&dir_ab, &dir_cd).abs();
 
-    if (abs_dot - 1.0).abs() < nalgebra_glm::epsilon() {
+    // Allow for the rounding errors of the normalized dot product
+    if (abs_dot - 1.0).abs() <= 4.0 * std::f32::EPSILON {
         return true;
     }
 
-- 
2.43.0


From b9e2b7f9cc9e24edce90771fb90761b6c583e8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:41 +0000
Subject: [PATCH 13/24] fix: triangles with exactly collinear corners are
 degenerate

Rounding of the side lengths let many of them pass the triangle inequality.
---
 src/geometry/utils.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/geometry/utils.rs b/src/geometry/utils.rs
index 036a235..ba4a884 100644
--- a/src/geometry/utils.rs
+++ b/src/geometry/utils.rs
@@ -24,6 +24,14 @@ pub fn is_degenerate_triangle(a: &Vec2, b: &Vec2, c: &Vec2) -> bool {
     let side_b = nalgebra_glm::distance(a, c);
     let side_c = nalgebra_glm::distance(a, b);
 
+    // Collinear corners: the side lengths are rounded, so this can't be left to the triangle
+    // inequality below alone
+    let longest = side_a.max(side_b).max(side_c);
+    let cross = (b.x - a.x) * (c.y - a.y) - (c.x - a.x) * (b.y - a.y);
+    if cross.abs() <= std::f32::EPSILON * longest * longest {
+        return true;
+    }
+
     // Triangle inequality: could also sort `{A, B, C}` and simply check if `(A + B) <= C`,
     // but this is more readable for now
     if (side_a + side_b) <= side_c || (side_a + side_c) <= side_b || (side_b + side_c) <= side_a {
-- 
2.43.0


From d89d50f553b3d5b5e6146449a4779a412d21815d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:42 +0000
Subject: [PATCH 14/24] fix: the angle between (nearly) parallel vectors is
 never NaN

---
 src/math/vector.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/math/vector.rs b/src/math/vector.rs
index de31a5f..afa75ee 100644
--- a/src/math/vector.rs
+++ b/src/math/vector.rs
@@ -137,7 +137,9 @@ where
     pub fn angle(self, rhs: Self) -> T {
         let u_norm = self.normalize();
         let v_norm = rhs.normalize();
-        u_norm.dot(v_norm).acos()
+
+        // Rounding errors might push the cosine out of [-1, 1], where `acos` is not a number
+        u_norm.dot(v_norm).max(-T::one()).min(T::one()).acos()
     }
 }
 
-- 
2.43.0


From 6237c502a2f8de5a897439765f1616b24be2953f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:44 +0000
Subject: [PATCH 15/24] fix: the rotor between two vectors does not depend on
 their lengths

For vectors other than unit vectors, the rotor did not rotate u onto the direction of v.
---
 src/math/rotor.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/math/rotor.rs b/src/math/rotor.rs
index 874d7de..e4122f9 100644
--- a/src/math/rotor.rs
+++ b/src/math/rotor.rs
@@ -69,6 +69,10 @@ where
         // In most of the literature, the left-hand multiplier `vu` corresponds to
         // the rotor `R`, whereas the right-hand multiplier `uv` corresponds to the
         // inverse rotor, `R†` (we want to construct `R`)
+        //
+        // Adding 1 only yields half of the angle if both vectors have unit length
+        let u = u.normalize();
+        let v = v.normalize();
         let scalar = T::one() + v.dot(u);
         let bivector = v.wedge(u);
 
-- 
2.43.0


From dd0cafa52ee718accf1d7aa1f35cd861834452ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:45 +0000
Subject: [PATCH 16/24] fix: number_of_basis_blades for k = 0, k > n and large
 n

It divided by zero, underflowed and overflowed, respectively.
---
 src/math/blade.rs | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/math/blade.rs b/src/math/blade.rs
index 44a73b0..488fd01 100644
--- a/src/math/blade.rs
+++ b/src/math/blade.rs
@@ -49,23 +49,19 @@ pub fn total_number_of_basis_blades(dim: usize) -> usize {
     2usize.pow(dim as u32)
 }
 
-/// Compute `n` factorial.
-fn factorial(n: usize) -> usize {
-    let mut fact = n;
-    for i in 2..n {
-        fact *= i;
-    }
-    return fact;
-}
-
 /// Compute `n` choose `k`, i.e. the binomial coefficient corresponding to
 /// the parameters `n` and `k`.
 fn binomial_coefficient(n: usize, k: usize) -> usize {
-    let mut num = n;
-    for i in 1..k {
-        num *= n - i;
+    if k > n {
+        return 0;
+    }
+
+    // Each of the intermediate results is itself a binomial coefficient, so the division is exact
+    let mut num = 1;
+    for i in 0..k {
+        num = num * (n - i) / (i + 1);
     }
-    return num / factorial(k);
+    return num;
 }
 
 /// Returns the number of basis `k`-blades needed in an `n`-dimensional
-- 
2.43.0


From d806d0098c644fb1a9984beb2943df6fa48347a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:46 +0000
Subject: [PATCH 17/24] fix: FOLD data is serialised under the key names of the
 specification

edges_foldAngles, faceOrders and edgeOrders were written under other names than the ones
they are read from, so they were lost on a round trip.
---
 src/fold/fold.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fold/fold.rs b/src/fold/fold.rs
index ca9caa1..2f5aa51 100644
--- a/src/fold/fold.rs
+++ b/src/fold/fold.rs
@@ -91,7 +91,7 @@ pub struct Fold {
     pub edges_assignment: Vec<String>,
 
     /// For each edge, the fold angle (deviation from flatness) along each edge of the pattern
-    #[serde(default, rename(deserialize = "edges_foldAngles"))]
+    #[serde(default, rename = "edges_foldAngles")]
     pub edges_foldangles: Vec<f32>,
 
     /// For each edge, the length of the edge (a number)
@@ -111,11 +111,11 @@ pub struct Fold {
     /// Layer information
 
     /// An array of triples [f, g, s] where f and g are face IDs and s is an integer between −1 and 1
-    #[serde(default, rename(deserialize = "faceOrders"))]
+    #[serde(default, rename = "faceOrders")]
     pub faceorders: Vec<[i32; 3]>,
 
     /// An array of triples [e, f, s] where e and f are edge IDs and s is an integer between −1 and 1
-    #[serde(default, rename(deserialize = "edgeOrders"))]
+    #[serde(default, rename = "edgeOrders")]
     pub edgeorders: Vec<[i32; 3]>,
 }
 
-- 
2.43.0


From 3e6d02129cce650a1ee59132c97183cd375e5268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:47 +0000
Subject: [PATCH 18/24] fix: accept fractional FOLD spec versions such as 1.1

file_spec is a number, and loading any file with version 1.1 panicked.
---
 src/fold/fold.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fold/fold.rs b/src/fold/fold.rs
index 2f5aa51..57b9711 100644
--- a/src/fold/fold.rs
+++ b/src/fold/fold.rs
@@ -11,7 +11,7 @@ pub struct Fold {
 
     /// The version of the FOLD spec that the file assumes (a number)
     #[serde(default)]
-    pub file_spec: i32,
+    pub file_spec: f64,
 
     /// The software that created the file (a string)
     #[serde(default)]
-- 
2.43.0


From aa7fac5c60a4209bc0442803785c59b913c3735a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:49 +0000
Subject: [PATCH 19/24] fix: malformed FOLD files are reported as an error
 instead of a panic

---
 src/fold/fold.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fold/fold.rs b/src/fold/fold.rs
index 57b9711..2ccda72 100644
--- a/src/fold/fold.rs
+++ b/src/fold/fold.rs
@@ -127,7 +127,7 @@ impl Fold {
         let mut contents = String::new();
         file.read_to_string(&mut contents)?;
 
-        let mut fold: Fold = serde_json::from_str(&contents).expect("Failed to load JSON");
+        let mut fold: Fold = serde_json::from_str(&contents)?;
         fold.resolve();
         fold.validate();
 
-- 
2.43.0


From 10d02b6c16f72953da185c1c852b8d4bfbfca9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:50 +0000
Subject: [PATCH 20/24] fix: FOLD files whose top level is not an object are
 refused

A JSON array such as [] was accepted as a file without any data.
---
 src/fold/fold.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fold/fold.rs b/src/fold/fold.rs
index 2ccda72..4584b87 100644
--- a/src/fold/fold.rs
+++ b/src/fold/fold.rs
@@ -1,6 +1,7 @@
 use serde::{Deserialize, Serialize};
 use std::fs::File;
 use std::io::prelude::*;
+use std::io::{Error, ErrorKind};
 use std::path::Path;
 
 /// A .FOLD file format parser. Note that multiple frames are not yet supported.
@@ -127,6 +128,11 @@ impl Fold {
         let mut contents = String::new();
         file.read_to_string(&mut contents)?;
 
+        // A FOLD file is a JSON object (`serde` would also accept an array of the fields' values)
+        if !contents.trim_start().starts_with('{') {
+            return Err(Error::new(ErrorKind::InvalidData, "expected a JSON object"));
+        }
+
         let mut fold: Fold = serde_json::from_str(&contents)?;
         fold.resolve();
         fold.validate();
-- 
2.43.0


From 7b9a0200fb2533cc4b85b61d8ad6b9dfd753bc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:37 +0000
Subject: [PATCH 21/24] fix: crossings of long edges near the origin are found
 again by later nodes

The coordinates of a point of intersection are as inaccurate as the endpoints of the edges that meet there.
---
 src/graph/planar_graph.rs | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/graph/planar_graph.rs b/src/graph/planar_graph.rs
index 049e53e..8b8c8e6 100644
--- a/src/graph/planar_graph.rs
+++ b/src/graph/planar_graph.rs
@@ -172,6 +172,26 @@ where
             .collect::<Vec<_>>()
     }
 
+    /// Returns the index of the node that can't be told apart from a node at `position`, if there is one.
+    fn find_node_at(&self, position: &Vec2) -> Option<NodeIndex> {
+        let (index, distance) = utils::find_closest_to(position, &self.gather_node_positions());
+
+        // The existing node might be a point of intersection, in which case it is only as accurate as
+        // the endpoints of the edges that meet there (and these might be much farther from the origin)
+        let tolerance = self
+            .edges
+            .iter()
+            .filter(|edge| edge.includes(index))
+            .flat_map(|edge| vec![edge.src, edge.dst])
+            .map(|node| utils::rounding_tolerance(&self.nodes[node].position))
+            .fold(utils::rounding_tolerance(position), f32::max);
+
+        if distance <= tolerance {
+            return Some(index);
+        }
+        None
+    }
+
     /// Attempts to add a new node to the graph at `position`. This function returns a tuple with 2 entries:
     ///
     /// 1. The index of the newly added node (or the index of an existing node if the specified node was
@@ -179,9 +199,7 @@ where
     /// 2. A list containing the indices of all of the edges that changed as a result of adding the new node
     pub fn add_node(&mut self, position: &Vec2, data: T) -> (NodeIndex, Vec<EdgeIndex>) {
         // Check if the vertex is the same as an existing vertex (within epsilon)
-        let (index, distance) = utils::find_closest_to(position, &self.gather_node_positions());
-
-        if distance <= utils::rounding_tolerance(position) {
+        if let Some(index) = self.find_node_at(position) {
             // If the found distance is less than the specified threshold, the specified
             // node is considered a "duplicate," so we return the index of the existing
             // node and an empty array (since by definition, no edges were modified)
@@ -366,10 +384,7 @@ where
             // to split any offending edges along the existing node and continue - otherwise, the
             // point of intersection should be considered a new node, so we add it and split along
             // any edges, as necessary
-            let (index, distance) =
-                utils::find_closest_to(intersection, &self.gather_node_positions());
-
-            if distance <= utils::rounding_tolerance(intersection) {
+            if let Some(index) = self.find_node_at(intersection) {
                 println!("Point of intersection coincides with an existing node");
                 changed_edges.extend(&self.split_edges_at_node(index));
                 nodes_on_edge.push(index);
-- 
2.43.0


From a099aa29363a7e06a9dd95c2c85c4783cec25d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:04 +0000
Subject: [PATCH 22/24] fix: points on a line are recognised at any scale

---
 src/geometry/line.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/geometry/line.rs b/src/geometry/line.rs
index b2746c9..61fb00b 100644
--- a/src/geometry/line.rs
+++ b/src/geometry/line.rs
@@ -1,10 +1,6 @@
-use crate::math::bivector::Bivector3;
-use crate::math::space::Exterior;
+use crate::math::space::{Exterior, Norm};
 use crate::math::vector::Vector3;
 
-use approx::UlpsEq;
-use num_traits::Zero;
-
 pub struct Line {
     point: Vector3<f32>,
     direction: Vector3<f32>,
@@ -28,7 +24,16 @@ impl Line {
     /// Reference: http://geocalc.clas.asu.edu/GA_Primer/GA_Primer/introduction-to-geometric/high-school-geometry-with/solutions-for-straight-line.html
     pub fn contains(&self, x: &Vector3<f32>) -> bool {
         let bivector = (*x - self.point).wedge(self.direction);
-        bivector.ulps_eq(&Bivector3::zero(), std::f32::EPSILON, 4)
+
+        // The coordinates are rounded in proportion to their magnitude, so the distance up to which a
+        // point counts as being on the line (the area divided by the length of `u`) has to be relative
+        // to that magnitude as well
+        let magnitude = [x, &self.point].iter().fold(0.0f32, |m, p| {
+            m.max(p.a1.abs()).max(p.a2.abs()).max(p.a3.abs())
+        });
+        let tolerance = 16.0 * std::f32::EPSILON * magnitude;
+
+        bivector.norm() <= tolerance * self.direction.norm()
     }
 
     pub fn intersect(&self, rhs: &Line) -> Option<Vector3<f32>> {
-- 
2.43.0


From 307a5e508a4fbf5a3010e5da56c8a5a9b086f45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:42 +0000
Subject: [PATCH 23/24] fix: number_of_basis_blades for k close to a large n

---
 src/math/blade.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/math/blade.rs b/src/math/blade.rs
index 488fd01..617b9c7 100644
--- a/src/math/blade.rs
+++ b/src/math/blade.rs
@@ -56,9 +56,10 @@ fn binomial_coefficient(n: usize, k: usize) -> usize {
         return 0;
     }
 
-    // Each of the intermediate results is itself a binomial coefficient, so the division is exact
+    // Each of the intermediate results is itself a binomial coefficient, so the division is exact (and
+    // because of the symmetry, none of them has to be larger than the final one)
     let mut num = 1;
-    for i in 0..k {
+    for i in 0..k.min(n - k) {
         num = num * (n - i) / (i + 1);
     }
     return num;
-- 
2.43.0


From da9ab490b609a9f80265db7ad0c439a4b6cd66a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:42 +0000
Subject: [PATCH 24/24] fix: FOLD edge lengths and fold angles under their
 names in the specification

---
 src/fold/fold.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fold/fold.rs b/src/fold/fold.rs
index 4584b87..9e44dc4 100644
--- a/src/fold/fold.rs
+++ b/src/fold/fold.rs
@@ -92,11 +92,11 @@ pub struct Fold {
     pub edges_assignment: Vec<String>,
 
     /// For each edge, the fold angle (deviation from flatness) along each edge of the pattern
-    #[serde(default, rename = "edges_foldAngles")]
+    #[serde(default, rename = "edges_foldAngles", alias = "edges_foldAngle")]
     pub edges_foldangles: Vec<f32>,
 
     /// For each edge, the length of the edge (a number)
-    #[serde(default)]
+    #[serde(default, rename = "edges_length", alias = "edges_lengths")]
     pub edges_lengths: Vec<f32>,
 
     /// Face information
-- 
2.43.0

