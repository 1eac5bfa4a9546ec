From b1f2731e3b4e3a05133cfbf60ae9feefb9520d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:29 +0000
Subject: [PATCH 01/25] fix: index tests report index 0 as existing

---
 src/graph/planar_graph.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph/planar_graph.rs b/src/graph/planar_graph.rs
index de363e8..9e84978 100644
--- a/src/graph/planar_graph.rs
+++ b/src/graph/planar_graph.rs
@@ -137,11 +137,11 @@ where
     }
 
     pub fn has_node_at_index(&self, id: NodeIndex) -> bool {
-        id > 0 && id < self.nodes.len()
+        id < self.nodes.len()
     }
 
     pub fn has_edge_at_index(&self, id: EdgeIndex) -> bool {
-        id > 0 && id < self.edges.len()
+        id < self.edges.len()
     }
 
     /// Returns `true` if an edge exists between 2 nodes with indices `a` and `b` and `false` otherwise.
-- 
2.43.0


From 5e6a78b246f42023e283c0fcf149b8495eef2d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:29 +0000
Subject: [PATCH 02/25] fix: remove_node no longer panics on an isolated node

---
 src/graph/planar_graph.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/graph/planar_graph.rs b/src/graph/planar_graph.rs
index 9e84978..4752b96 100644
--- a/src/graph/planar_graph.rs
+++ b/src/graph/planar_graph.rs
@@ -438,7 +438,13 @@ where
 
             // Keep track of the index of the "leftmost" node / edge to-be-deleted
             let min_node_index = marked_nodes.iter().cloned().min().unwrap();
-            let min_edge_index = marked_edges.iter().cloned().min().unwrap();
+
+            // A node without any edges leaves the edge list untouched
+            let min_edge_index = marked_edges
+                .iter()
+                .cloned()
+                .min()
+                .unwrap_or(self.edge_count());
 
             // All nodes / edges that are to the "right" of the indices calculated above will change
             let changed_nodes = (min_node_index..self.node_count()).collect::<Vec<_>>();
-- 
2.43.0


From 73ccd7190752e3dd3cbacf68888f7e4138d3ebf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:29 +0000
Subject: [PATCH 03/25] fix: remove_edge no longer panics on the last edge

---
 src/graph/planar_graph.rs | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/src/graph/planar_graph.rs b/src/graph/planar_graph.rs
index 4752b96..28f7fea 100644
--- a/src/graph/planar_graph.rs
+++ b/src/graph/planar_graph.rs
@@ -384,21 +384,14 @@ where
             // we can simply delete the edge itself
             let mut changed_edges = vec![id];
 
-            // If there is at least one other edge besides this one, replace the edge to-be-deleted
-            // with the last edge and return both indices - doing this prevents the entire array from
-            // being shuffled
-            //
-            // Note that the case where there is *only* 1 edge in the graph should be handled by the
-            // previous logic (i.e. the calls to `remove_node`)
-            // TODO: this could be simplified - do we even need this if-statement here? aren't we guaranteed
-            //  to have more than 1 edge at this point?
-            if self.edge_count() > 1 {
-                // Make sure to do this BEFORE the call to `pop()`, which changes the array length
-                changed_edges.push(self.edge_count() - 1);
-
-                let last = self.edges.pop().expect("This should never happen");
-                self.edges[id] = last;
+            // Replace the edge to-be-deleted with the last edge and return both indices - doing this
+            // prevents the entire array from being shuffled (if the edge to-be-deleted *is* the last
+            // edge, it is simply removed)
+            let last = self.edge_count() - 1;
+            if id != last {
+                changed_edges.push(last);
             }
+            self.edges.swap_remove(id);
 
             // No nodes should ever be affected by this procedure if we've reached this point
             return (vec![], changed_edges);
-- 
2.43.0


From c648432eeb8ccd0cc11e4284f58ca7ec612136d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:29 +0000
Subject: [PATCH 04/25] fix: add_edge no longer stores edges from a node to
 itself

---
 src/graph/planar_graph.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/graph/planar_graph.rs b/src/graph/planar_graph.rs
index 28f7fea..981febb 100644
--- a/src/graph/planar_graph.rs
+++ b/src/graph/planar_graph.rs
@@ -207,6 +207,11 @@ where
         dst: NodeIndex,
         data: U,
     ) -> Result<(Vec<NodeIndex>, Vec<EdgeIndex>), PlanarGraphError> {
+        // An edge from a node to itself has no length, so there is nothing to draw
+        if src == dst && self.get_vertex(src).is_some() {
+            return Ok((vec![], vec![]));
+        }
+
         // Don't add duplicate (collinear) edges
         if !self.has_edge_between_nodes(src, dst) {
             // Make sure `src` and `dst` vertices actually exist
-- 
2.43.0


From cf03f95335b9c1683d6a78891aeccd7c18ef4477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:29 +0000
Subject: [PATCH 05/25] fix: unique_points_among keeps one of several
 coinciding points

---
 src/geometry/utils.rs | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/src/geometry/utils.rs b/src/geometry/utils.rs
index 85d57ad..cf77acd 100644
--- a/src/geometry/utils.rs
+++ b/src/geometry/utils.rs
@@ -170,22 +170,11 @@ pub fn close_to(a: &Vec2, b: &Vec2) -> bool {
 
 /// Calculates the (sub)set of "unique" points from an input set, within epsilon.
 pub fn unique_points_among(ps: &Vec<Vec2>) -> Vec<Vec2> {
-    let mut unique = vec![];
-
-    for (i, a) in ps.iter().enumerate() {
-        // Assume that this point `a` is unique
-        let mut is_unique = true;
-
-        // Iterate through all other points and check if `a` ~= `b` (taking care not
-        // to compare `a` with itself in the inner for-loop)
-        for (j, b) in ps.iter().enumerate() {
-            if i != j && close_to(a, b) {
-                is_unique = false;
-                break;
-            }
-        }
+    let mut unique: Vec<Vec2> = vec![];
 
-        if is_unique {
+    for a in ps.iter() {
+        // Only keep this point if no point that was kept before is the same
+        if !unique.iter().any(|b| close_to(a, b)) {
             unique.push(*a);
         }
     }
-- 
2.43.0


From fb3255295dc3e2a8e80d7dc8e33cd9f2147014a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:29 +0000
Subject: [PATCH 06/25] fix: calculate_line_intersection treats its lines as
 infinite

---
 src/geometry/utils.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/geometry/utils.rs b/src/geometry/utils.rs
index cf77acd..7134e56 100644
--- a/src/geometry/utils.rs
+++ b/src/geometry/utils.rs
@@ -190,11 +190,6 @@ pub fn calculate_line_intersection(a: &Vec2, b: &Vec2, c: &Vec2, d: &Vec2) -> Op
 
     if determinant.abs() > nalgebra_glm::epsilon() {
         let u_a = ((d.x - c.x) * (a.y - c.y) - (d.y - c.y) * (a.x - c.x)) / determinant;
-        let u_b = ((b.x - a.x) * (a.y - c.y) - (b.y - a.y) * (a.x - c.x)) / determinant;
-
-        if !((0.0 <= u_a && u_a <= 1.0) && (0.0 <= u_b && u_b <= 1.0)) {
-            return None;
-        }
 
         let x = a.x + u_a * (b.x - a.x);
         let y = a.y + u_a * (b.y - a.y);
-- 
2.43.0


From 2951c5aee760d4cb4e1415f6d4aab80b1baf000f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:29 +0000
Subject: [PATCH 07/25] fix: calculate_perpendicular_bisector works for
 horizontal segments and honours the offset

---
 src/geometry/utils.rs | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/geometry/utils.rs b/src/geometry/utils.rs
index 7134e56..77931b5 100644
--- a/src/geometry/utils.rs
+++ b/src/geometry/utils.rs
@@ -102,19 +102,15 @@ pub fn calculate_perpendicular_bisector(a: &Vec2, b: &Vec2, offset: f32) -> (Vec
     // First, calculate the midpoint of the line segment from `a` to `b`
     let midpoint = calculate_midpoint(a, b);
 
-    // Then, calculate the slope of the line segment and the slope of the perpendicular
-    let slope = (b.y - a.y) / (b.x - a.x);
-    let slope_perpendicular = -1.0 / slope;
-    let intercept = midpoint.y - slope_perpendicular * midpoint.x;
-
-    // Add a small offset in the x-direction (this is arbitrary)
-    let offset_point = midpoint + Vec2::new(offset, 0.0);
-    let second = Vec2::new(
-        offset_point.x,
-        offset_point.x * slope_perpendicular + intercept,
-    );
+    // Then, calculate a unit vector perpendicular to the segment: of the two choices, take the one
+    // that points towards the positive x-direction (this is arbitrary)
+    let delta = b - a;
+    let mut perpendicular = Vec2::new(delta.y, -delta.x) / delta.norm();
+    if perpendicular.x < 0.0 {
+        perpendicular = -perpendicular;
+    }
 
-    (midpoint, second)
+    (midpoint, midpoint + perpendicular * offset)
 }
 
 /// Checks if the specified point `p` lies along the line segment `ab`.
-- 
2.43.0


From 75a75a3baf794bdf73fd873094104513a5fb75f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:29 +0000
Subject: [PATCH 08/25] fix: the angle between parallel vectors is never NaN

---
 src/math/vector.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/math/vector.rs b/src/math/vector.rs
index de31a5f..ea2e5f0 100644
--- a/src/math/vector.rs
+++ b/src/math/vector.rs
@@ -137,7 +137,17 @@ where
     pub fn angle(self, rhs: Self) -> T {
         let u_norm = self.normalize();
         let v_norm = rhs.normalize();
-        u_norm.dot(v_norm).acos()
+        let cos = u_norm.dot(v_norm);
+
+        // Rounding can push the cosine of (nearly) parallel vectors slightly out of range, which would
+        // result in NaN
+        if cos > T::one() {
+            T::one().acos()
+        } else if cos < -T::one() {
+            (-T::one()).acos()
+        } else {
+            cos.acos()
+        }
     }
 }
 
-- 
2.43.0


From 6911c7713230abe9d33edcd61179e9da5635dc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:29 +0000
Subject: [PATCH 09/25] fix: from_vectors works for vectors that are not
 normalized

---
 src/math/rotor.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/math/rotor.rs b/src/math/rotor.rs
index 874d7de..ab6f864 100644
--- a/src/math/rotor.rs
+++ b/src/math/rotor.rs
@@ -52,14 +52,15 @@ where
     ///
     /// Usually, we want to construct a rotor that represents a rotation by
     /// angle `θ/2` - that is, the "true" angle between `u` and `v`. We can
-    /// achieve this by adding 1 to the scalar part of the rotor, as shown
-    /// below.
+    /// achieve this by adding 1 (or, if `u` and `v` are not unit vectors, the
+    /// product of their norms) to the scalar part of the rotor, as shown below.
     pub fn from_vectors(u: Vector3<T>, v: Vector3<T>) -> Self
     where
         T: Add<Output = T> + Mul<Output = T> + Sub<Output = T> + Copy,
     {
         // Note that we don't actually use the geometric product function here,
-        // since we need to add 1 to the scalar part first
+        // since we need to add the product of the norms (1 for unit vectors) to the
+        // scalar part first
         //
         // Note also that we flip the order of `u` and `v` below: this is because
         // the formula for rotating a vector with a rotor is:
@@ -69,7 +70,7 @@ where
         // In most of the literature, the left-hand multiplier `vu` corresponds to
         // the rotor `R`, whereas the right-hand multiplier `uv` corresponds to the
         // inverse rotor, `R†` (we want to construct `R`)
-        let scalar = T::one() + v.dot(u);
+        let scalar = u.norm() * v.norm() + v.dot(u);
         let bivector = v.wedge(u);
 
         // Make sure to normalize
-- 
2.43.0


From f371ad4e0f14617ba8793af1ace938ca43080227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:29 +0000
Subject: [PATCH 10/25] fix: basis blade counts for grade 0, for grades above
 the dimension and without early overflow

---
 src/math/blade.rs | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/math/blade.rs b/src/math/blade.rs
index 44a73b0..165e24c 100644
--- a/src/math/blade.rs
+++ b/src/math/blade.rs
@@ -49,23 +49,20 @@ pub fn total_number_of_basis_blades(dim: usize) -> usize {
     2usize.pow(dim as u32)
 }
 
-/// Compute `n` factorial.
-fn factorial(n: usize) -> usize {
-    let mut fact = n;
-    for i in 2..n {
-        fact *= i;
-    }
-    return fact;
-}
-
 /// Compute `n` choose `k`, i.e. the binomial coefficient corresponding to
 /// the parameters `n` and `k`.
 fn binomial_coefficient(n: usize, k: usize) -> usize {
-    let mut num = n;
-    for i in 1..k {
-        num *= n - i;
+    if k > n {
+        return 0;
+    }
+
+    // `n` choose `k` is symmetric in `k` and `n - k`. Each step below multiplies and divides, which
+    // keeps the intermediate results (binomial coefficients themselves) as small as possible.
+    let mut coefficient = 1;
+    for i in 0..k.min(n - k) {
+        coefficient = coefficient * (n - i) / (i + 1);
     }
-    return num / factorial(k);
+    return coefficient;
 }
 
 /// Returns the number of basis `k`-blades needed in an `n`-dimensional
-- 
2.43.0


From dc23b6c41280b7daaca5c31676d1da01b45d15db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:29 +0000
Subject: [PATCH 11/25] fix: exported FOLD files use the keys that import
 understands

---
 src/fold/fold.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fold/fold.rs b/src/fold/fold.rs
index ca9caa1..2f5aa51 100644
--- a/src/fold/fold.rs
+++ b/src/fold/fold.rs
@@ -91,7 +91,7 @@ pub struct Fold {
     pub edges_assignment: Vec<String>,
 
     /// For each edge, the fold angle (deviation from flatness) along each edge of the pattern
-    #[serde(default, rename(deserialize = "edges_foldAngles"))]
+    #[serde(default, rename = "edges_foldAngles")]
     pub edges_foldangles: Vec<f32>,
 
     /// For each edge, the length of the edge (a number)
@@ -111,11 +111,11 @@ pub struct Fold {
     /// Layer information
 
     /// An array of triples [f, g, s] where f and g are face IDs and s is an integer between −1 and 1
-    #[serde(default, rename(deserialize = "faceOrders"))]
+    #[serde(default, rename = "faceOrders")]
     pub faceorders: Vec<[i32; 3]>,
 
     /// An array of triples [e, f, s] where e and f are edge IDs and s is an integer between −1 and 1
-    #[serde(default, rename(deserialize = "edgeOrders"))]
+    #[serde(default, rename = "edgeOrders")]
     pub edgeorders: Vec<[i32; 3]>,
 }
 
-- 
2.43.0


From acec5554103196d6b458b59932049a80cbcbde82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:29 +0000
Subject: [PATCH 12/25] fix: malformed FOLD files give an error instead of a
 panic

---
 src/fold/fold.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fold/fold.rs b/src/fold/fold.rs
index 2f5aa51..3b2a1fe 100644
--- a/src/fold/fold.rs
+++ b/src/fold/fold.rs
@@ -127,7 +127,7 @@ impl Fold {
         let mut contents = String::new();
         file.read_to_string(&mut contents)?;
 
-        let mut fold: Fold = serde_json::from_str(&contents).expect("Failed to load JSON");
+        let mut fold: Fold = serde_json::from_str(&contents)?;
         fold.resolve();
         fold.validate();
 
-- 
2.43.0


From d29a6dc45c27a986f2268e29293506386d334476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:29 +0000
Subject: [PATCH 13/25] fix: FOLD files may have a fractional spec version such
 as 1.1

---
 src/fold/fold.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fold/fold.rs b/src/fold/fold.rs
index 3b2a1fe..f28db70 100644
--- a/src/fold/fold.rs
+++ b/src/fold/fold.rs
@@ -11,7 +11,7 @@ pub struct Fold {
 
     /// The version of the FOLD spec that the file assumes (a number)
     #[serde(default)]
-    pub file_spec: i32,
+    pub file_spec: f32,
 
     /// The software that created the file (a string)
     #[serde(default)]
-- 
2.43.0


From abaa077aa28bee255b06b3aa449334f39a327435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:29 +0000
Subject: [PATCH 14/25] fix: triangulate returns for polygons without ears

---
 src/geometry/polygon.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/geometry/polygon.rs b/src/geometry/polygon.rs
index 4defa27..ddb6eed 100644
--- a/src/geometry/polygon.rs
+++ b/src/geometry/polygon.rs
@@ -258,6 +258,9 @@ impl Polygon {
         self.in_cone(i, j) && self.in_cone(j, i)
     }
 
+    /// Splits the polygon into triangles by clipping "ears". A simple polygon with `n` vertices
+    /// results in `n - 2` triangles. If the polygon is not simple, there might not be any ear left
+    /// at some point - in this case, the remaining polygon is returned as the last entry.
     pub fn triangulate(&self) -> Vec<Polygon> {
         // This polygon is a triangle, so we are done
         if self.vertices.len() == 3 {
@@ -281,6 +284,10 @@ impl Polygon {
         let mut triangles = vec![];
 
         while copy.vertices.len() > 3 {
+            // This polygon is not simple, so there is nothing left to clip
+            if !is_ear.contains(&true) {
+                break;
+            }
 
             for v2 in 0..copy.vertices.len() {
 
-- 
2.43.0


From 119e6e66d9b612fe7ac99640008cd6317bff9111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:29 +0000
Subject: [PATCH 15/25] fix: no other point lies between two coincident points

---
 src/geometry/polygon.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/geometry/polygon.rs b/src/geometry/polygon.rs
index ddb6eed..4d08eab 100644
--- a/src/geometry/polygon.rs
+++ b/src/geometry/polygon.rs
@@ -59,8 +59,9 @@ pub fn between(a: &Vec2, b: &Vec2, c: &Vec2) -> bool {
         return ((a.x <= c.x) && (c.x <= b.x)) || ((a.x >= c.x) && (c.x >= b.x));
     }
 
-    // `ab` is vertical
-    ((a.y <= c.y) && (c.y <= b.y)) || ((a.y >= c.y) && (c.y >= b.y))
+    // `ab` is vertical (or a single point, in which case every `c` is collinear)
+    a.x == c.x
+        && (((a.y <= c.y) && (c.y <= b.y)) || ((a.y >= c.y) && (c.y >= b.y)))
 }
 
 /// Determines whether the line segments `ab` and `cd` intersect. This function returns `true` if
-- 
2.43.0


From 2b43791c2c676fd4ba6203be01cef0352e52a4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:39 +0000
Subject: [PATCH 16/25] fix: coincidence tests work at every scale and honour
 include_endpoints

---
 src/geometry/utils.rs     | 35 +++++++++++++++++++++++++----------
 src/graph/planar_graph.rs | 13 +++++++++++--
 2 files changed, 36 insertions(+), 12 deletions(-)

diff --git a/src/geometry/utils.rs b/src/geometry/utils.rs
index 77931b5..62a328a 100644
--- a/src/geometry/utils.rs
+++ b/src/geometry/utils.rs
@@ -113,19 +113,34 @@ pub fn calculate_perpendicular_bisector(a: &Vec2, b: &Vec2, offset: f32) -> (Vec
     (midpoint, midpoint + perpendicular * offset)
 }
 
-/// Checks if the specified point `p` lies along the line segment `ab`.
+/// Returns the distance up to which features at the specified positions are considered coincident:
+/// this is proportional to the largest coordinate, since that is what rounding errors scale with.
+pub fn tolerance_for(points: &[Vec2]) -> f32 {
+    let largest = points.iter().fold(0.0f32, |largest, p| {
+        largest.max(p.x.abs()).max(p.y.abs())
+    });
+
+    nalgebra_glm::epsilon::<f32>() * (largest * 64.0).max(1.0)
+}
+
+/// Checks if the specified point `p` lies along the line segment `ab`. If the point is one of the
+/// endpoints of the line segment, the result is `include_endpoints`.
 pub fn is_on_line_segment(a: &Vec2, b: &Vec2, p: &Vec2, include_endpoints: bool) -> bool {
-    // The total length of the line segment
-    let ab = nalgebra_glm::distance(a, b);
+    let tolerance = tolerance_for(&[*a, *b, *p]);
+
+    if nalgebra_glm::distance(a, p) <= tolerance || nalgebra_glm::distance(p, b) <= tolerance {
+        return include_endpoints;
+    }
 
-    // The lengths of the two sub-segments joining each endpoint to the specified point
-    let ap = nalgebra_glm::distance(a, p);
-    let pb = nalgebra_glm::distance(p, b);
+    // The point has to lie between both endpoints...
+    let ab = b - a;
+    let ap = p - a;
+    let along = ab.dot(&ap);
 
-    // Return `false` if the specified point is one of the endpoints of the line segment
-    ((ap + pb) - ab).abs() < nalgebra_glm::epsilon()
-        && ap.abs() > nalgebra_glm::epsilon()
-        && pb.abs() > nalgebra_glm::epsilon()
+    // ...and its (perpendicular) distance to the line has to vanish
+    along > 0.0
+        && along < ab.dot(&ab)
+        && (ab.x * ap.y - ab.y * ap.x).abs() <= tolerance * ab.norm()
 }
 
 /// Finds the index of the vertex that is closest to the specified target vertex `t` among a set of
diff --git a/src/graph/planar_graph.rs b/src/graph/planar_graph.rs
index 981febb..52ebba8 100644
--- a/src/graph/planar_graph.rs
+++ b/src/graph/planar_graph.rs
@@ -172,6 +172,15 @@ where
             .collect::<Vec<_>>()
     }
 
+    /// Returns `true` if `position`, whose distance to the node at index `id` is `distance`, should be
+    /// considered the same as the position of that node.
+    fn is_at_node(&self, id: NodeIndex, distance: f32, position: &Vec2) -> bool {
+        match self.get_vertex(id) {
+            Some(node) => distance <= utils::tolerance_for(&[*position, node.position]),
+            None => false,
+        }
+    }
+
     /// Attempts to add a new node to the graph at `position`. This function returns a tuple with 2 entries:
     ///
     /// 1. The index of the newly added node (or the index of an existing node if the specified node was
@@ -181,7 +190,7 @@ where
         // Check if the vertex is the same as an existing vertex (within epsilon)
         let (index, distance) = utils::find_closest_to(position, &self.gather_node_positions());
 
-        if distance < nalgebra_glm::epsilon() {
+        if self.is_at_node(index, distance, position) {
             // If the found distance is less than the specified threshold, the specified
             // node is considered a "duplicate," so we return the index of the existing
             // node and an empty array (since by definition, no edges were modified)
@@ -354,7 +363,7 @@ where
             let (index, distance) =
                 utils::find_closest_to(intersection, &self.gather_node_positions());
 
-            if distance < nalgebra_glm::epsilon() {
+            if self.is_at_node(index, distance, intersection) {
                 println!("Point of intersection coincides with an existing node");
                 changed_edges.extend(&self.split_edges_at_node(index));
             } else {
-- 
2.43.0


From 0b0eab0df9e22eccedfcf9d2f6661e45b098fafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:05 +0000
Subject: [PATCH 17/25] fix: parallel accepts exactly parallel directions in
 spite of rounding

---
 src/geometry/utils.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/geometry/utils.rs b/src/geometry/utils.rs
index 62a328a..b002cd1 100644
--- a/src/geometry/utils.rs
+++ b/src/geometry/utils.rs
@@ -6,15 +6,12 @@ pub fn parallel(a: &Vec2, b: &Vec2, c: &Vec2, d: &Vec2) -> bool {
     let dir_ab = b - a;
     let dir_cd = d - c;
 
-    // If AB and CD are nearly parallel, this will be either -1 or 1, so we take
-    // the absolute value
-    let abs_dot = nalgebra_glm::normalize_dot(&dir_ab, &dir_cd).abs();
+    // If AB and CD are nearly parallel, the sine of the angle between them will be close to 0 (unlike
+    // the cosine, which is lost in rounding errors close to 1)
+    let cross = dir_ab.x * dir_cd.y - dir_ab.y * dir_cd.x;
+    let sine = cross / (dir_ab.norm() * dir_cd.norm());
 
-    if (abs_dot - 1.0).abs() < nalgebra_glm::epsilon() {
-        return true;
-    }
-
-    false
+    sine.abs() < (2.0 * nalgebra_glm::epsilon::<f32>()).sqrt()
 }
 
 /// Determines whether a triangle is degenerate (i.e. has one or more sides with length 0).
-- 
2.43.0


From 2eff6279c36a8d7f1b3aa4c506026727a7f5c754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:46 +0000
Subject: [PATCH 18/25] fix: new edges stop at existing nodes and do not
 duplicate the edges they overlap

---
 src/geometry/utils.rs     | 14 ++++++++
 src/graph/planar_graph.rs | 72 +++++++++++++++++++++++++++++++++++----
 2 files changed, 80 insertions(+), 6 deletions(-)

diff --git a/src/geometry/utils.rs b/src/geometry/utils.rs
index b002cd1..ec4e4ce 100644
--- a/src/geometry/utils.rs
+++ b/src/geometry/utils.rs
@@ -140,6 +140,20 @@ pub fn is_on_line_segment(a: &Vec2, b: &Vec2, p: &Vec2, include_endpoints: bool)
         && (ab.x * ap.y - ab.y * ap.x).abs() <= tolerance * ab.norm()
 }
 
+/// Determines whether the two line segments `ab` and `cd` lie along the same line (up to rounding errors).
+pub fn are_collinear(a: &Vec2, b: &Vec2, c: &Vec2, d: &Vec2) -> bool {
+    let tolerance = tolerance_for(&[*a, *b, *c, *d]);
+
+    // The distance between `p` and the infinite line through `u` and `v` has to vanish
+    let on_line = |u: &Vec2, v: &Vec2, p: &Vec2| {
+        let (uv, up) = (v - u, p - u);
+        (uv.x * up.y - uv.y * up.x).abs() <= tolerance * uv.norm()
+    };
+
+    // Test in both directions, since the line through the shorter segment may be inaccurate
+    (on_line(a, b, c) && on_line(a, b, d)) || (on_line(c, d, a) && on_line(c, d, b))
+}
+
 /// Finds the index of the vertex that is closest to the specified target vertex `t` among a set of
 /// `points`.
 pub fn find_closest_to(t: &Vec2, points: &Vec<Vec2>) -> (usize, f32) {
diff --git a/src/graph/planar_graph.rs b/src/graph/planar_graph.rs
index 52ebba8..4bd9858 100644
--- a/src/graph/planar_graph.rs
+++ b/src/graph/planar_graph.rs
@@ -226,6 +226,7 @@ where
             // Make sure `src` and `dst` vertices actually exist
             if let (Some(_), Some(_)) = (self.get_vertex(src), self.get_vertex(dst)) {
                 // First, push back the new edge
+                let first_new_edge = self.edge_count();
                 self.edges.push(Edge::new(src, dst, data, DEFAULT_LABEL));
 
                 // TODO: if the edge we just added gets split, do we copy its data over to the child edges?
@@ -241,6 +242,9 @@ where
                     changed_edges.push(self.edge_count() - 1);
                 }
 
+                // Parts of the new edge may overlap with existing edges: only keep the latter
+                self.remove_duplicate_edges(first_new_edge, &mut changed_edges);
+
                 return Ok((changed_nodes, changed_edges));
             }
 
@@ -315,18 +319,45 @@ where
         let mut changed_nodes = vec![];
         let mut changed_edges = vec![];
 
+        // The nodes that the target edge touches: its own endpoints, followed by all existing nodes along
+        // its interior
+        let (src, dst) = self.edges[id].get_node_indices();
+        let mut touched_nodes = vec![src, dst];
+
+        for (index, node) in self.nodes.iter().enumerate() {
+            if index != src
+                && index != dst
+                && utils::is_on_line_segment(
+                    &self.nodes[src].position,
+                    &self.nodes[dst].position,
+                    &node.position,
+                    false,
+                )
+            {
+                touched_nodes.push(index);
+            }
+        }
+
         // An array containing all of the points of intersections
         let mut intersections = vec![];
 
         for (index, edge) in self.edges.iter().enumerate() {
-            // Don't intersect the target edge with itself
-            if id != index {
+            // Don't intersect the target edge with itself, or with any edge that it meets at an existing
+            // node (these edges can't have another point of intersection, unless they are collinear)
+            if id != index && !touched_nodes.iter().any(|&node| edge.includes(node)) {
+                let edge_src = &self.nodes[edge.src].position;
+                let edge_dst = &self.nodes[edge.dst].position;
+                let target_src = &self.nodes[src].position;
+                let target_dst = &self.nodes[dst].position;
+
+                // Two segments along the same line that don't share a node are disjoint
+                if utils::are_collinear(edge_src, edge_dst, target_src, target_dst) {
+                    continue;
+                }
+
                 // The point of intersection (or null if no intersection is found)
                 if let Some(intersection) = utils::calculate_line_segment_intersection(
-                    &self.nodes[edge.get_node_indices().0].position,
-                    &self.nodes[edge.get_node_indices().1].position,
-                    &self.nodes[self.edges[id].get_node_indices().0].position,
-                    &self.nodes[self.edges[id].get_node_indices().1].position,
+                    edge_src, edge_dst, target_src, target_dst,
                 ) {
                     intersections.push(intersection);
                     println!("Found intersection between edge {} and edge {}", id, index);
@@ -334,6 +365,11 @@ where
             }
         }
 
+        // The target edge must not run across any existing node
+        for &node in touched_nodes.iter().skip(2) {
+            changed_edges.extend(&self.split_edges_at_node(node));
+        }
+
         // Get rid of duplicate intersection points - this happens, for example, when the target
         // edge passes through a node that is the shared endpoint of multiple neighbor edges:
         //
@@ -379,6 +415,30 @@ where
         (changed_nodes, changed_edges)
     }
 
+    /// Removes all edges at index `first` and above that join the same nodes as an edge before them. The
+    /// indices in `changed_edges` are updated accordingly.
+    fn remove_duplicate_edges(&mut self, first: EdgeIndex, changed_edges: &mut Vec<EdgeIndex>) {
+        let mut index = first;
+
+        while index < self.edge_count() {
+            let (a, b) = self.edges[index].get_node_indices();
+
+            if self.edges[..index]
+                .iter()
+                .any(|edge| edge.includes(a) && edge.includes(b))
+            {
+                self.edges.remove(index);
+                changed_edges.retain(|&entry| entry != index);
+
+                for entry in changed_edges.iter_mut().filter(|entry| **entry > index) {
+                    *entry -= 1;
+                }
+            } else {
+                index += 1;
+            }
+        }
+    }
+
     /// Removes an edge from the planar graph, potentially removing any stray nodes as well.
     pub fn remove_edge(&mut self, id: EdgeIndex) -> (Vec<NodeIndex>, Vec<EdgeIndex>) {
         // Does this edge actually exist?
-- 
2.43.0


From 8f30c83aebc558848736909cbcb0c13d836ab007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:25 +0000
Subject: [PATCH 19/25] fix: FOLD files with a top-level array are rejected

---
 src/fold/fold.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/fold/fold.rs b/src/fold/fold.rs
index f28db70..36d2002 100644
--- a/src/fold/fold.rs
+++ b/src/fold/fold.rs
@@ -127,6 +127,15 @@ impl Fold {
         let mut contents = String::new();
         file.read_to_string(&mut contents)?;
 
+        // A FOLD file is a JSON object - this has to be checked here, since an array with the values of
+        // the fields would be accepted as well
+        if !contents.trim_start().starts_with('{') {
+            return Err(std::io::Error::new(
+                std::io::ErrorKind::InvalidData,
+                "a FOLD file must contain a JSON object",
+            ));
+        }
+
         let mut fold: Fold = serde_json::from_str(&contents)?;
         fold.resolve();
         fold.validate();
-- 
2.43.0


From 5699c0abae1959d77b4958fd0739a8de5d857e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:17 +0000
Subject: [PATCH 20/25] fix: split the edges a new edge is known to cross,
 instead of searching for them again

The pieces of an edge that was split are shorter, and so was the tolerance with
which the remaining crossings were looked up on them: near the origin of a large
drawing crossings were found but the edge was not split there.
---
 src/graph/planar_graph.rs | 92 ++++++++++++++++++++++++---------------
 1 file changed, 56 insertions(+), 36 deletions(-)

diff --git a/src/graph/planar_graph.rs b/src/graph/planar_graph.rs
index 4bd9858..0df7676 100644
--- a/src/graph/planar_graph.rs
+++ b/src/graph/planar_graph.rs
@@ -310,6 +310,21 @@ where
         vec![]
     }
 
+    /// Splits the edge at index `id` at the specified node, unless it is one of the edge's own endpoints.
+    /// This function returns the indices of both halves.
+    fn split_edge(&mut self, id: EdgeIndex, node: NodeIndex) -> Vec<EdgeIndex> {
+        if self.edges[id].includes(node) {
+            return vec![];
+        }
+
+        let (src, dst) = self.edges[id].get_node_indices();
+        let data = *self.edges[id].get_data();
+        self.edges[id] = Edge::new(src, node, data, DEFAULT_LABEL);
+        self.edges.push(Edge::new(dst, node, data, DEFAULT_LABEL));
+
+        vec![id, self.edge_count() - 1]
+    }
+
     /// Splits any edges that intersect with the specified edge. This function returns a tuple of 2 arrays:
     /// 1. An array containing the indices of any newly created nodes
     /// 2. An array containing the indices of any newly created (or modified / invalidated) edges
@@ -338,7 +353,7 @@ where
             }
         }
 
-        // An array containing all of the points of intersections
+        // An array containing all of the points of intersections (and the edges that they lie on)
         let mut intersections = vec![];
 
         for (index, edge) in self.edges.iter().enumerate() {
@@ -359,59 +374,64 @@ where
                 if let Some(intersection) = utils::calculate_line_segment_intersection(
                     edge_src, edge_dst, target_src, target_dst,
                 ) {
-                    intersections.push(intersection);
+                    intersections.push((index, intersection));
                     println!("Found intersection between edge {} and edge {}", id, index);
                 }
             }
         }
 
         // The target edge must not run across any existing node
-        for &node in touched_nodes.iter().skip(2) {
-            changed_edges.extend(&self.split_edges_at_node(node));
-        }
+        let mut interior_nodes = touched_nodes[2..].to_vec();
 
-        // Get rid of duplicate intersection points - this happens, for example, when the target
-        // edge passes through a node that is the shared endpoint of multiple neighbor edges:
-        //
-        //      \           <- existing edge A
-        //       \
-        //  ------*-----    <- target edge
-        //       /
-        //      /           <- existing edge B
-        //
-        // For example, in the diagram above, the pre-existing edges A and B terminate at a
-        // common node, and when the target edge is added, TWO intersections will be found (one
-        // against edge A, one against edge B), but the two points will coincide with one
-        // another
-        intersections = utils::unique_points_among(&intersections);
-        println!(
-            "Found {} unique intersections: {:?}",
-            intersections.len(),
-            intersections
-        );
-
-        for intersection in intersections.iter() {
+        for (index, intersection) in intersections.iter() {
             // One annoying edge-case we have to consider here is, what happens when the point of
             // intersection coincides (i.e. overlaps with) an existing node? In this case, we want
             // to split any offending edges along the existing node and continue - otherwise, the
-            // point of intersection should be considered a new node, so we add it and split along
-            // any edges, as necessary
-            let (index, distance) =
+            // point of intersection should be considered a new node. This happens, for example, when
+            // the target edge passes through a node that is the shared endpoint of multiple neighbor
+            // edges:
+            //
+            //      \           <- existing edge A
+            //       \
+            //  ------*-----    <- target edge
+            //       /
+            //      /           <- existing edge B
+            //
+            let (mut node, distance) =
                 utils::find_closest_to(intersection, &self.gather_node_positions());
 
-            if self.is_at_node(index, distance, intersection) {
+            if self.is_at_node(node, distance, intersection) {
                 println!("Point of intersection coincides with an existing node");
-                changed_edges.extend(&self.split_edges_at_node(index));
             } else {
-                // Add a new node at the point of intersection, which returns a node index and a list
-                // of all of the edge indices that changed as a result of the additional node
-                let (node_index, edge_indices) = self.add_node(intersection, T::default());
+                node = self.node_count();
+                self.nodes
+                    .push(Node::new(intersection, T::default(), DEFAULT_LABEL));
+                changed_nodes.push(node);
+            }
 
-                changed_nodes.push(node_index);
-                changed_edges.extend(&edge_indices);
+            changed_edges.extend(&self.split_edge(*index, node));
+            if !interior_nodes.contains(&node) {
+                interior_nodes.push(node);
             }
         }
 
+        // Split the target edge at all of these nodes, starting with the one that is the farthest from
+        // its first node. Which edges have to be split is known from the above: testing again whether the
+        // nodes lie on the (shorter) pieces would be at the mercy of rounding errors.
+        let origin = self.nodes[src].position;
+        let nodes = &self.nodes;
+        interior_nodes.sort_by(|&a, &b| {
+            let distance_a = nalgebra_glm::distance(&origin, &nodes[a].position);
+            let distance_b = nalgebra_glm::distance(&origin, &nodes[b].position);
+            distance_b
+                .partial_cmp(&distance_a)
+                .unwrap_or(std::cmp::Ordering::Equal)
+        });
+
+        for node in interior_nodes {
+            changed_edges.extend(&self.split_edge(id, node));
+        }
+
         (changed_nodes, changed_edges)
     }
 
-- 
2.43.0


From c072bb9d11a2cf48cd4651c357da1b91a875060f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:44 +0000
Subject: [PATCH 21/25] fix: short segments also define lines that intersect

---
 src/geometry/utils.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/geometry/utils.rs b/src/geometry/utils.rs
index ec4e4ce..7cb4cc0 100644
--- a/src/geometry/utils.rs
+++ b/src/geometry/utils.rs
@@ -210,7 +210,11 @@ pub fn unique_points_among(ps: &Vec<Vec2>) -> Vec<Vec2> {
 pub fn calculate_line_intersection(a: &Vec2, b: &Vec2, c: &Vec2, d: &Vec2) -> Option<Vec2> {
     let determinant = (d.y - c.y) * (b.x - a.x) - (d.x - c.x) * (b.y - a.y);
 
-    if determinant.abs() > nalgebra_glm::epsilon() {
+    // The determinant shrinks with the lengths of both segments, so it has to be compared with the size of
+    // the products above (up to whose rounding errors it vanishes if the lines are parallel)
+    let size = ((d.y - c.y) * (b.x - a.x)).abs() + ((d.x - c.x) * (b.y - a.y)).abs();
+
+    if determinant.abs() > nalgebra_glm::epsilon::<f32>() * size {
         let u_a = ((d.x - c.x) * (a.y - c.y) - (d.y - c.y) * (a.x - c.x)) / determinant;
 
         let x = a.x + u_a * (b.x - a.x);
-- 
2.43.0


From 7f7b26cd1e690e452c2b5178a3f20b6d889bbbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:44 +0000
Subject: [PATCH 22/25] fix: segments along the same line that are apart do not
 intersect

---
 src/geometry/utils.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/geometry/utils.rs b/src/geometry/utils.rs
index 7cb4cc0..3acd553 100644
--- a/src/geometry/utils.rs
+++ b/src/geometry/utils.rs
@@ -71,7 +71,19 @@ pub fn calculate_line_segment_intersection(a: &Vec2, b: &Vec2, c: &Vec2, d: &Vec
     let t = (delta_x1 * (a.y - c.y) - delta_y1 * (a.x - c.x)) / denom;
 
     if s >= 0.0 && s <= 1.0 && t >= 0.0 && t <= 1.0 {
-        return Some(Vec2::new(a.x + (t * delta_x0), a.y + (t * delta_y0)));
+        let intersection = Vec2::new(a.x + (t * delta_x0), a.y + (t * delta_y0));
+
+        // If both segments lie along the same line, `s` and `t` are nothing but rounding errors, so make
+        // sure that the point on `ab` that was found is within reach of `cd`
+        let largest = [a.x, a.y, b.x, b.y]
+            .iter()
+            .fold(0.0f32, |largest, p| largest.max(p.abs()));
+        let tolerance = 4.0 * nalgebra_glm::epsilon::<f32>() * largest;
+        let within = |p: f32, c: f32, d: f32| p >= c.min(d) - tolerance && p <= c.max(d) + tolerance;
+
+        if within(intersection.x, c.x, d.x) && within(intersection.y, c.y, d.y) {
+            return Some(intersection);
+        }
     }
 
     None
-- 
2.43.0


From 86038fadaa7cd816e84a3bafcf03a9a68ce74573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:45 +0000
Subject: [PATCH 23/25] fix: collinear corners form a degenerate triangle,
 whatever their direction

---
 src/geometry/utils.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/geometry/utils.rs b/src/geometry/utils.rs
index 3acd553..a0ab15c 100644
--- a/src/geometry/utils.rs
+++ b/src/geometry/utils.rs
@@ -1,3 +1,4 @@
+use crate::geometry::polygon::collinear;
 use nalgebra_glm::Vec2;
 
 /// Determines whether the vector from `a` to `b` is (nearly) parallel to the vector pointing
@@ -26,7 +27,8 @@ pub fn is_degenerate_triangle(a: &Vec2, b: &Vec2, c: &Vec2) -> bool {
         return true;
     }
 
-    false
+    // The lengths above are rounded, so collinear corners don't always violate the triangle inequality
+    collinear(a, b, c)
 }
 
 /// Calculates the incenter of the triangle formed by three points `a`,
-- 
2.43.0


From de6be18a2a981d8b9e2babc8d3110dc6a64dbb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:02 +0000
Subject: [PATCH 24/25] fix: basis blade counts near the largest integer no
 longer overflow on the way

---
 src/math/blade.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/math/blade.rs b/src/math/blade.rs
index 165e24c..d4da28e 100644
--- a/src/math/blade.rs
+++ b/src/math/blade.rs
@@ -1,5 +1,7 @@
 use crate::math::space::{Exterior, Norm};
 
+use std::convert::TryFrom;
+
 /// An enum representing the orientation of a `k`-blade. This has different
 /// meanings depending on the grade of the blade. For example:
 ///
@@ -58,9 +60,11 @@ fn binomial_coefficient(n: usize, k: usize) -> usize {
 
     // `n` choose `k` is symmetric in `k` and `n - k`. Each step below multiplies and divides, which
     // keeps the intermediate results (binomial coefficients themselves) as small as possible.
+    // The products may still be too large for the type of the result.
     let mut coefficient = 1;
     for i in 0..k.min(n - k) {
-        coefficient = coefficient * (n - i) / (i + 1);
+        let next = coefficient as u128 * (n - i) as u128 / (i + 1) as u128;
+        coefficient = usize::try_from(next).expect("the number of basis blades is too large");
     }
     return coefficient;
 }
-- 
2.43.0


From ddba94ebe137afc08c415d3c25d96d1d569e59ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:20 +0000
Subject: [PATCH 25/25] fix: a line contains its points at any scale, up to
 rounding errors, and no others

---
 src/geometry/line.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/geometry/line.rs b/src/geometry/line.rs
index b2746c9..b86dd86 100644
--- a/src/geometry/line.rs
+++ b/src/geometry/line.rs
@@ -1,10 +1,6 @@
-use crate::math::bivector::Bivector3;
-use crate::math::space::Exterior;
+use crate::math::space::{Exterior, Norm};
 use crate::math::vector::Vector3;
 
-use approx::UlpsEq;
-use num_traits::Zero;
-
 pub struct Line {
     point: Vector3<f32>,
     direction: Vector3<f32>,
@@ -28,7 +24,15 @@ impl Line {
     /// Reference: http://geocalc.clas.asu.edu/GA_Primer/GA_Primer/introduction-to-geometric/high-school-geometry-with/solutions-for-straight-line.html
     pub fn contains(&self, x: &Vector3<f32>) -> bool {
         let bivector = (*x - self.point).wedge(self.direction);
-        bivector.ulps_eq(&Bivector3::zero(), std::f32::EPSILON, 4)
+
+        // This area is the distance between `x` and the line, times the length of `u`: it rarely vanishes
+        // completely, since the coordinates of both points are subject to rounding errors
+        let largest = [self.point, *x]
+            .iter()
+            .fold(0.0f32, |m, p| m.max(p.a1.abs()).max(p.a2.abs()).max(p.a3.abs()));
+        let tolerance = 8.0 * std::f32::EPSILON * largest;
+
+        bivector.norm() <= tolerance * self.direction.norm()
     }
 
     pub fn intersect(&self, rhs: &Line) -> Option<Vector3<f32>> {
-- 
2.43.0

