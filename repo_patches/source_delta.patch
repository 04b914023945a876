From 2a0255cf6a69c31180f277754c86ca7bfa6eeae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:06:47 +0000
Subject: [PATCH 01/18] fix: let a vehicle leave when its best path is the one
 it is already on

Setting a destination clears the permission to leave at the end of the route.
The permission was only restored when a different path was chosen, so a vehicle
already on the right path stopped at the end of its destination forever.
---
 src/vehicle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vehicle.rs b/src/vehicle.rs
index c45277c..d0be0b0 100644
--- a/src/vehicle.rs
+++ b/src/vehicle.rs
@@ -413,7 +413,7 @@ impl Vehicle {
             .paths()
             .iter()
             .min_by_key(|path| self.evaluate_path(path, links))
-            .filter(|path| !path.links.iter().eq(&self.route))
+            .filter(|path| path.can_exit != self.can_exit || !path.links.iter().eq(&self.route))
     }
 
     /// Evaluates the desirability of being on a given path,
-- 
2.43.0


From 1c8a7b80e073e2b95ba835040e4ce1a870b3d34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:06:47 +0000
Subject: [PATCH 02/18] fix: keep a traffic light without phases red instead of
 panicking

---
 src/light.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/light.rs b/src/light.rs
index a79a064..a8f0333 100644
--- a/src/light.rs
+++ b/src/light.rs
@@ -142,7 +142,7 @@ impl TrafficLight {
 
     /// Applies the current traffic light phase to each movement.
     fn apply_phase(&mut self) {
-        let Phase { mask, .. } = self.phases[self.phase];
+        let mask = self.phases.get(self.phase).map_or(0, |phase| phase.mask);
         for (idx, movement) in self.movements.iter_mut().enumerate() {
             movement.active = (mask >> idx) & 1 != 0;
         }
-- 
2.43.0


From d6f8e9d96e43abcad4f00daf34ac4f37588bf41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:06:47 +0000
Subject: [PATCH 03/18] fix: look up the right projection between two lanes of
 a group

The table of projections leaves out each link's projection onto itself, which
the index did not account for. Lanes to the right used the next entry, and the
last one was past the end of the table.
---
 src/group.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/group.rs b/src/group.rs
index 642a2ad..840ec82 100644
--- a/src/group.rs
+++ b/src/group.rs
@@ -92,7 +92,9 @@ impl LinkGroup {
         let src_idx = self.find_link(src).expect("Link is not in group.");
         let dst_idx = self.find_link(dst).expect("Link is not in group.");
         let n = self.links.len() - 1;
-        &self.projections[(n * src_idx) + dst_idx]
+        // There is no projection of a link onto itself
+        let idx = if dst_idx > src_idx { dst_idx - 1 } else { dst_idx };
+        &self.projections[(n * src_idx) + idx]
     }
 
     /// Gets the index of the `link` in this link group.
-- 
2.43.0


From de65abd657655bc8545edf9006b78e04bc7891f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:06:47 +0000
Subject: [PATCH 04/18] fix: end a vehicle's path at its destination

When the destination led back onto the route, the path continued past it and
the vehicle drove around the loop forever instead of leaving.
---
 src/vehicle/pathfinding.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vehicle/pathfinding.rs b/src/vehicle/pathfinding.rs
index cd18bbb..5c81ef4 100644
--- a/src/vehicle/pathfinding.rs
+++ b/src/vehicle/pathfinding.rs
@@ -145,7 +145,7 @@ impl PathfindingModel {
 
         let mut found = false;
 
-        if !path.is_full() && dist < PLAN_DIST {
+        if link_id != self.dst && !path.is_full() && dist < PLAN_DIST {
             let link = &links[link_id];
             let dist = dist + link.length();
             let last_idx = path.len();
-- 
2.43.0


From d9e82874693b45232d26b2958b483cc9b098cbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:07:09 +0000
Subject: [PATCH 05/18] fix: list every route exactly once in all_routes

A source link which is also a sink was listed twice. Sinks which can only be
reached by changing lanes on a later link were left out.
---
 src/simulation.rs | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/simulation.rs b/src/simulation.rs
index c46a55f..2a11fe7 100644
--- a/src/simulation.rs
+++ b/src/simulation.rs
@@ -98,17 +98,13 @@ impl Simulation {
             .values()
             .filter(|link| link.links_in().is_empty());
         srcs.map(|link| link.id()).flat_map(move |src| {
-            let f = self.links[src].reachable_lanes().iter().copied();
-            let s = pathfinding::directed::dfs::dfs_reach(src, move |id| {
-                let lanes = self.links[*id].reachable_lanes();
-                lanes.iter().flat_map(move |link_id| {
-                    let link = &self.links[*link_id];
-                    link.links_out().iter().copied()
-                })
-            });
-            f.chain(s)
-                .filter(|id| self.links[*id].links_out().is_empty())
-                .map(move |dst| (src, dst))
+            pathfinding::directed::dfs::dfs_reach(src, move |id| {
+                let link = &self.links[*id];
+                let lanes = link.lane_changes().iter().copied();
+                lanes.chain(link.links_out().iter().copied())
+            })
+            .filter(|id| self.links[*id].links_out().is_empty())
+            .map(move |dst| (src, dst))
         })
     }
 
-- 
2.43.0


From b5dcbddd6e2f29ec79995382a0c7323fe9511b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:07:10 +0000
Subject: [PATCH 06/18] fix: don't report intersections beyond the end of the
 second curve

---
 src/math/curve/algorithms.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/math/curve/algorithms.rs b/src/math/curve/algorithms.rs
index d8d8d46..f728d56 100644
--- a/src/math/curve/algorithms.rs
+++ b/src/math/curve/algorithms.rs
@@ -48,10 +48,11 @@ pub fn intersect_curves(
         if let Some(pos2) = pos2 {
             let point2 = curve2.sample(pos2);
             let distance = point1.distance(point2);
-            if distance < 0.01 {
+            let in_bounds = curve2.bounds().distance(pos2) < 0.01;
+            if distance < 0.01 && in_bounds {
                 return Some((pos1, pos2));
             } else {
-                pos1 += distance;
+                pos1 += f64::max(distance, 0.01);
             }
         } else {
             pos1 += 1.0;
-- 
2.43.0


From c90609999790829a4cd5cd13bae85e4df50211c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:07:22 +0000
Subject: [PATCH 07/18] fix: project points onto curves which aren't
 parameterised by length

The correction in metres was added to the parameter unscaled, so projecting
onto a bezier curve left its bounds after the first iteration.
---
 src/math/curve/algorithms.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/math/curve/algorithms.rs b/src/math/curve/algorithms.rs
index f728d56..cfe9be0 100644
--- a/src/math/curve/algorithms.rs
+++ b/src/math/curve/algorithms.rs
@@ -24,8 +24,9 @@ pub fn project_point_onto_curve(
 
     // Refine `t` with Newton's method
     for _ in 0..64 {
-        let error = p_dt.dot(point - p) / p_dt.magnitude();
-        t += error;
+        let speed = p_dt.magnitude();
+        let error = p_dt.dot(point - p) / speed;
+        t += error / speed;
         if error.abs() < max_error || !bounds.contains(t) {
             return Some(t);
         }
-- 
2.43.0


From 1f014a33bed06e669e237abc1b47df6bc32d1932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:34:37 +0000
Subject: [PATCH 08/18] fix: don't let a vehicle's path lead away from its
 destination

---
 src/vehicle/pathfinding.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/vehicle/pathfinding.rs b/src/vehicle/pathfinding.rs
index 5c81ef4..eeab9b0 100644
--- a/src/vehicle/pathfinding.rs
+++ b/src/vehicle/pathfinding.rs
@@ -14,6 +14,9 @@ pub(crate) struct PathfindingModel {
     dst: LinkId,
     /// A matrix used to determine the desirability of each link.
     matrix: SparseSecondaryMap<LinkId, LaneDists>,
+    /// The order in which links were added to the matrix, starting from the destination.
+    /// A path always proceeds to links which were added earlier, so it can't go in circles.
+    order: SparseSecondaryMap<LinkId, usize>,
     /// The current set of available paths.
     paths: Vec<Path>,
 }
@@ -58,6 +61,7 @@ impl PathfindingModel {
     fn reroute(&mut self, links: &LinkSet) {
         if self.src.is_null() || self.dst.is_null() {
             self.matrix = Default::default();
+            self.order = Default::default();
             return;
         }
 
@@ -75,7 +79,9 @@ impl PathfindingModel {
     /// Calculates a lane matrix from a path.
     fn calc_lane_matrix(&mut self, route: &[LinkId], links: &LinkSet) {
         let mut matrix = SparseSecondaryMap::new();
+        let mut order = SparseSecondaryMap::new();
         matrix.insert(self.dst, LaneDists::exit());
+        order.insert(self.dst, 0);
 
         for link_id in route.iter().rev() {
             let group = links[*link_id].group();
@@ -94,6 +100,8 @@ impl PathfindingModel {
                     .reduce(|a, b| a.combine(&b))
                     .map(|d| d.offset(link.length()));
                 if let Some(dists) = dists {
+                    let idx = order.len();
+                    order.entry(*link_id).unwrap().or_insert(idx);
                     matrix.insert(*link_id, dists);
                 }
             }
@@ -103,6 +111,8 @@ impl PathfindingModel {
                 for (from, to) in group.lane_changes() {
                     let to_dists = matrix.get(to);
                     if let Some(to_dists) = to_dists.map(|d| d.shift()) {
+                        let idx = order.len();
+                        order.entry(from).unwrap().or_insert(idx);
                         let from_dists = matrix
                             .entry(from)
                             .unwrap()
@@ -114,6 +124,7 @@ impl PathfindingModel {
         }
 
         self.matrix = matrix;
+        self.order = order;
     }
 
     fn make_paths(&mut self, links: &LinkSet) {
@@ -151,6 +162,9 @@ impl PathfindingModel {
             let last_idx = path.len();
             path.push(LinkId::null());
             for succ in links[link_id].links_out() {
+                if self.order.get(*succ) >= self.order.get(link_id) {
+                    continue; // Leads away from the destination
+                }
                 path[last_idx] = *succ;
                 found |= self.make_paths_inner(links, path, dist);
             }
-- 
2.43.0


From 056dc2d5075f48e4ce5560ab40ab7e76f1e41999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:42:40 +0000
Subject: [PATCH 09/18] fix: let projections onto curves converge at a kink

Link curves are made of pieces whose tangents don't quite meet. Newton's method
could oscillate across such a joint until it gave up, and a lane change next to
it panicked.
---
 src/math/curve/algorithms.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/math/curve/algorithms.rs b/src/math/curve/algorithms.rs
index cfe9be0..5dff88b 100644
--- a/src/math/curve/algorithms.rs
+++ b/src/math/curve/algorithms.rs
@@ -22,12 +22,19 @@ pub fn project_point_onto_curve(
     });
     let (mut p, mut p_dt) = (curve.sample(t), curve.sample_dt(t));
 
-    // Refine `t` with Newton's method
+    // Refine `t` with Newton's method, taking smaller steps if it oscillates,
+    // as it does around a point where the curve's tangent isn't continuous.
+    let (mut prev_error, mut damping) = (0.0, 1.0);
     for _ in 0..64 {
         let speed = p_dt.magnitude();
         let error = p_dt.dot(point - p) / speed;
-        t += error / speed;
-        if error.abs() < max_error || !bounds.contains(t) {
+        if error * prev_error < 0.0 && error.abs() > 0.9 * f64::abs(prev_error) {
+            damping *= 0.5;
+        }
+        prev_error = error;
+        let step = damping * error;
+        t += step / speed;
+        if step.abs() < max_error || !bounds.contains(t) {
             return Some(t);
         }
         (p, p_dt) = (curve.sample(t), curve.sample_dt(t));
-- 
2.43.0


From 36f58a38432e6214b437820be758c8e24255b42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:40:53 +0000
Subject: [PATCH 10/18] fix: don't search further back for vehicles than any
 route is long

---
 src/link.rs                | 10 +++++++---
 src/vehicle.rs             |  1 +
 src/vehicle/pathfinding.rs |  7 +++++--
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/link.rs b/src/link.rs
index 6198207..dd9a500 100644
--- a/src/link.rs
+++ b/src/link.rs
@@ -2,7 +2,7 @@ use crate::conflict::LinkConflict;
 use crate::group::Obstacle;
 use crate::math::{ParametricCurve2d, Point2d};
 use crate::util::rotated_range;
-use crate::vehicle::{ObstaclePassResult, RouteState, Vehicle};
+use crate::vehicle::{ObstaclePassResult, RouteState, Vehicle, MAX_PATH_LINKS};
 use crate::{LinkGroup, LinkId, LinkSet, VehicleId, VehicleSet};
 use arrayvec::ArrayVec;
 pub use curve::{LinkCurve, LinkSample};
@@ -378,10 +378,10 @@ impl Link {
             }
         }
 
-        if pos[0] / max_vel > time {
+        let route = (route.0 + 1, route.1);
+        if pos[0] / max_vel > time || route.0 >= MAX_PATH_LINKS {
             true
         } else {
-            let route = (route.0 + 1, route.1);
             self.links_in.iter().all(|link_id| {
                 let link = &links[*link_id];
                 let pos = pos.map(|p| p + link.length());
@@ -546,6 +546,10 @@ impl Link {
         }
 
         let route = (route.0 + 1, route.1);
+        if route.0 >= MAX_PATH_LINKS {
+            return; // No vehicle further back can have this link on its route
+        }
+
         for link_id in &self.links_in {
             let link = &links[*link_id];
             let pos = pos + link.length();
diff --git a/src/vehicle.rs b/src/vehicle.rs
index d0be0b0..043c32b 100644
--- a/src/vehicle.rs
+++ b/src/vehicle.rs
@@ -1,5 +1,6 @@
 use self::acceleration::AccelerationModel;
 use self::dynamics::calc_direction;
+pub(crate) use self::pathfinding::MAX_PATH_LINKS;
 use self::pathfinding::{Path, PathfindingModel};
 use crate::group::{LinkProjection, Obstacle};
 use crate::math::{project_local, rot90, CubicFn, Point2d, Vector2d};
diff --git a/src/vehicle/pathfinding.rs b/src/vehicle/pathfinding.rs
index eeab9b0..9340aae 100644
--- a/src/vehicle/pathfinding.rs
+++ b/src/vehicle/pathfinding.rs
@@ -4,6 +4,9 @@ use slotmap::{Key, SparseSecondaryMap};
 
 const PLAN_DIST: f64 = 200.0;
 
+/// The maximum number of links in a path.
+pub(crate) const MAX_PATH_LINKS: usize = 8;
+
 /// The path finding model of a vehicle.
 /// This can be conceptualised as the vehicle's GPS navigation unit.
 #[derive(Clone, Debug, Default)]
@@ -24,7 +27,7 @@ pub(crate) struct PathfindingModel {
 /// A series of links that advances the vehicle towards its goal link.
 #[derive(Clone, Debug)]
 pub(crate) struct Path {
-    pub links: ArrayVec<LinkId, 8>,
+    pub links: ArrayVec<LinkId, MAX_PATH_LINKS>,
     pub dists: LaneDists,
     pub can_exit: bool,
 }
@@ -143,7 +146,7 @@ impl PathfindingModel {
     fn make_paths_inner(
         &mut self,
         links: &LinkSet,
-        path: &mut ArrayVec<LinkId, 8>,
+        path: &mut ArrayVec<LinkId, MAX_PATH_LINKS>,
         dist: f64,
     ) -> bool {
         let link_id = *path.last_mut().unwrap();
-- 
2.43.0


From 78786377f6c4e6bd7488dc30b64c7998b88fe91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:56:22 +0000
Subject: [PATCH 11/18] fix: find intersections beside tight bends and of
 curves not parameterised by length

---
 src/math/curve/algorithms.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/math/curve/algorithms.rs b/src/math/curve/algorithms.rs
index 5dff88b..e3d7bcb 100644
--- a/src/math/curve/algorithms.rs
+++ b/src/math/curve/algorithms.rs
@@ -48,10 +48,12 @@ pub fn intersect_curves(
     curve1: &impl ParametricCurve2d,
     curve2: &impl ParametricCurve2d,
 ) -> Option<(f64, f64)> {
-    let mut pos1 = curve1.bounds().min;
+    let bounds1 = curve1.bounds();
+    let mut pos1 = bounds1.min;
     let mut pos2 = None;
-    while pos1 < curve1.bounds().max {
+    while pos1 < bounds1.max {
         let point1 = curve1.sample(pos1);
+        let mut step = 1.0;
         pos2 = project_point_onto_curve(curve2, point1, 0.1, pos2);
         if let Some(pos2) = pos2 {
             let point2 = curve2.sample(pos2);
@@ -59,12 +61,12 @@ pub fn intersect_curves(
             let in_bounds = curve2.bounds().distance(pos2) < 0.01;
             if distance < 0.01 && in_bounds {
                 return Some((pos1, pos2));
-            } else {
-                pos1 += f64::max(distance, 0.01);
             }
-        } else {
-            pos1 += 1.0;
+            step = distance.clamp(0.01, 1.0);
         }
+        // The step is a distance, which isn't what the curve is necessarily parameterised by
+        let speed = curve1.sample_dt(pos1).magnitude();
+        pos1 += f64::min(step / speed, 0.05 * bounds1.length());
     }
     None
 }
-- 
2.43.0


From ce5669228dc6add8546ee1af6e5302eb974ed859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:18:04 +0000
Subject: [PATCH 12/18] fix: don't let links conflict beyond the ends of one
 another

---
 src/conflict.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/conflict.rs b/src/conflict.rs
index 2fb3e89..c412989 100644
--- a/src/conflict.rs
+++ b/src/conflict.rs
@@ -104,6 +104,8 @@ impl ConflictPointLink {
             let own_s = link.curve().sample_centre(own_pos);
             other_pos = project_point_onto_curve(other.curve(), own_s.pos, 0.1, other_pos);
             if let Some(other_pos) = other_pos {
+                // The other link doesn't extend past its ends
+                let other_pos = other_pos.clamp(0.0, other.length());
                 let other_s = other.curve().sample_centre(other_pos);
                 let dist = own_s.pos.distance(other_s.pos);
                 let dist = dist - LINK_RADIUS * own_s.tan.dot(other_s.tan).abs();
-- 
2.43.0


From b84d9e0c28208467f57f8d5349157f19b1f6348b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:21:57 +0000
Subject: [PATCH 13/18] fix: plan for as many lane changes as a road has lanes

---
 src/vehicle/pathfinding.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/vehicle/pathfinding.rs b/src/vehicle/pathfinding.rs
index 9340aae..0a0ee17 100644
--- a/src/vehicle/pathfinding.rs
+++ b/src/vehicle/pathfinding.rs
@@ -7,6 +7,9 @@ const PLAN_DIST: f64 = 200.0;
 /// The maximum number of links in a path.
 pub(crate) const MAX_PATH_LINKS: usize = 8;
 
+/// The maximum number of lanes in a link group.
+const MAX_LANES: usize = 16;
+
 /// The path finding model of a vehicle.
 /// This can be conceptualised as the vehicle's GPS navigation unit.
 #[derive(Clone, Debug, Default)]
@@ -196,15 +199,15 @@ fn successors(link_id: LinkId, links: &LinkSet) -> impl Iterator<Item = (LinkId,
 }
 
 #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
-pub(crate) struct LaneDists([u32; 4]);
+pub(crate) struct LaneDists([u32; MAX_LANES]);
 
 impl LaneDists {
     pub fn dead(dist: f64) -> Self {
-        Self([Self::make_dist(dist); 4])
+        Self([Self::make_dist(dist); MAX_LANES])
     }
 
     pub fn exit() -> Self {
-        Self([u32::MAX; 4])
+        Self([u32::MAX; MAX_LANES])
     }
 
     /// Add an amount to all distances.
@@ -214,12 +217,14 @@ impl LaneDists {
 
     /// Offsets all distances by one lane.
     pub fn shift(&self) -> Self {
-        Self([0, self.0[0], self.0[1], self.0[2]])
+        let mut dists = [0; MAX_LANES];
+        dists[1..].copy_from_slice(&self.0[..MAX_LANES - 1]);
+        Self(dists)
     }
 
     /// Combines two `LaneDist`s.
     pub fn combine(&self, other: &Self) -> Self {
-        Self([0, 1, 2, 3].map(|i| u32::max(self.0[i], other.0[i])))
+        Self(std::array::from_fn(|i| u32::max(self.0[i], other.0[i])))
     }
 
     /// Computes the cost of being on this link at the given `pos`.
-- 
2.43.0


From 5e0d7f99064111e36cad97f86cab195d16991730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:24:23 +0000
Subject: [PATCH 14/18] fix: measure distances to lane changes along the
 vehicle's own lane

---
 src/vehicle/pathfinding.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/vehicle/pathfinding.rs b/src/vehicle/pathfinding.rs
index 0a0ee17..0b3195b 100644
--- a/src/vehicle/pathfinding.rs
+++ b/src/vehicle/pathfinding.rs
@@ -116,7 +116,9 @@ impl PathfindingModel {
             if let Some(group) = group {
                 for (from, to) in group.lane_changes() {
                     let to_dists = matrix.get(to);
-                    if let Some(to_dists) = to_dists.map(|d| d.shift()) {
+                    // Parallel lanes may differ in length, so measure along the `from` lane
+                    let delta = links[from].length() - links[to].length();
+                    if let Some(to_dists) = to_dists.map(|d| d.shift().adjust(delta)) {
                         let idx = order.len();
                         order.entry(from).unwrap().or_insert(idx);
                         let from_dists = matrix
@@ -215,6 +217,14 @@ impl LaneDists {
         Self(self.0.map(|x| x.saturating_add(Self::make_dist(distance))))
     }
 
+    /// Changes all finite distances by an amount, which may be negative.
+    pub fn adjust(&self, delta: f64) -> Self {
+        Self(self.0.map(|x| match x {
+            u32::MAX => x,
+            x => (x as f64 + 10.0 * delta) as u32,
+        }))
+    }
+
     /// Offsets all distances by one lane.
     pub fn shift(&self) -> Self {
         let mut dists = [0; MAX_LANES];
-- 
2.43.0


From 2d3e3b6f35bc7404918aa764c6e3944d03f66f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:30:17 +0000
Subject: [PATCH 15/18] fix: don't give way to vehicles held up behind one
 waiting at the stop line

A vehicle that had to give way also waited for traffic with priority which
itself stood behind a vehicle waiting at its own stop line. Where roads with
shared lanes met, two such queues could wait for each other for good.
---
 src/link.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/link.rs b/src/link.rs
index dd9a500..2890089 100644
--- a/src/link.rs
+++ b/src/link.rs
@@ -369,7 +369,14 @@ impl Link {
             match (vehicle.get_route(route.0), queued_at) {
                 // On another route
                 (None, _) => continue,
-                (Some((link_id, _)), _) if link_id != route.1 => continue,
+                (Some((link_id, state)), _) if link_id != route.1 => {
+                    // If it is waiting at the stop line, then nobody behind it can come
+                    let waiting = !matches!(state, RouteState::Entered) && vehicle.has_stopped();
+                    if route.0 == 1 && waiting {
+                        return true;
+                    }
+                    continue;
+                }
                 // Vehicle has lower priority and hasn't entered the intersection yet
                 (Some((_, RouteState::NotEntered)), Some(_)) => return true,
                 (Some((_, RouteState::QueuedAt(a))), Some(b)) if a > b => return true,
-- 
2.43.0


From f925206d146e8bfe33261c0cc1a259161fa0fca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:00:27 +0000
Subject: [PATCH 16/18] fix: a vehicle which changes its route no longer keeps
 its place in the old queue

A vehicle which had queued to enter a give-way link and was then given
another destination kept its queue position for the link it took
instead, so it could pass a stop sign there without stopping.  The same
applied to a vehicle moved to another lane.
---
 src/vehicle.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vehicle.rs b/src/vehicle.rs
index 043c32b..5875f0d 100644
--- a/src/vehicle.rs
+++ b/src/vehicle.rs
@@ -386,6 +386,7 @@ impl Vehicle {
         self.route = vec![link_id];
         self.pathfind.set_origin(link_id, links);
         self.entered = 1;
+        self.queued = None;
         self.pos = pos;
         self.lane_change = lane_change;
         self.can_exit = false;
@@ -445,6 +446,10 @@ impl Vehicle {
 
         self.route.clear();
         self.route.extend_from_slice(&path.links);
+        if matched <= self.entered {
+            // It queued for a link it's no longer going to enter
+            self.queued = None;
+        }
         self.entered = usize::min(self.entered, matched);
         self.can_exit = path.can_exit;
     }
-- 
2.43.0


From 18ffc520cc12dd66172a14b77eed0c3696fd818a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:34:20 +0000
Subject: [PATCH 17/18] fix: hold a traffic light phase for its duration when
 its movements were already green

A phase ended as soon as its movements had been green for its duration,
counting time from before the phase began. A phase whose movements were
all green in the previous one, or one with no movements at all, was
skipped after a single frame.
---
 src/light.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/light.rs b/src/light.rs
index a8f0333..8fc7d15 100644
--- a/src/light.rs
+++ b/src/light.rs
@@ -12,6 +12,8 @@ pub struct TrafficLight {
     phases: Vec<Phase>,
     /// The current traffic light phase.
     phase: usize,
+    /// The time since the current phase began.
+    phase_since: f64,
 }
 
 /// A single traffic light movement.
@@ -119,6 +121,7 @@ impl TrafficLight {
         for movement in &mut self.movements {
             movement.step(dt);
         }
+        self.phase_since += dt;
     }
 
     /// Advances to the next traffic light phase if appropriate.
@@ -135,8 +138,10 @@ impl TrafficLight {
             .filter(|(index, _)| mask & (1 << index) != 0)
             .all(|(_, m)| m.state == LightState::Green && m.since >= duration);
 
-        if phase_complete {
+        // Its movements may have been green before the phase began
+        if phase_complete && self.phase_since >= duration {
             self.phase = (self.phase + 1) % self.phases.len();
+            self.phase_since = 0.0;
         }
     }
 
-- 
2.43.0


From 3e41a9288936e5be49bf1290a4b8ebc1ca67083e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:35:34 +0000
Subject: [PATCH 18/18] fix: plan the path of a vehicle from the end of its
 current link

The planned distance was counted from the start of the link the vehicle is on.
A vehicle on a long link followed by a short one had a route that ended with
the short link, so it braked as if for a dead end and traffic giving way did
not see it coming.
---
 src/vehicle/pathfinding.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vehicle/pathfinding.rs b/src/vehicle/pathfinding.rs
index 0b3195b..0ccf5de 100644
--- a/src/vehicle/pathfinding.rs
+++ b/src/vehicle/pathfinding.rs
@@ -164,7 +164,10 @@ impl PathfindingModel {
 
         let mut found = false;
 
-        if link_id != self.dst && !path.is_full() && dist < PLAN_DIST {
+        // The vehicle could be anywhere on the first link, so plan ahead from the end of it
+        let plan_dist = dist - links[path[0]].length();
+
+        if link_id != self.dst && !path.is_full() && plan_dist < PLAN_DIST {
             let link = &links[link_id];
             let dist = dist + link.length();
             let last_idx = path.len();
-- 
2.43.0

