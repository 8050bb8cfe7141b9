From db8a3da5e4a23afcc6660a9e2276345a51c6c2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:27 +0000
Subject: [PATCH 01/36] fix: solid sphere inertia is 2/5 m r^2

---
 src/sphere_collider.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sphere_collider.rs b/src/sphere_collider.rs
index 057a07a..551a3e2 100644
--- a/src/sphere_collider.rs
+++ b/src/sphere_collider.rs
@@ -106,7 +106,7 @@ impl InternalCollider for InternalSphereCollider {
 	fn get_mass(&self) -> f32 { self.mass }
 
 	fn get_moment_of_inertia_tensor(&self) -> Mat3 {
-		let inertia = 2.0 / 5.0 * self.mass * self.radius;
+		let inertia = 2.0 / 5.0 * self.mass * self.radius * self.radius;
 		Mat3::from_diagonal(&Vec3::new(inertia, inertia, inertia))
 	}
 
-- 
2.43.0


From d5a481a300faaf060dd34f465ca67c6175aebc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:28 +0000
Subject: [PATCH 02/36] fix: torque of a force is r x F, not scaled by the
 inertia

---
 src/physics_system.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics_system.rs b/src/physics_system.rs
index f617711..953ab76 100644
--- a/src/physics_system.rs
+++ b/src/physics_system.rs
@@ -361,7 +361,7 @@ impl PhysicsSystem {
 						let force = generator_borrow.make_force(dt, &self, handle);
 
 						acceleration += force.force.scale(1.0 / total_mass);
-						torque += entity_copy.get_last_moment_of_inertia() * (force.position - entity_copy.position).cross(&force.force);
+						torque += (force.position - entity_copy.position).cross(&force.force);
 					}
 				}
 			}
-- 
2.43.0


From 7b26b622ed3b7c80625c9a6e88e4934525c3662a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:29 +0000
Subject: [PATCH 03/36] fix: contact normals of spheres are taken at the time
 of the hit

---
 src/collision.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index af34fdf..7f0acbb 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -305,11 +305,10 @@ pub fn collide_sphere_with_sphere(radius1 : f32, center1 : &Vec3, movement1 : &V
 		dc.dot(&dc) - radius * radius,
 	).intersect(&Range::range(0.0, 1.0));
 	if !times.is_empty() {
-		let position = (
-			(center1 + movement1.scale(times.min())) * radius2 +
-			(center2 + movement2.scale(times.min())) * radius1
-		).scale(1.0 / radius);
-		let normal = (position - center1).normalize();
+		let hit_center1 = center1 + movement1.scale(times.min());
+		let hit_center2 = center2 + movement2.scale(times.min());
+		let position = (hit_center1 * radius2 + hit_center2 * radius1).scale(1.0 / radius);
+		let normal = (hit_center2 - hit_center1).normalize();
 		Some(Collision {
 			times,
 			position,
@@ -334,7 +333,7 @@ pub fn collide_sphere_with_line(radius1 : f32, center1: &Vec3, movement1 : &Vec3
 		let center_position = center1 + movement1.scale(times.min());
 		let along_length = (center_position - line_position).dot(&direction);
 		let position = line_position + direction.scale(along_length);
-		let normal = (position - center1).normalize();
+		let normal = (position - center_position).normalize();
 		Some(Collision {
 			times,
 			position,
-- 
2.43.0


From b4d40a12daee8a90abbd92d5cb431fe2fc458f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:01 +0000
Subject: [PATCH 04/36] fix: removing a linked collider no longer panics and
 unlinks it

---
 src/physics_system.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/physics_system.rs b/src/physics_system.rs
index 953ab76..5ba44cd 100644
--- a/src/physics_system.rs
+++ b/src/physics_system.rs
@@ -176,10 +176,12 @@ impl PhysicsSystem {
 
 	/// Removes a collider.
 	pub fn remove_collider(&mut self, handle : ColliderHandle) {
-		if let Some(mut remainder) = self.colliders.borrow_mut().remove(handle) {
+		let removed = self.colliders.borrow_mut().remove(handle); // Don't keep colliders borrowed, as recalculating the mass needs them.
+		if let Some(mut remainder) = removed {
 			// Force the associated entity to update (if there is one).
 			if let Some(entity_handle) = remainder.get_entity() {
 				if let Some(entity) = self.entities.borrow_mut().get_mut(entity_handle) {
+					entity.colliders.remove(&handle);
 					entity.recalculate_mass(&*self.colliders.borrow());
 				}
 			}
-- 
2.43.0


From b717f26b65900d7cfff7720e459ad0e59c745f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:02 +0000
Subject: [PATCH 05/36] fix: removing an entity wakes what rested on it and
 leaves no dangling neighbor

---
 src/physics_system.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/physics_system.rs b/src/physics_system.rs
index 5ba44cd..bd3f4a7 100644
--- a/src/physics_system.rs
+++ b/src/physics_system.rs
@@ -92,6 +92,15 @@ impl PhysicsSystem {
 	///
 	/// Returns if anything changed (i.e. if the entity existed and was removed).
 	pub fn remove_entity(&mut self, handle : EntityHandle) -> bool {
+		{
+			// Wake up anything resting against the entity, and make sure nothing keeps a reference to it.
+			let mut entities = self.entities.borrow_mut();
+			if !entities.contains(handle) { return false; }
+			InternalEntity::wake_up(handle, &mut entities, &mut self.debug);
+			for (_, entity) in entities.iter_mut() {
+				entity.neighbors.remove(&handle);
+			}
+		}
 		let removed = self.entities.borrow_mut().remove(handle);
 		if let Some(entity) = removed {
 			// Also remove all associated colliders.
-- 
2.43.0


From b0596f6000068eb256ce600059fc74239113d99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:03 +0000
Subject: [PATCH 06/36] fix: updating a plane collider normalizes its normal
 like creating one

---
 src/plane_collider.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plane_collider.rs b/src/plane_collider.rs
index 0eedaa5..df1e782 100644
--- a/src/plane_collider.rs
+++ b/src/plane_collider.rs
@@ -71,7 +71,7 @@ impl InternalPlaneCollider {
 			Err(()) // TODO: An error type.
 		} else {
 			self.position = source.position;
-			self.normal = source.normal;
+			self.normal = source.normal.normalize();
 			self.mass = source.mass;
 			self.restitution_coefficient = source.restitution_coefficient;
 			self.friction_threshold = source.friction_threshold;
-- 
2.43.0


From 7ffd772a3a02504d165d839eb4472ad65ea8f9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:04 +0000
Subject: [PATCH 07/36] fix: aligned boxes accept their corners in any order,
 as documented

---
 src/aligned_box_collider.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aligned_box_collider.rs b/src/aligned_box_collider.rs
index adb51ee..34eec79 100644
--- a/src/aligned_box_collider.rs
+++ b/src/aligned_box_collider.rs
@@ -217,7 +217,7 @@ impl AlignedBoxCollider {
 
 	/// If this is in a valid state.
 	pub fn is_valid(&self) -> bool {
-		let size = self.max_corner - self.min_corner;
+		let size = (self.max_corner - self.min_corner).abs(); // The corners can be in any order.
 		EPSILON < size.x && EPSILON < size.y && EPSILON < size.z && 0.0 <= self.mass
 	}
 }
-- 
2.43.0


From b091c4027523a1aec06be7396e6df991631ca1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:06 +0000
Subject: [PATCH 08/36] fix: aligned boxes collide where their position puts
 them

---
 src/collision.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index 7f0acbb..61414ad 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -218,8 +218,8 @@ pub fn collide(collider1 : &Box<dyn InternalCollider>, start1 : &Orientation, en
 			sphere.radius,
 			&sphere_start_position,
 			&(sphere_end_position - sphere_start_position),
-			&aligned_box.min_corner,
-			&aligned_box.max_corner,
+			&(aligned_box.position + aligned_box.min_corner),
+			&(aligned_box.position + aligned_box.max_corner),
 		);
 
 		if let Some(mut result) = result_option {
@@ -242,8 +242,8 @@ pub fn collide(collider1 : &Box<dyn InternalCollider>, start1 : &Orientation, en
 			sphere.radius,
 			&sphere_start_position,
 			&(sphere_end_position - sphere_start_position),
-			&aligned_box.min_corner,
-			&aligned_box.max_corner,
+			&(aligned_box.position + aligned_box.min_corner),
+			&(aligned_box.position + aligned_box.max_corner),
 		);
 
 		if let Some(mut result) = result_option {
-- 
2.43.0


From a861285b6c44baee8b1935cfff902b16d56fcb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:52 +0000
Subject: [PATCH 09/36] fix: a sphere passing a box corner between two faces is
 not a hit

---
 src/collision.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index 61414ad..29d8be1 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -1135,9 +1135,11 @@ fn collide_sphere_with_aligned_box(radius : f32, center : &Vec3, movement : &Vec
 		let y_overlap_times = x_narrow_overlap_times.intersect(&y_broad_overlap_times).intersect(&z_narrow_overlap_times);
 		let z_overlap_times = x_narrow_overlap_times.intersect(&y_narrow_overlap_times).intersect(&z_broad_overlap_times);
 		// Then combine everything into one value.
-		let mut minimum_times = x_overlap_times.contain(&y_overlap_times).contain(&z_overlap_times);
-		// Must be between zero and one.
-		minimum_times = minimum_times.intersect(&Range::range(0.0, 1.0));
+		// Each must be between zero and one before combining, or a gap between an earlier and a later overlap would count as a hit.
+		let valid_times = Range::range(0.0, 1.0);
+		let minimum_times = x_overlap_times.intersect(&valid_times)
+			.contain(&y_overlap_times.intersect(&valid_times))
+			.contain(&z_overlap_times.intersect(&valid_times));
 		// Then use the time and normal to submit a full Collision object.
 		if !minimum_times.is_empty() {
 			let center_at_collision = center + movement * minimum_times.min();
-- 
2.43.0


From 7518e752d811d3eac935a862b273814f81fdccc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:53 +0000
Subject: [PATCH 10/36] fix: sphere-edge hits are no longer lost to rounding

---
 src/collision.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index 29d8be1..beed371 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -350,8 +350,9 @@ pub fn collide_sphere_with_mid_line_segment(radius1 : f32, center1: &Vec3, movem
 	if let Some(hit) = collide_sphere_with_line(radius1, center1, movement1, start2, &length, movement2) {
 		let hit_movement = movement2.scale(hit.times.min());
 		let hit_start = start2 + hit_movement;
-		let hit_end = end2 + hit_movement;
-		if (((hit_start - hit.position).magnitude() + (hit_end - hit.position).magnitude()) - length.magnitude()).abs() < EPSILON {
+		// The hit is on the infinite line, so only need to check that it's between the end points.
+		let along = (hit.position - hit_start).dot(&length);
+		if 0.0 <= along && along <= length.dot(&length) {
 			Some(hit)
 		} else { None }
 	} else { None }
-- 
2.43.0


From 82db9443cda6625f04b7ab8ea1231814e6fcd851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:54 +0000
Subject: [PATCH 11/36] fix: a degenerate or non-finite mesh face cannot panic
 a step

---
 src/collision.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index beed371..153f28b 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -544,7 +544,7 @@ pub fn collide_mesh_with_plane(mesh_vertices : &Vec<Vec3>, mesh_position : &Vec3
 	}
 }
 
-fn get_polygon_normal(points : &Vec<Vec3>) -> Vec3 {
+fn get_polygon_normal(points : &Vec<Vec3>) -> Option<Vec3> {
 	for index in 0..points.len() {
 		let mut next_index = index + 1;
 		if next_index >= points.len() { next_index -= points.len(); }
@@ -552,10 +552,10 @@ fn get_polygon_normal(points : &Vec<Vec3>) -> Vec3 {
 		let normal = (points[prev_index] - points[index]).cross(&(points[next_index] - points[index]));
 		let length = normal.magnitude();
 		if length.is_finite() && EPSILON < length {
-			return normal / length;
+			return Some(normal / length);
 		}
 	}
-	panic!("Couldn't find a normal for the polygon: {:?}", points);
+	None // The polygon is degenerate or has non-finite points.
 }
 
 fn point_is_on_plane(point : &Vec3, plane_normal : &Vec3, plane_point : &Vec3) -> bool {
@@ -569,7 +569,7 @@ fn collide_point_with_polygon(point_start : &Vec3, point_end : &Vec3, polygon :
 	let point_delta = point_end - point_start;
 	// First: figure out when the point will collide with the (moving) plane.
 	// Then decide whether that point (or point movement) goes into the polygon.
-	let mut plane_normal = get_polygon_normal(polygon);
+	let mut plane_normal = get_polygon_normal(polygon)?;
 	// Note that the only way for the point to be on the plane more than once is if it's always on the plane. So use that to decide...
 	if point_is_on_plane(point_start, &plane_normal, &polygon[0]) && point_is_on_plane(point_end, &plane_normal, &polygon[0]) {
 		// Then see if/when that point intersects with the polygon's line segments.
-- 
2.43.0


From 9d96422993e2e74e5c84dc0423f99604d25ea607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:55 +0000
Subject: [PATCH 12/36] fix: interpolating orientations takes the short way
 around

---
 src/orientation.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/orientation.rs b/src/orientation.rs
index e9c9fde..af2fe40 100644
--- a/src/orientation.rs
+++ b/src/orientation.rs
@@ -75,10 +75,11 @@ impl Orientation {
 	/// Linearly interpolates between a starting and ending orientation.
 	pub fn lerp(time : f32, start : &Orientation, end : &Orientation) -> Orientation {
 		let opposite = 1.0 - time;
-		let rotation_vec = start.rotation_vec() * opposite + end.rotation_vec() * time;
+		// Interpolate the rotation between the two, as the rotation vectors themselves can wrap around.
+		let rotation_delta = (end.rotation * start.rotation.inverse()).scaled_axis();
 		Orientation {
 			position: start.position * opposite + end.position * time,
-			rotation: Quat::from_scaled_axis(rotation_vec),
+			rotation: Quat::from_scaled_axis(rotation_delta * time) * start.rotation,
 			internal_origin_offset: start.internal_origin_offset.clone(),
 		}
 	}
-- 
2.43.0


From 0b7c84cce2ef75d2b8c84ae799cbaadfc7ff3e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:25 +0000
Subject: [PATCH 13/36] fix: results no longer depend on the hash seed of the
 process

---
 src/entity.rs         | 14 ++++++++------
 src/physics_system.rs |  6 +++---
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index 74de2cc..a0f99c8 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -1,5 +1,5 @@
 use std::f32::INFINITY;
-use std::collections::{HashSet, VecDeque};
+use std::collections::{BTreeSet, HashSet, VecDeque};
 
 use generational_arena::Arena;
 
@@ -35,7 +35,9 @@ pub struct InternalEntity {
 	pub angular_velocity : Vec3,
 
 	/// All colliders that are attached/linked to this.
-	pub colliders : HashSet<ColliderHandle>,
+	///
+	/// Ordered so that iterating over it never depends on hash seeds.
+	pub colliders : BTreeSet<ColliderHandle>,
 
 	/// Whether this entity is trying to go to sleep.
 	pub falling_asleep : bool,
@@ -48,7 +50,7 @@ pub struct InternalEntity {
 	/// Other entities to wake up when this entity wakes up.
 	/// These are also the entities that won't wake up this entity if they're colliding with it (and vise versa).
 	/// This should always be empty if the entity isn't asleep.
-	pub neighbors : HashSet<EntityHandle>,
+	pub neighbors : BTreeSet<EntityHandle>,
 }
 
 impl InternalEntity {
@@ -64,13 +66,13 @@ impl InternalEntity {
 
 			velocity: source.velocity,
 			angular_velocity: source.angular_velocity,
-			colliders: HashSet::new(),
+			colliders: BTreeSet::new(),
 
 			falling_asleep: false,
 			falling_asleep_time: 0.0,
 
 			asleep: false,
-			neighbors: HashSet::new(),
+			neighbors: BTreeSet::new(),
 		})
 	}
 
@@ -88,7 +90,7 @@ impl InternalEntity {
 			velocity: self.velocity.clone(),
 			angular_velocity: self.angular_velocity,
 
-			colliders: self.colliders.clone(),
+			colliders: self.colliders.iter().cloned().collect(),
 
 			last_prepped_moment_of_inertia: self.prepped_moment_of_inertia.clone(),
 
diff --git a/src/physics_system.rs b/src/physics_system.rs
index bd3f4a7..fe64da1 100644
--- a/src/physics_system.rs
+++ b/src/physics_system.rs
@@ -1,6 +1,6 @@
 use std::cell::RefCell;
 use std::borrow::BorrowMut;
-use std::collections::HashSet;
+use std::collections::BTreeSet;
 
 use generational_arena::Arena;
 
@@ -63,7 +63,7 @@ struct EntityStepInfo {
 	/// The planned angular motion for the entity.
 	angular_movement : Vec3,
 	/// All of the entities that have been collided with recently.
-	neighbors : HashSet<EntityHandle>,
+	neighbors : BTreeSet<EntityHandle>,
 }
 
 impl PhysicsSystem {
@@ -392,7 +392,7 @@ impl PhysicsSystem {
 				handle,
 				linear_movement,
 				angular_movement,
-				neighbors: HashSet::new(),
+				neighbors: BTreeSet::new(),
 			});
 		}
 
-- 
2.43.0


From 8b5c3e99bb4e0a72992bf11e1308b800489419f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:26 +0000
Subject: [PATCH 14/36] fix: a failing standard output cannot panic the
 simulation

---
 src/collision.rs      | 12 ++++++------
 src/entity.rs         |  6 +++---
 src/lib.rs            | 15 +++++++++++++++
 src/physics_system.rs | 16 ++++++++--------
 4 files changed, 32 insertions(+), 17 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index 153f28b..eb1cd78 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -427,14 +427,14 @@ impl EarliestCollisionAccumulator {
 	pub fn consider(&mut self, possible : Option<Collision>) {
 		if let Some(collision) = possible {
 			if collision.times.min() < self.earliest_time {
-				println!("Got earliest!");
+				log_line!("Got earliest!");
 				self.earliest_time = collision.times.min();
 				self.earliest = Some(collision);
 			} else {
-				println!("Got later...");
+				log_line!("Got later...");
 			}
 		} else {
-			println!("Got nothing!");
+			log_line!("Got nothing!");
 		}
 	}
 
@@ -447,7 +447,7 @@ pub fn collide_sphere_with_mesh(radius1 : f32, center1: &Vec3, movement1 : &Vec3
 	let mut accumulator = EarliestCollisionAccumulator::new();
 	// First check all the corners.
 	for vertex in vertices2 {
-		println!("vertex");
+		log_line!("vertex");
 		accumulator.consider(collide_sphere_with_sphere(
 			radius1, center1, movement1,
 			0.0, vertex, movement2,
@@ -455,7 +455,7 @@ pub fn collide_sphere_with_mesh(radius1 : f32, center1: &Vec3, movement1 : &Vec3
 	}
 	// Then check all the edges.
 	for (index1, index2) in edges2 {
-		println!("edge");
+		log_line!("edge");
 		accumulator.consider(collide_sphere_with_mid_line_segment(
 			radius1, center1, movement1,
 			&vertices2[*index1], &vertices2[*index2], movement2,
@@ -463,7 +463,7 @@ pub fn collide_sphere_with_mesh(radius1 : f32, center1: &Vec3, movement1 : &Vec3
 	}
 	// Then check all the planes.
 	for face in faces2 {
-		println!("face");
+		log_line!("face");
 		let mut corners = Vec::with_capacity(face.len());
 		for index in face {
 			corners.push(vertices2[*index].clone()); // TODO: Make this more efficient.
diff --git a/src/entity.rs b/src/entity.rs
index a0f99c8..118a4e9 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -195,7 +195,7 @@ impl InternalEntity {
 			inverse
 		} else {
 			if EPSILON < moment.magnitude() {
-				println!("WARNING! No inverse found for moment of inertia! {:?}", moment);
+				log_line!("WARNING! No inverse found for moment of inertia! {:?}", moment);
 			}
 			Mat3::zeros()
 		}
@@ -243,7 +243,7 @@ impl InternalEntity {
 					// Must do this as infinite-mass neighbors can't be woken up when collided with.
 					// But having something in the "neighbor" set means it won't be checked for collision (which is bad as the target just woke up and may need to hit/bounce off of the infinite-mass entity).
 					neighbor.neighbors.remove(&target_handle);
-					println!("Removed {:?} from neighbor set of {:?}.", target_handle, neighbor_handle);
+					log_line!("Removed {:?} from neighbor set of {:?}.", target_handle, neighbor_handle);
 					debug.push(format!("Removed {:?} from neighbor set of {:?}.", target_handle, neighbor_handle));
 					// Also don't bother trying to wake it up.
 					continue;
@@ -255,7 +255,7 @@ impl InternalEntity {
 			{ // Then wake up the target.
 				let target = all_entities.get_mut(target_handle).unwrap();
 				if target.asleep {
-					println!("Waking up {:?}.", target_handle);
+					log_line!("Waking up {:?}.", target_handle);
 					debug.push(format!("Waking up {:?}.", target_handle));
 				}
 				target.asleep = false;
diff --git a/src/lib.rs b/src/lib.rs
index 0855777..db5e48b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -6,6 +6,21 @@
 //! * All collision detection is also linearized; so it calculates the starting and ending position and assumes the objects take a linear path between them. As long as time steps are kept small, this should be a good enough approximation (even for rotating bodies).
 ///!
 
+/// Prints a line of diagnostics, ignoring any failure to do so.
+///
+/// Unlike `println!()` this never panics, so a broken standard output can't interrupt the simulation.
+macro_rules! log_line {
+	($($arg:tt)*) => {{
+		#[cfg(test)]
+		println!($($arg)*); // So that the test harness can capture it.
+		#[cfg(not(test))]
+		{
+			use std::io::Write;
+			let _ = writeln!(std::io::stdout(), $($arg)*);
+		}
+	}}
+}
+
 mod consts;
 pub mod types;
 pub use types::{EntityHandle, ColliderHandle, UnaryForceGeneratorHandle};
diff --git a/src/physics_system.rs b/src/physics_system.rs
index fe64da1..41cf9c3 100644
--- a/src/physics_system.rs
+++ b/src/physics_system.rs
@@ -431,11 +431,11 @@ impl PhysicsSystem {
 
 					// Ignore the possible collisions if they're a part of the known collisions that were detected when the entity went to sleep.
 					if first.neighbors.contains(&second_entity_info.handle) {
-						println!("Skipping {:?} due to {:?}", second_entity_info.handle, first_entity_info.handle);
+						log_line!("Skipping {:?} due to {:?}", second_entity_info.handle, first_entity_info.handle);
 						continue;
 					}
 					if second.neighbors.contains(&first_entity_info.handle) {
-						println!("Skipping {:?} due to {:?}", first_entity_info.handle, second_entity_info.handle);
+						log_line!("Skipping {:?} due to {:?}", first_entity_info.handle, second_entity_info.handle);
 						continue;
 					}
 
@@ -524,7 +524,7 @@ impl PhysicsSystem {
 			let after_collision_percent = 1.0 - earliest_collision_percent;
 			current_time_percent += (1.0 - current_time_percent) * earliest_collision_percent;
 			let time_after_collision = time_left * after_collision_percent;
-			println!("Iteration {} -> Advanced time by {}.", iteration, time_left - time_after_collision);
+			log_line!("Iteration {} -> Advanced time by {}.", iteration, time_left - time_after_collision);
 			for info in &mut entity_info {
 				// Always advance the actual entity forward by time (to keep all the movement values in lock-step).
 				let entity = entities.get_mut(info.handle).unwrap();
@@ -542,7 +542,7 @@ impl PhysicsSystem {
 
 			// Then respond to the collision.
 			if let Some(collision) = earliest_collision {
-				println!("Iteration {} -> Found collision with {:?} and {:?}. {} time left.", iteration, earliest_collision_first_entity_handle, earliest_collision_second_entity_handle, time_left);
+				log_line!("Iteration {} -> Found collision with {:?} and {:?}. {} time left.", iteration, earliest_collision_first_entity_handle, earliest_collision_second_entity_handle, time_left);
 				let first_entity_handle  = earliest_collision_first_entity_handle.unwrap();
 				let second_entity_handle = earliest_collision_second_entity_handle.unwrap();
 
@@ -661,7 +661,7 @@ impl PhysicsSystem {
 				// Then check if the energy left is small enough to put it to sleep.
 				let energy = entity.get_total_energy(); // TODO: Allow a way to calculate the energy relative to a reference frame. I.e. what if a box was "at rest" on the back of a car moving at a constant speed?
 				if energy > self.energy_sleep_threshold {
-					println!("Energy for {:?} is too high: {:?} > {:?} (velocity={:?}; angular_velocity={:?})", info.handle, energy, self.energy_sleep_threshold, entity.velocity, entity.angular_velocity);
+					log_line!("Energy for {:?} is too high: {:?} > {:?} (velocity={:?}; angular_velocity={:?})", info.handle, energy, self.energy_sleep_threshold, entity.velocity, entity.angular_velocity);
 					// Make sure it's not considering falling asleep.
 					entity.falling_asleep = false;
 					entity.falling_asleep_time = 0.0;
@@ -671,17 +671,17 @@ impl PhysicsSystem {
 
 				if entity.falling_asleep {
 					entity.falling_asleep_time += dt; // TODO: Could make this more precise and store time since started during this step() call...
-					println!("For {:?}: Adding {:?} to get {:?}", info.handle, dt, entity.falling_asleep_time);
+					log_line!("For {:?}: Adding {:?} to get {:?}", info.handle, dt, entity.falling_asleep_time);
 				}
 				entity.falling_asleep = true;
 				if self.sleep_time_threshold > entity.falling_asleep_time {
-					println!("Entity {:?} is falling asleep. (Taken {:?} of {:?} seconds so far.)", info.handle, entity.falling_asleep_time, self.sleep_time_threshold);
+					log_line!("Entity {:?} is falling asleep. (Taken {:?} of {:?} seconds so far.)", info.handle, entity.falling_asleep_time, self.sleep_time_threshold);
 					continue;
 				}
 
 				entity.asleep = true;
 				entity.neighbors = info.neighbors.clone();
-				println!("Putting {:?} to sleep", info.handle);
+				log_line!("Putting {:?} to sleep", info.handle);
 				self.debug.push(format!("Putting {:?} to sleep (energy={:?}; neighbors={:?}; velocity={:?}; angular_velocity={:?}; position={:?})", info.handle, energy, info.neighbors.len(), entity.velocity, entity.angular_velocity, entity.orientation.position));
 			}
 			// If the entity went to sleep, then add it as a neighbor to the entities it neighbors.
-- 
2.43.0


From c1e614313e938a5c11baebe17c7d89448ecca869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:47 +0000
Subject: [PATCH 15/36] fix: an awake entity cannot fall through a sleeping
 neighbor

---
 src/physics_system.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/physics_system.rs b/src/physics_system.rs
index 41cf9c3..6a224e3 100644
--- a/src/physics_system.rs
+++ b/src/physics_system.rs
@@ -430,12 +430,9 @@ impl PhysicsSystem {
 					let second = second_option.unwrap();
 
 					// Ignore the possible collisions if they're a part of the known collisions that were detected when the entity went to sleep.
-					if first.neighbors.contains(&second_entity_info.handle) {
-						log_line!("Skipping {:?} due to {:?}", second_entity_info.handle, first_entity_info.handle);
-						continue;
-					}
-					if second.neighbors.contains(&first_entity_info.handle) {
-						log_line!("Skipping {:?} due to {:?}", first_entity_info.handle, second_entity_info.handle);
+					// This must only be done while BOTH are asleep, or the one that's awake could move straight through the other.
+					if first.asleep && second.asleep && (first.neighbors.contains(&second_entity_info.handle) || second.neighbors.contains(&first_entity_info.handle)) {
+						log_line!("Skipping {:?} and {:?}", first_entity_info.handle, second_entity_info.handle);
 						continue;
 					}
 
-- 
2.43.0


From aa7281a8af25dfb0e389afe032e740fb96a782b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:10 +0000
Subject: [PATCH 16/36] fix: slow or small spheres no longer pass through each
 other

---
 src/range.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/range.rs b/src/range.rs
index 51d4d8c..1668b83 100644
--- a/src/range.rs
+++ b/src/range.rs
@@ -1,6 +1,7 @@
 use std::f32::{NAN, INFINITY};
 
 use crate::consts::EPSILON;
+use crate::types::max;
 
 /// A continuous range of scalar values.
 /// Can also represent all values and no values.
@@ -86,9 +87,10 @@ impl Range {
 	/// Creates a range that's got end points at the zeros of a quadratic.
 	/// Can also have no end points if the quadratic has no zeros.
 	pub fn quadratic_zeros(a : f32, b : f32, c : f32) -> Range {
-		if a.abs() < EPSILON {
+		// Everything is compared relative to the other terms, as small or slow objects make all of the coefficients tiny.
+		if a.abs() <= EPSILON * max(b.abs(), c.abs()) {
 			// Degenerates to a linear equation.
-			if b.abs() < EPSILON {
+			if b.abs() <= EPSILON * c.abs() {
 				// Degenerates to a constant "equation".
 				if c < EPSILON { Range::everything() } else { Range::empty() }
 			} else {
@@ -96,9 +98,10 @@ impl Range {
 			}
 		} else {
 			let mut det = b * b - 4.0 * a * c;
-			if det < -EPSILON { // TODO: Could use a relative epsilon to keep things stable even in tiny cases.
+			let det_epsilon = EPSILON * max(b * b, (4.0 * a * c).abs());
+			if det < -det_epsilon {
 				Range::empty()
-			} else if det < EPSILON {
+			} else if det <= det_epsilon {
 				Range::single(-0.5 * b / a)
 			} else {
 				det = det.sqrt();
-- 
2.43.0


From 6a5ccac61da69ddd7268274a68b63ea33e5c29c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:28 +0000
Subject: [PATCH 17/36] fix: sleeping entities no longer act as if gravity were
 moving them

---
 src/entity.rs         |  3 +++
 src/physics_system.rs | 17 +++++++----------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index 118a4e9..d36f76e 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -257,6 +257,9 @@ impl InternalEntity {
 				if target.asleep {
 					log_line!("Waking up {:?}.", target_handle);
 					debug.push(format!("Waking up {:?}.", target_handle));
+					// Give it the full time before it can fall back to sleep.
+					target.falling_asleep = false;
+					target.falling_asleep_time = 0.0;
 				}
 				target.asleep = false;
 				target.neighbors.clear();
diff --git a/src/physics_system.rs b/src/physics_system.rs
index 6a224e3..87895f5 100644
--- a/src/physics_system.rs
+++ b/src/physics_system.rs
@@ -365,7 +365,7 @@ impl PhysicsSystem {
 				let entity_copy = self.get_entity(handle).unwrap();
 				// Since 0.0 * INFINITY becomes NaN, best to NOT integrate acceleration and torque on infinite or zero masses.
 				let total_mass = entity_copy.get_last_total_mass();
-				if total_mass.is_finite() && EPSILON < total_mass {
+				if !entity_copy.was_asleep() && total_mass.is_finite() && EPSILON < total_mass {
 					for generator_handle in &unary_force_generator_handles {
 						let mut generators_borrow = self.unary_force_generators.borrow_mut();
 						let generator_borrow = generators_borrow.get_mut(*generator_handle).unwrap();
@@ -379,15 +379,17 @@ impl PhysicsSystem {
 
 			let mut entities_borrow = self.entities.borrow_mut();
 			let entity = entities_borrow.get_mut(handle).unwrap();
+			if entity.asleep {
+				// Sleeping entities don't move, so they must not collide as though they did.
+				entity.velocity = Vec3::zeros();
+				entity.angular_velocity = Vec3::zeros();
+			}
 			entity.velocity += acceleration.scale(dt);
 			let linear_movement = entity.velocity.scale(dt);
 
 			entity.angular_velocity += entity.get_inverse_moment_of_inertia() * torque.scale(dt);
 			let angular_movement = entity.angular_velocity.scale(dt);
 
-			// NOTE: Allowing velocities to be set even on sleeping entities so that if they're woken up during this step(), they will still have the basic velocities setup.
-			// This should help insure that the newly-woken entities have a shot at being awake for a bit before being pushed back to sleep.
-
 			entity_info.push(EntityStepInfo {
 				handle,
 				linear_movement,
@@ -649,12 +651,7 @@ impl PhysicsSystem {
 			{
 				let entity = entities.get_mut(info.handle).unwrap();
 				// Ignore entities that are already asleep.
-				if entity.asleep {
-					// Clear out any accumulated velocity.
-					entity.velocity = Vec3::zeros();
-					entity.angular_velocity = Vec3::zeros();
-					continue;
-				}
+				if entity.asleep { continue; }
 				// Then check if the energy left is small enough to put it to sleep.
 				let energy = entity.get_total_energy(); // TODO: Allow a way to calculate the energy relative to a reference frame. I.e. what if a box was "at rest" on the back of a car moving at a constant speed?
 				if energy > self.energy_sleep_threshold {
-- 
2.43.0


From 2f2154685a23f4626731faf2653e74682fa69e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:55 +0000
Subject: [PATCH 18/36] fix: falling asleep keeps the neighbors that fell
 asleep before

---
 src/physics_system.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics_system.rs b/src/physics_system.rs
index 87895f5..dde2e93 100644
--- a/src/physics_system.rs
+++ b/src/physics_system.rs
@@ -674,7 +674,7 @@ impl PhysicsSystem {
 				}
 
 				entity.asleep = true;
-				entity.neighbors = info.neighbors.clone();
+				entity.neighbors.extend(info.neighbors.iter().cloned()); // Neighbors that fell asleep earlier may have already added themselves.
 				log_line!("Putting {:?} to sleep", info.handle);
 				self.debug.push(format!("Putting {:?} to sleep (energy={:?}; neighbors={:?}; velocity={:?}; angular_velocity={:?}; position={:?})", info.handle, energy, info.neighbors.len(), entity.velocity, entity.angular_velocity, entity.orientation.position));
 			}
-- 
2.43.0


From cf7c49bcd6001f66d3d990f8a186df120bafab17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:57 +0000
Subject: [PATCH 19/36] fix: unresolvable contacts no longer spread non-finite
 velocities

---
 src/physics_system.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/physics_system.rs b/src/physics_system.rs
index dde2e93..ed98f32 100644
--- a/src/physics_system.rs
+++ b/src/physics_system.rs
@@ -470,11 +470,19 @@ impl PhysicsSystem {
 								let first_full_velocity = first.get_velocity_at_world_position(&collision.position);
 								let second_full_velocity = second.get_velocity_at_world_position(&collision.position);
 								let velocity_delta = first_full_velocity - second_full_velocity;
-								if EPSILON > velocity_delta.dot(&collision.normal) {
+								// Also ignore it if the speed isn't finite (i.e. one of the entities has gone bad), as that would spread to the other entity.
+								let approach_speed = velocity_delta.dot(&collision.normal);
+								if !(EPSILON <= approach_speed && approach_speed.is_finite()) {
 									//self.debug.push(format!("Dropping collision at: {:?} between {:?} (velocity: {:?}) and {:?} (velocity: {:?}) normal={:?}", collision.position, first_collider_handle, first_full_velocity, second_collider_handle, second_full_velocity, collision.normal));
 									continue;
 								}
 
+								// Similarly ignore collisions that can't be resolved: two infinite masses, no mass at all, or a bad mass.
+								let denominator = PhysicsSystem::calc_collision_impulse_denominator(first, second, &collision);
+								if !(0.0 < denominator && denominator.is_finite()) {
+									continue;
+								}
+
 								// Otherwise check if this collision is the closest.
 								if time < earliest_collision_percent {
 									earliest_collision_percent = time;
-- 
2.43.0


From 59fd46dd316adfc945b88968227d64db1a648dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:58 +0000
Subject: [PATCH 20/36] fix: a NaN mass is rejected for entities like it is for
 colliders

---
 src/entity.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index d36f76e..b39758c 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -56,7 +56,7 @@ pub struct InternalEntity {
 impl InternalEntity {
 	/// Creates a new instance.
 	pub fn new_from(source : Entity) -> Result<InternalEntity, ()> {
-		if 0.0 > source.own_mass { return Err(()); }
+		if !(0.0 <= source.own_mass) { return Err(()); } // Also rejects NaN.
 		Ok(InternalEntity {
 			orientation: source.make_orientation(),
 
@@ -100,7 +100,7 @@ impl InternalEntity {
 
 	/// Updates from the passed in Entity object.
 	pub fn update_from(&mut self, source : Entity) -> Result<bool,()> {
-		if 0.0 > source.own_mass { return Err(()); }
+		if !(0.0 <= source.own_mass) { return Err(()); } // Also rejects NaN.
 		let new_rotation = Quat::from_scaled_axis(source.rotation);
 		let rotation_delta = (
 			(new_rotation.w - self.orientation.rotation.w) * (new_rotation.w - self.orientation.rotation.w) +
-- 
2.43.0


From 6e3a43375c02d5adef576a438fd52dcb6948f756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:22 +0000
Subject: [PATCH 21/36] fix: writing back an unchanged rotation no longer wakes
 an entity

---
 src/entity.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index b39758c..3f868f8 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -102,12 +102,10 @@ impl InternalEntity {
 	pub fn update_from(&mut self, source : Entity) -> Result<bool,()> {
 		if !(0.0 <= source.own_mass) { return Err(()); } // Also rejects NaN.
 		let new_rotation = Quat::from_scaled_axis(source.rotation);
-		let rotation_delta = (
-			(new_rotation.w - self.orientation.rotation.w) * (new_rotation.w - self.orientation.rotation.w) +
-			(new_rotation.i - self.orientation.rotation.i) * (new_rotation.i - self.orientation.rotation.i) +
-			(new_rotation.j - self.orientation.rotation.j) * (new_rotation.j - self.orientation.rotation.j) +
-			(new_rotation.k - self.orientation.rotation.k) * (new_rotation.k - self.orientation.rotation.k)
-		).sqrt();
+		// Note that a quaternion and its negation are the same rotation.
+		let rotation_delta = (new_rotation.coords - self.orientation.rotation.coords).magnitude().min(
+			(new_rotation.coords + self.orientation.rotation.coords).magnitude()
+		);
 		#[allow(unused_parens)]
 		let changed = (
 			self.own_mass != source.own_mass ||
-- 
2.43.0


From e0ebd49c87c0b7cb0d383dfce5ede79854abbba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:23 +0000
Subject: [PATCH 22/36] fix: the energy of a resting infinite mass is zero, not
 NaN

---
 src/entity.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/entity.rs b/src/entity.rs
index 3f868f8..e81721e 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -385,6 +385,9 @@ impl Entity {
 
 	/// Gets the total energy of this object.
 	pub fn get_total_energy(&self) -> f32 {
+		if self.last_total_mass.is_infinite() && self.velocity.magnitude() < EPSILON && self.angular_velocity.magnitude() < EPSILON {
+			return 0.0; // Otherwise this would be NaN.
+		}
 		let linear_energy = (self.last_total_mass * self.velocity).dot(&self.velocity) / 2.0;
 		let angular_energy = (self.get_last_moment_of_inertia() * self.angular_velocity).dot(&self.angular_velocity) / 2.0;
 		linear_energy + angular_energy
-- 
2.43.0


From f44195a45de07c4b57c4f68f36d13e3ca3768ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:24 +0000
Subject: [PATCH 23/36] fix: an entity with infinite mass of its own cannot be
 spun by contacts

---
 src/entity.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entity.rs b/src/entity.rs
index e81721e..d528ff1 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -163,7 +163,7 @@ impl InternalEntity {
 		// Then find the moment of inertia relative to the center-of-mass.
 		// Note that everything here is done in WORLD space not local.
 		self.prepped_moment_of_inertia = Mat3::zeros();
-		if !found_infinite {
+		if self.total_mass.is_finite() {
 			// TODO? Do orientation.rotation and angular_velocity need to change since the center-of-mass changed?
 			for handle in self.colliders.iter() {
 				let collider = colliders.get(*handle).unwrap();
-- 
2.43.0


From a5dd66abc9b3d359da7e3cc4a10105e065ba8b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:46 +0000
Subject: [PATCH 24/36] fix: friction is an impulse along the sliding, not a
 fraction of the sliding velocity

---
 src/physics_system.rs | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/physics_system.rs b/src/physics_system.rs
index ed98f32..d26bd91 100644
--- a/src/physics_system.rs
+++ b/src/physics_system.rs
@@ -478,7 +478,7 @@ impl PhysicsSystem {
 								}
 
 								// Similarly ignore collisions that can't be resolved: two infinite masses, no mass at all, or a bad mass.
-								let denominator = PhysicsSystem::calc_collision_impulse_denominator(first, second, &collision);
+								let denominator = PhysicsSystem::calc_impulse_denominator(first, second, &collision.position, &collision.normal);
 								if !(0.0 < denominator && denominator.is_finite()) {
 									continue;
 								}
@@ -611,12 +611,16 @@ impl PhysicsSystem {
 					} else {
 						earliest_collision_dynamic_friction_coefficient
 					};
-					let denominator = PhysicsSystem::calc_collision_impulse_denominator(first, second, &collision);
-					let max_friction_impulse = sliding_magnitude / denominator; // Divide by denominator so the mass/inertia split is reasonable.
-					let mut friction_percent : f32 = (impulse.magnitude() * friction_coefficient) / max_friction_impulse;
-					if friction_percent > 1.0 { friction_percent = 1.0; }
-					if !friction_percent.is_finite() { friction_percent = 0.0; }
-					let friction_impulse = sliding * -friction_percent;
+					let sliding_direction = sliding.scale(1.0 / sliding_magnitude);
+					let denominator = PhysicsSystem::calc_impulse_denominator(first, second, &collision.position, &sliding_direction);
+					let max_friction_impulse = sliding_magnitude / denominator; // The impulse that would stop all of the sliding.
+					let friction_magnitude = (impulse.magnitude() * friction_coefficient).min(max_friction_impulse);
+					// There's nothing to resist if there's no sliding.
+					let friction_impulse = if EPSILON < sliding_magnitude && friction_magnitude.is_finite() {
+						sliding_direction * -friction_magnitude
+					} else {
+						Vec3::zeros()
+					};
 
 					PhysicsSystem::apply_collision_impulse(
 						&mut first,
@@ -694,16 +698,17 @@ impl PhysicsSystem {
 		}
 	}
 
-	fn calc_collision_impulse_denominator(first : &InternalEntity, second : &InternalEntity, collision : &Collision) -> f32 {
-		let first_offset  = collision.position - first.orientation.position;
-		let second_offset = collision.position - second.orientation.position;
+	/// Calculates how much the relative velocity (along direction) at a position changes per unit of impulse (along that same direction).
+	fn calc_impulse_denominator(first : &InternalEntity, second : &InternalEntity, position : &Vec3, direction : &Vec3) -> f32 {
+		let first_offset  = position - first.orientation.position;
+		let second_offset = position - second.orientation.position;
 
 		let first_linear_weight   = 1.0 / first.get_total_mass();
 		let second_linear_weight  = 1.0 / second.get_total_mass();
-		let first_angular_amount = first.get_inverse_moment_of_inertia()   * first_offset.cross( &collision.normal);
-		let first_angular_weight  = first_angular_amount.cross(&first_offset).dot( &collision.normal);
-		let second_angular_amount = second.get_inverse_moment_of_inertia() * second_offset.cross(&collision.normal);
-		let second_angular_weight = second_angular_amount.cross(&second_offset).dot(&collision.normal);
+		let first_angular_amount = first.get_inverse_moment_of_inertia()   * first_offset.cross( direction);
+		let first_angular_weight  = first_angular_amount.cross(&first_offset).dot( direction);
+		let second_angular_amount = second.get_inverse_moment_of_inertia() * second_offset.cross(direction);
+		let second_angular_weight = second_angular_amount.cross(&second_offset).dot(direction);
 		first_linear_weight + second_linear_weight + first_angular_weight + second_angular_weight
 	}
 
@@ -717,7 +722,7 @@ impl PhysicsSystem {
 		// First find the collision response along the normal.
 		let normal_coincidence = velocity_delta.dot(&collision.normal);
 		let numerator = -(1.0 + restitution_coefficient) * normal_coincidence;
-		let denominator = PhysicsSystem::calc_collision_impulse_denominator(first, second, collision);
+		let denominator = PhysicsSystem::calc_impulse_denominator(first, second, &collision.position, &collision.normal);
 		let normal_impulse_magnitude = numerator / denominator;
 		collision.normal.scale(normal_impulse_magnitude)
 	}
-- 
2.43.0


From fee93f21b1ac553c11b3b62e5860514ce565e939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:48 +0000
Subject: [PATCH 25/36] fix: slowly moving spheres that start a frame
 overlapping are detected

---
 src/collision.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index eb1cd78..2b4ccdf 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -303,7 +303,9 @@ pub fn collide_sphere_with_sphere(radius1 : f32, center1 : &Vec3, movement1 : &V
 		dv.dot(&dv),
 		2.0 * dv.dot(&dc),
 		dc.dot(&dc) - radius * radius,
-	).intersect(&Range::range(0.0, 1.0));
+	);
+	let overlapping_at_start = if dc.dot(&dc) < radius * radius { Range::single(0.0) } else { Range::empty() };
+	let times = times.contain(&overlapping_at_start).intersect(&Range::range(0.0, 1.0));
 	if !times.is_empty() {
 		let hit_center1 = center1 + movement1.scale(times.min());
 		let hit_center2 = center2 + movement2.scale(times.min());
@@ -327,7 +329,9 @@ pub fn collide_sphere_with_line(radius1 : f32, center1: &Vec3, movement1 : &Vec3
 		b.dot(&b),
 		2.0 * a.dot(&b),
 		a.dot(&a) - radius1 * radius1,
-	).intersect(&Range::range(0.0, 1.0));
+	);
+	let overlapping_at_start = if a.dot(&a) < radius1 * radius1 { Range::single(0.0) } else { Range::empty() };
+	let times = times.contain(&overlapping_at_start).intersect(&Range::range(0.0, 1.0));
 	if !times.is_empty() {
 		let line_position = start2 + movement2.scale(times.min());
 		let center_position = center1 + movement1.scale(times.min());
-- 
2.43.0


From fe5496aff513db682fcd9285cb9434593ad904c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:25 +0000
Subject: [PATCH 26/36] fix: whether a contact is approaching is judged where
 the bodies are at the hit

---
 src/physics_system.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/physics_system.rs b/src/physics_system.rs
index d26bd91..0f706f4 100644
--- a/src/physics_system.rs
+++ b/src/physics_system.rs
@@ -467,8 +467,11 @@ impl PhysicsSystem {
 							if let Some(collision) = collision_option {
 								let time = collision.times.min();
 								// If the objects are (already) moving away from the point of contact, then ignore the collision.
-								let first_full_velocity = first.get_velocity_at_world_position(&collision.position);
-								let second_full_velocity = second.get_velocity_at_world_position(&collision.position);
+								// The hit's position must be compared with where the centers of mass will be by then.
+								let first_center  = first.orientation.position  + first_entity_info.linear_movement  * time;
+								let second_center = second.orientation.position + second_entity_info.linear_movement * time;
+								let first_full_velocity  = first.velocity  + first.angular_velocity.cross( &(collision.position - first_center ));
+								let second_full_velocity = second.velocity + second.angular_velocity.cross(&(collision.position - second_center));
 								let velocity_delta = first_full_velocity - second_full_velocity;
 								// Also ignore it if the speed isn't finite (i.e. one of the entities has gone bad), as that would spread to the other entity.
 								let approach_speed = velocity_delta.dot(&collision.normal);
-- 
2.43.0


From 66c346a3d2416bf56d8d4dec6f28e7204a24cea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:12 +0000
Subject: [PATCH 27/36] fix: a rejected collider update leaves its entity
 untouched

---
 src/physics_system.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/physics_system.rs b/src/physics_system.rs
index 0f706f4..b088657 100644
--- a/src/physics_system.rs
+++ b/src/physics_system.rs
@@ -273,13 +273,15 @@ impl PhysicsSystem {
 				}
 			}
 		};
+		// A rejected update mustn't change anything.
+		result?;
 		// Then, because mass might've changed, try to update the associated entity (if it exists).
 		if let Some(entity_handle) = entity_handle_option {
 			if let Some(entity) = self.entities.borrow_mut().get_mut(entity_handle) {
 				entity.recalculate_mass(&*colliders);
 			}
 		}
-		result
+		Ok(())
 	}
 
 	/// Links the collider to the entity.
-- 
2.43.0


From dce288df96723a217519d744e897b2f7a30aadcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:07 +0000
Subject: [PATCH 28/36] fix: a flat mesh parallel to a plane touches it

With all corners equally far from the plane the tolerance for the lowest
corners is zero, no corner counted as the lowest and the contact position
was NaN, so the mesh fell through.
---
 src/collision.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index 2b4ccdf..857dc44 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -525,11 +525,11 @@ pub fn collide_mesh_with_plane(mesh_vertices : &Vec<Vec3>, mesh_position : &Vec3
 		let start_epsilon = start_distances.size() * 0.01;// Apparently the standard EPSILON is a bit too small...
 		let end_epsilon = end_distances.size() * 0.01;// Apparently the standard EPSILON is a bit too small...
 		for info in calculated {
-			if start_epsilon > (info.start_distance - start_distances.min()).abs() {
+			if start_epsilon >= (info.start_distance - start_distances.min()).abs() {
 				closest_start_position_sum += info.start_position;
 				closest_start_position_count += 1.0;
 			}
-			if end_epsilon > (info.end_distance - end_distances.min()).abs() {
+			if end_epsilon >= (info.end_distance - end_distances.min()).abs() {
 				closest_end_position_sum += info.end_position;
 				closest_end_position_count += 1.0;
 			}
-- 
2.43.0


From 3f905fc4fb821c12d7b60493ab6ffe44fc681fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:33 +0000
Subject: [PATCH 29/36] fix: an inertia tensor that is singular up to rounding
 isn't inverted

With all of the mass in one point or on one line the tensor's determinant
is a rounding error rather than zero, so it was inverted anyway, which led
to infinite impulses and velocities.
---
 src/entity.rs      | 15 +++++++++------
 src/orientation.rs |  6 +++++-
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index d528ff1..d84b880 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -189,14 +189,17 @@ impl InternalEntity {
 	/// Gets the moment of inertia tensor in WORLD space.
 	pub fn get_inverse_moment_of_inertia(&self) -> Mat3 {
 		let moment = self.get_moment_of_inertia();
-		if let Some(inverse) = moment.try_inverse() {
-			inverse
-		} else {
-			if EPSILON < moment.magnitude() {
-				log_line!("WARNING! No inverse found for moment of inertia! {:?}", moment);
+		let magnitude = moment.magnitude();
+		if 0.0 < magnitude && magnitude.is_finite() {
+			if 1e-6 < (moment / magnitude).determinant().abs() {
+				if let Some(inverse) = moment.try_inverse() { return inverse; }
 			}
-			Mat3::zeros()
+			// There's no inertia (besides rounding errors) about at least one axis, for example when all of the mass is on a line.
+			// So leave the rotation about such axes alone.
+			if let Ok(inverse) = moment.pseudo_inverse(magnitude * 2e-6) { return inverse; }
+			log_line!("WARNING! No inverse found for moment of inertia! {:?}", moment);
 		}
+		Mat3::zeros()
 	}
 
 	/// Gets the velocity at a point (that's specified in world coordinates).
diff --git a/src/orientation.rs b/src/orientation.rs
index af2fe40..e2fe688 100644
--- a/src/orientation.rs
+++ b/src/orientation.rs
@@ -118,7 +118,11 @@ impl Orientation {
 	///
 	/// Since this orientation's `position` is usually its center-of-mass, this effectively gets the moment to be ready to be passed through [Orientation::finalize_moment_of_inertia] so it can be readily available in world-space (and be centered about the center of mass there).
 	pub fn prep_moment_of_inertia(&self, center_of_mass : &Vec3, total_mass : f32, moment : &Mat3) -> Mat3 {
-		translate_moment_of_inertia(moment, total_mass, &(self.internal_origin_offset + center_of_mass))
+		let mut offset = self.internal_origin_offset + center_of_mass;
+		if offset.magnitude() < center_of_mass.magnitude() * 4.0 * std::f32::EPSILON {
+			offset = Vec3::zeros(); // It's just the rounding error of the center of mass.
+		}
+		translate_moment_of_inertia(moment, total_mass, &offset)
 	}
 
 	/// Completes converting a moment of inertia that was sent through prep_moment_of_inertia() so that it's in world-space.
-- 
2.43.0


From 64b7f7487d120cffe67cd1465fcfe73d65a9aed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:21 +0000
Subject: [PATCH 30/36] fix: rotations stay of unit length

Every frame multiplies another rotation onto an entity's. Without ever
normalising it its length drifted, which scaled the positions of its
colliders (by the distance from the world's origin), so that for example
a rolling sphere slowly sank into a wall.
---
 src/orientation.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/orientation.rs b/src/orientation.rs
index e2fe688..04bb1ec 100644
--- a/src/orientation.rs
+++ b/src/orientation.rs
@@ -146,6 +146,7 @@ impl Orientation {
 	pub fn affect_with(&mut self, linear_movement : &Vec3, angular_movement : &Vec3) {
 		self.position += linear_movement;
 		self.rotation = Quat::from_scaled_axis(*angular_movement) * self.rotation;
+		self.rotation.renormalize(); // Otherwise rounding errors pile up, and a rotation that isn't of unit length scales everything it transforms.
 	}
 
 	/// Stores the result of applying a rotation and translation to this instance in a new instance.
-- 
2.43.0


From 34d90241caee6dfd535ae73a4cc9ff07fa50b35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:09 +0000
Subject: [PATCH 31/36] fix: the inverse of a singular inertia tensor is
 accurate

---
 src/entity.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/entity.rs b/src/entity.rs
index d84b880..27ee2eb 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -196,7 +196,18 @@ impl InternalEntity {
 			}
 			// There's no inertia (besides rounding errors) about at least one axis, for example when all of the mass is on a line.
 			// So leave the rotation about such axes alone.
-			if let Ok(inverse) = moment.pseudo_inverse(magnitude * 2e-6) { return inverse; }
+			// (Matrix::pseudo_inverse() isn't used since the decomposition behind it isn't always accurate for such tensors.)
+			let scaled = moment / magnitude;
+			let mut axis = Vec3::zeros(); // The axis without inertia is perpendicular to all of the tensor's columns.
+			for column in 0..3 {
+				let candidate = scaled.column(column).cross(&scaled.column((column + 1) % 3));
+				if axis.magnitude() < candidate.magnitude() { axis = candidate; }
+			}
+			if 1e-3 < axis.magnitude() {
+				axis.normalize_mut();
+				let projection = axis * axis.transpose();
+				if let Some(inverse) = (scaled + projection).try_inverse() { return (inverse - projection) / magnitude; }
+			}
 			log_line!("WARNING! No inverse found for moment of inertia! {:?}", moment);
 		}
 		Mat3::zeros()
-- 
2.43.0


From 63b065aa7ac55901aa6c0ea1acfcd1318a6057b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:16 +0000
Subject: [PATCH 32/36] fix: an impulse that overflows doesn't corrupt bodies
 of infinite mass

---
 src/entity.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/entity.rs b/src/entity.rs
index 27ee2eb..d7f5e7b 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -235,6 +235,8 @@ impl InternalEntity {
 
 	/// Applies an impulse at a (world) position to this instance's linear and angular velocities.
 	pub fn apply_impulse(&mut self, position : &Vec3, impulse : &Vec3) {
+		// Nothing moves an infinite mass. Dividing by it isn't enough as an impulse that's too big for a float (or isn't a number) would still come through.
+		if self.get_total_mass().is_infinite() { return; }
 		self.velocity += impulse.scale(1.0 / self.get_total_mass());
 		self.angular_velocity += self.get_inverse_moment_of_inertia() * (position - self.orientation.position).cross(&impulse);
 	}
-- 
2.43.0


From cf621f37dd9b447e1210db06f54bd086fdd69393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:15 +0000
Subject: [PATCH 33/36] fix: a mesh's corners meet another mesh's faces where
 those are at the time

The faces were taken to stand still halfway between their start and end, so
corners were missed, met too early, or met where nothing was, all depending on
the length of the frame. Look at the corners from the local space of the faces
instead. Also tell the side that the normal should point at by how far the
meshes are off the face rather than by counting corners, as corners that touch
could be counted for either side.
---
 src/collision.rs | 58 ++++++++++++++++++++++++++++++------------------
 1 file changed, 36 insertions(+), 22 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index 857dc44..64bf89c 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -678,39 +678,51 @@ fn precompute_mesh_point_pairs(mesh : &InternalMeshCollider, start_orientation :
 	transformed
 }
 
-fn collide_mesh_points_with_mesh_faces(output : &mut EarliestCollisionAccumulator, mesh1_points : &Vec<MeshPointPairs>, mesh2 : &InternalMeshCollider, mesh2_points : &Vec<MeshPointPairs>, normal_factor : f32) {
-	let mut face_points = Vec::new();
+/// How far the points of a mesh may (on average) be off a plane to still be considered part of it.
+const FLATNESS : f32 = 1e-4;
+
+fn collide_mesh_points_with_mesh_faces(output : &mut EarliestCollisionAccumulator, mesh1_points : &Vec<MeshPointPairs>, mesh2 : &InternalMeshCollider, mesh2_start_orientation : &Orientation, mesh2_end_orientation : &Orientation, normal_factor : f32) {
+	// The faces may move too. So look at the points from the local space of the faces, as nothing but the points moves there.
+	let mut faces = Vec::with_capacity(mesh2.faces.len());
+	for face in &mesh2.faces {
+		let face_points : Vec<Vec3> = face.iter().map(|index| mesh2.position + mesh2.vertices[*index]).collect();
+		faces.push(face_points);
+	}
 	let mut accumulator = EarliestCollisionAccumulator::new();
 	for points_info in mesh1_points {
-		for face in &mesh2.faces {
-			face_points.clear();
-			for index in face {
-				face_points.push((mesh2_points[*index].start + mesh2_points[*index].end) / 2.0);
-			}
+		let local_start = mesh2_start_orientation.position_into_local(&points_info.start);
+		let local_end = mesh2_end_orientation.position_into_local(&points_info.end);
+		for face_points in &faces {
 			accumulator.consider(collide_point_with_polygon(
-				&points_info.start,
-				&points_info.end,
-				&face_points,
+				&local_start,
+				&local_end,
+				face_points,
 			));
 		}
 	}
 
 	if let Some(mut collision) = accumulator.get() {
-		// Make sure the normal is pointing at most of the points.
+		let time = collision.times.min();
+		let orientation = Orientation::lerp(time, mesh2_start_orientation, mesh2_end_orientation);
+		collision.position = orientation.position_into_world(&collision.position);
+		collision.normal = orientation.direction_into_world(&collision.normal);
+		// Make sure the normal is pointing away from the faces' mesh and at the points' mesh.
 		// Do this once at the end because it's kinda expensive.
-		let mut negate : usize = 0;
-		let mut keep : usize = 0;
+		let mut offset = 0.0; // How far the points' mesh is on the side the normal says. The points that are touching barely count towards this.
 		for points_info in mesh1_points {
-			let time = collision.times.min();
 			let point = points_info.start * (1.0 - time) + points_info.end * time;
-			let sign = (point - collision.position).dot(&collision.normal);
-			if 0.0 > sign {
-				negate += 1;
-			} else {
-				keep += 1;
+			offset += (point - collision.position).dot(&collision.normal);
+		}
+		if offset.abs() <= FLATNESS * mesh1_points.len() as f32 {
+			// If all of the points are on the face, then only the other mesh can say (unless it's just as flat).
+			offset = 0.0;
+			for vertex in &mesh2.vertices {
+				let point = orientation.position_into_world(&(mesh2.position + vertex));
+				offset -= (point - collision.position).dot(&collision.normal);
 			}
+			if offset.abs() <= FLATNESS * mesh2.vertices.len() as f32 { offset = 0.0; }
 		}
-		if negate > keep {
+		if 0.0 > offset {
 			collision.normal *= -1.0;
 		}
 		collision.normal *= normal_factor;
@@ -727,14 +739,16 @@ pub fn collide_mesh_with_mesh(mesh1 : &InternalMeshCollider, mesh1_start_orienta
 		&mut accumulator,
 		&mesh1_points,
 		&mesh2,
-		&mesh2_points,
+		mesh2_start_orientation,
+		mesh2_end_orientation,
 		-1.0,
 	);
 	collide_mesh_points_with_mesh_faces(
 		&mut accumulator,
 		&mesh2_points,
 		&mesh1,
-		&mesh1_points,
+		mesh1_start_orientation,
+		mesh1_end_orientation,
 		1.0,
 	);
 	// Then check if there are any edge-edge intersections. (TODO!)
-- 
2.43.0


From bd11769046d8768a7dc91b826c83e1e470788720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:01 +0000
Subject: [PATCH 34/36] fix: a sphere meets a mesh where that has turned to by
 then

---
 src/collision.rs     | 48 +++++++++++++++++++++++++-------------------
 src/mesh_collider.rs | 11 +++-------
 2 files changed, 30 insertions(+), 29 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index 64bf89c..336c346 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -103,48 +103,54 @@ pub fn collide(collider1 : &Box<dyn InternalCollider>, start1 : &Orientation, en
 	}
 	// I don't think it makes sense to detect when two (infinite) planes are colliding...
 	if ColliderType::SPHERE == collider1.get_type() && ColliderType::MESH == collider2.get_type() {
+		// Translate the sphere's location into the mesh's local space (as the mesh may rotate).
 		let sphere = collider1.downcast_ref::<InternalSphereCollider>().unwrap();
-		let sphere_start_position = start1.position_into_world(&sphere.center);
-		let sphere_end_position = end1.position_into_world(&sphere.center);
-
 		let mesh  = collider2.downcast_ref::<InternalMeshCollider>().unwrap();
-		let mesh_start_position = start2.position_into_world(&mesh.position);
-		let mesh_end_position = end2.position_into_world(&mesh.position);
 
-		return collide_sphere_with_mesh(
+		let sphere_start_position = start2.position_into_local(&start1.position_into_world(&sphere.center));
+		let sphere_end_position = end2.position_into_local(&end1.position_into_world(&sphere.center));
+
+		let result_option = collide_sphere_with_mesh(
 			sphere.radius,
 			&sphere_start_position,
 			&(sphere_end_position - sphere_start_position),
-			&mesh.vertices_in_world(&start2),
+			&mesh.vertices_in_local(),
 			&mesh.edges,
 			&mesh.faces,
-			&(mesh_end_position - mesh_start_position),
+			&Vec3::zeros(),
 		);
+
+		if let Some(mut result) = result_option {
+			result.transform_out_of(&start2, &end2);
+			return Some(result);
+		} else {
+			return None;
+		}
 	}
 	if ColliderType::MESH == collider1.get_type() && ColliderType::SPHERE == collider2.get_type() {
+		// Translate the sphere's location into the mesh's local space (as the mesh may rotate).
 		let mesh  = collider1.downcast_ref::<InternalMeshCollider>().unwrap();
-		let mesh_start_position = start1.position_into_world(&mesh.position);
-		let mesh_end_position = end1.position_into_world(&mesh.position);
-
 		let sphere = collider2.downcast_ref::<InternalSphereCollider>().unwrap();
-		let sphere_start_position = start2.position_into_world(&sphere.center);
-		let sphere_end_position = end2.position_into_world(&sphere.center);
 
-		let collision_option = collide_sphere_with_mesh(
+		let sphere_start_position = start1.position_into_local(&start2.position_into_world(&sphere.center));
+		let sphere_end_position = end1.position_into_local(&end2.position_into_world(&sphere.center));
+
+		let result_option = collide_sphere_with_mesh(
 			sphere.radius,
 			&sphere_start_position,
 			&(sphere_end_position - sphere_start_position),
-			&mesh.vertices_in_world(&start1),
+			&mesh.vertices_in_local(),
 			&mesh.edges,
 			&mesh.faces,
-			&(mesh_end_position - mesh_start_position),
+			&Vec3::zeros(),
 		);
-		// Must negate the normal as the sphere is the second collider.
-		if let Some(mut collision) = collision_option {
-			collision.normal *= -1.0;
-			return Some(collision);
+
+		if let Some(mut result) = result_option {
+			result.transform_out_of(&start1, &end1);
+			result.normal *= -1.0; // Must negate the normal as the sphere is the second collider.
+			return Some(result);
 		} else {
-			return None
+			return None;
 		}
 	}
 
diff --git a/src/mesh_collider.rs b/src/mesh_collider.rs
index 1348d65..36845cf 100644
--- a/src/mesh_collider.rs
+++ b/src/mesh_collider.rs
@@ -1,7 +1,6 @@
 use crate::consts::EPSILON;
 use crate::types::{Vec3, Mat3, EntityHandle};
 use crate::collider::{ColliderType, Collider, InternalCollider};
-use crate::orientation::Orientation;
 
 /// The internal representation of a mesh collider.
 #[derive(Debug)]
@@ -86,13 +85,9 @@ impl InternalMeshCollider {
 		}
 	}
 
-	/// Returns all the verticies after being moved into world space. The passed in orientation should be from the owning Entity.
-	pub fn vertices_in_world(&self, orientation : &Orientation) -> Vec<Vec3> {
-		let mut transformed = Vec::with_capacity(self.vertices.len());
-		for vertex in &self.vertices {
-			transformed.push(orientation.position_into_world(&(self.position + vertex)));
-		}
-		transformed
+	/// Returns all the verticies in the local space of the owning Entity.
+	pub fn vertices_in_local(&self) -> Vec<Vec3> {
+		self.vertices.iter().map(|vertex| self.position + vertex).collect()
 	}
 }
 
-- 
2.43.0


From 4f0d2302f313f60bea8f010942257221e7bc3245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:01 +0000
Subject: [PATCH 35/36] fix: a turning mesh meets a plane when and where its
 first corner does

---
 src/collision.rs | 46 ++++++++++++++++++++--------------------------
 1 file changed, 20 insertions(+), 26 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index 336c346..c67bbb3 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -496,8 +496,8 @@ struct _MeshCollisionInfo {
 
 /// Collides a mesh with an (infinite) plane.
 pub fn collide_mesh_with_plane(mesh_vertices : &Vec<Vec3>, mesh_position : &Vec3, mesh_start_orientation : &Orientation, mesh_end_orientation : &Orientation, plane_start_position : &Vec3, plane_end_position : &Vec3, plane_normal : &Vec3) -> Option<Collision> {
-	let mut start_distances = Range::empty();
-	let mut end_distances = Range::empty();
+	// The first vertex to reach the plane decides the time. (As the mesh can rotate, it needn't be the closest one at the start nor the end.)
+	let mut times = Range::empty();
 	let mut calculated  = Vec::new();
 	for vertex in mesh_vertices {
 		let internal_vertex_position = mesh_position + vertex;
@@ -507,8 +507,10 @@ pub fn collide_mesh_with_plane(mesh_vertices : &Vec<Vec3>, mesh_position : &Vec3
 		let start_distance = (mesh_start_position - plane_start_position).dot(plane_normal);
 		let end_distance   = (mesh_end_position   - plane_end_position).dot(plane_normal);
 
-		start_distances = start_distances.contain(&Range::single(start_distance));
-		end_distances   = end_distances.contain(&Range::single(end_distance));
+		times = times.contain(&Range::range(-INFINITY, 0.0).linear_overlap(
+			&Range::single(start_distance),
+			end_distance - start_distance
+		).intersect(&Range::range(0.0, 1.0)));
 
 		calculated.push(_MeshCollisionInfo {
 			start_position: mesh_start_position,
@@ -518,35 +520,27 @@ pub fn collide_mesh_with_plane(mesh_vertices : &Vec<Vec3>, mesh_position : &Vec3
 		});
 	}
 
-	let times = Range::range(-INFINITY, 0.0).linear_overlap(
-		&start_distances,
-		end_distances.min() - start_distances.min()
-	).intersect(&Range::range(0.0, 1.0));
-
 	if !times.is_empty() {
-		let mut closest_start_position_sum = Vec3::zeros();
-		let mut closest_start_position_count : f32 = 0.0;
-		let mut closest_end_position_sum = Vec3::zeros();
-		let mut closest_end_position_count : f32 = 0.0;
-		let start_epsilon = start_distances.size() * 0.01;// Apparently the standard EPSILON is a bit too small...
-		let end_epsilon = end_distances.size() * 0.01;// Apparently the standard EPSILON is a bit too small...
+		// Then the hit is in the middle of whatever is closest by then.
+		let time = times.min();
+		let mut distances = Range::empty();
+		for info in &calculated {
+			distances = distances.contain(&Range::single(info.start_distance * (1.0 - time) + info.end_distance * time));
+		}
+		let mut closest_position_sum = Vec3::zeros();
+		let mut closest_position_count : f32 = 0.0;
+		let epsilon = distances.size() * 0.01;// Apparently the standard EPSILON is a bit too small...
 		for info in calculated {
-			if start_epsilon >= (info.start_distance - start_distances.min()).abs() {
-				closest_start_position_sum += info.start_position;
-				closest_start_position_count += 1.0;
-			}
-			if end_epsilon >= (info.end_distance - end_distances.min()).abs() {
-				closest_end_position_sum += info.end_position;
-				closest_end_position_count += 1.0;
+			let distance = info.start_distance * (1.0 - time) + info.end_distance * time;
+			if epsilon >= (distance - distances.min()).abs() {
+				closest_position_sum += info.start_position * (1.0 - time) + info.end_position * time;
+				closest_position_count += 1.0;
 			}
 		}
-		closest_start_position_sum /= closest_start_position_count;
-		closest_end_position_sum /= closest_end_position_count;
 
-		let time = times.min();
 		Some(Collision {
 			times: times,
-			position: closest_start_position_sum * (1.0 - time) + closest_end_position_sum * time,
+			position: closest_position_sum / closest_position_count,
 			normal: -plane_normal,
 		})
 	} else {
-- 
2.43.0


From cf17fcbe92c6eae18382f23e8b8f156a8912b410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:02 +0000
Subject: [PATCH 36/36] fix: what a sphere lies on in a mesh doesn't hide what
 else of the mesh it hits

---
 src/collision.rs      | 46 +++++++++++++++++++++++--------------------
 src/physics_system.rs | 31 ++++++++++++++++++-----------
 2 files changed, 44 insertions(+), 33 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index c67bbb3..60afad5 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -32,7 +32,9 @@ impl Collision {
 }
 
 /// Tries to collide any two arbitrary colliders.
-pub fn collide(collider1 : &Box<dyn InternalCollider>, start1 : &Orientation, end1 : &Orientation, collider2 : &Box<dyn InternalCollider>, start2 : &Orientation, end2 : &Orientation) -> Option<Collision> {
+///
+/// If they may hit in more than one place, then whatever `is_relevant` refuses can't hide any later hits.
+pub fn collide(collider1 : &Box<dyn InternalCollider>, start1 : &Orientation, end1 : &Orientation, collider2 : &Box<dyn InternalCollider>, start2 : &Orientation, end2 : &Orientation, is_relevant : &dyn Fn(&Collision) -> bool) -> Option<Collision> {
 	// Always ignore a NullCollider.
 	// This is redundant now, but won't be in the future.
 	if ColliderType::NULL == collider1.get_type() || ColliderType::NULL == collider2.get_type() {
@@ -110,7 +112,7 @@ pub fn collide(collider1 : &Box<dyn InternalCollider>, start1 : &Orientation, en
 		let sphere_start_position = start2.position_into_local(&start1.position_into_world(&sphere.center));
 		let sphere_end_position = end2.position_into_local(&end1.position_into_world(&sphere.center));
 
-		let result_option = collide_sphere_with_mesh(
+		return collide_sphere_with_relevant_mesh_parts(
 			sphere.radius,
 			&sphere_start_position,
 			&(sphere_end_position - sphere_start_position),
@@ -118,14 +120,11 @@ pub fn collide(collider1 : &Box<dyn InternalCollider>, start1 : &Orientation, en
 			&mesh.edges,
 			&mesh.faces,
 			&Vec3::zeros(),
+			&|mut result| {
+				result.transform_out_of(&start2, &end2);
+				Some(result).filter(is_relevant)
+			},
 		);
-
-		if let Some(mut result) = result_option {
-			result.transform_out_of(&start2, &end2);
-			return Some(result);
-		} else {
-			return None;
-		}
 	}
 	if ColliderType::MESH == collider1.get_type() && ColliderType::SPHERE == collider2.get_type() {
 		// Translate the sphere's location into the mesh's local space (as the mesh may rotate).
@@ -135,7 +134,7 @@ pub fn collide(collider1 : &Box<dyn InternalCollider>, start1 : &Orientation, en
 		let sphere_start_position = start1.position_into_local(&start2.position_into_world(&sphere.center));
 		let sphere_end_position = end1.position_into_local(&end2.position_into_world(&sphere.center));
 
-		let result_option = collide_sphere_with_mesh(
+		return collide_sphere_with_relevant_mesh_parts(
 			sphere.radius,
 			&sphere_start_position,
 			&(sphere_end_position - sphere_start_position),
@@ -143,15 +142,12 @@ pub fn collide(collider1 : &Box<dyn InternalCollider>, start1 : &Orientation, en
 			&mesh.edges,
 			&mesh.faces,
 			&Vec3::zeros(),
+			&|mut result| {
+				result.transform_out_of(&start1, &end1);
+				result.normal *= -1.0; // Must negate the normal as the sphere is the second collider.
+				Some(result).filter(is_relevant)
+			},
 		);
-
-		if let Some(mut result) = result_option {
-			result.transform_out_of(&start1, &end1);
-			result.normal *= -1.0; // Must negate the normal as the sphere is the second collider.
-			return Some(result);
-		} else {
-			return None;
-		}
 	}
 
 	if ColliderType::MESH == collider1.get_type() && ColliderType::PLANE == collider2.get_type() {
@@ -453,7 +449,15 @@ impl EarliestCollisionAccumulator {
 }
 
 /// Collides a sphere against a mesh.
+#[cfg(test)]
 pub fn collide_sphere_with_mesh(radius1 : f32, center1: &Vec3, movement1 : &Vec3, vertices2 : &Vec<Vec3>, edges2 : &Vec<(usize, usize)>, faces2 : &Vec<Vec<usize>>, movement2 : &Vec3) -> Option<Collision> {
+	collide_sphere_with_relevant_mesh_parts(radius1, center1, movement1, vertices2, edges2, faces2, movement2, &Some)
+}
+
+/// Collides a sphere against a mesh, passing whatever it hits there through `finish` first.
+///
+/// A sphere keeps touching what it's lying on, rolling along, or was just bounced off. When `finish` drops those hits, then they don't hide what the sphere hits after that.
+fn collide_sphere_with_relevant_mesh_parts(radius1 : f32, center1: &Vec3, movement1 : &Vec3, vertices2 : &Vec<Vec3>, edges2 : &Vec<(usize, usize)>, faces2 : &Vec<Vec<usize>>, movement2 : &Vec3, finish : &dyn Fn(Collision) -> Option<Collision>) -> Option<Collision> {
 	let mut accumulator = EarliestCollisionAccumulator::new();
 	// First check all the corners.
 	for vertex in vertices2 {
@@ -461,7 +465,7 @@ pub fn collide_sphere_with_mesh(radius1 : f32, center1: &Vec3, movement1 : &Vec3
 		accumulator.consider(collide_sphere_with_sphere(
 			radius1, center1, movement1,
 			0.0, vertex, movement2,
-		));
+		).and_then(finish));
 	}
 	// Then check all the edges.
 	for (index1, index2) in edges2 {
@@ -469,7 +473,7 @@ pub fn collide_sphere_with_mesh(radius1 : f32, center1: &Vec3, movement1 : &Vec3
 		accumulator.consider(collide_sphere_with_mid_line_segment(
 			radius1, center1, movement1,
 			&vertices2[*index1], &vertices2[*index2], movement2,
-		));
+		).and_then(finish));
 	}
 	// Then check all the planes.
 	for face in faces2 {
@@ -481,7 +485,7 @@ pub fn collide_sphere_with_mesh(radius1 : f32, center1: &Vec3, movement1 : &Vec3
 		accumulator.consider(collide_sphere_with_polygon_surface(
 			radius1, center1, movement1,
 			&corners, movement2,
-		));
+		).and_then(finish));
 	}
 	accumulator.get()
 }
diff --git a/src/physics_system.rs b/src/physics_system.rs
index b088657..a3d5ef8 100644
--- a/src/physics_system.rs
+++ b/src/physics_system.rs
@@ -457,16 +457,8 @@ impl PhysicsSystem {
 								&second_entity_info.linear_movement, &second_entity_info.angular_movement
 							);
 
-							let collision_option = collide(
-								first_collider_box,
-								&first_start_orientation,
-								&first_end_orientation,
-								second_collider_box,
-								&second_start_orientation,
-								&second_end_orientation,
-							);
-
-							if let Some(collision) = collision_option {
+							// Whether a collision needs any handling at all.
+							let is_relevant = |collision : &Collision| -> bool {
 								let time = collision.times.min();
 								// If the objects are (already) moving away from the point of contact, then ignore the collision.
 								// The hit's position must be compared with where the centers of mass will be by then.
@@ -479,15 +471,30 @@ impl PhysicsSystem {
 								let approach_speed = velocity_delta.dot(&collision.normal);
 								if !(EPSILON <= approach_speed && approach_speed.is_finite()) {
 									//self.debug.push(format!("Dropping collision at: {:?} between {:?} (velocity: {:?}) and {:?} (velocity: {:?}) normal={:?}", collision.position, first_collider_handle, first_full_velocity, second_collider_handle, second_full_velocity, collision.normal));
-									continue;
+									return false;
 								}
 
 								// Similarly ignore collisions that can't be resolved: two infinite masses, no mass at all, or a bad mass.
 								let denominator = PhysicsSystem::calc_impulse_denominator(first, second, &collision.position, &collision.normal);
-								if !(0.0 < denominator && denominator.is_finite()) {
+								0.0 < denominator && denominator.is_finite()
+							};
+
+							let collision_option = collide(
+								first_collider_box,
+								&first_start_orientation,
+								&first_end_orientation,
+								second_collider_box,
+								&second_start_orientation,
+								&second_end_orientation,
+								&is_relevant,
+							);
+
+							if let Some(collision) = collision_option {
+								if !is_relevant(&collision) {
 									continue;
 								}
 
+								let time = collision.times.min();
 								// Otherwise check if this collision is the closest.
 								if time < earliest_collision_percent {
 									earliest_collision_percent = time;
-- 
2.43.0

