From c7db4df812d01558439c62112ef4fccf86798df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:28 +0000
Subject: [PATCH 01/32] fix: take sphere contact normals from the centers at
 the moment of contact

---
 src/collision.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index af34fdf..7f0acbb 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -305,11 +305,10 @@ pub fn collide_sphere_with_sphere(radius1 : f32, center1 : &Vec3, movement1 : &V
 		dc.dot(&dc) - radius * radius,
 	).intersect(&Range::range(0.0, 1.0));
 	if !times.is_empty() {
-		let position = (
-			(center1 + movement1.scale(times.min())) * radius2 +
-			(center2 + movement2.scale(times.min())) * radius1
-		).scale(1.0 / radius);
-		let normal = (position - center1).normalize();
+		let hit_center1 = center1 + movement1.scale(times.min());
+		let hit_center2 = center2 + movement2.scale(times.min());
+		let position = (hit_center1 * radius2 + hit_center2 * radius1).scale(1.0 / radius);
+		let normal = (hit_center2 - hit_center1).normalize();
 		Some(Collision {
 			times,
 			position,
@@ -334,7 +333,7 @@ pub fn collide_sphere_with_line(radius1 : f32, center1: &Vec3, movement1 : &Vec3
 		let center_position = center1 + movement1.scale(times.min());
 		let along_length = (center_position - line_position).dot(&direction);
 		let position = line_position + direction.scale(along_length);
-		let normal = (position - center1).normalize();
+		let normal = (position - center_position).normalize();
 		Some(Collision {
 			times,
 			position,
-- 
2.43.0


From f5e2bd701bb54ac1560903ee9e5761ddb8f28ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:46 +0000
Subject: [PATCH 02/32] fix: keep precision in quadratic_zeros so slow motion
 isn't lost

---
 src/range.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/range.rs b/src/range.rs
index 51d4d8c..05f029b 100644
--- a/src/range.rs
+++ b/src/range.rs
@@ -86,24 +86,28 @@ impl Range {
 	/// Creates a range that's got end points at the zeros of a quadratic.
 	/// Can also have no end points if the quadratic has no zeros.
 	pub fn quadratic_zeros(a : f32, b : f32, c : f32) -> Range {
-		if a.abs() < EPSILON {
+		if a == 0.0 {
 			// Degenerates to a linear equation.
-			if b.abs() < EPSILON {
+			if b == 0.0 {
 				// Degenerates to a constant "equation".
 				if c < EPSILON { Range::everything() } else { Range::empty() }
 			} else {
 				Range::single(-c / b)
 			}
 		} else {
-			let mut det = b * b - 4.0 * a * c;
-			if det < -EPSILON { // TODO: Could use a relative epsilon to keep things stable even in tiny cases.
+			// NOTE: The coefficients scale with the amount of motion, so comparing any of them to a fixed epsilon would lose slow motion.
+			let det = b * b - 4.0 * a * c;
+			if det < 0.0 {
 				Range::empty()
-			} else if det < EPSILON {
-				Range::single(-0.5 * b / a)
 			} else {
-				det = det.sqrt();
-				let denom = 2.0 * a;
-				Range::range((-b + det) / denom, (-b - det) / denom)
+				// Avoid subtracting similarly-sized values, as that loses precision.
+				let det_root = det.sqrt();
+				let q = -0.5 * if 0.0 > b { b - det_root } else { b + det_root };
+				if q == 0.0 {
+					Range::single(0.0)
+				} else {
+					Range::range(q / a, c / q)
+				}
 			}
 		}
 	}
-- 
2.43.0


From e0d52d530c536d035f8eab407b52723d5c94e29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:38 +0000
Subject: [PATCH 03/32] fix: let remove_collider remove a linked collider

It kept the collider arena borrowed while recalculating the owner's mass (which
panics), and left the dead handle in the owner's collider set.
---
 src/physics_system.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/physics_system.rs b/src/physics_system.rs
index f617711..83d520c 100644
--- a/src/physics_system.rs
+++ b/src/physics_system.rs
@@ -176,10 +176,12 @@ impl PhysicsSystem {
 
 	/// Removes a collider.
 	pub fn remove_collider(&mut self, handle : ColliderHandle) {
-		if let Some(mut remainder) = self.colliders.borrow_mut().remove(handle) {
+		let removed = self.colliders.borrow_mut().remove(handle); // Must not hold onto this borrow, as the below needs to borrow it again.
+		if let Some(mut remainder) = removed {
 			// Force the associated entity to update (if there is one).
 			if let Some(entity_handle) = remainder.get_entity() {
 				if let Some(entity) = self.entities.borrow_mut().get_mut(entity_handle) {
+					entity.colliders.remove(&handle);
 					entity.recalculate_mass(&*self.colliders.borrow());
 				}
 			}
-- 
2.43.0


From 38699e7f34c1cdba0664de4f66f82fd5d7cfe19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:01 +0000
Subject: [PATCH 04/32] fix: wake the neighbors of a removed entity

Sleepers kept its dead handle in their neighbor sets, so waking them panicked.
---
 src/physics_system.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/physics_system.rs b/src/physics_system.rs
index 83d520c..5037cc7 100644
--- a/src/physics_system.rs
+++ b/src/physics_system.rs
@@ -92,6 +92,10 @@ impl PhysicsSystem {
 	///
 	/// Returns if anything changed (i.e. if the entity existed and was removed).
 	pub fn remove_entity(&mut self, handle : EntityHandle) -> bool {
+		// Wake up everything that's asleep against it, so nothing is left referring to it (or stays asleep on top of nothing).
+		if self.entities.borrow().contains(handle) {
+			InternalEntity::wake_up(handle, &mut self.entities.borrow_mut(), &mut self.debug);
+		}
 		let removed = self.entities.borrow_mut().remove(handle);
 		if let Some(entity) = removed {
 			// Also remove all associated colliders.
-- 
2.43.0


From 7d98da8fecdf38dcb066bec91d574993f1764595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:02 +0000
Subject: [PATCH 05/32] fix: normalize the normal when updating a plane
 collider

The documentation says it's normalized when stored, and the collision code relies on it.
---
 src/plane_collider.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plane_collider.rs b/src/plane_collider.rs
index 0eedaa5..df1e782 100644
--- a/src/plane_collider.rs
+++ b/src/plane_collider.rs
@@ -71,7 +71,7 @@ impl InternalPlaneCollider {
 			Err(()) // TODO: An error type.
 		} else {
 			self.position = source.position;
-			self.normal = source.normal;
+			self.normal = source.normal.normalize();
 			self.mass = source.mass;
 			self.restitution_coefficient = source.restitution_coefficient;
 			self.friction_threshold = source.friction_threshold;
-- 
2.43.0


From 4bc4fd7bd6c562379fa52bfc63baa2e77a7608b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:03 +0000
Subject: [PATCH 06/32] fix: use the squared radius in a sphere's moment of
 inertia

---
 src/sphere_collider.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sphere_collider.rs b/src/sphere_collider.rs
index 057a07a..551a3e2 100644
--- a/src/sphere_collider.rs
+++ b/src/sphere_collider.rs
@@ -106,7 +106,7 @@ impl InternalCollider for InternalSphereCollider {
 	fn get_mass(&self) -> f32 { self.mass }
 
 	fn get_moment_of_inertia_tensor(&self) -> Mat3 {
-		let inertia = 2.0 / 5.0 * self.mass * self.radius;
+		let inertia = 2.0 / 5.0 * self.mass * self.radius * self.radius;
 		Mat3::from_diagonal(&Vec3::new(inertia, inertia, inertia))
 	}
 
-- 
2.43.0


From 83c63ba11b9964032687342d2a2311cdc626bf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:05 +0000
Subject: [PATCH 07/32] fix: accept box corners given in any order

Both corners are documented to only need to be more than EPSILON apart, and are sorted when stored.
---
 src/aligned_box_collider.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aligned_box_collider.rs b/src/aligned_box_collider.rs
index adb51ee..799ee0d 100644
--- a/src/aligned_box_collider.rs
+++ b/src/aligned_box_collider.rs
@@ -217,7 +217,7 @@ impl AlignedBoxCollider {
 
 	/// If this is in a valid state.
 	pub fn is_valid(&self) -> bool {
-		let size = self.max_corner - self.min_corner;
+		let size = (self.max_corner - self.min_corner).abs();
 		EPSILON < size.x && EPSILON < size.y && EPSILON < size.z && 0.0 <= self.mass
 	}
 }
-- 
2.43.0


From f01de1f63751a99689475bc5d8bbb5f616a47977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:18 +0000
Subject: [PATCH 08/32] fix: collide spheres with box colliders where they are

The box's position (which its center of mass accounts for) was ignored.
---
 src/collision.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index 7f0acbb..61414ad 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -218,8 +218,8 @@ pub fn collide(collider1 : &Box<dyn InternalCollider>, start1 : &Orientation, en
 			sphere.radius,
 			&sphere_start_position,
 			&(sphere_end_position - sphere_start_position),
-			&aligned_box.min_corner,
-			&aligned_box.max_corner,
+			&(aligned_box.position + aligned_box.min_corner),
+			&(aligned_box.position + aligned_box.max_corner),
 		);
 
 		if let Some(mut result) = result_option {
@@ -242,8 +242,8 @@ pub fn collide(collider1 : &Box<dyn InternalCollider>, start1 : &Orientation, en
 			sphere.radius,
 			&sphere_start_position,
 			&(sphere_end_position - sphere_start_position),
-			&aligned_box.min_corner,
-			&aligned_box.max_corner,
+			&(aligned_box.position + aligned_box.min_corner),
+			&(aligned_box.position + aligned_box.max_corner),
 		);
 
 		if let Some(mut result) = result_option {
-- 
2.43.0


From 0f998c2f1821b906ca8338821496e38a2a11d81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:20 +0000
Subject: [PATCH 09/32] fix: don't multiply the torque of a force by the moment
 of inertia

It's the change in angular velocity that's the torque multiplied by the inverse moment of inertia.
---
 src/physics_system.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics_system.rs b/src/physics_system.rs
index 5037cc7..46cc537 100644
--- a/src/physics_system.rs
+++ b/src/physics_system.rs
@@ -367,7 +367,7 @@ impl PhysicsSystem {
 						let force = generator_borrow.make_force(dt, &self, handle);
 
 						acceleration += force.force.scale(1.0 / total_mass);
-						torque += entity_copy.get_last_moment_of_inertia() * (force.position - entity_copy.position).cross(&force.force);
+						torque += (force.position - entity_copy.position).cross(&force.force);
 					}
 				}
 			}
-- 
2.43.0


From bf88fbd6b70b0c6694a13b0deed2d1eccfd4f52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:21 +0000
Subject: [PATCH 10/32] fix: handle meshes that are exactly flat against a
 plane

When all vertices are at the same distance the tolerance is zero, so no vertex counted
as closest and the collision's position was NaN.
---
 src/collision.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index 61414ad..4e9433a 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -520,11 +520,11 @@ pub fn collide_mesh_with_plane(mesh_vertices : &Vec<Vec3>, mesh_position : &Vec3
 		let start_epsilon = start_distances.size() * 0.01;// Apparently the standard EPSILON is a bit too small...
 		let end_epsilon = end_distances.size() * 0.01;// Apparently the standard EPSILON is a bit too small...
 		for info in calculated {
-			if start_epsilon > (info.start_distance - start_distances.min()).abs() {
+			if start_epsilon >= (info.start_distance - start_distances.min()).abs() {
 				closest_start_position_sum += info.start_position;
 				closest_start_position_count += 1.0;
 			}
-			if end_epsilon > (info.end_distance - end_distances.min()).abs() {
+			if end_epsilon >= (info.end_distance - end_distances.min()).abs() {
 				closest_end_position_sum += info.end_position;
 				closest_end_position_count += 1.0;
 			}
-- 
2.43.0


From 4b78c3f371b44601ca9a2b2be62f5a338cd8a61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:14 +0000
Subject: [PATCH 11/32] fix: judge whether a spinning body approaches from
 where it will be at the collision

The offset from its center of mass was taken before the movement up to the collision,
so spinning bodies could be considered as moving away and fall through things.
---
 src/physics_system.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/physics_system.rs b/src/physics_system.rs
index 46cc537..b440926 100644
--- a/src/physics_system.rs
+++ b/src/physics_system.rs
@@ -463,8 +463,9 @@ impl PhysicsSystem {
 							if let Some(collision) = collision_option {
 								let time = collision.times.min();
 								// If the objects are (already) moving away from the point of contact, then ignore the collision.
-								let first_full_velocity = first.get_velocity_at_world_position(&collision.position);
-								let second_full_velocity = second.get_velocity_at_world_position(&collision.position);
+								// Note that the entities haven't been moved up to the time of the collision yet.
+								let first_full_velocity = first.get_velocity_at_world_position(&(collision.position - first_entity_info.linear_movement * time));
+								let second_full_velocity = second.get_velocity_at_world_position(&(collision.position - second_entity_info.linear_movement * time));
 								let velocity_delta = first_full_velocity - second_full_velocity;
 								if EPSILON > velocity_delta.dot(&collision.normal) {
 									//self.debug.push(format!("Dropping collision at: {:?} between {:?} (velocity: {:?}) and {:?} (velocity: {:?}) normal={:?}", collision.position, first_collider_handle, first_full_velocity, second_collider_handle, second_full_velocity, collision.normal));
-- 
2.43.0


From 4c5f6951c3b885d90ce3bf640d659d3d379a9f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:16 +0000
Subject: [PATCH 12/32] fix: don't respond to collisions that no impulse can
 resolve

Two infinite masses, a massless entity, or coincident spheres led to NaN velocities.
---
 src/physics_system.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/physics_system.rs b/src/physics_system.rs
index b440926..761b213 100644
--- a/src/physics_system.rs
+++ b/src/physics_system.rs
@@ -434,6 +434,12 @@ impl PhysicsSystem {
 						continue;
 					}
 
+					// No impulse can change the motion of two infinite masses, or be shared with something that has no mass at all.
+					let inverse_mass_sum = 1.0 / first.get_total_mass() + 1.0 / second.get_total_mass();
+					if 0.0 == inverse_mass_sum || !inverse_mass_sum.is_finite() {
+						continue;
+					}
+
 					// Then check all colliders between the two entities.
 					for first_collider_handle in first.colliders.iter() {
 						for second_collider_handle in second.colliders.iter() {
@@ -467,7 +473,8 @@ impl PhysicsSystem {
 								let first_full_velocity = first.get_velocity_at_world_position(&(collision.position - first_entity_info.linear_movement * time));
 								let second_full_velocity = second.get_velocity_at_world_position(&(collision.position - second_entity_info.linear_movement * time));
 								let velocity_delta = first_full_velocity - second_full_velocity;
-								if EPSILON > velocity_delta.dot(&collision.normal) {
+								// This also ignores collisions without a sensible normal (i.e. spheres with the same center).
+								if !(EPSILON <= velocity_delta.dot(&collision.normal)) {
 									//self.debug.push(format!("Dropping collision at: {:?} between {:?} (velocity: {:?}) and {:?} (velocity: {:?}) normal={:?}", collision.position, first_collider_handle, first_full_velocity, second_collider_handle, second_full_velocity, collision.normal));
 									continue;
 								}
-- 
2.43.0


From ee31576547c351d2b6112a138afc3bd074a78345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:18 +0000
Subject: [PATCH 13/32] fix: scale friction by the masses involved

The friction impulse was a change of velocity, so light bodies were thrown backwards by
friction (gaining energy) and heavy ones were barely slowed. Also limits it by what stops
the sliding instead of by the effective mass along the normal.
---
 src/physics_system.rs | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/physics_system.rs b/src/physics_system.rs
index 761b213..3ac1af0 100644
--- a/src/physics_system.rs
+++ b/src/physics_system.rs
@@ -5,7 +5,7 @@ use std::collections::HashSet;
 use generational_arena::Arena;
 
 use crate::consts::EPSILON;
-use crate::types::{Vec3, EntityHandle, ColliderHandle, UnaryForceGeneratorHandle};
+use crate::types::{min, Vec3, EntityHandle, ColliderHandle, UnaryForceGeneratorHandle};
 use crate::entity::{InternalEntity, Entity};
 use crate::collider::{ColliderType, InternalCollider};
 #[allow(unused_imports)] // Need this trait, but Rust's warning system doesn't seem to understand that.
@@ -607,12 +607,14 @@ impl PhysicsSystem {
 					} else {
 						earliest_collision_dynamic_friction_coefficient
 					};
-					let denominator = PhysicsSystem::calc_collision_impulse_denominator(first, second, &collision);
-					let max_friction_impulse = sliding_magnitude / denominator; // Divide by denominator so the mass/inertia split is reasonable.
-					let mut friction_percent : f32 = (impulse.magnitude() * friction_coefficient) / max_friction_impulse;
-					if friction_percent > 1.0 { friction_percent = 1.0; }
-					if !friction_percent.is_finite() { friction_percent = 0.0; }
-					let friction_impulse = sliding * -friction_percent;
+					// Find how big of an impulse it'd take to stop all sliding, and never use more than that.
+					let mut friction_impulse = Vec3::zeros();
+					if 0.0 < sliding_magnitude {
+						let sliding_direction = sliding / sliding_magnitude;
+						let denominator = PhysicsSystem::calc_collision_impulse_denominator(first, second, &collision.position, &sliding_direction);
+						let max_friction_impulse = sliding_magnitude / denominator; // Divide by denominator so the mass/inertia split is reasonable.
+						friction_impulse = sliding_direction * -min(impulse.magnitude() * friction_coefficient, max_friction_impulse);
+					}
 
 					PhysicsSystem::apply_collision_impulse(
 						&mut first,
@@ -695,16 +697,16 @@ impl PhysicsSystem {
 		}
 	}
 
-	fn calc_collision_impulse_denominator(first : &InternalEntity, second : &InternalEntity, collision : &Collision) -> f32 {
-		let first_offset  = collision.position - first.orientation.position;
-		let second_offset = collision.position - second.orientation.position;
+	fn calc_collision_impulse_denominator(first : &InternalEntity, second : &InternalEntity, position : &Vec3, direction : &Vec3) -> f32 {
+		let first_offset  = position - first.orientation.position;
+		let second_offset = position - second.orientation.position;
 
 		let first_linear_weight   = 1.0 / first.get_total_mass();
 		let second_linear_weight  = 1.0 / second.get_total_mass();
-		let first_angular_amount = first.get_inverse_moment_of_inertia()   * first_offset.cross( &collision.normal);
-		let first_angular_weight  = first_angular_amount.cross(&first_offset).dot( &collision.normal);
-		let second_angular_amount = second.get_inverse_moment_of_inertia() * second_offset.cross(&collision.normal);
-		let second_angular_weight = second_angular_amount.cross(&second_offset).dot(&collision.normal);
+		let first_angular_amount = first.get_inverse_moment_of_inertia()   * first_offset.cross(direction);
+		let first_angular_weight  = first_angular_amount.cross(&first_offset).dot(direction);
+		let second_angular_amount = second.get_inverse_moment_of_inertia() * second_offset.cross(direction);
+		let second_angular_weight = second_angular_amount.cross(&second_offset).dot(direction);
 		first_linear_weight + second_linear_weight + first_angular_weight + second_angular_weight
 	}
 
@@ -718,7 +720,7 @@ impl PhysicsSystem {
 		// First find the collision response along the normal.
 		let normal_coincidence = velocity_delta.dot(&collision.normal);
 		let numerator = -(1.0 + restitution_coefficient) * normal_coincidence;
-		let denominator = PhysicsSystem::calc_collision_impulse_denominator(first, second, collision);
+		let denominator = PhysicsSystem::calc_collision_impulse_denominator(first, second, &collision.position, &collision.normal);
 		let normal_impulse_magnitude = numerator / denominator;
 		collision.normal.scale(normal_impulse_magnitude)
 	}
-- 
2.43.0


From ee82aa809e1ad966d3381092dce52b7cda5a91bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:39 +0000
Subject: [PATCH 14/32] fix: don't lose hits on long edges to rounding

Comparing lengths against a fixed EPSILON rejects points on the segment as soon as the
lengths are large enough for rounding to exceed it.
---
 src/collision.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index 4e9433a..f0be2e7 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -350,8 +350,8 @@ pub fn collide_sphere_with_mid_line_segment(radius1 : f32, center1: &Vec3, movem
 	if let Some(hit) = collide_sphere_with_line(radius1, center1, movement1, start2, &length, movement2) {
 		let hit_movement = movement2.scale(hit.times.min());
 		let hit_start = start2 + hit_movement;
-		let hit_end = end2 + hit_movement;
-		if (((hit_start - hit.position).magnitude() + (hit_end - hit.position).magnitude()) - length.magnitude()).abs() < EPSILON {
+		let along = (hit.position - hit_start).dot(&length);
+		if 0.0 <= along && along <= length.dot(&length) {
 			Some(hit)
 		} else { None }
 	} else { None }
-- 
2.43.0


From 411e78932be87c5a678813f5ad0ad0136cabaee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:41 +0000
Subject: [PATCH 15/32] fix: don't panic on degenerate polygons in mesh-mesh
 collisions

The polygon is the average of the starting and ending faces, so a rotating mesh (or a tiny
face) can make it degenerate.
---
 src/collision.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index f0be2e7..60814d8 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -543,7 +543,8 @@ pub fn collide_mesh_with_plane(mesh_vertices : &Vec<Vec3>, mesh_position : &Vec3
 	}
 }
 
-fn get_polygon_normal(points : &Vec<Vec3>) -> Vec3 {
+/// Finds the normal of a polygon. Will be None if it's degenerate (which can happen in the middle of a fast rotation).
+fn get_polygon_normal(points : &Vec<Vec3>) -> Option<Vec3> {
 	for index in 0..points.len() {
 		let mut next_index = index + 1;
 		if next_index >= points.len() { next_index -= points.len(); }
@@ -551,10 +552,10 @@ fn get_polygon_normal(points : &Vec<Vec3>) -> Vec3 {
 		let normal = (points[prev_index] - points[index]).cross(&(points[next_index] - points[index]));
 		let length = normal.magnitude();
 		if length.is_finite() && EPSILON < length {
-			return normal / length;
+			return Some(normal / length);
 		}
 	}
-	panic!("Couldn't find a normal for the polygon: {:?}", points);
+	None
 }
 
 fn point_is_on_plane(point : &Vec3, plane_normal : &Vec3, plane_point : &Vec3) -> bool {
@@ -568,7 +569,7 @@ fn collide_point_with_polygon(point_start : &Vec3, point_end : &Vec3, polygon :
 	let point_delta = point_end - point_start;
 	// First: figure out when the point will collide with the (moving) plane.
 	// Then decide whether that point (or point movement) goes into the polygon.
-	let mut plane_normal = get_polygon_normal(polygon);
+	let mut plane_normal = get_polygon_normal(polygon)?;
 	// Note that the only way for the point to be on the plane more than once is if it's always on the plane. So use that to decide...
 	if point_is_on_plane(point_start, &plane_normal, &polygon[0]) && point_is_on_plane(point_end, &plane_normal, &polygon[0]) {
 		// Then see if/when that point intersects with the polygon's line segments.
-- 
2.43.0


From f844624dced14c46b905ab864f4466a4df5a0249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:42 +0000
Subject: [PATCH 16/32] fix: interpolate orientations along the rotation
 between them

Interpolating the rotation vectors is only right when they share an axis, and goes the
wrong way around when the rotation passes a half turn.
---
 src/orientation.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/orientation.rs b/src/orientation.rs
index e9c9fde..e617223 100644
--- a/src/orientation.rs
+++ b/src/orientation.rs
@@ -75,10 +75,11 @@ impl Orientation {
 	/// Linearly interpolates between a starting and ending orientation.
 	pub fn lerp(time : f32, start : &Orientation, end : &Orientation) -> Orientation {
 		let opposite = 1.0 - time;
-		let rotation_vec = start.rotation_vec() * opposite + end.rotation_vec() * time;
+		// Must interpolate the rotation between the two, as the rotation vectors can wrap around.
+		let rotation_delta = (end.rotation * start.rotation.inverse()).scaled_axis();
 		Orientation {
 			position: start.position * opposite + end.position * time,
-			rotation: Quat::from_scaled_axis(rotation_vec),
+			rotation: Quat::from_scaled_axis(rotation_delta * time) * start.rotation,
 			internal_origin_offset: start.internal_origin_offset.clone(),
 		}
 	}
-- 
2.43.0


From 962bb0e88abb3b50a3ae312a66f70b3f07e4fd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:44 +0000
Subject: [PATCH 17/32] fix: give infinite masses a sensible total energy in
 Entity

Zero times infinity made it NaN; now matches InternalEntity.
---
 src/entity.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/entity.rs b/src/entity.rs
index 74de2cc..0917d96 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -382,6 +382,9 @@ impl Entity {
 
 	/// Gets the total energy of this object.
 	pub fn get_total_energy(&self) -> f32 {
+		if self.last_total_mass.is_infinite() {
+			return if self.velocity.magnitude() < EPSILON && self.angular_velocity.magnitude() < EPSILON { 0.0 } else { INFINITY };
+		}
 		let linear_energy = (self.last_total_mass * self.velocity).dot(&self.velocity) / 2.0;
 		let angular_energy = (self.get_last_moment_of_inertia() * self.angular_velocity).dot(&self.angular_velocity) / 2.0;
 		linear_energy + angular_energy
-- 
2.43.0


From 3ced539c27d2e5c681767910882002d32c0d6c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:58 +0000
Subject: [PATCH 18/32] fix: don't wake an entity that's updated with the
 rotation it has

Its quaternion can be the negation of the one made from the same rotation vector.
---
 src/entity.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index 0917d96..e82dc77 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -100,11 +100,15 @@ impl InternalEntity {
 	pub fn update_from(&mut self, source : Entity) -> Result<bool,()> {
 		if 0.0 > source.own_mass { return Err(()); }
 		let new_rotation = Quat::from_scaled_axis(source.rotation);
+		// Note that negating a quaternion doesn't change what rotation it represents.
+		let old_rotation = if 0.0 > self.orientation.rotation.as_vector().dot(new_rotation.as_vector()) {
+			-self.orientation.rotation.into_inner()
+		} else { self.orientation.rotation.into_inner() };
 		let rotation_delta = (
-			(new_rotation.w - self.orientation.rotation.w) * (new_rotation.w - self.orientation.rotation.w) +
-			(new_rotation.i - self.orientation.rotation.i) * (new_rotation.i - self.orientation.rotation.i) +
-			(new_rotation.j - self.orientation.rotation.j) * (new_rotation.j - self.orientation.rotation.j) +
-			(new_rotation.k - self.orientation.rotation.k) * (new_rotation.k - self.orientation.rotation.k)
+			(new_rotation.w - old_rotation.w) * (new_rotation.w - old_rotation.w) +
+			(new_rotation.i - old_rotation.i) * (new_rotation.i - old_rotation.i) +
+			(new_rotation.j - old_rotation.j) * (new_rotation.j - old_rotation.j) +
+			(new_rotation.k - old_rotation.k) * (new_rotation.k - old_rotation.k)
 		).sqrt();
 		#[allow(unused_parens)]
 		let changed = (
-- 
2.43.0


From 334d253c12c35d90ce23e8fd930ca83891036840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:05 +0000
Subject: [PATCH 19/32] fix: restart the sleep timer when an entity wakes up

An entity woken in mid air with small time steps hadn't gained enough energy after one step,
so it was put right back to sleep (and never fell).
---
 src/entity.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/entity.rs b/src/entity.rs
index e82dc77..4d44feb 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -259,6 +259,9 @@ impl InternalEntity {
 				if target.asleep {
 					println!("Waking up {:?}.", target_handle);
 					debug.push(format!("Waking up {:?}.", target_handle));
+					// It must be at rest for the full amount of time again before it can go back to sleep.
+					target.falling_asleep = false;
+					target.falling_asleep_time = 0.0;
 				}
 				target.asleep = false;
 				target.neighbors.clear();
-- 
2.43.0


From 76a87695c92119819409ad31fd2cee68e2b3f27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:23 +0000
Subject: [PATCH 20/32] fix: don't let awake entities fall through sleeping
 ones

Whatever was touching an entity when it fell asleep was never checked for collisions with it
again, even while still awake: a ball rolling along a floor fell through it as soon as the
floor went to sleep. Now only pairs that are both asleep are skipped. To not have a sleeping
entity and an awake one on top of it keep waking each other up, entities that are in contact
only go to sleep together. Also keeps the neighbors recorded by entities that fell asleep
earlier instead of overwriting them.
---
 src/physics_system.rs | 47 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 35 insertions(+), 12 deletions(-)

diff --git a/src/physics_system.rs b/src/physics_system.rs
index 3ac1af0..ad32546 100644
--- a/src/physics_system.rs
+++ b/src/physics_system.rs
@@ -425,14 +425,11 @@ impl PhysicsSystem {
 					let second = second_option.unwrap();
 
 					// Ignore the possible collisions if they're a part of the known collisions that were detected when the entity went to sleep.
-					if first.neighbors.contains(&second_entity_info.handle) {
+					// Only do this while both are asleep, as otherwise the one that's still awake would move right through the other.
+					if first.asleep && second.asleep && first.neighbors.contains(&second_entity_info.handle) {
 						println!("Skipping {:?} due to {:?}", second_entity_info.handle, first_entity_info.handle);
 						continue;
 					}
-					if second.neighbors.contains(&first_entity_info.handle) {
-						println!("Skipping {:?} due to {:?}", first_entity_info.handle, second_entity_info.handle);
-						continue;
-					}
 
 					// No impulse can change the motion of two infinite masses, or be shared with something that has no mass at all.
 					let inverse_mass_sum = 1.0 / first.get_total_mass() + 1.0 / second.get_total_mass();
@@ -652,6 +649,7 @@ impl PhysicsSystem {
 		}
 
 		// Put any entities to sleep if they have too little energy left.
+		let mut ready = HashSet::new();
 		for info in &mut entity_info {
 			let mut entities = self.entities.borrow_mut();
 			{
@@ -684,15 +682,40 @@ impl PhysicsSystem {
 					continue;
 				}
 
-				entity.asleep = true;
-				entity.neighbors = info.neighbors.clone();
-				println!("Putting {:?} to sleep", info.handle);
-				self.debug.push(format!("Putting {:?} to sleep (energy={:?}; neighbors={:?}; velocity={:?}; angular_velocity={:?}; position={:?})", info.handle, energy, info.neighbors.len(), entity.velocity, entity.angular_velocity, entity.orientation.position));
+				ready.insert(info.handle);
+			}
+		}
+		let mut entities = self.entities.borrow_mut();
+		// Entities in contact must go to sleep together, as one that's still awake would just wake the others back up.
+		// This doesn't apply to anything with infinite mass, as it can't be woken up by what it's in contact with.
+		loop {
+			let mut held_up = Vec::new();
+			for info in &entity_info {
+				if !ready.contains(&info.handle) || entities.get(info.handle).unwrap().get_total_mass().is_infinite() { continue; }
+				if info.neighbors.iter().any(|neighbor| !ready.contains(neighbor) && !entities.get(*neighbor).unwrap().asleep) {
+					held_up.push(info.handle);
+				}
 			}
-			// If the entity went to sleep, then add it as a neighbor to the entities it neighbors.
+			if held_up.is_empty() { break; }
+			for handle in held_up { ready.remove(&handle); }
+		}
+		for info in &entity_info {
+			if !ready.contains(&info.handle) { continue; }
+			let entity = entities.get_mut(info.handle).unwrap();
+			entity.asleep = true;
+			println!("Putting {:?} to sleep", info.handle);
+			self.debug.push(format!("Putting {:?} to sleep (energy={:?}; neighbors={:?}; velocity={:?}; angular_velocity={:?}; position={:?})", info.handle, entity.get_total_energy(), info.neighbors.len(), entity.velocity, entity.angular_velocity, entity.orientation.position));
+		}
+		// Every pair that's now both asleep and in contact are neighbors.
+		for info in &entity_info {
+			if !ready.contains(&info.handle) { continue; }
 			for neighbor_handle in &info.neighbors {
-				let neighbor = entities.get_mut(*neighbor_handle).unwrap();
-				neighbor.neighbors.insert(info.handle);
+				let (entity_option, neighbor_option) = entities.get2_mut(info.handle, *neighbor_handle);
+				let neighbor = neighbor_option.unwrap();
+				if neighbor.asleep {
+					neighbor.neighbors.insert(info.handle);
+					entity_option.unwrap().neighbors.insert(*neighbor_handle);
+				}
 			}
 		}
 	}
-- 
2.43.0


From b52fb65c2ec825d8c03c86fb7bdbfa1e8f4ef51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:31 +0000
Subject: [PATCH 21/32] fix: keep orientations normalized over many steps

---
 src/orientation.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/orientation.rs b/src/orientation.rs
index e617223..d04010f 100644
--- a/src/orientation.rs
+++ b/src/orientation.rs
@@ -142,6 +142,8 @@ impl Orientation {
 	pub fn affect_with(&mut self, linear_movement : &Vec3, angular_movement : &Vec3) {
 		self.position += linear_movement;
 		self.rotation = Quat::from_scaled_axis(*angular_movement) * self.rotation;
+		// Rounding error builds up with every multiplication, and would eventually scale (instead of just rotate) everything.
+		self.rotation.renormalize();
 	}
 
 	/// Stores the result of applying a rotation and translation to this instance in a new instance.
-- 
2.43.0


From 7266ba76dc2cd006e9594c7b2e01819e9ca4b7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:10 +0000
Subject: [PATCH 22/32] fix: don't treat sleeping entities as moving when
 looking for collisions

Forces gave sleeping entities a velocity for the length of the step, so
contacts were timed as if they were falling away from whatever hits them
(which could end up inside of them by half of g*dt^2 and more), even though
they are never moved.
---
 src/physics_system.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/physics_system.rs b/src/physics_system.rs
index ad32546..1786217 100644
--- a/src/physics_system.rs
+++ b/src/physics_system.rs
@@ -374,15 +374,17 @@ impl PhysicsSystem {
 
 			let mut entities_borrow = self.entities.borrow_mut();
 			let entity = entities_borrow.get_mut(handle).unwrap();
-			entity.velocity += acceleration.scale(dt);
+			if entity.asleep {
+				// Sleeping entities don't move until something wakes them up, so they must not be treated as if they were moving when looking for collisions.
+				entity.velocity = Vec3::zeros();
+				entity.angular_velocity = Vec3::zeros();
+			} else {
+				entity.velocity += acceleration.scale(dt);
+				entity.angular_velocity += entity.get_inverse_moment_of_inertia() * torque.scale(dt);
+			}
 			let linear_movement = entity.velocity.scale(dt);
-
-			entity.angular_velocity += entity.get_inverse_moment_of_inertia() * torque.scale(dt);
 			let angular_movement = entity.angular_velocity.scale(dt);
 
-			// NOTE: Allowing velocities to be set even on sleeping entities so that if they're woken up during this step(), they will still have the basic velocities setup.
-			// This should help insure that the newly-woken entities have a shot at being awake for a bit before being pushed back to sleep.
-
 			entity_info.push(EntityStepInfo {
 				handle,
 				linear_movement,
-- 
2.43.0


From 963455b8a07fc995278584b614aeef9969d877da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:00 +0000
Subject: [PATCH 23/32] fix: don't invert moments of inertia that are only
 rounding error

---
 src/entity.rs | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index 4d44feb..690b910 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -8,6 +8,12 @@ use crate::types::{Vec3, Mat3, Quat, ColliderHandle, EntityHandle};
 use crate::collider::InternalCollider;
 use crate::orientation::Orientation;
 
+/// The highest ratio between moments of inertia before the smallest one can't be told apart from rounding error.
+const MAX_INERTIA_RATIO : f32 = 1e5;
+
+/// The smallest radius of gyration before something can't be told apart from a point (where any moment of inertia is just rounding error).
+const MIN_GYRATION_RADIUS : f32 = 10.0 * EPSILON;
+
 /// The internal representation of any physical object.
 /// This generally has NO data hiding to keep things simple.
 pub struct InternalEntity {
@@ -190,17 +196,28 @@ impl InternalEntity {
 		self.orientation.finalize_moment_of_inertia(&self.prepped_moment_of_inertia)
 	}
 
-	/// Gets the moment of inertia tensor in WORLD space.
+	/// Gets the inverse of the moment of inertia tensor in WORLD space.
+	///
+	/// Any axis that has (practically) no moment of inertia about it will have a zero inverse, so nothing can make it spin about that.
 	pub fn get_inverse_moment_of_inertia(&self) -> Mat3 {
 		let moment = self.get_moment_of_inertia();
-		if let Some(inverse) = moment.try_inverse() {
-			inverse
-		} else {
-			if EPSILON < moment.magnitude() {
-				println!("WARNING! No inverse found for moment of inertia! {:?}", moment);
+		// Work relative to the size of the tensor so the determinant doesn't underflow (nor overflow).
+		let scale = moment.magnitude();
+		if !scale.is_finite() || 0.0 >= scale { return Mat3::zeros(); }
+		if scale < self.total_mass * MIN_GYRATION_RADIUS * MIN_GYRATION_RADIUS { return Mat3::zeros(); }
+		let scaled_moment = moment / scale;
+		if let Some(inverse) = scaled_moment.try_inverse() {
+			// The magnitude of the inverse is also how much it'll amplify rounding errors.
+			if MAX_INERTIA_RATIO > inverse.magnitude() {
+				return inverse / scale;
 			}
-			Mat3::zeros()
 		}
+		// Otherwise only invert about the principal axes that have a meaningful moment of inertia.
+		let eigen = scaled_moment.symmetric_eigen();
+		let inverse_values = eigen.eigenvalues.map(|value| {
+			if 1.0 < value * MAX_INERTIA_RATIO { 1.0 / value } else { 0.0 }
+		});
+		(eigen.eigenvectors * Mat3::from_diagonal(&inverse_values) * eigen.eigenvectors.transpose()) / scale
 	}
 
 	/// Gets the velocity at a point (that's specified in world coordinates).
-- 
2.43.0


From 89f464e68d48e0a5e8ad5ba76ec4d49c35ecb0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:02 +0000
Subject: [PATCH 24/32] fix: meshes collide by their relative movement

---
 src/collision.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index 60814d8..404cd91 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -680,14 +680,25 @@ fn collide_mesh_points_with_mesh_faces(output : &mut EarliestCollisionAccumulato
 	for points_info in mesh1_points {
 		for face in &mesh2.faces {
 			face_points.clear();
+			let mut face_movement = Vec3::zeros();
 			for index in face {
 				face_points.push((mesh2_points[*index].start + mesh2_points[*index].end) / 2.0);
+				face_movement += mesh2_points[*index].end - mesh2_points[*index].start;
 			}
-			accumulator.consider(collide_point_with_polygon(
+			// Look at the point's movement relative to the face's (average) movement.
+			face_movement /= face.len() as f32;
+			for face_point in &mut face_points {
+				*face_point -= face_movement / 2.0;
+			}
+			let mut collision = collide_point_with_polygon(
 				&points_info.start,
-				&points_info.end,
+				&(points_info.end - face_movement),
 				&face_points,
-			));
+			);
+			if let Some(collision) = &mut collision {
+				collision.position += face_movement * collision.times.min();
+			}
+			accumulator.consider(collision);
 		}
 	}
 
-- 
2.43.0


From e2d58beabab58bd9a4af9125b19d31c490cb43b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:09 +0000
Subject: [PATCH 25/32] fix: a flat mesh landing flat on a mesh face isn't
 missed

---
 src/collision.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index 404cd91..bd713e4 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -707,13 +707,15 @@ fn collide_mesh_points_with_mesh_faces(output : &mut EarliestCollisionAccumulato
 		// Do this once at the end because it's kinda expensive.
 		let mut negate : usize = 0;
 		let mut keep : usize = 0;
+		let tolerance = EPSILON * (1.0 + collision.position.magnitude());
 		for points_info in mesh1_points {
 			let time = collision.times.min();
 			let point = points_info.start * (1.0 - time) + points_info.end * time;
 			let sign = (point - collision.position).dot(&collision.normal);
-			if 0.0 > sign {
+			// Points that are on the face (up to rounding) don't say anything about the side.
+			if -tolerance > sign {
 				negate += 1;
-			} else {
+			} else if tolerance < sign {
 				keep += 1;
 			}
 		}
-- 
2.43.0


From 7d8f90fc3e93f7bf9e1a8bc8121bd512609e6be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:26 +0000
Subject: [PATCH 26/32] fix: bodies with all of their mass on one line turned
 about the wrong axis

---
 src/entity.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index 690b910..d7dc842 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -212,12 +212,22 @@ impl InternalEntity {
 				return inverse / scale;
 			}
 		}
-		// Otherwise only invert about the principal axes that have a meaningful moment of inertia.
-		let eigen = scaled_moment.symmetric_eigen();
-		let inverse_values = eigen.eigenvalues.map(|value| {
-			if 1.0 < value * MAX_INERTIA_RATIO { 1.0 / value } else { 0.0 }
-		});
-		(eigen.eigenvectors * Mat3::from_diagonal(&inverse_values) * eigen.eigenvectors.transpose()) / scale
+		// Otherwise only invert about the axes that have a meaningful moment of inertia.
+		// Any axis without one is perpendicular to all the columns of the tensor.
+		let (x, y, z) = (scaled_moment.column(0), scaled_moment.column(1), scaled_moment.column(2));
+		let mut axis = x.cross(&y);
+		for other in &[y.cross(&z), z.cross(&x)] {
+			if other.magnitude() > axis.magnitude() { axis = *other; }
+		}
+		// If the columns are all (practically) parallel, then there's only one axis with a moment of inertia.
+		if 1.0 >= axis.magnitude() * MAX_INERTIA_RATIO { return scaled_moment / scale; }
+		// Substitute any moment for the axis without one, and then remove it again from the inverse.
+		axis.normalize_mut();
+		let substitute = axis * axis.transpose();
+		match (scaled_moment + substitute).try_inverse() {
+			Some(inverse) => (inverse - substitute) / scale,
+			None => Mat3::zeros(),
+		}
 	}
 
 	/// Gets the velocity at a point (that's specified in world coordinates).
-- 
2.43.0


From 7347eb7e18c96f1747821497e6ed392b5444fd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:14 +0000
Subject: [PATCH 27/32] fix: an entity added from a copy doesn't keep the
 offset of the original's center of mass

---
 src/entity.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/entity.rs b/src/entity.rs
index d7dc842..ed540d7 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -62,7 +62,8 @@ impl InternalEntity {
 	pub fn new_from(source : Entity) -> Result<InternalEntity, ()> {
 		if 0.0 > source.own_mass { return Err(()); }
 		Ok(InternalEntity {
-			orientation: source.make_orientation(),
+			// Nothing's attached yet, so don't keep any offset that came from copying another entity.
+			orientation: Orientation::new(&source.position, &source.rotation, &Vec3::zeros()),
 
 			own_mass: source.own_mass,
 			total_mass: source.own_mass,
-- 
2.43.0


From 967e6f94e1539e6a3e92f813a85075633a2638b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:44 +0000
Subject: [PATCH 28/32] fix: what sleeps against a body stays asleep when the
 body gains or loses a collider

---
 src/physics_system.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/physics_system.rs b/src/physics_system.rs
index 1786217..baaeb4b 100644
--- a/src/physics_system.rs
+++ b/src/physics_system.rs
@@ -93,9 +93,7 @@ impl PhysicsSystem {
 	/// Returns if anything changed (i.e. if the entity existed and was removed).
 	pub fn remove_entity(&mut self, handle : EntityHandle) -> bool {
 		// Wake up everything that's asleep against it, so nothing is left referring to it (or stays asleep on top of nothing).
-		if self.entities.borrow().contains(handle) {
-			InternalEntity::wake_up(handle, &mut self.entities.borrow_mut(), &mut self.debug);
-		}
+		self.wake_up_entity(handle);
 		let removed = self.entities.borrow_mut().remove(handle);
 		if let Some(entity) = removed {
 			// Also remove all associated colliders.
@@ -184,6 +182,7 @@ impl PhysicsSystem {
 		if let Some(mut remainder) = removed {
 			// Force the associated entity to update (if there is one).
 			if let Some(entity_handle) = remainder.get_entity() {
+				self.wake_up_entity(entity_handle);
 				if let Some(entity) = self.entities.borrow_mut().get_mut(entity_handle) {
 					entity.colliders.remove(&handle);
 					entity.recalculate_mass(&*self.colliders.borrow());
@@ -307,6 +306,8 @@ impl PhysicsSystem {
 		// Finally try to get the old entity and remove this collider from it.
 		// Only do this if the entity changed.
 		if prior_entity_handle_option != entity_handle {
+			if let Some(handle) = entity_handle { self.wake_up_entity(handle); }
+			if let Some(handle) = prior_entity_handle_option { self.wake_up_entity(handle); }
 			if let Some(prior_entity_handle) = prior_entity_handle_option {
 				if let Some(prior_entity) = self.entities.borrow_mut().get_mut(prior_entity_handle) {
 					prior_entity.colliders.borrow_mut().remove(&collider_handle);
@@ -319,6 +320,16 @@ impl PhysicsSystem {
 		Ok(())
 	}
 
+	/// Wakes up an entity (if it exists) and everything that's asleep against it.
+	///
+	/// This must be done whenever an entity gains or loses a collider, so nothing stays asleep on top of what's gone.
+	fn wake_up_entity(&mut self, handle : EntityHandle) {
+		let mut entities = self.entities.borrow_mut();
+		if entities.contains(handle) {
+			InternalEntity::wake_up(handle, &mut entities, &mut self.debug);
+		}
+	}
+
 	/// Adds a UnaryForceGenerator to the system.
 	pub fn add_unary_force_generator(&mut self, generator : Box<dyn UnaryForceGenerator>) -> Result<UnaryForceGeneratorHandle, ()> {
 		Ok(self.unary_force_generators.borrow_mut().insert(generator))
-- 
2.43.0


From e7aa952fa4e49fc55ca19c729dcd3c55d3204bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:39 +0000
Subject: [PATCH 29/32] fix: the corners of small meshes hit faces they don't
 reach (or go through them)

---
 src/collision.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index bd713e4..62f065c 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -385,7 +385,8 @@ pub fn collide_sphere_with_polygon_surface(radius1: f32, center1: &Vec3, movemen
 			let sign = (hit_position - first).cross(&(second - first)).dot(&normal);
 			// A zero 'sign' means that hit_position is basically on the line from first to second, which counts.
 			// So move on immediately.
-			if sign.abs() < EPSILON {
+			// (Compare with the length of the line, so it's how far hit_position is off of it that counts, no matter how small the polygon is.)
+			if sign.abs() < EPSILON * (second - first).magnitude() {
 				continue;
 			}
 			// At this point defintiely have a sign, so compare it.
@@ -549,9 +550,13 @@ fn get_polygon_normal(points : &Vec<Vec3>) -> Option<Vec3> {
 		let mut next_index = index + 1;
 		if next_index >= points.len() { next_index -= points.len(); }
 		let prev_index = if 0 < index { index - 1 } else { points.len()-1 };
-		let normal = (points[prev_index] - points[index]).cross(&(points[next_index] - points[index]));
+		let to_prev = points[prev_index] - points[index];
+		let to_next = points[next_index] - points[index];
+		let normal = to_prev.cross(&to_next);
 		let length = normal.magnitude();
-		if length.is_finite() && EPSILON < length {
+		// Compare with the lengths of the sides, so that it's the angle between them that counts (no matter how small the polygon is).
+		let sides = to_prev.magnitude() * to_next.magnitude();
+		if length.is_finite() && EPSILON * sides < length && EPSILON * EPSILON < sides {
 			return Some(normal / length);
 		}
 	}
@@ -635,8 +640,10 @@ fn collide_point_with_polygon(point_start : &Vec3, point_end : &Vec3, polygon :
 			if distance.magnitude() < EPSILON {
 				break;
 			}
-			let cross = (polygon[next_index] - polygon[index]).cross(&distance).dot(&plane_normal);
-			if cross.abs() < EPSILON { continue; }
+			let edge = polygon[next_index] - polygon[index];
+			let cross = edge.cross(&distance).dot(&plane_normal);
+			// Compare with the length of the edge, so it's how far the point is off of the edge that counts (no matter how small the polygon is).
+			if !(cross.abs() >= EPSILON * edge.magnitude()) { continue; }
 			let sign = cross.signum();
 			if 0.0 != expected_sign && expected_sign != sign {
 				is_inside = false;
-- 
2.43.0


From fbe6e23250aa93731c70888ae21bcecdf21a0ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:41 +0000
Subject: [PATCH 30/32] fix: a flat mesh landing flat on a face far from the
 origin (or moving fast) isn't missed

---
 src/collision.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collision.rs b/src/collision.rs
index 62f065c..f09b270 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -714,12 +714,12 @@ fn collide_mesh_points_with_mesh_faces(output : &mut EarliestCollisionAccumulato
 		// Do this once at the end because it's kinda expensive.
 		let mut negate : usize = 0;
 		let mut keep : usize = 0;
-		let tolerance = EPSILON * (1.0 + collision.position.magnitude());
 		for points_info in mesh1_points {
 			let time = collision.times.min();
 			let point = points_info.start * (1.0 - time) + points_info.end * time;
 			let sign = (point - collision.position).dot(&collision.normal);
 			// Points that are on the face (up to rounding) don't say anything about the side.
+			let tolerance = EPSILON * (1.0 + points_info.start.magnitude() + points_info.end.magnitude());
 			if -tolerance > sign {
 				negate += 1;
 			} else if tolerance < sign {
-- 
2.43.0


From 47a89e1e6c9de05314452433438718c6c86c0ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:41 +0000
Subject: [PATCH 31/32] fix: where an entity happens to be doesn't disturb
 where its center of mass is (nor turn point masses into spinning tops)

---
 src/entity.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index ed540d7..f2db82e 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -151,7 +151,7 @@ impl InternalEntity {
 				break;
 			}
 			total_other_mass += collider_mass;
-			center_of_mass += self.orientation.position_into_world(&collider.get_local_center_of_mass()).scale(collider_mass);
+			center_of_mass += collider.get_local_center_of_mass().scale(collider_mass);
 		}
 		if found_infinite { self.total_mass = INFINITY; }
 		if 0.0 < total_other_mass && !found_infinite {
@@ -160,10 +160,11 @@ impl InternalEntity {
 			//
 			// Note that this entity's center of mass decides where it's own_mass is distributed. And that the center of mass calculation doesn't affix that mass to any point.
 			// SO the own_mass practically just teleports to where ever the center of mass moves to.
+			// Do this in local space, so that where the entity happens to be can't disturb how its mass is distributed.
 			center_of_mass /= total_other_mass;
-			let center_of_mass_movement = center_of_mass - self.orientation.position; // How much the center of mass moves in world space.
-			self.orientation.internal_origin_offset -= self.orientation.direction_into_local(&center_of_mass_movement); // Keep the origin of the local space at the same position as the position of the local space moves.
-			self.orientation.position += center_of_mass_movement; // Then move the center-of-mass accordingly.
+			let local_center_of_mass_movement = center_of_mass + self.orientation.internal_origin_offset; // How much the center of mass moves in local space.
+			self.orientation.internal_origin_offset = -center_of_mass; // Keep the origin of the local space at the same position as the position of the local space moves.
+			self.orientation.position += self.orientation.direction_into_world(&local_center_of_mass_movement); // Then move the center-of-mass accordingly.
 		} else {
 			// If there are no colliders then move the center-of-mass to the origin of the local space.
 			let local_center_of_mass_movement = self.orientation.internal_origin_offset;
@@ -205,7 +206,8 @@ impl InternalEntity {
 		// Work relative to the size of the tensor so the determinant doesn't underflow (nor overflow).
 		let scale = moment.magnitude();
 		if !scale.is_finite() || 0.0 >= scale { return Mat3::zeros(); }
-		if scale < self.total_mass * MIN_GYRATION_RADIUS * MIN_GYRATION_RADIUS { return Mat3::zeros(); }
+		let min_radius = MIN_GYRATION_RADIUS * (1.0 + self.orientation.internal_origin_offset.magnitude());
+		if scale < self.total_mass * min_radius * min_radius { return Mat3::zeros(); }
 		let scaled_moment = moment / scale;
 		if let Some(inverse) = scaled_moment.try_inverse() {
 			// The magnitude of the inverse is also how much it'll amplify rounding errors.
-- 
2.43.0


From f36472033172090ec61d373347ac67dea047ad12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:30 +0000
Subject: [PATCH 32/32] fix: entities with an infinite mass of their own don't
 start to spin when they're hit

---
 src/entity.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/entity.rs b/src/entity.rs
index f2db82e..7e47ce4 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -202,6 +202,8 @@ impl InternalEntity {
 	///
 	/// Any axis that has (practically) no moment of inertia about it will have a zero inverse, so nothing can make it spin about that.
 	pub fn get_inverse_moment_of_inertia(&self) -> Mat3 {
+		// Nothing can make something infinitely heavy spin (even if the mass doesn't come from its colliders).
+		if self.total_mass.is_infinite() { return Mat3::zeros(); }
 		let moment = self.get_moment_of_inertia();
 		// Work relative to the size of the tensor so the determinant doesn't underflow (nor overflow).
 		let scale = moment.magnitude();
-- 
2.43.0

