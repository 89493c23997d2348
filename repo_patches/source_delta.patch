From 5b0ea75958368c7332563dc61c16ae40810d4892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:28 +0000
Subject: [PATCH 01/17] fix: update_velocities does not hold the joint guard
 while it locks the node again

---
 src/chain.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/chain.rs b/src/chain.rs
index 31f1d70..bcc2aca 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -399,7 +399,8 @@ impl<T: RealField + SubsetOf<f64>> Chain<T> {
                 let parent_velocity = node
                     .parent_world_velocity()
                     .expect("velocity cache must exist");
-                let velocity = match node.joint().joint_type {
+                let joint_type = node.joint().joint_type;
+                let velocity = match joint_type {
                     JointType::Fixed => parent_velocity,
                     JointType::Rotational { axis } => {
                         let parent = node.parent().expect("parent must exist");
-- 
2.43.0


From 3b3858d116eee9042d4b1d27ee6673e200888d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:48 +0000
Subject: [PATCH 02/17] fix: update_velocities carries the parent's rotation to
 every child and accepts a movable root

---
 src/chain.rs | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index bcc2aca..a16e888 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -400,34 +400,34 @@ impl<T: RealField + SubsetOf<f64>> Chain<T> {
                     .parent_world_velocity()
                     .expect("velocity cache must exist");
                 let joint_type = node.joint().joint_type;
+                let offset = node
+                    .world_transform()
+                    .expect("cache must exist")
+                    .translation
+                    .vector
+                    - parent_transform.translation.vector;
+                let translation =
+                    parent_velocity.translation + parent_velocity.rotation.cross(&offset);
                 let velocity = match joint_type {
-                    JointType::Fixed => parent_velocity,
-                    JointType::Rotational { axis } => {
-                        let parent = node.parent().expect("parent must exist");
-                        let parent_vel = parent.joint().origin().translation.vector;
-                        Velocity::from_parts(
-                            parent_velocity.translation
-                                + parent_velocity.rotation.cross(
-                                    &(parent_transform.rotation.to_rotation_matrix() * parent_vel),
-                                ),
-                            parent_velocity.rotation
-                                + node
-                                    .world_transform()
-                                    .expect("cache must exist")
-                                    .rotation
-                                    .to_rotation_matrix()
-                                    * (axis.into_inner() * node.joint().joint_velocity().unwrap()),
-                        )
-                    }
+                    JointType::Fixed => Velocity::from_parts(translation, parent_velocity.rotation),
+                    JointType::Rotational { axis } => Velocity::from_parts(
+                        translation,
+                        parent_velocity.rotation
+                            + node
+                                .world_transform()
+                                .expect("cache must exist")
+                                .rotation
+                                .to_rotation_matrix()
+                                * (axis.into_inner() * node.joint().joint_velocity().unwrap()),
+                    ),
                     JointType::Linear { axis } => Velocity::from_parts(
-                        parent_velocity.translation
+                        translation
                             + node
                                 .world_transform()
                                 .expect("cache must exist")
                                 .rotation
                                 .to_rotation_matrix()
                                 * (axis.into_inner() * node.joint().joint_velocity().unwrap()),
-                        // TODO: Is this true??
                         parent_velocity.rotation,
                     ),
                 };
-- 
2.43.0


From 349b966424e9cae20c8df0e2b5633349a3086eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:48 +0000
Subject: [PATCH 03/17] fix: set_origin clears the cached world velocity

---
 src/joint/joint.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/joint/joint.rs b/src/joint/joint.rs
index ba6d487..b300605 100644
--- a/src/joint/joint.rs
+++ b/src/joint/joint.rs
@@ -181,6 +181,7 @@ where
     pub fn set_origin(&mut self, origin: Isometry3<T>) {
         self.origin = origin;
         self.world_transform_cache.replace(None);
+        self.world_velocity_cache.replace(None);
     }
 
     pub fn set_joint_velocity(&mut self, velocity: T) -> Result<(), Error> {
-- 
2.43.0


From d241713691c9edb45f0b223faa7ebf020f1c19b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:48 +0000
Subject: [PATCH 04/17] fix: update_link_transforms places link elements by the
 node that carries the link

---
 src/chain.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index a16e888..74a9b65 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -441,17 +441,17 @@ impl<T: RealField + SubsetOf<f64>> Chain<T> {
     pub fn update_link_transforms(&self) {
         self.update_transforms();
         self.iter().for_each(|node| {
-            let parent_transform = node.parent_world_transform().expect("cache must exist");
+            let node_transform = node.world_transform().expect("cache must exist");
             let mut node_mut = node.lock();
             if let Some(ref mut link) = node_mut.link {
-                let inertial_trans = parent_transform * link.inertial.origin();
+                let inertial_trans = node_transform * link.inertial.origin();
                 link.inertial.set_world_transform(inertial_trans);
                 for c in &mut link.collisions {
-                    let c_trans = parent_transform * c.origin();
+                    let c_trans = node_transform * c.origin();
                     c.set_world_transform(c_trans);
                 }
                 for v in &mut link.visuals {
-                    let v_trans = parent_transform * v.origin();
+                    let v_trans = node_transform * v.origin();
                     v.set_world_transform(v_trans);
                 }
             }
-- 
2.43.0


From b2acb513d202ef8a597a34fa4c68cbcc4ebb70c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:48 +0000
Subject: [PATCH 05/17] fix: a cloned chain keeps the order of its nodes

---
 src/chain.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index 74a9b65..d67d2ef 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -474,7 +474,7 @@ where
         }
         assert!(self.nodes[0].is_root());
         // Clone everything
-        let mut new_nodes = self
+        let new_nodes = self
             .nodes
             .iter()
             .map(|n| {
@@ -501,7 +501,7 @@ where
         //
         // first node must be root
         assert!(new_nodes[0].is_root());
-        Chain::from_root(new_nodes.remove(0))
+        Chain::from_nodes(new_nodes)
     }
 }
 
-- 
2.43.0


From 5d386cff3c7923ee883684b0b26f0edb3ea2cf5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:04 +0000
Subject: [PATCH 06/17] fix: cloning a chain with a mimic parent outside of it
 does not panic

---
 src/chain.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index d67d2ef..c8921d7 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -491,11 +491,12 @@ where
                 new_nodes[i].set_parent(&new_nodes[parent_index]);
             }
             if let Some(m) = self.nodes[i].mimic_parent() {
-                let parent_index = self.nodes.iter().position(|x| *x == m).unwrap();
-                new_nodes[i].set_mimic_parent(
-                    &new_nodes[parent_index],
-                    self.nodes[i].lock().mimic.clone().unwrap(),
-                );
+                if let Some(parent_index) = self.nodes.iter().position(|x| *x == m) {
+                    new_nodes[i].set_mimic_parent(
+                        &new_nodes[parent_index],
+                        self.nodes[i].lock().mimic.clone().unwrap(),
+                    );
+                }
             }
         }
         //
-- 
2.43.0


From 6d427836ee73fd19e0613ae94c8f0aff36bbb5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:05 +0000
Subject: [PATCH 07/17] fix: ignored joints stay where they are when the
 remaining joints are not redundant

---
 src/ik.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/ik.rs b/src/ik.rs
index d658dc5..9e61af0 100644
--- a/src/ik.rs
+++ b/src/ik.rs
@@ -271,14 +271,11 @@ where
             }
         } else {
             // normal inverse matrix
-            self.add_positions_with_multiplier(
-                &orig_positions,
-                jacobi
-                    .lu()
-                    .solve(&err)
-                    .ok_or(Error::InverseMatrixError)?
-                    .as_slice(),
-            )
+            let mut d_q = jacobi.lu().solve(&err).ok_or(Error::InverseMatrixError)?;
+            for joint_index in ignored_joint_indices {
+                d_q = d_q.insert_row(*joint_index, T::zero());
+            }
+            self.add_positions_with_multiplier(&orig_positions, d_q.as_slice())
         };
         arm.set_joint_positions_clamped(&positions_vec);
         Ok(calc_pose_diff_with_constraints(
-- 
2.43.0


From a6575a3fc22958b263a18ff00607b086e22b9c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:06 +0000
Subject: [PATCH 08/17] fix: repeated or too many ignored joint names do not
 make the solver panic

---
 src/ik.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/ik.rs b/src/ik.rs
index 9e61af0..7dc1941 100644
--- a/src/ik.rs
+++ b/src/ik.rs
@@ -294,13 +294,6 @@ where
         let operational_space = define_operational_space(constraints);
         let required_dof = operational_space.iter().filter(|x| **x).count();
         let orig_positions = arm.joint_positions();
-        let available_dof = arm.dof() - constraints.ignored_joint_names.len();
-        if available_dof < required_dof {
-            return Err(Error::PreconditionError {
-                dof: available_dof,
-                necessary_dof: required_dof,
-            });
-        }
         let mut ignored_joint_indices = Vec::new();
         for joint_name in &constraints.ignored_joint_names {
             // Try to get joint index
@@ -316,6 +309,14 @@ where
             }
         }
         ignored_joint_indices.sort_unstable();
+        ignored_joint_indices.dedup();
+        let available_dof = arm.dof() - ignored_joint_indices.len();
+        if available_dof < required_dof {
+            return Err(Error::PreconditionError {
+                dof: available_dof,
+                necessary_dof: required_dof,
+            });
+        }
         let mut last_target_distance = None;
         for _ in 0..self.num_max_try {
             let target_diff = self.solve_one_loop_with_constraints(
-- 
2.43.0


From 95182cdbd825c413b5ee8a61bdd34529c3f6696f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:06 +0000
Subject: [PATCH 09/17] fix: zero permitted iterations do not make the solver
 panic

---
 src/ik.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/ik.rs b/src/ik.rs
index 7dc1941..daddb11 100644
--- a/src/ik.rs
+++ b/src/ik.rs
@@ -336,10 +336,18 @@ where
             last_target_distance = Some((len_diff, rot_diff));
         }
         arm.set_joint_positions(&orig_positions)?;
+        let (len_diff, rot_diff) = last_target_distance.unwrap_or_else(|| {
+            let target_diff = calc_pose_diff_with_constraints(
+                target_pose,
+                &arm.end_transform(),
+                operational_space,
+            );
+            target_diff_to_len_rot_diff(&target_diff, operational_space)
+        });
         Err(Error::NotConvergedError {
             num_tried: self.num_max_try,
-            position_diff: na::try_convert(last_target_distance.unwrap().0).unwrap_or_default(),
-            rotation_diff: na::try_convert(last_target_distance.unwrap().1).unwrap_or_default(),
+            position_diff: na::try_convert(len_diff).unwrap_or_default(),
+            rotation_diff: na::try_convert(rot_diff).unwrap_or_default(),
         })
     }
 }
-- 
2.43.0


From ce20583745feab721e8df395a7e2c20271fdfb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:06 +0000
Subject: [PATCH 10/17] fix: a failed solve restores joints that stood outside
 their limits or mimic another joint

---
 src/ik.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ik.rs b/src/ik.rs
index daddb11..0659992 100644
--- a/src/ik.rs
+++ b/src/ik.rs
@@ -335,7 +335,7 @@ where
             }
             last_target_distance = Some((len_diff, rot_diff));
         }
-        arm.set_joint_positions(&orig_positions)?;
+        arm.set_joint_positions_unchecked(&orig_positions);
         let (len_diff, rot_diff) = last_target_distance.unwrap_or_else(|| {
             let target_diff = calc_pose_diff_with_constraints(
                 target_pose,
@@ -469,7 +469,7 @@ where
         let orig_positions = arm.joint_positions();
         let re = self.solve_with_constraints_internal(arm, target_pose, constraints);
         if re.is_err() {
-            arm.set_joint_positions(&orig_positions)?;
+            arm.set_joint_positions_unchecked(&orig_positions);
         };
         re
     }
-- 
2.43.0


From 7aa3d4f43883b5b6efe13df6ed019955467e9e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:08 +0000
Subject: [PATCH 11/17] fix: a request without constrained coordinates does not
 make the solver panic

---
 src/ik.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ik.rs b/src/ik.rs
index 0659992..76bec90 100644
--- a/src/ik.rs
+++ b/src/ik.rs
@@ -223,6 +223,12 @@ where
         let orig_positions = arm.joint_positions();
         let available_dof = arm.dof() - ignored_joint_indices.len();
 
+        if required_dof == 0 {
+            // nothing to reach
+            arm.set_joint_positions_clamped(&orig_positions);
+            return Ok(DVector::from_element(0, na::zero()));
+        }
+
         let t_n = arm.end_transform();
         let err = calc_pose_diff_with_constraints(target_pose, &t_n, *operational_space);
         let mut jacobi = jacobian(arm);
-- 
2.43.0


From b42285668f3bf83891deacfa23bb6eb775111c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:29 +0000
Subject: [PATCH 12/17] fix: joint_to_link_map sends the root joint to a link
 that is no joint's child

---
 src/urdf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/urdf.rs b/src/urdf.rs
index ff3a32d..552748d 100644
--- a/src/urdf.rs
+++ b/src/urdf.rs
@@ -375,7 +375,7 @@ pub fn joint_to_link_map(urdf_robot: &urdf_rs::Robot) -> HashMap<String, String>
         map.insert(j.name.to_owned(), j.child.link.to_owned());
     }
     for l in &urdf_robot.links {
-        if map.get(&l.name).is_none() {
+        if !urdf_robot.joints.iter().any(|j| j.child.link == l.name) {
             map.insert(ROOT_JOINT_NAME.to_owned(), l.name.to_owned());
         }
     }
-- 
2.43.0


From 9cba6b9ada188e6793d7621a30099ed936d6de8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:44 +0000
Subject: [PATCH 13/17] fix: a node whose parent is gone is a root

---
 src/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/node.rs b/src/node.rs
index b2b62c2..0cb22e0 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -127,7 +127,7 @@ where
     /// assert!(!l1.is_root());
     /// ```
     pub fn is_root(&self) -> bool {
-        self.lock().parent.is_none()
+        self.parent().is_none()
     }
 
     /// # Examples
-- 
2.43.0


From 29b3fe16cc74bec183981a95ad19d66607f73960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:48 +0000
Subject: [PATCH 14/17] fix: give a mimicking joint its parent and its rule in
 one step

Between the two locks another thread setting the parent found a listed
follower without a rule, and locked the parent again while holding it.
---
 src/node.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/node.rs b/src/node.rs
index 0cb22e0..c1a86a8 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -317,9 +317,12 @@ where
     }
 
     pub fn set_mimic_parent(&self, parent: &Node<T>, mimic: Mimic<T>) {
-        self.lock().mimic_parent = Some(Arc::downgrade(&parent.0));
+        {
+            let mut node = self.lock();
+            node.mimic_parent = Some(Arc::downgrade(&parent.0));
+            node.mimic = Some(mimic);
+        }
         parent.lock().mimic_children.push(self.clone());
-        self.lock().mimic = Some(mimic);
     }
 
     pub fn set_link(&self, link: Option<Link<T>>) {
-- 
2.43.0


From a9041a668a20a098c3505217399f7cdce9cdb6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:48 +0000
Subject: [PATCH 15/17] fix: report a follower without a rule without locking
 again

The joint and the follower are already held here, so that locking them
again for their names never returned.
---
 src/node.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/node.rs b/src/node.rs
index c1a86a8..ba43a21 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -214,8 +214,8 @@ where
                     .joint
                     .set_joint_position(m.mimic_position(position))?,
                 None => {
-                    let from = self.joint().name.to_owned();
-                    let to = child.joint().name.to_owned();
+                    let from = node.joint.name.to_owned();
+                    let to = child_node.joint.name.to_owned();
                     return Err(Error::MimicError { from, to });
                 }
             };
-- 
2.43.0


From 7965e73c0f8316f476dd6311e2543a91cf602fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:48 +0000
Subject: [PATCH 16/17] fix: do not hold a node while its children are printed

Printing held a node while it locked the ones below; setting a joint holds
it while it locks its followers. When a joint follows one of its ancestors'
or descendants' joints, two threads could wait for each other.
---
 src/chain.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/chain.rs b/src/chain.rs
index c8921d7..23ef24d 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -98,7 +98,8 @@ impl<T: RealField + SubsetOf<f64>> Chain<T> {
         if self.nodes.iter().any(|joint| joint == node) {
             writeln!(f, "{}{}", "    ".repeat(level), node)?;
         }
-        for c in node.children().iter() {
+        let children = node.children().clone();
+        for c in &children {
             self.fmt_with_indent_level(c, level + 1, f)?
         }
         Ok(())
-- 
2.43.0


From 68b622e08c855ba1d75837d4b643ebe5d3f08464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:57 +0000
Subject: [PATCH 17/17] fix: check for a link and hand it out under one lock

The link could be removed by another thread in between, so that reading
the guard panicked.
---
 src/chain.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index 23ef24d..e8dfb24 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -279,8 +279,9 @@ impl<T: RealField + SubsetOf<f64>> Chain<T> {
     /// Iterate for links
     pub fn iter_links(&self) -> impl Iterator<Item = LinkRefGuard<'_, T>> {
         self.nodes.iter().filter_map(|node| {
-            if node.link().is_some() {
-                Some(LinkRefGuard { guard: node.lock() })
+            let guard = node.lock();
+            if guard.link.is_some() {
+                Some(LinkRefGuard { guard })
             } else {
                 None
             }
-- 
2.43.0

