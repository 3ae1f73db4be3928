From c1fa44c2607dacd84c494670a8cc31fc3c5845cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:04 +0000
Subject: [PATCH 01/55] fix: beekem: concurrent removes of one member, or of
 each other, no longer wedge a CGKA

apply_operation failed with IdentifierNotFound or RemoveLastMember when a
concurrent remove had already been applied, so every later replay failed.
---
 beekem/src/cgka.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/beekem/src/cgka.rs b/beekem/src/cgka.rs
index 56ef512..88118b1 100644
--- a/beekem/src/cgka.rs
+++ b/beekem/src/cgka.rs
@@ -422,8 +422,13 @@ impl Cgka {
             CgkaOperation::Add { added_id, pk, .. } => {
                 self.tree.push_leaf(added_id, pk.into());
             }
+            // A concurrent remove may already have removed this id, and concurrent
+            // removes of each other by the last members must leave one of them.
+            // Both cases are decided by the (deterministic) order of application.
             CgkaOperation::Remove { id, .. } => {
-                self.tree.remove_id(id)?;
+                if self.tree.contains_id(&id) && self.tree.member_count() > 1 {
+                    self.tree.remove_id(id)?;
+                }
             }
             CgkaOperation::Update { ref new_path, .. } => {
                 self.tree.apply_path(new_path);
-- 
2.43.0


From a66a8d5a24f374ab77e3ed5aa84d7be83c7fc8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:04 +0000
Subject: [PATCH 02/55] fix: beekem: a concurrent add reusing a removed leaf is
 no longer lost

After merging a concurrent remove and add, sort_leaves_and_blank_paths asserted
that the removed leaf index is empty and blanked it. An add replayed after the
remove may have reused that leaf: the member was lost (or debug builds panicked),
and peers disagreed about the tree.
---
 beekem/src/cgka.rs |  4 ++++
 beekem/src/tree.rs | 14 +++++++++-----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/beekem/src/cgka.rs b/beekem/src/cgka.rs
index 88118b1..9f47481 100644
--- a/beekem/src/cgka.rs
+++ b/beekem/src/cgka.rs
@@ -469,6 +469,10 @@ impl Cgka {
                         }
                         CgkaOperation::Remove { id, leaf_idx, .. } => {
                             removed_ids.insert((id, leaf_idx));
+                            // The leaf may be elsewhere than in the remover's tree.
+                            if let Ok(idx) = self.tree.leaf_index_for_id(id) {
+                                removed_ids.insert((id, idx.u32()));
+                            }
                         }
                         _ => {}
                     }
diff --git a/beekem/src/tree.rs b/beekem/src/tree.rs
index f5c71f5..41eea6f 100644
--- a/beekem/src/tree.rs
+++ b/beekem/src/tree.rs
@@ -112,13 +112,17 @@ impl BeeKem {
     ) {
         let mut leaves_to_sort = Vec::new();
         for (id, idx) in removed_ids {
-            added_ids.remove(&id);
-            let leaf_idx = LeafNodeIndex::new(idx);
-            debug_assert!(self.leaf(leaf_idx).is_none());
+            if !self.contains_id(&id) {
+                added_ids.remove(&id);
+            }
+            if idx >= self.tree_size.leaf_count() {
+                continue;
+            }
             // We should have already removed this id during merge, but concurrent
             // updates at other leaves with intersecting paths must be overridden by
-            // this remove.
-            self.blank_leaf_and_path(leaf_idx);
+            // this remove. The leaf itself may since have been reused by a
+            // concurrent add.
+            self.blank_path(treemath::parent(LeafNodeIndex::new(idx).into()));
         }
         while !added_ids.is_empty() && self.next_leaf_idx.u32() > 0 {
             let leaf_idx = self.next_leaf_idx - 1;
-- 
2.43.0


From e6e946546fcb4b7817d603289a57cf5df6a9d228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:04 +0000
Subject: [PATCH 03/55] fix: beekem: check a path's indices before applying it

is_valid_path compared only the length for the path's claimed leaf index, which
overflows a shift or indexes out of bounds when that index is not in the tree.
---
 beekem/src/tree.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/beekem/src/tree.rs b/beekem/src/tree.rs
index 41eea6f..1fb6579 100644
--- a/beekem/src/tree.rs
+++ b/beekem/src/tree.rs
@@ -575,8 +575,11 @@ impl BeeKem {
         let leaf_idx = self
             .leaf_index_for_id(new_path.leaf_id)
             .expect("Id should be present");
-        new_path.path.len() == self.path_length_for(LeafNodeIndex::new(new_path.leaf_idx))
-            && leaf_idx.u32() == new_path.leaf_idx
+        leaf_idx.u32() == new_path.leaf_idx
+            && treemath::direct_path((*leaf_idx).into(), self.tree_size)
+                .iter()
+                .map(|idx| idx.u32())
+                .eq(new_path.path.iter().map(|(idx, _)| *idx))
     }
 
     /// Growing the tree will add a new root and a new subtree, all blank.
@@ -599,10 +602,6 @@ impl BeeKem {
         idx == treemath::root(self.tree_size)
     }
 
-    fn path_length_for(&self, idx: LeafNodeIndex) -> usize {
-        treemath::direct_path(idx.into(), self.tree_size).len()
-    }
-
     /// Highest non-blank, non-conflict descendants of a node
     fn append_resolution(&self, idx: TreeNodeIndex, acc: &mut Vec<TreeNodeIndex>) {
         if self.should_skip_for_resolution(idx) {
-- 
2.43.0


From e933f6ce988f468cc0a28eba4583b7943dbcce76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:04 +0000
Subject: [PATCH 04/55] fix: beekem: replay merged operations before deciding
 that an add or remove is a no-op

A pending merge left the tree stale, so the membership test was made on a tree
that a replay is about to change, and remove failed with IdentifierNotFound.
---
 beekem/src/cgka.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/beekem/src/cgka.rs b/beekem/src/cgka.rs
index 9f47481..b44d84e 100644
--- a/beekem/src/cgka.rs
+++ b/beekem/src/cgka.rs
@@ -242,12 +242,12 @@ impl Cgka {
         pk: ShareKey,
         signer: &S,
     ) -> Result<Option<Signed<CgkaOperation>>, CgkaError> {
-        if self.tree.contains_id(&id) {
-            return Ok(None);
-        }
         if self.should_replay() {
             self.replay_ops_graph()?;
         }
+        if self.tree.contains_id(&id) {
+            return Ok(None);
+        }
         let leaf_index = self.tree.push_leaf(id, pk.into());
         let predecessors = Vec::from_iter(self.ops_graph.cgka_op_heads.iter().cloned());
         let add_predecessors = Vec::from_iter(self.ops_graph.add_heads.iter().cloned());
@@ -285,12 +285,12 @@ impl Cgka {
         id: MemberId,
         signer: &S,
     ) -> Result<Option<Signed<CgkaOperation>>, CgkaError> {
-        if !self.tree.contains_id(&id) {
-            return Ok(None);
-        }
         if self.should_replay() {
             self.replay_ops_graph()?;
         }
+        if !self.tree.contains_id(&id) {
+            return Ok(None);
+        }
         if self.group_size() == 1 {
             return Err(CgkaError::RemoveLastMember);
         }
-- 
2.43.0


From 5c5f68d1b1ab8a907236fea61dfa46c99bf5bb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:37 +0000
Subject: [PATCH 05/55] fix: beekem: merging a fork keeps only real heads, and
 does not need the owner to be a member

---
 beekem/src/cgka.rs      |  7 +++++--
 beekem/src/operation.rs | 16 ++++++++++++++++
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/beekem/src/cgka.rs b/beekem/src/cgka.rs
index b44d84e..7fb8031 100644
--- a/beekem/src/cgka.rs
+++ b/beekem/src/cgka.rs
@@ -575,8 +575,11 @@ impl Cgka {
         .with_new_owner(self.owner_id, self.owner_sks.clone())?;
         rebuilt_cgka.apply_epochs(&epochs)?;
         if rebuilt_cgka.has_pcs_key() {
-            let pcs_key = rebuilt_cgka.pcs_key_from_tree_root()?;
-            rebuilt_cgka.insert_pcs_key(&pcs_key, Digest::hash(&epochs.last()[0]));
+            // A replica whose owner is not (or no longer) a member cannot read the
+            // root, but must still follow the group.
+            if let Ok(pcs_key) = rebuilt_cgka.pcs_key_from_tree_root() {
+                rebuilt_cgka.insert_pcs_key(&pcs_key, Digest::hash(&epochs.last()[0]));
+            }
         }
         Ok(rebuilt_cgka)
     }
diff --git a/beekem/src/operation.rs b/beekem/src/operation.rs
index 2648ba9..e51d973 100644
--- a/beekem/src/operation.rs
+++ b/beekem/src/operation.rs
@@ -163,6 +163,22 @@ impl Merge for CgkaOperationGraph {
             .extend(fork.cgka_ops_predecessors);
         self.cgka_op_heads.extend(fork.cgka_op_heads);
         self.add_heads.extend(fork.add_heads);
+        // A head of one side may be an ancestor on the other.
+        for preds in self.cgka_ops_predecessors.values() {
+            for h in preds {
+                self.cgka_op_heads.remove(h);
+            }
+        }
+        for op in self.cgka_ops.values() {
+            if let CgkaOperation::Add {
+                add_predecessors, ..
+            } = &op.payload
+            {
+                for h in add_predecessors {
+                    self.add_heads.remove(h);
+                }
+            }
+        }
     }
 }
 
-- 
2.43.0


From c3db27610f9b4e32ad13e1af4c66ffa8f56d135d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:37 +0000
Subject: [PATCH 06/55] fix: beekem: concurrent adds of one member occupy one
 leaf

---
 beekem/src/cgka.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/beekem/src/cgka.rs b/beekem/src/cgka.rs
index 7fb8031..6c16ac0 100644
--- a/beekem/src/cgka.rs
+++ b/beekem/src/cgka.rs
@@ -419,8 +419,11 @@ impl Cgka {
             return Ok(());
         }
         match op.payload {
+            // A concurrent add may already have added this id.
             CgkaOperation::Add { added_id, pk, .. } => {
-                self.tree.push_leaf(added_id, pk.into());
+                if !self.tree.contains_id(&added_id) {
+                    self.tree.push_leaf(added_id, pk.into());
+                }
             }
             // A concurrent remove may already have removed this id, and concurrent
             // removes of each other by the last members must leave one of them.
-- 
2.43.0


From 3ba7864a656f565f402c3fee6c877e8a70d6f1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:37 +0000
Subject: [PATCH 07/55] fix: beekem: encrypt a path next to a leaf with
 conflicting keys instead of panicking

---
 beekem/src/tree.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/beekem/src/tree.rs b/beekem/src/tree.rs
index 1fb6579..db26159 100644
--- a/beekem/src/tree.rs
+++ b/beekem/src/tree.rs
@@ -463,7 +463,10 @@ impl BeeKem {
             for idx in sibling_resolution {
                 let next_pk = match self.node_key_for_index(idx)? {
                     NodeKey::ShareKey(share_key) => share_key,
-                    _ => panic!("Sibling resolution nodes should have exactly one ShareKey"),
+                    // A leaf that was concurrently added or rotated can hold several
+                    // keys until it is next rotated. Its member has the secret for
+                    // each of them, so any one will do.
+                    NodeKey::ConflictKeys(keys) => keys.first,
                 };
                 let encrypted_sk = crate::encrypted::encrypt_secret(
                     self.doc_id.as_bytes(),
-- 
2.43.0


From 390763495f794e8db198f4bde18c7c8a1d5f8b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:37 +0000
Subject: [PATCH 08/55] fix: beekem: blank the path of a leaf whose concurrent
 update no longer fits the tree

---
 beekem/src/cgka.rs | 11 ++++++++++-
 beekem/src/tree.rs | 14 ++++++++++++++
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/beekem/src/cgka.rs b/beekem/src/cgka.rs
index 6c16ac0..7e6e6c5 100644
--- a/beekem/src/cgka.rs
+++ b/beekem/src/cgka.rs
@@ -465,6 +465,7 @@ impl Cgka {
                 // removed paths and sorting added leaves after all ops are applied.
                 let mut added_ids = Set::new();
                 let mut removed_ids = Set::new();
+                let mut stale_path_ids = Set::new();
                 for op in epoch.iter() {
                     match op.payload {
                         CgkaOperation::Add { added_id, .. } => {
@@ -477,7 +478,11 @@ impl Cgka {
                                 removed_ids.insert((id, idx.u32()));
                             }
                         }
-                        _ => {}
+                        CgkaOperation::Update { ref new_path, .. } => {
+                            if !self.tree.accepts_path(new_path) {
+                                stale_path_ids.insert(new_path.leaf_id);
+                            }
+                        }
                     }
                     self.apply_operation(op.clone())?;
                 }
@@ -486,6 +491,10 @@ impl Cgka {
                         added_ids,
                         removed_ids,
                     );
+                // Nor could an update whose path no longer fitted the tree write
+                // its path, so nodes that a concurrent update wrote above that
+                // leaf are not encrypted for it.
+                self.tree.blank_paths_of(stale_path_ids);
             }
         }
         Ok(())
diff --git a/beekem/src/tree.rs b/beekem/src/tree.rs
index db26159..154c773 100644
--- a/beekem/src/tree.rs
+++ b/beekem/src/tree.rs
@@ -146,6 +146,20 @@ impl BeeKem {
         self.blank_path(treemath::parent(idx.into()));
     }
 
+    /// Whether applying this [`PathChange`] would write its whole path.
+    pub fn accepts_path(&self, new_path: &PathChange) -> bool {
+        self.contains_id(&new_path.leaf_id) && self.is_valid_path(new_path)
+    }
+
+    /// Blank the paths to the root of these members (but not their leaves).
+    pub fn blank_paths_of(&mut self, ids: Set<MemberId>) {
+        for id in ids {
+            if let Ok(idx) = self.leaf_index_for_id(id) {
+                self.blank_path(treemath::parent((*idx).into()));
+            }
+        }
+    }
+
     /// Add a new leaf to the first available [`LeafNodeIndex`] on the right and
     /// blank that leaf's path to the root.
     pub fn push_leaf(&mut self, id: MemberId, pk: NodeKey) -> u32 {
-- 
2.43.0


From f77f1ae9439632b7514d7e082cdcb61324e4f66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:34 +0000
Subject: [PATCH 09/55] fix: membership: a revocation needs authority from its
 own group that its issuer holds

---
 keyhive_core/src/principal/group.rs       |  2 +-
 keyhive_core/src/principal/group/state.rs | 46 +++++++++++++++++------
 2 files changed, 35 insertions(+), 13 deletions(-)

diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index 069d18c..c1b031c 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -661,7 +661,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                         if let Some(m) = dlg.payload.delegate.as_membered() {
                             let sub_members = m.transitive_members().await;
                             if let Some((_, sub_access)) = sub_members.get(&signer_id) {
-                                if *sub_access >= to_revoke.payload.can {
+                                if dlg.payload.can.min(*sub_access) >= to_revoke.payload.can {
                                     let r = self
                                         .build_revocation(
                                             signer,
diff --git a/keyhive_core/src/principal/group/state.rs b/keyhive_core/src/principal/group/state.rs
index bcd15cb..faf082c 100644
--- a/keyhive_core/src/principal/group/state.rs
+++ b/keyhive_core/src/principal/group/state.rs
@@ -151,6 +151,15 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             return Err(AddError::InvalidProofChain);
         }
 
+        if let Some(foreign) = delegation
+            .payload()
+            .after_revocations
+            .iter()
+            .find(|r| r.subject_id() != Identifier::from(self.id))
+        {
+            return Err(AddError::InvalidSubject(Box::new(foreign.subject_id())));
+        }
+
         // Validate the proof chain. Each link must satisfy:
         // 1. The delegation's access doesn't exceed the proof's access.
         // 2. Either the signer matches the proof's delegate (direct chain),
@@ -212,19 +221,32 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         }
 
         if let Some(proof) = &revocation.payload.proof {
-            if revocation.payload.revoke != *proof
-                && !revocation.payload.revoke.payload.is_descendant_of(proof)
-            {
-                // The revoked delegation is not a descendant of the proof.
-                // Check if the revoker has transitive access through the
-                // proof's delegate (a group/doc intermediary).
+            if proof.subject_id() != Identifier::from(self.id) {
+                return Err(AddError::InvalidSubject(Box::new(proof.subject_id())));
+            }
+
+            // The revoker must hold the authority that the proof stands for.
+            // One of:
+            // 1. They issued the proof, and are revoking it or something
+            //    delegated from it.
+            // 2. They are the proof's delegate, and are giving up their own
+            //    membership.
+            // 3. They have sufficient transitive access through the proof's
+            //    delegate (a group/doc intermediary).
+            let revoke = &revocation.payload.revoke;
+            let issued_ancestor = revocation.issuer == proof.issuer
+                && (revoke == proof || revoke.payload.is_descendant_of(proof));
+            let own_membership = revocation.issuer == proof.payload.delegate.verifying_key()
+                && revoke.payload.delegate.id() == proof.payload.delegate.id();
+            if !issued_ancestor && !own_membership {
                 let revoker_id = Identifier::from(revocation.issuer);
-                if !is_transitive_member_of(
-                    &proof.payload.delegate,
-                    revoker_id,
-                    revocation.payload.revoke.payload.can,
-                )
-                .await
+                if proof.payload.can < revoke.payload.can
+                    || !is_transitive_member_of(
+                        &proof.payload.delegate,
+                        revoker_id,
+                        revoke.payload.can,
+                    )
+                    .await
                 {
                     return Err(AddError::InvalidProofChain);
                 }
-- 
2.43.0


From 8f07c6cf3f349611b692385b7bccce46d2624eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:29 +0000
Subject: [PATCH 10/55] fix: membership: transitive access is the best path's
 least access, and a cycle of memberships does not deadlock

---
 keyhive_core/src/principal/group.rs       | 140 +++++++++-------------
 keyhive_core/src/principal/group/state.rs |  14 ++-
 2 files changed, 67 insertions(+), 87 deletions(-)

diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index c1b031c..c2a7039 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -269,84 +269,14 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
 
     #[tracing::instrument(skip(self), fields(group_id = %self.group_id()))]
     pub async fn transitive_members(&self) -> HashMap<Identifier, (Agent<F, S, T, L>, Access)> {
-        struct GroupAccess<
-            G: FutureForm,
-            Z: AsyncSigner<G>,
-            U: ContentRef,
-            M: MembershipListener<G, Z, U>,
-        > {
-            agent: Agent<G, Z, U, M>,
-            agent_access: Access,
-            parent_access: Access,
-        }
-
-        let mut explore: Vec<GroupAccess<F, S, T, L>> = vec![];
-        let mut seen: HashSet<([u8; 64], Access)> = HashSet::new();
-
-        for member in self.members.keys() {
-            let dlg = self
-                .get_capability(member)
-                .expect("members have capabilities by defintion");
-
-            seen.insert((dlg.signature.to_bytes(), Access::Admin));
-
-            explore.push(GroupAccess {
-                agent: dlg.payload.delegate.clone(),
-                agent_access: dlg.payload.can,
-                parent_access: Access::Admin,
-            });
-        }
-
-        let mut caps: HashMap<Identifier, (Agent<F, S, T, L>, Access)> = HashMap::new();
-
-        while let Some(GroupAccess {
-            agent: member,
-            agent_access: access,
-            parent_access,
-        }) = explore.pop()
-        {
-            let id = member.id();
-            if id == self.id() {
-                continue;
-            }
-
-            let best_access = *caps
-                .get(&id)
-                .map(|(_, existing_access)| existing_access.max(&access))
-                .unwrap_or(&access);
-
-            let current_path_access = access.min(parent_access);
-            caps.insert(member.id(), (member.dupe(), current_path_access));
-
-            if let Some(membered) = match member {
-                Agent::Group(id, inner_group) => Some(Membered::Group(id, inner_group.dupe())),
-                Agent::Document(id, doc) => Some(Membered::Document(id, doc.dupe())),
-                _ => None,
-            } {
-                for (mem_id, dlgs) in membered.members().await.iter() {
-                    let dlg = membered
-                        .get_capability(mem_id)
-                        .await
-                        .expect("members have capabilities by defintion");
-
-                    caps.insert(*mem_id, (dlg.payload.delegate.dupe(), best_access));
-
-                    'inner: for sub_dlg in dlgs.iter() {
-                        if !seen.insert((sub_dlg.signature.to_bytes(), dlg.payload.can)) {
-                            continue 'inner;
-                        }
-
-                        explore.push(GroupAccess {
-                            agent: sub_dlg.payload.delegate.dupe(),
-                            agent_access: sub_dlg.payload.can,
-                            parent_access: best_access,
-                        });
-                    }
-                }
-            }
-        }
-
-        caps
+        reachable_agents(
+            self.members
+                .values()
+                .flatten()
+                .map(|dlg| (dlg.payload.delegate.dupe(), dlg.payload.can)),
+            self.id(),
+        )
+        .await
     }
 
     /// Returns agents whose delegations were revoked and who have no remaining
@@ -498,8 +428,12 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                     .get_capability(member_id)
                     .expect("members have capabilities by definition");
 
-                if let Some(m) = dlg.payload.delegate.as_membered() {
-                    let sub_members = m.transitive_members().await;
+                if dlg.payload.delegate.as_membered().is_some() {
+                    let sub_members = reachable_agents(
+                        [(dlg.payload.delegate.dupe(), dlg.payload.can)],
+                        self.id(),
+                    )
+                    .await;
                     if let Some((_, sub_access)) = sub_members.get(&signer_id) {
                         if *sub_access >= can {
                             best_proof = Some(dlg.dupe());
@@ -658,10 +592,14 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                             .get_capability(mid)
                             .expect("members have capabilities by definition");
 
-                        if let Some(m) = dlg.payload.delegate.as_membered() {
-                            let sub_members = m.transitive_members().await;
+                        if dlg.payload.delegate.as_membered().is_some() {
+                            let sub_members = reachable_agents(
+                                [(dlg.payload.delegate.dupe(), dlg.payload.can)],
+                                self.id(),
+                            )
+                            .await;
                             if let Some((_, sub_access)) = sub_members.get(&signer_id) {
-                                if dlg.payload.can.min(*sub_access) >= to_revoke.payload.can {
+                                if *sub_access >= to_revoke.payload.can {
                                     let r = self
                                         .build_revocation(
                                             signer,
@@ -932,6 +870,42 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
     }
 }
 
+/// Every agent reachable from `roots` through memberships, and the most access
+/// that some path grants it. A path grants the least access found along it.
+///
+/// `skip` is neither returned nor walked into. Callers that hold the lock of a
+/// group or document pass its identifier, since it may be a member of one of
+/// its own members.
+pub(crate) async fn reachable_agents<
+    F: FutureForm,
+    S: AsyncSigner<F>,
+    T: ContentRef,
+    L: MembershipListener<F, S, T>,
+>(
+    roots: impl IntoIterator<Item = (Agent<F, S, T, L>, Access)>,
+    skip: Identifier,
+) -> HashMap<Identifier, (Agent<F, S, T, L>, Access)> {
+    let mut explore: Vec<(Agent<F, S, T, L>, Access)> = roots.into_iter().collect();
+    let mut caps: HashMap<Identifier, (Agent<F, S, T, L>, Access)> = HashMap::new();
+
+    while let Some((agent, access)) = explore.pop() {
+        let id = agent.id();
+        if id == skip || caps.get(&id).is_some_and(|(_, best)| *best >= access) {
+            continue;
+        }
+
+        if let Some(membered) = agent.as_membered() {
+            for dlg in membered.members().await.values().flatten() {
+                explore.push((dlg.payload.delegate.dupe(), dlg.payload.can.min(access)));
+            }
+        }
+
+        caps.insert(id, (agent, access));
+    }
+
+    caps
+}
+
 #[derive(Debug, Clone, Hash, PartialEq, Eq, Serialize, Deserialize)]
 pub enum IdOrIndividual {
     GroupId(GroupId),
diff --git a/keyhive_core/src/principal/group/state.rs b/keyhive_core/src/principal/group/state.rs
index faf082c..424fcff 100644
--- a/keyhive_core/src/principal/group/state.rs
+++ b/keyhive_core/src/principal/group/state.rs
@@ -1,7 +1,9 @@
 pub mod archive;
 
 use self::archive::GroupStateArchive;
-use super::{delegation::Delegation, error::AddError, id::GroupId, revocation::Revocation};
+use super::{
+    delegation::Delegation, error::AddError, id::GroupId, reachable_agents, revocation::Revocation,
+};
 use crate::{
     access::Access,
     crypto::signed_ext::SignedSubjectId,
@@ -183,6 +185,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                     &proof.payload.delegate,
                     head_id,
                     delegation.payload.can,
+                    self.id(),
                 )
                 .await
                 {
@@ -245,6 +248,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                         &proof.payload.delegate,
                         revoker_id,
                         revoke.payload.can,
+                        self.id(),
                     )
                     .await
                 {
@@ -268,6 +272,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                         &next_proof.payload.delegate,
                         head_id,
                         proof.payload.can,
+                        self.id(),
                     )
                     .await
                     {
@@ -340,11 +345,12 @@ async fn is_transitive_member_of<
     delegate: &Agent<F, S, T, L>,
     member_id: Identifier,
     min_access: Access,
+    group_id: Identifier,
 ) -> bool {
-    let Some(m) = delegate.as_membered() else {
+    if delegate.as_membered().is_none() {
         return false;
-    };
-    m.transitive_members()
+    }
+    reachable_agents([(delegate.dupe(), Access::Admin)], group_id)
         .await
         .get(&member_id)
         .map(|(_, access)| *access >= min_access)
-- 
2.43.0


From 699f87581fa04acbe8145fcdbe74ca86c0288b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:48 +0000
Subject: [PATCH 11/55] fix: document: key agreement follows read access:
 cascaded revocations, relay-only members, nested documents

---
 keyhive_core/src/keyhive.rs            | 165 ++++++++++---------------
 keyhive_core/src/principal/agent.rs    |   5 +-
 keyhive_core/src/principal/document.rs |  29 +++--
 keyhive_core/src/principal/group.rs    |  34 +++--
 4 files changed, 112 insertions(+), 121 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index bf5ad8d..f313734 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -22,6 +22,7 @@ use crate::{
             delegation::{Delegation, StaticDelegation},
             error::AddError,
             id::GroupId,
+            individual_readers,
             membership_operation::{
                 bfs_extend_from_revocation, bfs_membership_ops, collect_membership_heads,
                 AllMembershipOps, MembershipOpMap, MembershipOperation, StaticMembershipOperation,
@@ -487,60 +488,41 @@ impl<
         other_relevant_docs: &[Arc<Mutex<Document<F, S, T, L>>>], // TODO make this automatic
     ) -> Result<AddMemberUpdate<F, S, T, L>, AddMemberError> {
         let signer = { self.active.lock().await.signer.clone() };
-        let update = match resource {
-            Membered::Group(group_id, group) => {
-                let mut update = group
-                    .lock()
-                    .await
-                    .add_member(to_add, can, &signer, other_relevant_docs)
-                    .await?;
+        let mut update = resource
+            .add_member(to_add, can, &signer, other_relevant_docs)
+            .await?;
 
-                // Propagate CGKA adds to docs that contain this group.
-                // TODO: O(# of docs x `transitive_members()`). We should replace this approach
-                // (possibly with a reverse index lookup).
-                if can.is_reader() {
-                    let group_identifier: Identifier = (*group_id).into();
-                    let docs = { self.docs.lock().await.values().cloned().collect::<Vec<_>>() };
-                    for doc in &docs {
-                        let (contains_group, doc_id) = {
-                            let locked = doc.lock().await;
-                            (
-                                locked
-                                    .transitive_members()
-                                    .await
-                                    .contains_key(&group_identifier),
-                                locked.doc_id(),
-                            )
-                        };
-                        if !contains_group {
-                            continue;
-                        }
-                        // Document lock is intentionally dropped before `pick_individual_prekeys`,
-                        // which may lock groups (walking group members to find
-                        // individuals).
-                        let prekeys = update
-                            .delegation
-                            .payload
-                            .delegate
-                            .pick_individual_prekeys(doc_id)
-                            .await;
-                        let mut locked_doc = doc.lock().await;
-                        let ops = locked_doc
-                            .add_cgka_members_from_prekeys(&prekeys, &signer)
-                            .await?;
-                        update.cgka_ops.extend(ops);
-                    }
+        // Propagate CGKA adds to docs that contain this group or document.
+        // TODO: O(# of docs x `transitive_members()`). We should replace this approach
+        // (possibly with a reverse index lookup).
+        if can.is_reader() {
+            let docs = { self.docs.lock().await.values().cloned().collect::<Vec<_>>() };
+            for doc in &docs {
+                let (transitive, doc_id) = {
+                    let locked = doc.lock().await;
+                    (locked.transitive_members().await, locked.doc_id())
+                };
+                if !transitive.contains_key(&resource.agent_id().into()) {
+                    continue;
                 }
-
-                update
-            }
-            Membered::Document(_, doc) => {
-                let mut locked = doc.lock().await;
-                locked
-                    .add_member(to_add, can, &signer, other_relevant_docs)
-                    .await?
+                // Document lock is intentionally dropped before `pick_individual_prekeys`,
+                // which may lock groups (walking group members to find
+                // individuals).
+                let mut prekeys = update
+                    .delegation
+                    .payload
+                    .delegate
+                    .pick_individual_prekeys(doc_id)
+                    .await;
+                let readers = individual_readers(transitive);
+                prekeys.retain(|id, _| readers.contains_key(id));
+                let mut locked_doc = doc.lock().await;
+                let ops = locked_doc
+                    .add_cgka_members_from_prekeys(&prekeys, &signer)
+                    .await?;
+                update.cgka_ops.extend(ops);
             }
-        };
+        }
 
         for cgka_op in &update.cgka_ops {
             self.event_listener
@@ -567,27 +549,27 @@ impl<
 
         let signer = { self.active.lock().await.signer.clone() };
 
-        // When revoking from a group, collect the revoked member's individual
-        // IDs before the revocation removes them from the members map.
-        let revoked_individual_ids: HashSet<IndividualId> = match resource {
-            Membered::Group(_, group) => {
-                let delegates: Vec<Agent<F, S, T, L>> = {
-                    let locked = group.lock().await;
-                    locked
-                        .members()
-                        .get(&to_revoke)
-                        .into_iter()
-                        .flat_map(|ds| ds.iter().map(|d| d.payload().delegate.dupe()))
-                        .collect()
-                };
-                let mut ids = HashSet::new();
-                for d in &delegates {
-                    ids.extend(d.individual_ids().await);
-                }
-                ids
+        // Collect the individuals of the documents that contain this group or
+        // document before the revocation, which can remove more than the
+        // revoked member: members it delegated to go with it.
+        // TODO: O(# of docs x `transitive_members()`). We should replace this approach
+        // (possibly with a reverse index lookup).
+        let mut containing_docs = Vec::new();
+        let docs = { self.docs.lock().await.values().cloned().collect::<Vec<_>>() };
+        for doc in docs {
+            let transitive = doc.lock().await.transitive_members().await;
+            if !transitive.contains_key(&resource.agent_id().into()) {
+                continue;
             }
-            _ => HashSet::new(),
-        };
+            let individuals: Vec<IndividualId> = transitive
+                .into_values()
+                .filter_map(|(agent, _)| match agent {
+                    Agent::Individual(id, _) | Agent::Active(id, _) => Some(id),
+                    Agent::Group(..) | Agent::Document(..) => None,
+                })
+                .collect();
+            containing_docs.push((doc, individuals));
+        }
 
         let mut update = resource
             .revoke_member(
@@ -598,37 +580,16 @@ impl<
             )
             .await?;
 
-        // Propagate CGKA removals to docs that contain this group.
-        // TODO: O(# of docs x `transitive_members()`). We should replace this approach
-        // (possibly with a reverse index lookup).
-        if let Membered::Group(group_id, _) = resource {
-            if !revoked_individual_ids.is_empty() {
-                let group_identifier: Identifier = (*group_id).into();
-                let docs = { self.docs.lock().await.values().cloned().collect::<Vec<_>>() };
-                for doc in &docs {
-                    let transitive = {
-                        let locked = doc.lock().await;
-                        locked.transitive_members().await
-                    };
-                    if !transitive.contains_key(&group_identifier) {
-                        continue;
-                    }
-                    let still_reachable: HashSet<IndividualId> = transitive
-                        .into_iter()
-                        .filter_map(|(_, (agent, _))| match agent {
-                            Agent::Individual(id, _) | Agent::Active(id, _) => Some(id),
-                            _ => None,
-                        })
-                        .collect();
-                    let mut locked_doc = doc.lock().await;
-                    for &id in &revoked_individual_ids {
-                        if still_reachable.contains(&id) {
-                            continue;
-                        }
-                        if let Ok(Some(op)) = locked_doc.remove_cgka_member(id, &signer).await {
-                            update.cgka_ops.push(op);
-                        }
-                    }
+        // Propagate CGKA removals to docs that contain this group or document.
+        for (doc, individuals) in containing_docs {
+            let mut locked_doc = doc.lock().await;
+            let still_reading = individual_readers(locked_doc.transitive_members().await);
+            for id in individuals {
+                if still_reading.contains_key(&id) {
+                    continue;
+                }
+                if let Ok(Some(op)) = locked_doc.remove_cgka_member(id, &signer).await {
+                    update.cgka_ops.push(op);
                 }
             }
         }
diff --git a/keyhive_core/src/principal/agent.rs b/keyhive_core/src/principal/agent.rs
index e2e71d9..a66cc22 100644
--- a/keyhive_core/src/principal/agent.rs
+++ b/keyhive_core/src/principal/agent.rs
@@ -119,12 +119,15 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         ids
     }
 
+    /// Pick a prekey for every individual under this agent, other than by way of
+    /// the document itself (which may be a member of one of its members, and
+    /// whose lock the caller may hold).
     pub async fn pick_individual_prekeys(
         &self,
         doc_id: DocumentId,
     ) -> HashMap<IndividualId, ShareKey> {
         let mut result = HashMap::new();
-        let mut seen = HashSet::new();
+        let mut seen: HashSet<Identifier> = HashSet::from([doc_id.into()]);
         let mut stack: Vec<Self> = vec![self.dupe()];
 
         while let Some(agent) = stack.pop() {
diff --git a/keyhive_core/src/principal/document.rs b/keyhive_core/src/principal/document.rs
index 9c02e05..fe784bd 100644
--- a/keyhive_core/src/principal/document.rs
+++ b/keyhive_core/src/principal/document.rs
@@ -258,12 +258,14 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             // transitive document members of the group, but not to the group itself
             // (because the group might not be a document), so we add the member to
             // the group here and add any extra resulting cgka ops to the update.
-            let prekeys = update
+            let mut prekeys = update
                 .delegation
                 .payload
                 .delegate
                 .pick_individual_prekeys(self.doc_id())
                 .await;
+            let readers = self.group.individual_readers().await;
+            prekeys.retain(|id, _| readers.contains_key(id));
             let cgka_ops_for_this_doc =
                 self.add_cgka_members_from_prekeys(&prekeys, signer).await?;
             update.cgka_ops.extend(cgka_ops_for_this_doc);
@@ -298,12 +300,17 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         signer: &S,
         after_other_doc_content: &mut BTreeMap<DocumentId, Vec<T>>,
     ) -> Result<RevokeMemberUpdate<F, S, T, L>, RevokeMemberError> {
-        // Collect individual IDs from the member being revoked before the
-        // group revocation removes them from the members map.
-        let mut ids_to_remove = HashSet::new();
-        for d in self.group.members.get(&member_id).into_iter().flatten() {
-            ids_to_remove.extend(d.payload().delegate.individual_ids().await);
-        }
+        // Collect the individuals before the revocation, which can remove more
+        // than the member being revoked: members it delegated to go with it.
+        let mut ids_to_remove: HashSet<IndividualId> = self
+            .transitive_members()
+            .await
+            .into_values()
+            .filter_map(|(agent, _)| match agent {
+                Agent::Individual(id, _) | Agent::Active(id, _) => Some(id),
+                Agent::Group(..) | Agent::Document(..) => None,
+            })
+            .collect();
 
         let RevokeMemberUpdate {
             revocations,
@@ -319,10 +326,10 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             )
             .await?;
 
-        // After revocation, check which individuals are still reachable via
-        // remaining members. Only remove those that are no longer reachable.
-        let still_reachable = self.group.individual_ids().await;
-        ids_to_remove.retain(|id| !still_reachable.contains(id));
+        // After revocation, check which individuals can still read via
+        // remaining members. Only remove those that no longer can.
+        let still_reading = self.group.individual_readers().await;
+        ids_to_remove.retain(|id| !still_reading.contains_key(id));
 
         // FIXME: We need to check if this has revoked the last member in our group.
         let mut ops = cgka_ops;
diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index c2a7039..b983bbd 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -19,7 +19,6 @@ use super::{
     document::{id::DocumentId, AddMemberUpdate, Document, RevokeMemberUpdate},
     identifier::Identifier,
     individual::{id::IndividualId, Individual},
-    membered::Membered,
 };
 use crate::{
     access::Access,
@@ -248,13 +247,10 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
     ) -> HashMap<IndividualId, ShareKey> {
         let mut prekeys = HashMap::new();
         let public_id = crate::principal::public::Public.id();
-        for (id, (agent, _access)) in self.transitive_members().await.iter() {
+        for (id, agent) in self.individual_readers().await {
             // Public must always be added with its single well-known key.
-            if *id == public_id {
-                prekeys.insert(
-                    IndividualId(public_id),
-                    crate::principal::public::Public.share_key(),
-                );
+            if Identifier::from(id) == public_id {
+                prekeys.insert(id, crate::principal::public::Public.share_key());
             } else {
                 prekeys.extend(agent.pick_individual_prekeys(doc_id).await.iter());
             }
@@ -262,6 +258,11 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         prekeys
     }
 
+    /// The individuals that can read, directly or through other groups or documents.
+    pub(crate) async fn individual_readers(&self) -> HashMap<IndividualId, Agent<F, S, T, L>> {
+        individual_readers(self.transitive_members().await)
+    }
+
     #[allow(clippy::type_complexity)]
     pub fn members(&self) -> &HashMap<Identifier, NonEmpty<Arc<Signed<Delegation<F, S, T, L>>>>> {
         &self.members
@@ -870,6 +871,25 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
     }
 }
 
+/// The individuals among `agents` that can read.
+pub(crate) fn individual_readers<
+    F: FutureForm,
+    S: AsyncSigner<F>,
+    T: ContentRef,
+    L: MembershipListener<F, S, T>,
+>(
+    agents: HashMap<Identifier, (Agent<F, S, T, L>, Access)>,
+) -> HashMap<IndividualId, Agent<F, S, T, L>> {
+    agents
+        .into_values()
+        .filter(|(_, can)| can.is_reader())
+        .filter_map(|(agent, _)| match agent {
+            Agent::Individual(id, _) | Agent::Active(id, _) => Some((id, agent)),
+            Agent::Group(..) | Agent::Document(..) => None,
+        })
+        .collect()
+}
+
 /// Every agent reachable from `roots` through memberships, and the most access
 /// that some path grants it. A path grants the least access found along it.
 ///
-- 
2.43.0


From 84ba8ab357e86dba2e824a357627baf0c0c232e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:44 +0000
Subject: [PATCH 12/55] fix: membership: the current members do not depend on
 the order in which operations arrived

---
 .../src/principal/group/membership_operation.rs   | 15 +++++++++++----
 keyhive_core/src/principal/group/state.rs         |  4 ++--
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/keyhive_core/src/principal/group/membership_operation.rs b/keyhive_core/src/principal/group/membership_operation.rs
index e376790..57cdcf0 100644
--- a/keyhive_core/src/principal/group/membership_operation.rs
+++ b/keyhive_core/src/principal/group/membership_operation.rs
@@ -251,8 +251,8 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             }
         }
 
-        // revoked delegation signature -> revocation digest
-        let mut revoked_dependencies: HashMap<Key, Digest<MembershipOperation<F, S, T, L>>> =
+        // revoked delegation signature -> digests of its revocations
+        let mut revoked_dependencies: HashMap<Key, Vec<Digest<MembershipOperation<F, S, T, L>>>> =
             HashMap::new();
 
         let mut explore: Vec<MembershipOperation<F, S, T, L>> = vec![];
@@ -280,7 +280,10 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             let parent_digests: Vec<_> = parents.iter().map(|p| p.digest()).collect();
 
             if let MembershipOperation::Revocation(r) = &op {
-                revoked_dependencies.insert((*r.payload.revoke.signature()).into(), digest);
+                revoked_dependencies
+                    .entry((*r.payload.revoke.signature()).into())
+                    .or_default()
+                    .push(digest);
             }
 
             all_ops.insert(digest, (op, parent_digests));
@@ -364,7 +367,11 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
 
             if let MembershipOperation::Delegation(d) = op {
                 if let Some(proof) = &d.payload.proof {
-                    if let Some(revoked_digest) = revoked_dependencies.get(&Key(proof.signature)) {
+                    let revoked_digests = revoked_dependencies
+                        .get(&Key(proof.signature))
+                        .map(Vec::as_slice)
+                        .unwrap_or_default();
+                    for revoked_digest in revoked_digests {
                         if let Some((revoked_op, _)) = all_ops.get(revoked_digest) {
                             adjacencies
                                 .add_dependency((*digest, op), (*revoked_digest, revoked_op));
diff --git a/keyhive_core/src/principal/group/state.rs b/keyhive_core/src/principal/group/state.rs
index 424fcff..99362fa 100644
--- a/keyhive_core/src/principal/group/state.rs
+++ b/keyhive_core/src/principal/group/state.rs
@@ -195,11 +195,11 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         }
 
         for (head_digest, head) in self.delegation_heads.clone().iter() {
-            if !delegation.payload.is_ancestor_of(head) {
+            if !head.payload.is_descendant_of(&delegation) {
                 self.delegation_heads.insert(delegation.dupe());
             }
 
-            if head.payload.is_ancestor_of(&delegation) {
+            if delegation.payload.is_descendant_of(head) {
                 self.delegation_heads.remove_by_hash(head_digest);
             }
         }
-- 
2.43.0


From 49f756704006a4bbc1736bf8a30c41dcdd49b33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:29 +0000
Subject: [PATCH 13/55] fix: membership: revoking a member also ends what it
 delegated, unless it is re-added

---
 keyhive_core/src/principal/group.rs | 140 +++++++++-------------------
 1 file changed, 45 insertions(+), 95 deletions(-)

diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index b983bbd..382484c 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -690,13 +690,9 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         self.active_revocations.clear();
 
         #[allow(clippy::type_complexity)]
-        let mut dlgs_in_play: HashMap<[u8; 64], Arc<Signed<Delegation<F, S, T, L>>>> =
-            HashMap::new();
+        let mut dlgs: Vec<Arc<Signed<Delegation<F, S, T, L>>>> = Vec::new();
         let mut revoked_dlgs: HashSet<[u8; 64]> = HashSet::new();
 
-        // {dlg_dep => Set<dlgs that depend on it>}
-        let mut reverse_dlg_dep_map: HashMap<[u8; 64], HashSet<[u8; 64]>> = HashMap::new();
-
         let mut ops = MembershipOperation::reverse_topsort(
             &self.state.delegation_heads,
             &self.state.revocation_heads,
@@ -706,113 +702,67 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             match op {
                 MembershipOperation::Delegation(d) => {
                     // NOTE: friendly reminder that the topsort already includes all ancestors
-                    if let Some(found_proof) = &d.payload.proof {
-                        reverse_dlg_dep_map
-                            .entry(found_proof.signature.to_bytes())
-                            .and_modify(|set| {
-                                set.insert(d.signature.to_bytes());
-                            })
-                            .or_insert_with(|| HashSet::from_iter([d.signature.to_bytes()]));
-
-                        // If the proof was directly revoked, then check if they've been
-                        // re-added some other way. Since `rebuild` recurses,
-                        // we only need to check one level.
-                        if revoked_dlgs.contains(&found_proof.signature.to_bytes())
-                            || !dlgs_in_play.contains_key(&found_proof.signature.to_bytes())
-                        {
-                            if let Some(alt_proofs) = self.members.get(&found_proof.issuer.into()) {
-                                if alt_proofs.iter().filter(|d| *d != found_proof).all(
-                                    |alt_proof| alt_proof.payload.can < found_proof.payload.can,
-                                ) {
-                                    // No suitable proofs
-                                    continue;
-                                }
-                            } else if found_proof.issuer != self.verifying_key() {
-                                continue;
-                            }
-                        }
-                    } else if d.issuer != self.verifying_key() {
+                    if d.payload.proof.is_none() && d.issuer != self.verifying_key() {
                         debug_assert!(false, "Delegation without valid root proof");
                         continue;
                     }
 
-                    if revoked_dlgs.contains(&d.signature.to_bytes()) {
-                        continue;
-                    }
-
-                    dlgs_in_play.insert(d.signature.to_bytes(), d.dupe());
-
-                    if let Some(mut_dlgs) = self.members.get_mut(&d.payload.delegate.id()) {
-                        mut_dlgs.push(d.dupe());
-                    } else {
-                        self.members
-                            .insert(d.payload.delegate.id(), nonempty![d.dupe()]);
-                    }
+                    dlgs.push(d);
                 }
                 MembershipOperation::Revocation(r) => {
-                    if let Some(found_proof) = &r.payload.proof {
-                        if revoked_dlgs.contains(&found_proof.signature.to_bytes())
-                            || !dlgs_in_play.contains_key(&found_proof.signature.to_bytes())
-                        {
-                            if let Some(alt_proofs) = self.members.get(&found_proof.issuer.into()) {
-                                if !alt_proofs
-                                    .iter()
-                                    .any(|p| p.payload.can >= found_proof.payload.can)
-                                {
-                                    continue;
-                                }
-                            }
-                        }
-                    } else if r.issuer != self.verifying_key() {
+                    if r.payload.proof.is_none() && r.issuer != self.verifying_key() {
                         debug_assert!(false, "Revocation without valid root proof");
                         continue;
                     }
 
-                    self.active_revocations
-                        .insert(r.signature.to_bytes(), r.dupe());
-
-                    // { Agent => delegation to drop }
-                    let mut to_drop: Vec<(Identifier, [u8; 64])> = vec![];
-
-                    let mut next_to_revoke = vec![r.payload.revoke.signature.to_bytes()];
-                    while let Some(sig_to_revoke) = next_to_revoke.pop() {
-                        revoked_dlgs.insert(sig_to_revoke);
+                    revoked_dlgs.insert(r.payload.revoke.signature.to_bytes());
+                    self.active_revocations.insert(r.signature.to_bytes(), r);
+                }
+            }
+        }
 
-                        if let Some(dlg) = dlgs_in_play.remove(&sig_to_revoke) {
-                            to_drop.push((dlg.payload.delegate.id(), sig_to_revoke));
-                        }
+        // A delegation holds if it is not revoked, and if its proof holds or its
+        // issuer has been re-added in some other way. Repeat until nothing
+        // changes, since they may be re-added by a later operation.
+        let mut in_play: HashSet<[u8; 64]> = HashSet::new();
+        loop {
+            let mut changed = false;
 
-                        if let Some(dlg_sigs_to_revoke) = reverse_dlg_dep_map.get(&sig_to_revoke) {
-                            for dlg_sig in dlg_sigs_to_revoke.iter() {
-                                revoked_dlgs.insert(*dlg_sig);
+            for d in dlgs.iter() {
+                let sig = d.signature.to_bytes();
+                if revoked_dlgs.contains(&sig) || in_play.contains(&sig) {
+                    continue;
+                }
 
-                                if let Some(dep_dlg) = dlgs_in_play.remove(dlg_sig) {
-                                    next_to_revoke.push(dep_dlg.signature.to_bytes());
-                                }
-                            }
-                        }
+                if let Some(proof) = &d.payload.proof {
+                    let re_added =
+                        self.members
+                            .get(&proof.payload.delegate.id())
+                            .is_some_and(|alt_proofs| {
+                                alt_proofs
+                                    .iter()
+                                    .any(|alt_proof| alt_proof.payload.can >= proof.payload.can)
+                            });
+                    if !in_play.contains(&proof.signature.to_bytes()) && !re_added {
+                        // No suitable proofs
+                        continue;
                     }
+                }
 
-                    for (id, sig) in to_drop {
-                        let remaining = self
-                            .members
-                            .get(&id)
-                            .map(|dlgs| {
-                                dlgs.iter()
-                                    .filter(|dlg| dlg.signature.to_bytes() != sig)
-                                    .cloned()
-                                    .collect()
-                            })
-                            .unwrap_or_default();
-
-                        if let Some(dlgs) = NonEmpty::from_vec(remaining) {
-                            self.members.insert(id, dlgs);
-                        } else {
-                            self.members.remove(&id);
-                        }
-                    }
+                in_play.insert(sig);
+                changed = true;
+
+                if let Some(mut_dlgs) = self.members.get_mut(&d.payload.delegate.id()) {
+                    mut_dlgs.push(d.dupe());
+                } else {
+                    self.members
+                        .insert(d.payload.delegate.id(), nonempty![d.dupe()]);
                 }
             }
+
+            if !changed {
+                break;
+            }
         }
     }
 
-- 
2.43.0


From 5279c345ed61fee25eb0c5f01c10e1fc44219cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:29 +0000
Subject: [PATCH 14/55] fix: membership: operations whose preferred orders
 contradict each other are no longer dropped

---
 .../principal/group/membership_operation.rs   | 24 ++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/keyhive_core/src/principal/group/membership_operation.rs b/keyhive_core/src/principal/group/membership_operation.rs
index 57cdcf0..8aeb8c8 100644
--- a/keyhive_core/src/principal/group/membership_operation.rs
+++ b/keyhive_core/src/principal/group/membership_operation.rs
@@ -386,11 +386,33 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         }
 
         let mut dependencies = vec![];
+        let mut fell_back = false;
 
         while !adjacencies.is_empty() {
             let batch = adjacencies.pop_frontier();
             if batch.is_empty() {
-                break; // cycle guard
+                // The order of a delegation and a revocation of its proof is
+                // only a preference, and can contradict what they depend on.
+                // Fall back to the actual dependencies of the rest.
+                adjacencies = Topsort::new();
+                let done: HashSet<_> = dependencies.iter().map(|(d, _)| *d).collect();
+                for (digest, (op, parent_digests)) in all_ops.iter() {
+                    if done.contains(digest) {
+                        continue;
+                    }
+                    adjacencies.add_node((*digest, op));
+                    for parent_digest in parent_digests {
+                        if let Some((parent_op, _)) = all_ops.get(parent_digest) {
+                            adjacencies.add_dependency((*digest, op), (*parent_digest, parent_op));
+                        }
+                    }
+                }
+                if fell_back {
+                    debug_assert!(false, "Membership operations depend on each other");
+                    break;
+                }
+                fell_back = true;
+                continue;
             }
 
             let (mut revocations, mut others): (Vec<_>, Vec<_>) =
-- 
2.43.0


From f0e473872f379e7fb6650087742057853a7112a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:02 +0000
Subject: [PATCH 15/55] fix: membership: re-adding a revoked member does not
 reproduce the revoked delegation

---
 keyhive_core/src/principal/group.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index 382484c..aab66bb 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -459,13 +459,25 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             }
         };
 
+        // Include the revocations of the member's earlier delegations even if
+        // they are no longer heads. Otherwise re-adding the member can result in
+        // the very delegation that was revoked.
+        let mut after_revocations: Vec<_> = self.state.revocation_heads.values().duped().collect();
+        for r in self.active_revocations.values() {
+            if r.payload.revoke.payload.delegate.id() == member_to_add.id()
+                && !self.state.revocation_heads.contains_value(r)
+            {
+                after_revocations.push(r.dupe());
+            }
+        }
+
         let delegation = keyhive_crypto::signer::async_signer::try_sign_async::<F, _, _>(
             signer,
             Delegation {
                 delegate: member_to_add,
                 can,
                 proof,
-                after_revocations: self.state.revocation_heads.values().duped().collect(),
+                after_revocations,
                 after_content,
             },
         )
-- 
2.43.0


From 20a1ee340d33082e47dfca043439c781dd59fe28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:09 +0000
Subject: [PATCH 16/55] fix: listener: report each accepted delegation and
 revocation once, and rejected ones never

---
 keyhive_core/src/principal/group.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index aab66bb..c450413 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -350,9 +350,10 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         &mut self,
         delegation: Arc<Signed<Delegation<F, S, T, L>>>,
     ) -> Result<Digest<Signed<Delegation<F, S, T, L>>>, error::AddError> {
-        let digest = self.state.add_delegation(delegation).await?;
+        let digest = self.state.add_delegation(delegation.dupe()).await?;
         tracing::info!("{:x?}", &digest);
         self.rebuild().await;
+        self.listener.on_delegation(&delegation).await;
         Ok(digest)
     }
 
@@ -362,9 +363,9 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         &mut self,
         revocation: Arc<Signed<Revocation<F, S, T, L>>>,
     ) -> Result<Digest<Signed<Revocation<F, S, T, L>>>, error::AddError> {
-        self.listener.on_revocation(&revocation).await;
-        let digest = self.state.add_revocation(revocation).await?;
+        let digest = self.state.add_revocation(revocation.dupe()).await?;
         self.rebuild().await;
+        self.listener.on_revocation(&revocation).await;
         Ok(digest)
     }
 
@@ -485,7 +486,6 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
 
         let rc = Arc::new(delegation);
         let _digest = self.receive_delegation(rc.dupe()).await?;
-        self.listener.on_delegation(&rc).await;
 
         Ok(AddMemberUpdate {
             cgka_ops: Vec::new(),
@@ -637,10 +637,6 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             }
         }
 
-        for r in revocations.iter() {
-            self.listener.on_revocation(r).await
-        }
-
         let mut cgka_ops = Vec::new();
 
         let mut redelegations = vec![];
-- 
2.43.0


From 06de9172929de82bcd3ec144464d118c70eb0b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:12 +0000
Subject: [PATCH 17/55] fix: sync: offer the revocations of nested groups,
 nested documents, and the keys of former members

---
 keyhive_core/src/keyhive.rs                   | 79 +++++++++----------
 .../principal/group/membership_operation.rs   | 42 +++++-----
 2 files changed, 60 insertions(+), 61 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index f313734..9f3cf54 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -881,9 +881,6 @@ impl<
         &self,
         agent: &Agent<F, S, T, L>,
     ) -> HashMap<Digest<MembershipOperation<F, S, T, L>>, MembershipOperation<F, S, T, L>> {
-        let mut ops = HashMap::new();
-        let mut visited_hashes = HashSet::new();
-
         #[allow(clippy::type_complexity)]
         let mut heads: Vec<(
             Digest<MembershipOperation<F, S, T, L>>,
@@ -914,46 +911,7 @@ impl<
             }
         }
 
-        while let Some((hash, op)) = heads.pop() {
-            if visited_hashes.contains(&hash) {
-                continue;
-            }
-
-            visited_hashes.insert(hash);
-            ops.insert(hash, op.clone());
-
-            match op {
-                MembershipOperation::Delegation(dlg) => {
-                    if let Some(proof) = &dlg.payload.proof {
-                        heads.push((Digest::hash(proof.as_ref()).coerce(), proof.dupe().into()));
-                    }
-
-                    for rev in dlg.payload.after_revocations.iter() {
-                        heads.push((Digest::hash(rev.as_ref()).coerce(), rev.dupe().into()));
-                    }
-
-                    // If this delegation is to a group, include the group's delegation heads
-                    if let Agent::Group(_group_id, group) = &dlg.payload.delegate {
-                        for dlg in group.lock().await.delegation_heads().values() {
-                            let dlg_hash = Digest::hash(dlg.as_ref()).coerce();
-                            if !visited_hashes.contains(&dlg_hash) {
-                                heads.push((dlg_hash, dlg.dupe().into()));
-                            }
-                        }
-                    }
-                }
-                MembershipOperation::Revocation(rev) => {
-                    if let Some(proof) = &rev.payload.proof {
-                        heads.push((Digest::hash(proof.as_ref()).coerce(), proof.dupe().into()));
-                    }
-
-                    let r = rev.payload.revoke.dupe();
-                    heads.push((Digest::hash(r.as_ref()).coerce(), r.into()));
-                }
-            }
-        }
-
-        ops
+        bfs_membership_ops(heads).await
     }
 
     /// Compute membership ops for all agents in a single pass.
@@ -1115,6 +1073,17 @@ impl<
             }
         }
 
+        // Former members, and members of groups that the agent is not in, are
+        // still mentioned by the operations that the agent will receive
+        for op in self.membership_ops_for_agent(agent).await.values() {
+            if let MembershipOperation::Delegation(dlg) = op {
+                let delegate = &dlg.payload.delegate;
+                if !map.contains_key(&delegate.id()) {
+                    add_many_keys(&mut map, delegate.id(), delegate.key_ops().await);
+                }
+            }
+        }
+
         map.into_iter()
             .map(|(id, keys)| (id, KeyOp::topsort(&keys)))
             .collect()
@@ -1209,6 +1178,23 @@ impl<
             }
         }
 
+        // Former members, and members of groups that an agent is not in, are
+        // still mentioned by the operations that the agent will receive
+        let membership = self.membership_ops_for_all_agents().await;
+        let mut delegates: HashMap<Identifier, HashSet<Identifier>> = HashMap::new();
+        for (source_id, source_ops) in &membership.ops {
+            let ids = delegates.entry(*source_id).or_default();
+            for op in source_ops.values() {
+                if let MembershipOperation::Delegation(dlg) = op {
+                    let delegate = &dlg.payload.delegate;
+                    ids.insert(delegate.id());
+                    if let Entry::Vacant(e) = key_ops_cache.entry(delegate.id()) {
+                        e.insert(delegate.key_ops().await);
+                    }
+                }
+            }
+        }
+
         // Include all registered individuals (even those not in any group/doc)
         for (id, indie) in self.individuals.lock().await.iter() {
             let agent_id: Identifier = (*id).into();
@@ -1258,6 +1244,13 @@ impl<
             }
         }
 
+        for (agent_id, sources) in &membership.index {
+            let entry = index.entry(*agent_id).or_default();
+            entry.insert(active_id);
+            entry.insert(*agent_id);
+            entry.extend(sources.iter().flat_map(|id| &delegates[id]));
+        }
+
         AllReachablePrekeyOps { ops, index }
     }
 
diff --git a/keyhive_core/src/principal/group/membership_operation.rs b/keyhive_core/src/principal/group/membership_operation.rs
index 8aeb8c8..891c9fb 100644
--- a/keyhive_core/src/principal/group/membership_operation.rs
+++ b/keyhive_core/src/principal/group/membership_operation.rs
@@ -602,10 +602,9 @@ pub fn collect_membership_heads<
 
 /// Enqueue BFS edges from a single [`MembershipOperation`].
 ///
-/// For delegations, follows the proof chain and any `after_revocations`.
-/// When `follow_group_heads` is true, also enqueues the group delegate's
-/// own delegation heads (used during full BFS but not when extending from
-/// a single revocation).
+/// For delegations, follows the proof chain and any `after_revocations`, as
+/// well as the delegation and revocation heads of a delegate that is itself a
+/// group or document.
 ///
 /// For revocations, follows the proof and revoke chains.
 async fn push_membership_edges<
@@ -617,7 +616,6 @@ async fn push_membership_edges<
     op: &MembershipOperation<F, S, T, L>,
     heads: &mut Vec<MembershipOpEntry<F, S, T, L>>,
     visited: &HashSet<Digest<MembershipOperation<F, S, T, L>>>,
-    follow_group_heads: bool,
 ) {
     match op {
         MembershipOperation::Delegation(dlg) => {
@@ -627,16 +625,24 @@ async fn push_membership_edges<
             for rev in dlg.payload.after_revocations.iter() {
                 heads.push((Digest::hash(rev.as_ref()).coerce(), rev.dupe().into()));
             }
-            if follow_group_heads {
-                if let Agent::Group(_group_id, group) = &dlg.payload.delegate {
-                    for dlg in group.lock().await.delegation_heads().values() {
-                        let dlg_hash = Digest::hash(dlg.as_ref()).coerce();
-                        if !visited.contains(&dlg_hash) {
-                            heads.push((dlg_hash, dlg.dupe().into()));
-                        }
-                    }
+            // If this delegation is to a group or document, include everything
+            // that determines its members
+            let delegate_heads = match &dlg.payload.delegate {
+                Agent::Group(_group_id, group) => {
+                    let locked = group.lock().await;
+                    collect_membership_heads(locked.delegation_heads(), locked.revocation_heads())
                 }
-            }
+                Agent::Document(_doc_id, doc) => {
+                    let locked = doc.lock().await;
+                    collect_membership_heads(locked.delegation_heads(), locked.revocation_heads())
+                }
+                Agent::Active(..) | Agent::Individual(..) => vec![],
+            };
+            heads.extend(
+                delegate_heads
+                    .into_iter()
+                    .filter(|(hash, _)| !visited.contains(hash)),
+            );
         }
         MembershipOperation::Revocation(rev) => {
             if let Some(proof) = &rev.payload.proof {
@@ -649,8 +655,8 @@ async fn push_membership_edges<
 }
 
 /// Walk all [`MembershipOperation`]s reachable from the given heads via BFS,
-/// following proof chains, revoke chains, and (for delegations to groups) the
-/// group's own delegation heads. Returns a map keyed by digest.
+/// following proof chains, revoke chains, and (for delegations to groups and
+/// documents) the delegate's own heads. Returns a map keyed by digest.
 pub async fn bfs_membership_ops<
     F: FutureForm,
     S: AsyncSigner<F>,
@@ -667,7 +673,7 @@ pub async fn bfs_membership_ops<
             continue;
         }
         visited.insert(hash);
-        push_membership_edges(&op, &mut heads, &visited, true).await;
+        push_membership_edges(&op, &mut heads, &visited).await;
         ops.insert(hash, op);
     }
 
@@ -700,7 +706,7 @@ pub async fn bfs_extend_from_revocation<
             continue;
         }
         visited.insert(hash);
-        push_membership_edges(&op, &mut heads, visited, false).await;
+        push_membership_edges(&op, &mut heads, visited).await;
         all_ops.entry(hash).or_insert(op);
     }
 }
-- 
2.43.0


From 15afcb9e3b4228783d0b18347192c470911a8cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:03 +0000
Subject: [PATCH 18/55] fix: sync: an agent is offered the revocations of
 groups it has access through, alone as in bulk

---
 keyhive_core/src/keyhive.rs | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 9f3cf54..7d3d23d 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -887,6 +887,7 @@ impl<
             MembershipOperation<F, S, T, L>,
         )> = Vec::new();
 
+        let mut revoked_ids = vec![agent.agent_id()];
         for (mem_rc, _max_acces) in self.membered_reachable_by_agent(agent).await.values() {
             for (hash, dlg_head) in mem_rc.delegation_heads().await.iter() {
                 heads.push((hash.coerce(), dlg_head.dupe().into()));
@@ -895,19 +896,24 @@ impl<
             for (hash, rev_head) in mem_rc.revocation_heads().await.iter() {
                 heads.push((hash.coerce(), rev_head.dupe().into()));
             }
+
+            revoked_ids.push(mem_rc.agent_id());
         }
 
-        // Include any revocations for this agent that were missed
-        if let Some(agent_revocations) = self
-            .revocations
-            .lock()
-            .await
-            .get_revocations_for_agent(&agent.agent_id())
-        {
-            for rev in agent_revocations {
-                let hash: Digest<MembershipOperation<F, S, T, L>> =
-                    Digest::hash(rev.as_ref()).coerce();
-                heads.push((hash, rev.into()));
+        // Include any revocations that were missed for this agent, or for a
+        // group or document that it has access through
+        for agent_id in revoked_ids {
+            if let Some(agent_revocations) = self
+                .revocations
+                .lock()
+                .await
+                .get_revocations_for_agent(&agent_id)
+            {
+                for rev in agent_revocations {
+                    let hash: Digest<MembershipOperation<F, S, T, L>> =
+                        Digest::hash(rev.as_ref()).coerce();
+                    heads.push((hash, rev.into()));
+                }
             }
         }
 
-- 
2.43.0


From 71060f5292895d56f631770a3cfa0664c17f30ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:36 +0000
Subject: [PATCH 19/55] fix: prekeys: picking one stays in range, and rotations
 of each other's keys leave some

---
 keyhive_core/src/principal/individual.rs       | 2 +-
 keyhive_core/src/principal/individual/state.rs | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/keyhive_core/src/principal/individual.rs b/keyhive_core/src/principal/individual.rs
index da4572c..7bdf281 100644
--- a/keyhive_core/src/principal/individual.rs
+++ b/keyhive_core/src/principal/individual.rs
@@ -222,7 +222,7 @@ fn pseudorandom_in_range(seed: &[u8], max: usize) -> usize {
     while idx.is_none() {
         hash_stream.fill(&mut buf);
         let raw_idx: usize = clamp(buf, shiftsize);
-        if raw_idx <= max {
+        if raw_idx < max || max == 0 {
             idx = Some(raw_idx)
         }
     }
diff --git a/keyhive_core/src/principal/individual/state.rs b/keyhive_core/src/principal/individual/state.rs
index 561fa8e..4e13a60 100644
--- a/keyhive_core/src/principal/individual/state.rs
+++ b/keyhive_core/src/principal/individual/state.rs
@@ -138,10 +138,16 @@ impl PrekeyState {
             }
         }
 
+        let all_keys = keys.clone();
         for tombstone in to_drop {
             keys.remove(&tombstone);
         }
 
+        // Rotations may replace each other's keys, but there is always a key
+        if keys.is_empty() {
+            return all_keys;
+        }
+
         keys
     }
 }
-- 
2.43.0


From 9ad8cf5ba6856ad2cff1016ca741312250ddecc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:36 +0000
Subject: [PATCH 20/55] fix: prekeys: exported operations include rotations of
 unknown keys, and rotation cycles end

---
 keyhive_core/src/principal/individual/op.rs | 27 +++++++++++++++------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/keyhive_core/src/principal/individual/op.rs b/keyhive_core/src/principal/individual/op.rs
index 2963a81..2845845 100644
--- a/keyhive_core/src/principal/individual/op.rs
+++ b/keyhive_core/src/principal/individual/op.rs
@@ -14,7 +14,7 @@ use keyhive_crypto::{
 };
 use serde::{Deserialize, Serialize};
 use std::{
-    collections::{HashMap, HashSet},
+    collections::{BTreeMap, HashMap, HashSet},
     sync::Arc,
 };
 
@@ -35,14 +35,20 @@ pub enum KeyOp {
 
 impl KeyOp {
     pub fn topsort(key_ops: &CaMap<KeyOp>) -> Vec<Arc<KeyOp>> {
+        let provided: HashSet<&ShareKey> = key_ops.values().map(|op| op.new_key()).collect();
         let mut heads: Vec<Arc<KeyOp>> = vec![];
-        let mut rotate_key_ops: HashMap<ShareKey, Vec<Arc<KeyOp>>> = HashMap::new();
+        let mut rotate_key_ops: BTreeMap<ShareKey, Vec<Arc<KeyOp>>> = BTreeMap::new();
 
         for key_op in key_ops.values() {
             match key_op.as_ref() {
                 KeyOp::Add(_add) => {
                     heads.push(key_op.dupe());
                 }
+                // NOTE: the rotated key may be unknown, such as when
+                // the operation came on its own in a contact card
+                KeyOp::Rotate(rot) if !provided.contains(&rot.payload.old) => {
+                    heads.push(key_op.dupe());
+                }
                 KeyOp::Rotate(rot) => {
                     rotate_key_ops
                         .entry(rot.payload.old)
@@ -54,14 +60,21 @@ impl KeyOp {
 
         let mut topsorted = vec![];
 
-        while let Some(head) = heads.pop() {
-            if let Some(ops) = rotate_key_ops.get(head.new_key()) {
-                for op in ops.iter() {
-                    heads.push(op.dupe());
+        loop {
+            while let Some(head) = heads.pop() {
+                // Leaves nothing to visit again, including for a key added twice
+                if let Some(ops) = rotate_key_ops.remove(head.new_key()) {
+                    heads.extend(ops);
                 }
+
+                topsorted.push(head);
             }
 
-            topsorted.push(head.dupe());
+            // Rotations of each other's keys
+            let Some(key) = rotate_key_ops.keys().next().copied() else {
+                break;
+            };
+            heads.extend(rotate_key_ops.remove(&key).unwrap_or_default());
         }
 
         topsorted
-- 
2.43.0


From a4beb5d09f588a98ae1394834132efaa811bd90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:36 +0000
Subject: [PATCH 21/55] fix: prekeys: verify before use, and report received
 operations to the listener

---
 keyhive_core/src/keyhive.rs | 47 +++++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 15 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 7d3d23d..283eb5e 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -344,19 +344,32 @@ impl<
         &self,
         contact_card: &ContactCard,
     ) -> Result<Arc<Mutex<Individual>>, ReceivePrekeyOpError> {
-        let result = if let Some(indie) = self.get_individual(contact_card.id()).await {
-            indie
-                .lock()
-                .await
-                .receive_prekey_op(contact_card.op().dupe())?;
-            indie.dupe()
+        let op = contact_card.op();
+        op.try_verify()?;
+
+        let (result, is_new) = if let Some(indie) = self.get_individual(contact_card.id()).await {
+            let is_new = {
+                let mut locked = indie.lock().await;
+                let is_new = !locked.prekey_ops().contains_value(op);
+                locked.receive_prekey_op(op.dupe())?;
+                is_new
+            };
+            (indie, is_new)
         } else {
             let new_user = Arc::new(Mutex::new(Individual::from(contact_card)));
             self.register_individual(new_user.dupe()).await;
-            new_user
+            (new_user, true)
         };
 
-        match contact_card.op() {
+        if is_new {
+            self.report_prekey_op(op).await;
+        }
+
+        Ok(result)
+    }
+
+    async fn report_prekey_op(&self, op: &KeyOp) {
+        match op {
             KeyOp::Add(add_op) => {
                 self.event_listener.on_prekeys_expanded(add_op).await;
             }
@@ -364,8 +377,6 @@ impl<
                 self.event_listener.on_prekey_rotated(rot_op).await;
             }
         }
-
-        Ok(result)
     }
 
     #[instrument(skip_all)]
@@ -1501,14 +1512,16 @@ impl<
         if id == Public.id() {
             return Ok(());
         }
-        let agent = if let Some(agent) = self.get_agent(id).await {
-            agent
-        } else {
+        key_op.try_verify()?;
+
+        let Some(agent) = self.get_agent(id).await else {
             let indie = Arc::new(Mutex::new(Individual::new(key_op.clone())));
-            self.register_individual(indie.dupe()).await;
-            Agent::Individual(id.into(), indie)
+            self.register_individual(indie).await;
+            self.report_prekey_op(key_op).await;
+            return Ok(());
         };
 
+        let is_new = !agent.key_ops().await.contains_value(key_op);
         match agent {
             Agent::Active(_, active) => {
                 active
@@ -1542,6 +1555,10 @@ impl<
             }
         }
 
+        if is_new {
+            self.report_prekey_op(key_op).await;
+        }
+
         Ok(())
     }
 
-- 
2.43.0


From e419f59c0158e7693b81d3ee9a2d3b04a78dad8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:40 +0000
Subject: [PATCH 22/55] fix: adding a member before the key agreement has
 arrived fails without half doing it

---
 keyhive_core/src/keyhive.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 283eb5e..be31e5b 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -499,6 +499,30 @@ impl<
         other_relevant_docs: &[Arc<Mutex<Document<F, S, T, L>>>], // TODO make this automatic
     ) -> Result<AddMemberUpdate<F, S, T, L>, AddMemberError> {
         let signer = { self.active.lock().await.signer.clone() };
+
+        // The key agreement of an affected document may not have arrived yet. Find
+        // that out before the delegation is made and reported.
+        if can.is_reader() {
+            let docs = { self.docs.lock().await.values().cloned().collect::<Vec<_>>() };
+            let resource_id: Identifier = resource.agent_id().into();
+            for doc in &docs {
+                let (id, transitive) = {
+                    let locked = doc.lock().await;
+                    if locked.cgka().is_ok() {
+                        continue;
+                    }
+                    (locked.id(), locked.transitive_members().await)
+                };
+                if id == resource_id
+                    || transitive
+                        .get(&resource_id)
+                        .is_some_and(|(_, access)| access.is_reader())
+                {
+                    return Err(CgkaError::NotInitialized.into());
+                }
+            }
+        }
+
         let mut update = resource
             .add_member(to_add, can, &signer, other_relevant_docs)
             .await?;
-- 
2.43.0


From 1f1b60cbf1978935413874e23f6ff7b3377925d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:23 +0000
Subject: [PATCH 23/55] fix: revoking a member updates key agreement even if
 another member cannot be retained

---
 keyhive_core/src/keyhive.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index be31e5b..8583ca8 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -592,8 +592,12 @@ impl<
         let mut containing_docs = Vec::new();
         let docs = { self.docs.lock().await.values().cloned().collect::<Vec<_>>() };
         for doc in docs {
-            let transitive = doc.lock().await.transitive_members().await;
-            if !transitive.contains_key(&resource.agent_id().into()) {
+            let (id, transitive) = {
+                let locked = doc.lock().await;
+                (locked.id(), locked.transitive_members().await)
+            };
+            let resource_id: Identifier = resource.agent_id().into();
+            if id != resource_id && !transitive.contains_key(&resource_id) {
                 continue;
             }
             let individuals: Vec<IndividualId> = transitive
@@ -606,14 +610,21 @@ impl<
             containing_docs.push((doc, individuals));
         }
 
-        let mut update = resource
+        // This can fail after some revocations have been made and reported, such as
+        // when another member cannot be retained. Whoever lost access by then must
+        // also leave the key agreement.
+        let (mut update, failed) = match resource
             .revoke_member(
                 to_revoke,
                 retain_all_other_members,
                 &signer,
                 &mut relevant_docs,
             )
-            .await?;
+            .await
+        {
+            Ok(update) => (update, None),
+            Err(e) => (RevokeMemberUpdate::default(), Some(e)),
+        };
 
         // Propagate CGKA removals to docs that contain this group or document.
         for (doc, individuals) in containing_docs {
@@ -635,7 +646,10 @@ impl<
                 .await;
         }
 
-        Ok(update)
+        match failed {
+            Some(e) => Err(e),
+            None => Ok(update),
+        }
     }
 
     /// Encrypt content for a document.
-- 
2.43.0


From b8ee886ff52be5e3bef5a78ed13db7605f069852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:11 +0000
Subject: [PATCH 24/55] fix: re-adding a member brings those it had delegated
 to back into key agreement

---
 keyhive_core/src/keyhive.rs | 88 ++++++++++++++++++++-----------------
 1 file changed, 47 insertions(+), 41 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 8583ca8..ad88275 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -500,26 +500,34 @@ impl<
     ) -> Result<AddMemberUpdate<F, S, T, L>, AddMemberError> {
         let signer = { self.active.lock().await.signer.clone() };
 
-        // The key agreement of an affected document may not have arrived yet. Find
-        // that out before the delegation is made and reported.
+        // Who can read the affected documents: the resource itself, and the documents
+        // that contain it.
+        // TODO: O(# of docs x `transitive_members()`). We should replace this approach
+        // (possibly with a reverse index lookup).
+        let mut affected = Vec::new();
         if can.is_reader() {
             let docs = { self.docs.lock().await.values().cloned().collect::<Vec<_>>() };
             let resource_id: Identifier = resource.agent_id().into();
-            for doc in &docs {
-                let (id, transitive) = {
+            for doc in docs {
+                let (id, transitive, has_cgka) = {
                     let locked = doc.lock().await;
-                    if locked.cgka().is_ok() {
-                        continue;
-                    }
-                    (locked.id(), locked.transitive_members().await)
+                    (
+                        locked.id(),
+                        locked.transitive_members().await,
+                        locked.cgka().is_ok(),
+                    )
                 };
-                if id == resource_id
-                    || transitive
-                        .get(&resource_id)
-                        .is_some_and(|(_, access)| access.is_reader())
-                {
+                if id != resource_id && !transitive.contains_key(&resource_id) {
+                    continue;
+                }
+                if !has_cgka && (id == resource_id || transitive[&resource_id].1.is_reader()) {
+                    // The key agreement may not have arrived yet. Find that out before
+                    // the delegation is made and reported.
                     return Err(CgkaError::NotInitialized.into());
                 }
+                let readers: HashSet<IndividualId> =
+                    individual_readers(transitive).into_keys().collect();
+                affected.push((doc, readers));
             }
         }
 
@@ -527,36 +535,34 @@ impl<
             .add_member(to_add, can, &signer, other_relevant_docs)
             .await?;
 
-        // Propagate CGKA adds to docs that contain this group or document.
-        // TODO: O(# of docs x `transitive_members()`). We should replace this approach
-        // (possibly with a reverse index lookup).
-        if can.is_reader() {
-            let docs = { self.docs.lock().await.values().cloned().collect::<Vec<_>>() };
-            for doc in &docs {
-                let (transitive, doc_id) = {
-                    let locked = doc.lock().await;
-                    (locked.transitive_members().await, locked.doc_id())
-                };
-                if !transitive.contains_key(&resource.agent_id().into()) {
-                    continue;
+        // Propagate CGKA adds to the affected documents. Re-adding a member also
+        // brings back the members it had delegated to.
+        for (doc, were_readers) in affected {
+            let (transitive, doc_id) = {
+                let locked = doc.lock().await;
+                (locked.transitive_members().await, locked.doc_id())
+            };
+            // Document lock is intentionally dropped before `pick_individual_prekeys`,
+            // which may lock groups (walking group members to find
+            // individuals).
+            let mut prekeys = update
+                .delegation
+                .payload
+                .delegate
+                .pick_individual_prekeys(doc_id)
+                .await;
+            let readers = individual_readers(transitive);
+            prekeys.retain(|id, _| readers.contains_key(id));
+            for (id, agent) in &readers {
+                if !were_readers.contains(id) && !prekeys.contains_key(id) {
+                    prekeys.extend(agent.pick_individual_prekeys(doc_id).await);
                 }
-                // Document lock is intentionally dropped before `pick_individual_prekeys`,
-                // which may lock groups (walking group members to find
-                // individuals).
-                let mut prekeys = update
-                    .delegation
-                    .payload
-                    .delegate
-                    .pick_individual_prekeys(doc_id)
-                    .await;
-                let readers = individual_readers(transitive);
-                prekeys.retain(|id, _| readers.contains_key(id));
-                let mut locked_doc = doc.lock().await;
-                let ops = locked_doc
-                    .add_cgka_members_from_prekeys(&prekeys, &signer)
-                    .await?;
-                update.cgka_ops.extend(ops);
             }
+            let mut locked_doc = doc.lock().await;
+            let ops = locked_doc
+                .add_cgka_members_from_prekeys(&prekeys, &signer)
+                .await?;
+            update.cgka_ops.extend(ops);
         }
 
         for cgka_op in &update.cgka_ops {
-- 
2.43.0


From fae3d34ed4050591a5c6677527c7dbb1827f4235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:09 +0000
Subject: [PATCH 25/55] fix: key agreement: a replica only acts as its own
 member, and keeps doing so when Public is added

---
 keyhive_core/src/cgka.rs               |  4 ++++
 keyhive_core/src/keyhive.rs            | 16 ++++++++++++++--
 keyhive_core/src/principal/document.rs | 14 ++++++++------
 3 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/keyhive_core/src/cgka.rs b/keyhive_core/src/cgka.rs
index 03ae449..4666b31 100644
--- a/keyhive_core/src/cgka.rs
+++ b/keyhive_core/src/cgka.rs
@@ -121,6 +121,10 @@ impl Cgka {
         Ok(Digest::hash(&pcs_key))
     }
 
+    pub fn owner_id(&self) -> IndividualId {
+        self.0.owner_id.into()
+    }
+
     pub fn owner_sks(&self) -> &ShareKeyMap {
         &self.0.owner_sks
     }
diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index ad88275..6e73426 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -1837,8 +1837,9 @@ impl<
             } else if Public.individual().id() == added_id {
                 let sk = Public.share_secret_key();
                 let mut locked_doc = doc.lock().await;
+                let owner_id = locked_doc.cgka()?.owner_id();
                 let merged = locked_doc.merge_cgka_invite_op(signed_op.clone(), &sk)?;
-                locked_doc.reset_cgka_owner(active_id)?;
+                locked_doc.reset_cgka_owner(owner_id)?;
                 drop(locked_doc);
                 if merged {
                     self.event_listener.on_cgka_op(&signed_op).await;
@@ -1846,7 +1847,18 @@ impl<
                 return Ok(());
             }
         }
-        if doc.lock().await.merge_cgka_op(signed_op.clone())? {
+        let active_id = { self.active.lock().await.id() };
+        let merged = {
+            let mut locked_doc = doc.lock().await;
+            let is_initial = locked_doc.cgka().is_err();
+            let merged = locked_doc.merge_cgka_op(signed_op.clone())?;
+            if is_initial && merged {
+                // The initial member is the document itself, which its creator acts as.
+                locked_doc.reset_cgka_owner(active_id)?;
+            }
+            merged
+        };
+        if merged {
             self.event_listener.on_cgka_op(&signed_op).await;
         }
         Ok(())
diff --git a/keyhive_core/src/principal/document.rs b/keyhive_core/src/principal/document.rs
index fe784bd..52fca69 100644
--- a/keyhive_core/src/principal/document.rs
+++ b/keyhive_core/src/principal/document.rs
@@ -431,13 +431,15 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         {
             return Err(CgkaError::OutOfOrderOperation);
         }
-        let mut owner_sks = self.cgka()?.owner_sks().clone();
+        let previous = self.cgka()?.clone();
+        let mut owner_sks = previous.owner_sks().clone();
         owner_sks.insert(pk, *sk);
-        self.cgka = Some(
-            self.cgka()?
-                .with_new_owner(IndividualId::from(added_id), owner_sks)?,
-        );
-        self.merge_cgka_op(op)
+        self.cgka = Some(previous.with_new_owner(IndividualId::from(added_id), owner_sks)?);
+        let merged = self.merge_cgka_op(op);
+        if merged.is_err() {
+            self.cgka = Some(previous);
+        }
+        merged
     }
 
     /// Reset the CGKA owner to `owner_id`, preserving `owner_sks`.
-- 
2.43.0


From c16c98936d6a5bd5fabd363a7b2248336e56940c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:13 +0000
Subject: [PATCH 26/55] fix: key agreement: revoking a document's creator also
 removes the document's own member, whose keys it holds

---
 beekem/src/cgka.rs                     | 25 ++++++++++--------------
 keyhive_core/src/keyhive.rs            |  4 ++--
 keyhive_core/src/principal/document.rs | 27 ++++++++++++++++++++------
 3 files changed, 33 insertions(+), 23 deletions(-)

diff --git a/beekem/src/cgka.rs b/beekem/src/cgka.rs
index 7e6e6c5..74ec11b 100644
--- a/beekem/src/cgka.rs
+++ b/beekem/src/cgka.rs
@@ -502,23 +502,18 @@ impl Cgka {
 
     /// Decrypt tree secret to derive [`PcsKey`].
     pub fn pcs_key_from_tree_root(&mut self) -> Result<PcsKey, CgkaError> {
-        let key = match self
+        let mut key = self
             .tree
-            .decrypt_tree_secret(self.owner_id, &mut self.owner_sks)
-        {
-            Ok(k) => k,
-            Err(e) => {
-                // When deriving as the owner fails and Public is a member, read as
-                // Public instead.
-                let public = MemberId::public();
-                if self.owner_id != public && self.tree.contains_id(&public) {
-                    self.tree.decrypt_tree_secret(public, &mut self.owner_sks)?
-                } else {
-                    return Err(e);
-                }
+            .decrypt_tree_secret(self.owner_id, &mut self.owner_sks);
+        // When deriving as the owner fails and Public is a member, read as Public
+        // instead. Likewise whoever created the group can read as its initial
+        // member, even if it has later been added under its own identity.
+        for id in [MemberId::public(), self.original_member.0] {
+            if key.is_err() && self.owner_id != id && self.tree.contains_id(&id) {
+                key = self.tree.decrypt_tree_secret(id, &mut self.owner_sks);
             }
-        };
-        Ok(PcsKey::new(key))
+        }
+        Ok(PcsKey::new(key?))
     }
 
     /// Derive [`PcsKey`] for provided hashes.
diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 6e73426..fd6dae0 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -640,8 +640,8 @@ impl<
                 if still_reading.contains_key(&id) {
                     continue;
                 }
-                if let Ok(Some(op)) = locked_doc.remove_cgka_member(id, &signer).await {
-                    update.cgka_ops.push(op);
+                if let Ok(ops) = locked_doc.remove_cgka_member(id, &signer).await {
+                    update.cgka_ops.extend(ops);
                 }
             }
         }
diff --git a/keyhive_core/src/principal/document.rs b/keyhive_core/src/principal/document.rs
index 52fca69..953acda 100644
--- a/keyhive_core/src/principal/document.rs
+++ b/keyhive_core/src/principal/document.rs
@@ -331,12 +331,9 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         let still_reading = self.group.individual_readers().await;
         ids_to_remove.retain(|id| !still_reading.contains_key(id));
 
-        // FIXME: We need to check if this has revoked the last member in our group.
         let mut ops = cgka_ops;
         for id in ids_to_remove {
-            if let Some(op) = self.cgka_mut()?.remove(id, signer).await? {
-                ops.push(op);
-            }
+            ops.extend(self.remove_cgka_member(id, signer).await?);
         }
         Ok(RevokeMemberUpdate {
             revocations,
@@ -345,13 +342,31 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         })
     }
 
+    /// Remove an individual from this document's [`Cgka`].
+    ///
+    /// The creator of a document also holds the keys of the document's own,
+    /// initial member, so that goes with it. The last member stays.
     #[instrument(skip_all)]
     pub async fn remove_cgka_member(
         &mut self,
         id: IndividualId,
         signer: &S,
-    ) -> Result<Option<Signed<CgkaOperation>>, CgkaError> {
-        self.cgka_mut()?.remove(id, signer).await
+    ) -> Result<Vec<Signed<CgkaOperation>>, CgkaError> {
+        let mut ids = Vec::new();
+        if self.cgka()?.init_add_op().issuer == id.verifying_key() {
+            ids.push(IndividualId(self.id()));
+        }
+        ids.push(id);
+        let mut ops = Vec::new();
+        for id in ids {
+            match self.cgka_mut()?.remove(id, signer).await {
+                Ok(op) => ops.extend(op),
+                // There is nobody left to keep the keys from.
+                Err(CgkaError::RemoveLastMember) => {}
+                Err(e) => return Err(e),
+            }
+        }
+        Ok(ops)
     }
 
     pub async fn get_agent_revocations(
-- 
2.43.0


From d936d04ab1300c46d60ee003db8c1d1345d4dc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:45 +0000
Subject: [PATCH 27/55] fix: beekem: a ciphertext's claims about its key are
 checked, not remembered

---
 beekem/src/cgka.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/beekem/src/cgka.rs b/beekem/src/cgka.rs
index 74ec11b..c730cfa 100644
--- a/beekem/src/cgka.rs
+++ b/beekem/src/cgka.rs
@@ -216,9 +216,6 @@ impl Cgka {
     ) -> Result<SymmetricKey, CgkaError> {
         let pcs_key =
             self.pcs_key_from_hashes(&encrypted.pcs_key_hash, &encrypted.pcs_update_op_hash)?;
-        if !self.pcs_keys.contains_key(&encrypted.pcs_key_hash) {
-            self.insert_pcs_key(&pcs_key, encrypted.pcs_update_op_hash);
-        }
         let app_secret = pcs_key.derive_application_secret(
             &encrypted.nonce,
             &encrypted.content_ref,
@@ -532,11 +529,19 @@ impl Cgka {
         if self.has_pcs_key() {
             if let Ok(pcs_key) = self.pcs_key_from_tree_root() {
                 if &Digest::hash(&pcs_key) == pcs_key_hash {
+                    // Not `update_op_hash`, which nothing vouches for.
+                    if let Some(head) = self.ops_graph.cgka_op_heads.iter().next().copied() {
+                        self.insert_pcs_key(&pcs_key, head);
+                    }
                     return Ok(pcs_key);
                 }
             }
         }
-        self.derive_pcs_key_for_op(update_op_hash)
+        let pcs_key = self.derive_pcs_key_for_op(update_op_hash)?;
+        if &Digest::hash(&pcs_key) != pcs_key_hash {
+            return Err(CgkaError::UnknownPcsKey);
+        }
+        Ok(pcs_key)
     }
 
     /// Derive [`PcsKey`] for this operation hash.
@@ -595,10 +600,9 @@ impl Cgka {
     /// list of [`CgkaEpoch`]s.
     #[instrument(skip_all)]
     fn rebuild_pcs_key(&mut self, epochs: NonEmpty<CgkaEpoch>) -> Result<PcsKey, CgkaError> {
-        debug_assert!(matches!(
-            epochs.last()[0].payload,
-            CgkaOperation::Update { .. }
-        ));
+        if !matches!(epochs.last()[0].payload, CgkaOperation::Update { .. }) {
+            return Err(CgkaError::UnknownPcsKey);
+        }
         let mut rebuilt_cgka = Cgka::new_from_init_add(
             self.doc_id,
             self.original_member.0,
-- 
2.43.0


From 40beb772f621d39a47aa0d6d8093c1a8865ebe39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:34 +0000
Subject: [PATCH 28/55] fix: causal decryption no longer reports content as
 undecryptable that it did decrypt with another key

---
 keyhive_core/src/store/ciphertext.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/keyhive_core/src/store/ciphertext.rs b/keyhive_core/src/store/ciphertext.rs
index c9e9f00..0cf8c0a 100644
--- a/keyhive_core/src/store/ciphertext.rs
+++ b/keyhive_core/src/store/ciphertext.rs
@@ -219,6 +219,8 @@ impl<F: FutureForm, Cr: ContentRef, T, S: CiphertextStore<F, Cr, T>> CiphertextS
                                     }
                                 }
 
+                                // An earlier attempt may have used another key
+                                cannot.remove(&content_ref);
                                 progress
                                     .complete
                                     .push((ciphertext.content_ref.clone(), envelope.plaintext));
-- 
2.43.0


From 509d4927fcd101ef06e50141832c9e59d84addf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:34 +0000
Subject: [PATCH 29/55] fix: keep the key of an ancestor whose ciphertext could
 not be fetched

---
 keyhive_core/src/store/ciphertext.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/keyhive_core/src/store/ciphertext.rs b/keyhive_core/src/store/ciphertext.rs
index 0cf8c0a..c6b386a 100644
--- a/keyhive_core/src/store/ciphertext.rs
+++ b/keyhive_core/src/store/ciphertext.rs
@@ -201,12 +201,15 @@ impl<F: FutureForm, Cr: ContentRef, T, S: CiphertextStore<F, Cr, T>> CiphertextS
                                 for (ancestor_ref, ancestor_key) in envelope.ancestors.iter() {
                                     match self.get_ciphertext(ancestor_ref).await {
                                         Err(e) => {
-                                            seen.remove(&content_ref);
+                                            // This content is complete, and with it goes the
+                                            // only copy of the ancestor's key: keep that.
+                                            progress
+                                                .next
+                                                .insert(ancestor_ref.clone(), *ancestor_key);
                                             cannot.insert(
-                                                content_ref.clone(),
+                                                ancestor_ref.clone(),
                                                 ErrorReason::GetCiphertextError(e),
                                             );
-                                            continue;
                                         }
                                         Ok(None) => {
                                             progress
@@ -221,6 +224,7 @@ impl<F: FutureForm, Cr: ContentRef, T, S: CiphertextStore<F, Cr, T>> CiphertextS
 
                                 // An earlier attempt may have used another key
                                 cannot.remove(&content_ref);
+                                progress.next.remove(&content_ref);
                                 progress
                                     .complete
                                     .push((ciphertext.content_ref.clone(), envelope.plaintext));
-- 
2.43.0


From 07743e87dbdd3bffee37fa63ce3ee8d99c14dc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:31 +0000
Subject: [PATCH 30/55] fix: report the keys of direct ancestors that are not
 in the store

---
 keyhive_core/src/principal/document.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/keyhive_core/src/principal/document.rs b/keyhive_core/src/principal/document.rs
index 953acda..b5ab55c 100644
--- a/keyhive_core/src/principal/document.rs
+++ b/keyhive_core/src/principal/document.rs
@@ -597,7 +597,19 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             }
         }
 
-        Ok(store.try_causal_decrypt(&mut to_decrypt).await?)
+        // The keys of direct ancestors that are not in the store are part of the
+        // result, just like those of more distant ones.
+        let missing = acc.next;
+        match store.try_causal_decrypt(&mut to_decrypt).await {
+            Ok(mut progress) => {
+                progress.next.extend(missing);
+                Ok(progress)
+            }
+            Err(mut e) => {
+                e.progress.next.extend(missing);
+                Err(e.into())
+            }
+        }
     }
 
     #[instrument(skip_all)]
-- 
2.43.0


From d330ac4d388b31892fa607d7dfa715e81224b20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:26 +0000
Subject: [PATCH 31/55] fix: ciphertexts stored under an update are those of
 that update, also after removals

---
 keyhive_core/src/store/ciphertext/memory.rs | 46 ++++++++++-----------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/keyhive_core/src/store/ciphertext/memory.rs b/keyhive_core/src/store/ciphertext/memory.rs
index 590a662..a05d8c6 100644
--- a/keyhive_core/src/store/ciphertext/memory.rs
+++ b/keyhive_core/src/store/ciphertext/memory.rs
@@ -76,7 +76,10 @@ impl<Cr: ContentRef, P> MemoryCiphertextStore<Cr, P> {
                     if let Some(digests) = locked.refs_to_digests.get(content_ref) {
                         for digest in digests.iter() {
                             if let Some((_, encrypted)) = locked.store.get(digest) {
-                                acc.push(encrypted.dupe());
+                                // Content can be stored under several updates
+                                if &encrypted.pcs_update_op_hash == pcs_update_op {
+                                    acc.push(encrypted.dupe());
+                                }
                             }
                         }
                     }
@@ -133,31 +136,28 @@ impl<Cr: ContentRef, P> MemoryCiphertextStore<Cr, P> {
         let mut locked = self.0.lock().await;
         let (_, encrypted) = locked.store.remove(digest)?;
 
-        locked
-            .ops_to_refs
-            .entry(encrypted.pcs_update_op_hash)
-            .and_modify(|crs| {
-                crs.remove(&encrypted.content_ref);
+        let inner = &mut *locked;
+        let mut still_in_op = false;
+        if let Some(digests) = inner.refs_to_digests.get_mut(&encrypted.content_ref) {
+            digests.remove(digest);
+            // The same content can be stored under this update more than once
+            still_in_op = digests.iter().any(|d| {
+                inner
+                    .store
+                    .get(d)
+                    .is_some_and(|(_, e)| e.pcs_update_op_hash == encrypted.pcs_update_op_hash)
             });
-
-        if locked
-            .ops_to_refs
-            .get(&encrypted.pcs_update_op_hash)?
-            .is_empty()
-        {
-            locked.ops_to_refs.remove(&encrypted.pcs_update_op_hash);
+            if digests.is_empty() {
+                inner.refs_to_digests.remove(&encrypted.content_ref);
+            }
         }
 
-        locked
-            .refs_to_digests
-            .entry(encrypted.content_ref.clone())
-            .and_modify(|digests| {
-                digests.remove(digest);
-            });
-
-        if let Some(digests) = locked.refs_to_digests.get(&encrypted.content_ref) {
-            if digests.is_empty() {
-                locked.refs_to_digests.remove(&encrypted.content_ref);
+        if !still_in_op {
+            if let Some(crs) = inner.ops_to_refs.get_mut(&encrypted.pcs_update_op_hash) {
+                crs.remove(&encrypted.content_ref);
+                if crs.is_empty() {
+                    inner.ops_to_refs.remove(&encrypted.pcs_update_op_hash);
+                }
             }
         }
 
-- 
2.43.0


From 413a8cd1e4932184e1133bc14bef46df9c243e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:37 +0000
Subject: [PATCH 32/55] fix: causal decryption does not report as missing what
 it has already decrypted

---
 keyhive_core/src/store/ciphertext.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/keyhive_core/src/store/ciphertext.rs b/keyhive_core/src/store/ciphertext.rs
index c6b386a..159199f 100644
--- a/keyhive_core/src/store/ciphertext.rs
+++ b/keyhive_core/src/store/ciphertext.rs
@@ -199,6 +199,11 @@ impl<F: FutureForm, Cr: ContentRef, T, S: CiphertextStore<F, Cr, T>> CiphertextS
                             }
                             Ok(envelope) => {
                                 for (ancestor_ref, ancestor_key) in envelope.ancestors.iter() {
+                                    if seen.contains(ancestor_ref) {
+                                        // Already decrypted
+                                        continue;
+                                    }
+
                                     match self.get_ciphertext(ancestor_ref).await {
                                         Err(e) => {
                                             // This content is complete, and with it goes the
-- 
2.43.0


From 49d8c93bed092f903bb24f28530abaacb8e46be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:30 +0000
Subject: [PATCH 33/55] fix: a group taken out of an archive knows who was
 revoked from it

---
 keyhive_core/src/keyhive.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index fd6dae0..05736dc 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -2210,6 +2210,9 @@ impl<
                 );
             }
 
+            // The active revocations are not part of the archive
+            group.rebuild().await;
+
             Ok(())
         }
 
-- 
2.43.0


From 345115db0c0657ab8a2756db6085eb1d54ee4dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:27 +0000
Subject: [PATCH 34/55] fix: receiving an invitation again does not change who
 the replica acts as

---
 keyhive_core/src/principal/document.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/keyhive_core/src/principal/document.rs b/keyhive_core/src/principal/document.rs
index b5ab55c..54544e1 100644
--- a/keyhive_core/src/principal/document.rs
+++ b/keyhive_core/src/principal/document.rs
@@ -446,6 +446,13 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         {
             return Err(CgkaError::OutOfOrderOperation);
         }
+        if self
+            .cgka()?
+            .contains_predecessors(&HashSet::from_iter([Digest::hash(op.as_ref())]))
+        {
+            // Received again, which changes nothing
+            return Ok(false);
+        }
         let previous = self.cgka()?.clone();
         let mut owner_sks = previous.owner_sks().clone();
         owner_sks.insert(pk, *sk);
-- 
2.43.0


From edd4b80012ee7b6be927f4ee124875aa61d73dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:29 +0000
Subject: [PATCH 35/55] fix: loading an archive also loads key agreement and
 pending events, and reports what is new

---
 keyhive_core/src/keyhive.rs            | 63 +++++++++++++++++---------
 keyhive_core/src/principal/document.rs | 28 ++++++++++++
 2 files changed, 69 insertions(+), 22 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 05736dc..28e4f57 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -4,7 +4,7 @@ use crate::{
     ability::Ability,
     access::Access,
     archive::Archive,
-    cgka::AllCgkaOps,
+    cgka::{AllCgkaOps, Cgka},
     contact_card::ContactCard,
     crypto::signed_ext::{SignedId, SignedSubjectId},
     error::missing_dependency::MissingDependency,
@@ -2291,30 +2291,24 @@ impl<
         tracing::debug!("Keyhive::ingest_archive()");
         {
             let locked_active = self.active.lock().await;
-            {
-                locked_active
-                    .prekey_pairs
-                    .lock()
-                    .await
-                    .extend(archive.active.prekey_pairs);
-            }
-            {
-                locked_active
-                    .individual
-                    .lock()
-                    .await
-                    .merge(archive.active.individual);
-            }
+            locked_active
+                .prekey_pairs
+                .lock()
+                .await
+                .extend(archive.active.prekey_pairs);
         }
 
-        for (id, indie) in archive.individuals {
-            let mut locked_indies = self.individuals.lock().await;
-            if let Some(our_indie) = locked_indies.get_mut(&id) {
-                our_indie.merge_async(indie).await;
-            } else {
-                locked_indies.insert(id, Arc::new(Mutex::new(indie)));
+        let archived_individual = archive.active.individual;
+        for indie in archive
+            .individuals
+            .into_values()
+            .chain([archived_individual])
+        {
+            for op in indie.prekey_ops().values() {
+                self.receive_prekey_op(op).await?;
             }
         }
+
         let events = archive
             .topsorted_ops
             .into_iter()
@@ -2323,7 +2317,32 @@ impl<
                 StaticMembershipOperation::Revocation(signed) => StaticEvent::Revoked(signed),
             })
             .collect::<Vec<_>>();
-        Ok(self.ingest_unsorted_static_events(events).await)
+        self.ingest_unsorted_static_events(events).await;
+
+        for (doc_id, doc_archive) in archive.docs {
+            if let Some(cgka) = doc_archive.cgka {
+                self.merge_cgka(doc_id, cgka)
+                    .await
+                    .map_err(ReceiveCgkaOpError::from)?;
+            }
+        }
+
+        Ok(self
+            .ingest_unsorted_static_events(archive.pending_events)
+            .await)
+    }
+
+    /// Merge another replica's key agreement for a document, with its secrets.
+    async fn merge_cgka(&self, doc_id: DocumentId, cgka: Cgka) -> Result<(), CgkaError> {
+        let Some(doc) = self.get_document(doc_id).await else {
+            return Ok(());
+        };
+
+        let new_ops = doc.lock().await.merge_cgka(cgka)?;
+        for op in new_ops {
+            self.event_listener.on_cgka_op(&op).await;
+        }
+        Ok(())
     }
 
     #[instrument(skip_all)]
diff --git a/keyhive_core/src/principal/document.rs b/keyhive_core/src/principal/document.rs
index 54544e1..1d3fb35 100644
--- a/keyhive_core/src/principal/document.rs
+++ b/keyhive_core/src/principal/document.rs
@@ -27,6 +27,7 @@ use crate::{
         delegation::DelegationStore,
         revocation::RevocationStore,
     },
+    transact::merge::Merge,
 };
 use beekem::{
     encrypted::EncryptedContent,
@@ -464,6 +465,33 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         merged
     }
 
+    /// Merge another replica's [`Cgka`] for this document, with its secrets.
+    /// Returns the operations that are new here.
+    pub(crate) fn merge_cgka(
+        &mut self,
+        other: Cgka,
+    ) -> Result<Vec<Arc<Signed<CgkaOperation>>>, CgkaError> {
+        let mut known = HashSet::new();
+        if let Some(cgka) = &self.cgka {
+            for op in cgka.ops()?.iter().flat_map(|epoch| epoch.iter()) {
+                known.insert(Digest::hash(op.as_ref()));
+            }
+        }
+
+        let mut new_ops = Vec::new();
+        for op in other.ops()?.iter().flat_map(|epoch| epoch.iter()) {
+            if !known.contains(&Digest::hash(op.as_ref())) {
+                new_ops.push(op.dupe());
+            }
+        }
+
+        match &mut self.cgka {
+            Some(cgka) => cgka.merge(other),
+            None => self.cgka = Some(other),
+        }
+        Ok(new_ops)
+    }
+
     /// Reset the CGKA owner to `owner_id`, preserving `owner_sks`.
     pub fn reset_cgka_owner(&mut self, owner_id: IndividualId) -> Result<(), CgkaError> {
         let owner_sks = self.cgka()?.owner_sks().clone();
-- 
2.43.0


From 5f2b3ca15be37d314c2c6db0bc5520416f5cb334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:16 +0000
Subject: [PATCH 36/55] fix: merging a transaction keeps its key-agreement
 secrets and pending events, and reports its prekeys

---
 keyhive_core/src/keyhive.rs | 44 +++++--------------------------------
 1 file changed, 5 insertions(+), 39 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 28e4f57..b7fe29c 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -49,10 +49,7 @@ use crate::{
         delegation::DelegationStore,
         revocation::RevocationStore,
     },
-    transact::{
-        fork::ForkAsync,
-        merge::{Merge, MergeAsync},
-    },
+    transact::{fork::ForkAsync, merge::MergeAsync},
     util::content_addressed_map::CaMap,
 };
 use beekem::{
@@ -2602,42 +2599,11 @@ where
     Log<F, S, T>: MembershipListener<F, S, T>,
 {
     async fn merge_async(&self, fork: Self::AsyncForked) {
-        let forked_active = { fork.active.lock().await.clone() };
         let locked = self.lock().await;
-        locked.active.lock().await.merge_async(forked_active).await;
-
-        {
-            let mut locked_fork_indies = fork.individuals.lock().await;
-            let mut locked_indies = locked.individuals.lock().await;
-            for (id, forked_indie) in locked_fork_indies.drain() {
-                if let Some(og_indie) = locked_indies.get(&id) {
-                    og_indie
-                        .lock()
-                        .await
-                        .merge(forked_indie.lock().await.clone())
-                } else {
-                    locked_indies.insert(id, forked_indie);
-                }
-            }
-        }
-
-        let forked_listener = { fork.event_listener.0.lock().await.clone() };
-        for event in forked_listener.iter() {
-            match event {
-                Event::PrekeysExpanded(_add_op) => {
-                    continue; // NOTE: handled above
-                }
-                Event::PrekeyRotated(_rot_op) => {
-                    continue; // NOTE: handled above
-                }
-                _ => {}
-            }
-
-            locked
-                .receive_static_event(event.clone().into())
-                .await
-                .expect("prechecked events to work");
-        }
+        locked
+            .ingest_archive(fork.into_archive().await)
+            .await
+            .expect("local round trip to work");
     }
 }
 
-- 
2.43.0


From fd4aa8fe5b30baf5981a69ad70b20998f45265c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:32 +0000
Subject: [PATCH 37/55] fix: whoever created a document can act as itself when
 the initial member is removed, and the reverse

---
 beekem/src/cgka.rs | 33 ++++++++++++++++++++++++++-------
 beekem/src/tree.rs | 10 ++++++++++
 2 files changed, 36 insertions(+), 7 deletions(-)

diff --git a/beekem/src/cgka.rs b/beekem/src/cgka.rs
index c730cfa..da46783 100644
--- a/beekem/src/cgka.rs
+++ b/beekem/src/cgka.rs
@@ -307,8 +307,9 @@ impl Cgka {
 
     /// Update leaf key pair for this Identifier.
     /// This also triggers a tree path update for that leaf.
-    /// If the owner is not in the tree but Public is, falls back to
-    /// encrypting from Public's leaf using Public's well-known keys.
+    /// If the owner is not in the tree (nor is another leaf of this replica)
+    /// but Public is, falls back to encrypting from Public's leaf using
+    /// Public's well-known keys.
     #[instrument(skip_all)]
     pub async fn update<F: FutureForm, S: AsyncSigner<F>, R: rand::CryptoRng + rand::RngCore>(
         &mut self,
@@ -320,8 +321,9 @@ impl Cgka {
         if self.should_replay() {
             self.replay_ops_graph()?;
         }
-        let (update_id, update_pk, update_sk) = if self.tree.contains_id(&self.owner_id) {
-            (self.owner_id, new_pk, new_sk)
+        let acting_id = self.acting_id(MemberId(signer.verifying_key()));
+        let (update_id, update_pk, update_sk) = if let Some(id) = acting_id {
+            (id, new_pk, new_sk)
         } else {
             let public_id = MemberId::public();
             let NodeKey::ShareKey(pk) = self
@@ -356,6 +358,21 @@ impl Cgka {
         }
     }
 
+    /// The member to act as: the owner or, while it is not in the tree, the other
+    /// identity of this replica, since whoever created the group can act both
+    /// as itself and as the group's initial member.
+    fn acting_id(&self, signer_id: MemberId) -> Option<MemberId> {
+        let (original_id, original_pk) = self.original_member;
+        let original = self
+            .owner_sks
+            .contains_key(&original_pk)
+            .then_some(original_id);
+        [Some(self.owner_id), Some(signer_id), original]
+            .into_iter()
+            .flatten()
+            .find(|id| self.tree.contains_id(id))
+    }
+
     /// The current group size
     pub fn group_size(&self) -> u32 {
         self.tree.member_count()
@@ -503,9 +520,11 @@ impl Cgka {
             .tree
             .decrypt_tree_secret(self.owner_id, &mut self.owner_sks);
         // When deriving as the owner fails and Public is a member, read as Public
-        // instead. Likewise whoever created the group can read as its initial
-        // member, even if it has later been added under its own identity.
-        for id in [MemberId::public(), self.original_member.0] {
+        // instead. Likewise whoever created the group can read both as its initial
+        // member and as itself, whichever of them is the owner.
+        let mut others = Vec::from([MemberId::public(), self.original_member.0]);
+        others.extend(self.tree.ids_with_keys_in(&self.owner_sks));
+        for id in others {
             if key.is_err() && self.owner_id != id && self.tree.contains_id(&id) {
                 key = self.tree.decrypt_tree_secret(id, &mut self.owner_sks);
             }
diff --git a/beekem/src/tree.rs b/beekem/src/tree.rs
index 154c773..a15936e 100644
--- a/beekem/src/tree.rs
+++ b/beekem/src/tree.rs
@@ -99,6 +99,16 @@ impl BeeKem {
         self.node_key_for_index((*idx).into())
     }
 
+    /// The members at whose leaf is a key that `sks` has the secret of.
+    pub fn ids_with_keys_in(&self, sks: &ShareKeyMap) -> Vec<MemberId> {
+        self.leaves
+            .iter()
+            .flatten()
+            .filter(|leaf| leaf.pk.keys().iter().any(|pk| sks.contains_key(pk)))
+            .map(|leaf| leaf.id)
+            .collect()
+    }
+
     /// For concurrent membership changes, we need to ensure that removed paths
     /// are blanked and concurrently added member leaves are sorted (and their
     /// paths blanked) after any other concurrent operations were applied.
-- 
2.43.0


From 024c777e953a9448475e7667f63a698b208bb7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:43 +0000
Subject: [PATCH 38/55] fix: a replica that adds itself to a document keeps the
 secret it was added with

---
 keyhive_core/src/keyhive.rs | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index b7fe29c..c2b108a 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -307,12 +307,46 @@ impl<
         }
 
         let doc_id = new_doc.doc_id();
+        let own_ops: Vec<_> = new_doc
+            .cgka_ops()?
+            .into_iter()
+            .flat_map(|epoch| epoch.iter().map(|op| (**op).clone()).collect::<Vec<_>>())
+            .collect();
         let doc = Arc::new(Mutex::new(new_doc));
         self.docs.lock().await.insert(doc_id, doc.dupe());
+        self.keep_own_invite_secrets(&own_ops).await;
 
         Ok(doc)
     }
 
+    /// When a replica adds itself to the key agreement of a document, the document
+    /// needs the secret of the prekey it was added with, just as when it is added
+    /// by somebody else.
+    async fn keep_own_invite_secrets(&self, ops: &[Signed<CgkaOperation>]) {
+        let (active_id, prekey_pairs) = {
+            let locked = self.active.lock().await;
+            (locked.id(), locked.prekey_pairs.dupe())
+        };
+        for op in ops {
+            let CgkaOperation::Add { added_id, pk, .. } = op.payload else {
+                continue;
+            };
+            if IndividualId::from(added_id) != active_id {
+                continue;
+            }
+            let Some(sk) = ({ prekey_pairs.lock().await.get(&pk).copied() }) else {
+                continue;
+            };
+            let doc_id: DocumentId = (*op.payload.doc_id()).into();
+            let doc = { self.docs.lock().await.get(&doc_id).duped() };
+            if let Some(doc) = doc {
+                if let Ok(cgka) = doc.lock().await.cgka_mut() {
+                    cgka.owner_sks_mut().insert(pk, sk);
+                }
+            }
+        }
+    }
+
     #[instrument(skip_all)]
     pub async fn contact_card(&self) -> Result<ContactCard, SigningError> {
         let rot_key_op = self
@@ -562,6 +596,8 @@ impl<
             update.cgka_ops.extend(ops);
         }
 
+        self.keep_own_invite_secrets(&update.cgka_ops).await;
+
         for cgka_op in &update.cgka_ops {
             self.event_listener
                 .on_cgka_op(&Arc::new(cgka_op.clone()))
-- 
2.43.0


From ab835e07178a394585fe82aa0890cbeed7b65d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:26 +0000
Subject: [PATCH 39/55] fix: an individual whose own key heads a group is kept
 as that group, and cannot hang a replica

---
 keyhive_core/src/keyhive.rs | 102 +++++++++++++++++++-----------------
 1 file changed, 55 insertions(+), 47 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index c2b108a..dfeb9da 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -1673,30 +1673,32 @@ impl<
 
         let subject_id = delegation.subject_id();
         let delegation = Arc::new(delegation);
-        let mut found = false;
-        {
-            if let Some(group) = self.groups.lock().await.get(&GroupId(subject_id)) {
-                found = true;
-                group
-                    .lock()
-                    .await
-                    .receive_delegation(delegation.clone())
-                    .await?;
-            } else if let Some(doc) = self.docs.lock().await.get(&DocumentId(subject_id)) {
-                found = true;
-                doc.lock()
-                    .await
-                    .receive_delegation(delegation.clone())
-                    .await?;
-            } else if let Some(indie) = self
-                .individuals
+        let mut found = true;
+        // Looked up one by one, as a promoted individual is put among the groups
+        let group = { self.groups.lock().await.get(&GroupId(subject_id)).duped() };
+        let doc = { self.docs.lock().await.get(&DocumentId(subject_id)).duped() };
+        if let Some(group) = group {
+            group
                 .lock()
                 .await
-                .remove(&IndividualId(subject_id))
-            {
-                found = true;
-                self.promote_individual_to_group(indie, delegation.clone())
-                    .await;
+                .receive_delegation(delegation.clone())
+                .await?;
+        } else if let Some(doc) = doc {
+            doc.lock()
+                .await
+                .receive_delegation(delegation.clone())
+                .await?;
+        } else {
+            let indie = {
+                let mut locked = self.individuals.lock().await;
+                locked.remove(&IndividualId(subject_id))
+            };
+            match indie {
+                Some(indie) => {
+                    self.promote_individual_to_group(indie, delegation.clone())
+                        .await;
+                }
+                None => found = false,
             }
         }
         if !found {
@@ -1755,44 +1757,48 @@ impl<
 
         let id = revocation.subject_id();
         let revocation = Arc::new(revocation);
-        if let Some(group) = self.groups.lock().await.get(&GroupId(id)) {
+        let group = { self.groups.lock().await.get(&GroupId(id)).duped() };
+        let doc = { self.docs.lock().await.get(&DocumentId(id)).duped() };
+        if let Some(group) = group {
             group
                 .lock()
                 .await
                 .receive_revocation(revocation.clone())
                 .await?;
-        } else if let Some(doc) = self.docs.lock().await.get(&DocumentId(id)) {
+        } else if let Some(doc) = doc {
             doc.lock()
                 .await
                 .receive_revocation(revocation.clone())
                 .await?;
-        } else if let Some(indie) = self.individuals.lock().await.remove(&IndividualId(id)) {
-            let group = self
-                .promote_individual_to_group(indie, revocation.payload.revoke.dupe())
-                .await;
+        } else {
+            let indie = {
+                let mut locked = self.individuals.lock().await;
+                locked.remove(&IndividualId(id))
+            };
+            let head = revocation.payload.revoke.dupe();
+            let group = match indie {
+                Some(indie) => self.promote_individual_to_group(indie, head).await,
+                None => {
+                    let group = Arc::new(Mutex::new(
+                        Group::new(
+                            GroupId(id),
+                            head,
+                            self.delegations.dupe(),
+                            self.revocations.dupe(),
+                            self.event_listener.clone(),
+                        )
+                        .await,
+                    ));
+                    let mut locked_groups = self.groups.lock().await;
+                    locked_groups.insert(GroupId(id), group.dupe());
+                    group
+                }
+            };
             group
                 .lock()
                 .await
                 .receive_revocation(revocation.clone())
                 .await?;
-        } else {
-            let group = Arc::new(Mutex::new(
-                Group::new(
-                    GroupId(static_rev.issuer.into()),
-                    revocation.payload.revoke.dupe(),
-                    self.delegations.dupe(),
-                    self.revocations.dupe(),
-                    self.event_listener.clone(),
-                )
-                .await,
-            ));
-
-            {
-                let group2 = group.dupe();
-                let mut locked = group.lock().await;
-                self.groups.lock().await.insert(locked.group_id(), group2);
-                locked.receive_revocation(revocation.clone()).await?;
-            }
         }
 
         Ok(())
@@ -1915,7 +1921,9 @@ impl<
             .await,
         ));
 
-        let agent = Agent::Group(group.lock().await.group_id(), group.dupe());
+        let group_id = { group.lock().await.group_id() };
+        let agent = Agent::Group(group_id, group.dupe());
+        self.groups.lock().await.insert(group_id, group.dupe());
 
         {
             let mut locked_delegations = self.delegations.lock().await;
-- 
2.43.0


From d816856e4002089afc03eb1f6554b11e1b6ecca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:18 +0000
Subject: [PATCH 40/55] fix: a replica accepts a key rotation only from the
 member whose key it rotates, and a document's first key-agreement operation
 only from its creator

---
 keyhive_core/src/keyhive.rs            |  9 +++++-
 keyhive_core/src/principal/document.rs | 40 ++++++++++++++++++++++++++
 2 files changed, 48 insertions(+), 1 deletion(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index dfeb9da..78a1450 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -16,7 +16,7 @@ use crate::{
         document::{
             id::DocumentId, AddMemberError, AddMemberUpdate, DecryptError,
             DocCausalDecryptionError, Document, EncryptError, EncryptedContentWithUpdate,
-            GenerateDocError, MissingIndividualError, RevokeMemberUpdate,
+            GenerateDocError, MissingIndividualError, RevokeMemberUpdate, UnauthorizedCgkaOp,
         },
         group::{
             delegation::{Delegation, StaticDelegation},
@@ -1853,6 +1853,8 @@ impl<
                 .dupe()
         };
 
+        doc.lock().await.check_cgka_op_issuer(&signed_op).await?;
+
         let signed_op = Arc::new(signed_op);
         if let CgkaOperation::Add { added_id, pk, .. } = signed_op.payload {
             let added_id: IndividualId = added_id.into();
@@ -2822,6 +2824,9 @@ pub enum ReceiveCgkaOpError {
 
     #[error("Unknown invite prekey for received CGKA add op: {0}")]
     UnknownInvitePrekey(ShareKey),
+
+    #[error(transparent)]
+    UnauthorizedCgkaOp(#[from] UnauthorizedCgkaOp),
 }
 
 impl ReceiveCgkaOpError {
@@ -2831,6 +2836,8 @@ impl ReceiveCgkaOpError {
             Self::VerificationError(_) => false,
             Self::UnknownDocument(_) => false,
             Self::UnknownInvitePrekey(_) => false,
+            // The creator's root delegation may not have arrived yet
+            Self::UnauthorizedCgkaOp(_) => true,
         }
     }
 }
diff --git a/keyhive_core/src/principal/document.rs b/keyhive_core/src/principal/document.rs
index 1d3fb35..49eccaa 100644
--- a/keyhive_core/src/principal/document.rs
+++ b/keyhive_core/src/principal/document.rs
@@ -18,6 +18,7 @@ use crate::{
             Group, RevokeMemberError,
         },
         identifier::Identifier,
+        public::Public,
     },
     store::{
         ciphertext::{
@@ -397,6 +398,41 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         self.group.receive_revocation(revocation).await
     }
 
+    /// Check that an operation's issuer may speak for the member it changes.
+    ///
+    /// A member's key is rotated by that member. Everybody can act as Public, and
+    /// the creator of the document as the initial member, which is the document
+    /// itself. The creator is among those whom the document delegated to.
+    pub(crate) async fn check_cgka_op_issuer(
+        &self,
+        op: &Signed<CgkaOperation>,
+    ) -> Result<(), UnauthorizedCgkaOp> {
+        let authorized = match (&self.cgka, &op.payload) {
+            (Some(cgka), CgkaOperation::Update { id, .. }) => {
+                let id = IndividualId::from(*id);
+                id.verifying_key() == op.issuer
+                    || Identifier::from(id) == Public.id()
+                    || (Identifier::from(id) == self.id() && cgka.init_add_op().issuer == op.issuer)
+            }
+            (None, CgkaOperation::Add { added_id, .. }) => {
+                let issuer_id = Identifier::from(op.issuer);
+                let locked = self.group.state.delegations.lock().await;
+                let is_creator = locked.values().any(|dlg| {
+                    dlg.payload.is_root()
+                        && Identifier::from(dlg.issuer) == self.id()
+                        && dlg.payload.delegate.id() == issuer_id
+                });
+                is_creator && Identifier::from(IndividualId::from(*added_id)) == self.id()
+            }
+            _ => true,
+        };
+        if authorized {
+            Ok(())
+        } else {
+            Err(UnauthorizedCgkaOp)
+        }
+    }
+
     /// Merges [`CgkaOperation`]. Returns `Ok(true)` if merge is successful.
     pub fn merge_cgka_op(&mut self, op: Arc<Signed<CgkaOperation>>) -> Result<bool, CgkaError> {
         match &mut self.cgka {
@@ -776,6 +812,10 @@ pub enum EncryptError {
     FailedToMakeAppSecret(CgkaError),
 }
 
+#[derive(Debug, Clone, Copy, PartialEq, Eq, Error)]
+#[error("The issuer of a key agreement operation may not speak for the member it changes")]
+pub struct UnauthorizedCgkaOp;
+
 #[derive(Debug, Error)]
 pub enum GenerateDocError {
     #[error(transparent)]
-- 
2.43.0


From 64ccc941e4c8a7ff0f340e5692eef618d241531f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:33 +0000
Subject: [PATCH 41/55] fix: only readers of a document change who takes part
 in its key agreement, and only readers are added to it

An operation that adds or removes a member of a document's key agreement was
accepted from anyone, so that anyone who learned of a document could add
themselves to it and read what was written from then on. A key rotation also
has to name the leaf of the member that it is for.
---
 keyhive_core/src/principal/document.rs | 62 ++++++++++++++++++++++----
 1 file changed, 53 insertions(+), 9 deletions(-)

diff --git a/keyhive_core/src/principal/document.rs b/keyhive_core/src/principal/document.rs
index 49eccaa..3b70521 100644
--- a/keyhive_core/src/principal/document.rs
+++ b/keyhive_core/src/principal/document.rs
@@ -7,6 +7,7 @@ use crate::{
     access::Access,
     cgka::Cgka,
     crypto::envelope::Envelope,
+    crypto::signed_ext::SignedSubjectId,
     error::missing_dependency::MissingDependency,
     listener::{membership::MembershipListener, no_listener::NoListener},
     principal::{
@@ -398,24 +399,41 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         self.group.receive_revocation(revocation).await
     }
 
-    /// Check that an operation's issuer may speak for the member it changes.
+    /// Check that an operation's issuer may make the change that it describes.
     ///
     /// A member's key is rotated by that member. Everybody can act as Public, and
     /// the creator of the document as the initial member, which is the document
     /// itself. The creator is among those whom the document delegated to.
+    ///
+    /// Members are added and removed by readers, and only readers are added. What
+    /// counts is whether they ever could read: an operation may arrive after the
+    /// revocation of its issuer or of the member that it added, and the operations
+    /// that follow it need it nonetheless.
     pub(crate) async fn check_cgka_op_issuer(
         &self,
         op: &Signed<CgkaOperation>,
     ) -> Result<(), UnauthorizedCgkaOp> {
+        let issuer_id = Identifier::from(op.issuer);
         let authorized = match (&self.cgka, &op.payload) {
-            (Some(cgka), CgkaOperation::Update { id, .. }) => {
-                let id = IndividualId::from(*id);
-                id.verifying_key() == op.issuer
-                    || Identifier::from(id) == Public.id()
-                    || (Identifier::from(id) == self.id() && cgka.init_add_op().issuer == op.issuer)
+            (Some(cgka), CgkaOperation::Update { id, new_path, .. }) => {
+                let member_id = Identifier::from(IndividualId::from(*id));
+                new_path.leaf_id == *id
+                    && (member_id == issuer_id
+                        || member_id == Public.id()
+                        || (member_id == self.id() && cgka.init_add_op().issuer == op.issuer))
+            }
+            (Some(cgka), _) if cgka.init_add_op() == *op => true,
+            (Some(_), CgkaOperation::Add { added_id, .. }) => {
+                let added_id = Identifier::from(IndividualId::from(*added_id));
+                let readers = self.past_and_present_readers().await;
+                readers.contains(&added_id)
+                    && (readers.contains(&issuer_id) || readers.contains(&Public.id()))
+            }
+            (Some(_), CgkaOperation::Remove { .. }) => {
+                let readers = self.past_and_present_readers().await;
+                readers.contains(&issuer_id) || readers.contains(&Public.id())
             }
             (None, CgkaOperation::Add { added_id, .. }) => {
-                let issuer_id = Identifier::from(op.issuer);
                 let locked = self.group.state.delegations.lock().await;
                 let is_creator = locked.values().any(|dlg| {
                     dlg.payload.is_root()
@@ -424,7 +442,8 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                 });
                 is_creator && Identifier::from(IndividualId::from(*added_id)) == self.id()
             }
-            _ => true,
+            // There is nothing to change yet, which merging reports.
+            (None, _) => true,
         };
         if authorized {
             Ok(())
@@ -433,6 +452,31 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         }
     }
 
+    /// Everyone who was ever given at least read access to this document, directly
+    /// or through groups and other documents, whether or not that was revoked since.
+    async fn past_and_present_readers(&self) -> HashSet<Identifier> {
+        let mut delegates: HashMap<Identifier, Vec<Identifier>> = HashMap::new();
+        for dlg in self.group.state.delegations.lock().await.values() {
+            if dlg.payload.can.is_reader() {
+                delegates
+                    .entry(dlg.subject_id())
+                    .or_default()
+                    .push(dlg.payload.delegate.id());
+            }
+        }
+
+        let mut readers = HashSet::new();
+        let mut explore = vec![self.id()];
+        while let Some(id) = explore.pop() {
+            for delegate in delegates.get(&id).into_iter().flatten() {
+                if readers.insert(*delegate) {
+                    explore.push(*delegate);
+                }
+            }
+        }
+        readers
+    }
+
     /// Merges [`CgkaOperation`]. Returns `Ok(true)` if merge is successful.
     pub fn merge_cgka_op(&mut self, op: Arc<Signed<CgkaOperation>>) -> Result<bool, CgkaError> {
         match &mut self.cgka {
@@ -813,7 +857,7 @@ pub enum EncryptError {
 }
 
 #[derive(Debug, Clone, Copy, PartialEq, Eq, Error)]
-#[error("The issuer of a key agreement operation may not speak for the member it changes")]
+#[error("The issuer of a key agreement operation may not make the change that it describes")]
 pub struct UnauthorizedCgkaOp;
 
 #[derive(Debug, Error)]
-- 
2.43.0


From 2dbd382f81c56208527101d4c835c6d27f5d7dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:17 +0000
Subject: [PATCH 42/55] fix: a delegation or revocation that a group already
 has is not reported to the listener again

---
 keyhive_core/src/principal/group.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index c450413..3964345 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -350,10 +350,16 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         &mut self,
         delegation: Arc<Signed<Delegation<F, S, T, L>>>,
     ) -> Result<Digest<Signed<Delegation<F, S, T, L>>>, error::AddError> {
+        let known = {
+            let locked = self.state.delegations.lock().await;
+            locked.contains_value(&delegation)
+        };
         let digest = self.state.add_delegation(delegation.dupe()).await?;
         tracing::info!("{:x?}", &digest);
         self.rebuild().await;
-        self.listener.on_delegation(&delegation).await;
+        if !known {
+            self.listener.on_delegation(&delegation).await;
+        }
         Ok(digest)
     }
 
@@ -363,9 +369,15 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         &mut self,
         revocation: Arc<Signed<Revocation<F, S, T, L>>>,
     ) -> Result<Digest<Signed<Revocation<F, S, T, L>>>, error::AddError> {
+        let known = {
+            let locked = self.state.revocations.lock().await;
+            locked.contains_value(&revocation)
+        };
         let digest = self.state.add_revocation(revocation.dupe()).await?;
         self.rebuild().await;
-        self.listener.on_revocation(&revocation).await;
+        if !known {
+            self.listener.on_revocation(&revocation).await;
+        }
         Ok(digest)
     }
 
-- 
2.43.0


From f2b2aa66d52a507417dfbe74240d1f5d50b738a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:46 +0000
Subject: [PATCH 43/55] fix: input from elsewhere cannot panic: a group's first
 delegation stands alone, received paths have one version per node, and tree
 indices of any size have an order

---
 beekem/src/secret_store.rs  |  5 +++++
 beekem/src/tree.rs          |  4 ++++
 beekem/src/treemath.rs      | 11 ++++++++++-
 keyhive_core/src/keyhive.rs |  8 ++++++++
 4 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/beekem/src/secret_store.rs b/beekem/src/secret_store.rs
index a319cbf..1d9d7c5 100644
--- a/beekem/src/secret_store.rs
+++ b/beekem/src/secret_store.rs
@@ -42,6 +42,11 @@ impl SecretStore {
         self.versions.len() > 1
     }
 
+    /// Whether there is exactly one version, as in every path that a member encrypts.
+    pub fn has_single_version(&self) -> bool {
+        self.versions.len() == 1
+    }
+
     pub fn node_key(&self) -> NodeKey {
         if self.versions.len() == 1 {
             NodeKey::ShareKey(self.versions[0].pk)
diff --git a/beekem/src/tree.rs b/beekem/src/tree.rs
index a15936e..58a2d61 100644
--- a/beekem/src/tree.rs
+++ b/beekem/src/tree.rs
@@ -607,6 +607,10 @@ impl BeeKem {
                 .iter()
                 .map(|idx| idx.u32())
                 .eq(new_path.path.iter().map(|(idx, _)| *idx))
+            && new_path
+                .path
+                .iter()
+                .all(|(_, node)| node.has_single_version())
     }
 
     /// Growing the tree will add a new root and a new subtree, all blank.
diff --git a/beekem/src/treemath.rs b/beekem/src/treemath.rs
index e8d037b..fa4b6f8 100644
--- a/beekem/src/treemath.rs
+++ b/beekem/src/treemath.rs
@@ -195,11 +195,20 @@ impl TreeNodeIndex {
             TreeNodeIndex::Inner(index) => index.to_tree_index(),
         }
     }
+
+    /// The place in the order of indices, of which those of a received operation
+    /// may be of any size.
+    fn order(&self) -> u64 {
+        match self {
+            TreeNodeIndex::Leaf(index) => u64::from(index.u32()) * 2,
+            TreeNodeIndex::Inner(index) => u64::from(index.u32()) * 2 + 1,
+        }
+    }
 }
 
 impl Ord for TreeNodeIndex {
     fn cmp(&self, other: &TreeNodeIndex) -> Ordering {
-        self.u32().cmp(&other.u32())
+        self.order().cmp(&other.order())
     }
 }
 
diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 78a1450..7137562 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -1689,6 +1689,14 @@ impl<
                 .receive_delegation(delegation.clone())
                 .await?;
         } else {
+            // What a group's first delegation builds on would be in that group
+            if delegation.payload.proof.is_some() {
+                Err(AddError::InvalidProofChain)?
+            }
+            if let Some(foreign) = delegation.payload.after_revocations.first() {
+                Err(AddError::InvalidSubject(Box::new(foreign.subject_id())))?
+            }
+
             let indie = {
                 let mut locked = self.individuals.lock().await;
                 locked.remove(&IndividualId(subject_id))
-- 
2.43.0


From 4f578ac92dcf6b699b0eff6dda10b33eb21efd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:16 +0000
Subject: [PATCH 44/55] fix: only somebody who could ever read a document
 rotates a key in its key agreement

---
 keyhive_core/src/principal/document.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/keyhive_core/src/principal/document.rs b/keyhive_core/src/principal/document.rs
index 3b70521..462c036 100644
--- a/keyhive_core/src/principal/document.rs
+++ b/keyhive_core/src/principal/document.rs
@@ -417,10 +417,13 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         let authorized = match (&self.cgka, &op.payload) {
             (Some(cgka), CgkaOperation::Update { id, new_path, .. }) => {
                 let member_id = Identifier::from(IndividualId::from(*id));
+                let is_initial_member = member_id == self.id();
                 new_path.leaf_id == *id
                     && (member_id == issuer_id
                         || member_id == Public.id()
-                        || (member_id == self.id() && cgka.init_add_op().issuer == op.issuer))
+                        || (is_initial_member && cgka.init_add_op().issuer == op.issuer))
+                    && (is_initial_member
+                        || self.past_and_present_readers().await.contains(&member_id))
             }
             (Some(cgka), _) if cgka.init_add_op() == *op => true,
             (Some(_), CgkaOperation::Add { added_id, .. }) => {
-- 
2.43.0


From 720fd42e3204597bf2069cdde5addc13b5891a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:17 +0000
Subject: [PATCH 45/55] fix: prekeys are picked from the whole published set

Truncating to the high bits was done by a left shift and a byte swap,
so that for small sets the only index that was ever in range was 0 and
every document used the same prekey.
---
 keyhive_core/src/principal/individual.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/keyhive_core/src/principal/individual.rs b/keyhive_core/src/principal/individual.rs
index 7bdf281..e88dc11 100644
--- a/keyhive_core/src/principal/individual.rs
+++ b/keyhive_core/src/principal/individual.rs
@@ -189,22 +189,19 @@ pub enum ReceivePrekeyOpError {
 }
 
 fn clamp(bytes: [u8; 8], offset_bits: u8) -> usize {
-    let bound = u64::from_be_bytes(bytes)
-        .checked_shl(offset_bits as u32)
-        .unwrap_or(0);
-
-    usize::from_be(bound as usize)
+    u64::from_be_bytes(bytes)
+        .checked_shr(offset_bits as u32)
+        .unwrap_or(0) as usize
 }
 
 fn pseudorandom_in_range(seed: &[u8], max: usize) -> usize {
-    let digits: u8 = max
-        .checked_ilog2()
-        .unwrap_or(0)
+    // The bits needed for the largest index
+    let digits: u32 = max.saturating_sub(1).checked_ilog2().map_or(0, |n| n + 1);
+
+    let shiftsize: u8 = (64 - digits)
         .try_into()
         .expect("usize has at most 64 bits (< 256)");
 
-    let shiftsize: u8 = 64 - digits;
-
     let mut hash_stream = blake3::Hasher::new().update(seed).finalize_xof();
     let mut buf = [0; 8]; // usize max
     let mut idx = None;
-- 
2.43.0


From 3fdcecf944faa4f5e38367bafa0c138c3d02ad88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:23 +0000
Subject: [PATCH 46/55] fix: a contact card cannot change the public
 individual's prekeys

Its signing key is known to everyone, so anyone could rotate away the
prekey by which the public is reached. Operations in the public's name
are dropped on every other path.
---
 keyhive_core/src/keyhive.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 7137562..e769a68 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -378,6 +378,15 @@ impl<
         let op = contact_card.op();
         op.try_verify()?;
 
+        // Anyone can sign as Public: as in `receive_prekey_op`, its individual
+        // can never expand or rotate.
+        if contact_card.id() == Public.id().into() {
+            return Ok(match self.get_individual(contact_card.id()).await {
+                Some(indie) => indie,
+                None => Arc::new(Mutex::new(Public.individual())),
+            });
+        }
+
         let (result, is_new) = if let Some(indie) = self.get_individual(contact_card.id()).await {
             let is_new = {
                 let mut locked = indie.lock().await;
-- 
2.43.0


From 422141cc2e394420eb3811af184a5a4839c7f508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:36 +0000
Subject: [PATCH 47/55] fix: every replica picks the same prekey for a document

The index was derived from the individual and the document, but looked up
in the order of a HashSet, which differs between replicas and restarts.
---
 keyhive_core/src/principal/individual.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/keyhive_core/src/principal/individual.rs b/keyhive_core/src/principal/individual.rs
index e88dc11..0565345 100644
--- a/keyhive_core/src/principal/individual.rs
+++ b/keyhive_core/src/principal/individual.rs
@@ -123,7 +123,11 @@ impl Individual {
         let prekeys_len = self.prekeys.len();
         let idx = pseudorandom_in_range(bytes.as_slice(), prekeys_len);
 
-        self.prekeys.iter().nth(idx).expect("index to be in range")
+        // A `HashSet`'s own order differs between replicas
+        let mut prekeys: Vec<&ShareKey> = self.prekeys.iter().collect();
+        prekeys.sort();
+
+        prekeys.get(idx).expect("index to be in range")
     }
 
     pub fn prekey_ops(&self) -> &CaMap<KeyOp> {
-- 
2.43.0


From 8a7f4d79638693b4500711f298a221dcc25d87fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:19 +0000
Subject: [PATCH 48/55] fix: a coparent given twice gets one delegation

Given the active agent as a coparent, or any coparent twice, the creator
made the same delegation twice and reported it to the listener twice.
---
 keyhive_core/src/principal/group.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index 3964345..319c414 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -171,7 +171,13 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             let async_listener = Arc::new(&listener);
 
             let mut futs = FuturesUnordered::new();
+            let mut seen = HashSet::new();
             for parent in parents.iter() {
+                // Such as the active agent, given again as a coparent
+                if !seen.insert(parent.id()) {
+                    continue;
+                }
+
                 let dlg = try_sign_basic(
                     &*signer,
                     verifier,
-- 
2.43.0


From bb0a312722b1e553567ca24b5b1fab7e7e4ce295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:14 +0000
Subject: [PATCH 49/55] fix: queries hold no group's lock while they look into
 another

Groups and documents can be members of each other. Two queries, or a query
and a change, that went through them from different ends waited for each
other forever.
---
 keyhive_core/src/keyhive.rs            | 91 +++++++++++---------------
 keyhive_core/src/principal/group.rs    | 23 ++++---
 keyhive_core/src/principal/membered.rs | 13 ++--
 3 files changed, 62 insertions(+), 65 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index e769a68..ed2f8c8 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -27,6 +27,7 @@ use crate::{
                 bfs_extend_from_revocation, bfs_membership_ops, collect_membership_heads,
                 AllMembershipOps, MembershipOpMap, MembershipOperation, StaticMembershipOperation,
             },
+            reachable_agents,
             revocation::{Revocation, StaticRevocation},
             Group, IdOrIndividual, RevokeMemberError,
         },
@@ -802,9 +803,8 @@ impl<
 
     #[instrument(skip_all)]
     pub async fn reachable_docs(&self) -> BTreeMap<DocumentId, Ability<F, S, T, L>> {
-        let active = self.active.dupe();
-        let locked_active = self.active.lock().await;
-        self.docs_reachable_by_agent(&Agent::Active(locked_active.id(), active))
+        let active_id = { self.active.lock().await.id() };
+        self.docs_reachable_by_agent(&Agent::Active(active_id, self.active.dupe()))
             .await
     }
 
@@ -814,10 +814,7 @@ impl<
         &self,
         membered: Membered<F, S, T, L>,
     ) -> HashMap<Identifier, (Agent<F, S, T, L>, Access)> {
-        match membered {
-            Membered::Group(_, group) => group.lock().await.transitive_members().await,
-            Membered::Document(_, doc) => doc.lock().await.transitive_members().await,
-        }
+        membered.transitive_members().await
     }
 
     #[instrument(skip_all)]
@@ -828,17 +825,11 @@ impl<
         let mut caps: BTreeMap<DocumentId, Ability<F, S, T, L>> = BTreeMap::new();
 
         // TODO will be very slow on large hives. Old code here: https://github.com/inkandswitch/keyhive/pull/111/files:
-        let docs = { self.docs.lock().await.values().cloned().collect::<Vec<_>>() };
-        for doc in docs {
-            let locked = doc.lock().await;
-            if let Some((_, cap)) = locked.transitive_members().await.get(&agent.id()) {
-                caps.insert(
-                    locked.doc_id(),
-                    Ability {
-                        doc: doc.dupe(),
-                        can: *cap,
-                    },
-                );
+        let docs = { self.docs.lock().await.clone() };
+        for (doc_id, doc) in docs {
+            let membered = Membered::Document(doc_id, doc.dupe());
+            if let Some((_, cap)) = membered.transitive_members().await.get(&agent.id()) {
+                caps.insert(doc_id, Ability { doc, can: *cap });
             }
         }
 
@@ -853,28 +844,19 @@ impl<
     ) -> HashMap<MemberedId, (Membered<F, S, T, L>, Access)> {
         let mut caps = HashMap::new();
 
-        let groups = {
-            self.groups
-                .lock()
-                .await
-                .values()
-                .cloned()
-                .collect::<Vec<_>>()
-        };
-        for group in groups {
-            let locked = group.lock().await;
-            if let Some((_, can)) = locked.transitive_members().await.get(&agent.id()) {
-                let membered = Membered::Group(locked.group_id(), group.dupe());
-                caps.insert(locked.group_id().into(), (membered, *can));
+        let groups = { self.groups.lock().await.clone() };
+        for (group_id, group) in groups {
+            let membered = Membered::Group(group_id, group);
+            if let Some((_, can)) = membered.transitive_members().await.get(&agent.id()) {
+                caps.insert(group_id.into(), (membered, *can));
             }
         }
 
-        let docs = { self.docs.lock().await.values().cloned().collect::<Vec<_>>() };
-        for doc in docs {
-            let locked = doc.lock().await;
-            if let Some((_, can)) = locked.transitive_members().await.get(&agent.id()) {
-                let membered = Membered::Document(locked.doc_id(), doc.dupe());
-                caps.insert(locked.doc_id().into(), (membered, *can));
+        let docs = { self.docs.lock().await.clone() };
+        for (doc_id, doc) in docs {
+            let membered = Membered::Document(doc_id, doc);
+            if let Some((_, can)) = membered.transitive_members().await.get(&agent.id()) {
+                caps.insert(doc_id.into(), (membered, *can));
             }
         }
 
@@ -1038,15 +1020,16 @@ impl<
                 .collect::<Vec<_>>()
         };
         for group in &groups {
-            let (group_id, heads, transitive) = {
+            let (group_id, heads, direct) = {
                 let locked = group.lock().await;
                 (
                     locked.group_id(),
                     collect_membership_heads(locked.delegation_heads(), locked.revocation_heads()),
-                    locked.transitive_members().await,
+                    locked.direct_members(),
                 )
             };
             let source_id: Identifier = group_id.into();
+            let transitive = reachable_agents(direct, source_id).await;
             ops.insert(source_id, bfs_membership_ops(heads).await);
 
             for agent_id in transitive.keys() {
@@ -1057,15 +1040,16 @@ impl<
         // Phase 2: Same for docs
         let docs = { self.docs.lock().await.values().cloned().collect::<Vec<_>>() };
         for doc in &docs {
-            let (doc_id, heads, transitive) = {
+            let (doc_id, heads, direct) = {
                 let locked = doc.lock().await;
                 (
                     locked.doc_id(),
                     collect_membership_heads(locked.delegation_heads(), locked.revocation_heads()),
-                    locked.transitive_members().await,
+                    locked.group.direct_members(),
                 )
             };
             let source_id: Identifier = doc_id.into();
+            let transitive = reachable_agents(direct, source_id).await;
             ops.insert(source_id, bfs_membership_ops(heads).await);
 
             for agent_id in transitive.keys() {
@@ -1136,10 +1120,11 @@ impl<
                 .collect::<Vec<_>>()
         };
         for group in groups {
-            let (group_id, transitive) = {
+            let (group_id, direct) = {
                 let locked = group.lock().await;
-                (locked.group_id(), locked.transitive_members().await)
+                (locked.group_id(), locked.direct_members())
             };
+            let transitive = reachable_agents(direct, group_id.into()).await;
             if transitive.contains_key(&agent.id()) {
                 add_many_keys(
                     &mut map,
@@ -1157,10 +1142,11 @@ impl<
 
         let docs = { self.docs.lock().await.values().cloned().collect::<Vec<_>>() };
         for doc in docs {
-            let (doc_id, transitive) = {
+            let (doc_id, direct) = {
                 let locked = doc.lock().await;
-                (locked.doc_id(), locked.transitive_members().await)
+                (locked.doc_id(), locked.group.direct_members())
             };
+            let transitive = reachable_agents(direct, doc_id.into()).await;
             if transitive.contains_key(&agent.id()) {
                 add_many_keys(
                     &mut map,
@@ -1230,10 +1216,11 @@ impl<
             TransitiveMembers<F, S, T, L>,
         )> = Vec::with_capacity(groups.len());
         for group in groups {
-            let (group_id, transitive) = {
+            let (group_id, direct) = {
                 let locked = group.lock().await;
-                (locked.group_id(), locked.transitive_members().await)
+                (locked.group_id(), locked.direct_members())
             };
+            let transitive = reachable_agents(direct, group_id.into()).await;
             group_data.push((group_id, group, transitive));
         }
 
@@ -1245,10 +1232,11 @@ impl<
             TransitiveMembers<F, S, T, L>,
         )> = Vec::with_capacity(docs.len());
         for doc in docs {
-            let (doc_id, transitive) = {
+            let (doc_id, direct) = {
                 let locked = doc.lock().await;
-                (locked.doc_id(), locked.transitive_members().await)
+                (locked.doc_id(), locked.group.direct_members())
             };
+            let transitive = reachable_agents(direct, doc_id.into()).await;
             doc_data.push((doc_id, doc, transitive));
         }
 
@@ -1369,7 +1357,7 @@ impl<
 
         let docs = { self.docs.lock().await.values().cloned().collect::<Vec<_>>() };
         for doc in &docs {
-            let (doc_id, doc_ops, transitive) = {
+            let (doc_id, doc_ops, direct) = {
                 let locked = doc.lock().await;
                 let doc_id = locked.doc_id();
 
@@ -1388,10 +1376,11 @@ impl<
                     continue;
                 }
 
-                (doc_id, doc_ops, locked.transitive_members().await)
+                (doc_id, doc_ops, locked.group.direct_members())
             };
 
             let source_id: Identifier = doc_id.into();
+            let transitive = reachable_agents(direct, source_id).await;
             for agent_id in transitive.keys() {
                 index.entry(*agent_id).or_default().insert(source_id);
             }
diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index 319c414..a23f072 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -276,14 +276,21 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
 
     #[tracing::instrument(skip(self), fields(group_id = %self.group_id()))]
     pub async fn transitive_members(&self) -> HashMap<Identifier, (Agent<F, S, T, L>, Access)> {
-        reachable_agents(
-            self.members
-                .values()
-                .flatten()
-                .map(|dlg| (dlg.payload.delegate.dupe(), dlg.payload.can)),
-            self.id(),
-        )
-        .await
+        reachable_agents(self.direct_members(), self.id()).await
+    }
+
+    /// What [`Self::transitive_members`] starts from.
+    ///
+    /// Groups and documents can be members of each other, so whoever finds the
+    /// transitive members while it holds the lock of this group can end up
+    /// waiting for somebody who does so from another. Passing these to
+    /// [`reachable_agents`] needs no lock to be held.
+    pub(crate) fn direct_members(&self) -> Vec<(Agent<F, S, T, L>, Access)> {
+        self.members
+            .values()
+            .flatten()
+            .map(|dlg| (dlg.payload.delegate.dupe(), dlg.payload.can))
+            .collect()
     }
 
     /// Returns agents whose delegations were revoked and who have no remaining
diff --git a/keyhive_core/src/principal/membered.rs b/keyhive_core/src/principal/membered.rs
index 55bb547..0255956 100644
--- a/keyhive_core/src/principal/membered.rs
+++ b/keyhive_core/src/principal/membered.rs
@@ -4,8 +4,8 @@ use super::{
     agent::{id::AgentId, Agent},
     document::{id::DocumentId, AddMemberError, AddMemberUpdate, Document, RevokeMemberUpdate},
     group::{
-        delegation::Delegation, error::AddError, id::GroupId, revocation::Revocation, Group,
-        RevokeMemberError,
+        delegation::Delegation, error::AddError, id::GroupId, reachable_agents,
+        revocation::Revocation, Group, RevokeMemberError,
     },
     identifier::Identifier,
 };
@@ -99,10 +99,11 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
     }
 
     pub async fn transitive_members(&self) -> HashMap<Identifier, (Agent<F, S, T, L>, Access)> {
-        match self {
-            Membered::Group(_, group) => group.lock().await.transitive_members().await,
-            Membered::Document(_, doc) => doc.lock().await.transitive_members().await,
-        }
+        let direct = match self {
+            Membered::Group(_, group) => group.lock().await.direct_members(),
+            Membered::Document(_, doc) => doc.lock().await.group.direct_members(),
+        };
+        reachable_agents(direct, self.agent_id().into()).await
     }
 
     #[allow(clippy::type_complexity)]
-- 
2.43.0


From d886d471474b882387d8a1dd305a3188e7d2c348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:24 +0000
Subject: [PATCH 50/55] fix: calls that change a replica run one after another

Calls on clones of a Keyhive can be made at the same time. Two that took in
operations lost some of them, reported others twice, or left them pending;
calls that create groups or write waited forever for ones that change prekeys;
and an archive made meanwhile could refer to operations that were not in it.
---
 keyhive_core/src/keyhive.rs | 87 ++++++++++++++++++++++++++++++++-----
 1 file changed, 75 insertions(+), 12 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index ed2f8c8..c87b936 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -127,6 +127,14 @@ pub struct Keyhive<
     /// Cryptographically secure (pseudo)random number generator.
     csprng: Arc<Mutex<R>>,
 
+    /// Held by every call that changes this agent's state, so that such calls
+    /// made at the same time run one after another. Calls like these look up
+    /// what is there, act on it, and report it while they hold several of the
+    /// locks above, in different orders.
+    ///
+    /// Event listeners are called while this is held.
+    write_lock: Arc<Mutex<()>>,
+
     _plaintext_phantom: PhantomData<P>,
 }
 
@@ -200,6 +208,7 @@ impl<
             ciphertext_store,
             event_listener,
             csprng: Arc::new(Mutex::new(csprng)),
+            write_lock: Arc::new(Mutex::new(())),
             _plaintext_phantom: PhantomData,
         })
     }
@@ -248,6 +257,7 @@ impl<
         &self,
         coparents: Vec<Peer<F, S, T, L>>,
     ) -> Result<Arc<Mutex<Group<F, S, T, L>>>, SigningError> {
+        let _writing = self.write_lock.lock().await;
         let group = Group::generate(
             NonEmpty {
                 head: Agent::Active(self.active.lock().await.id(), self.active.dupe()),
@@ -273,6 +283,7 @@ impl<
         coparents: Vec<Peer<F, S, T, L>>,
         initial_content_heads: NonEmpty<T>,
     ) -> Result<Arc<Mutex<Document<F, S, T, L>>>, GenerateDocError> {
+        let _writing = self.write_lock.lock().await;
         for peer in coparents.iter() {
             if self.get_agent(peer.id()).await.is_none() {
                 self.register_peer(peer.dupe()).await;
@@ -350,6 +361,7 @@ impl<
 
     #[instrument(skip_all)]
     pub async fn contact_card(&self) -> Result<ContactCard, SigningError> {
+        let _writing = self.write_lock.lock().await;
         let rot_key_op = self
             .active
             .lock()
@@ -376,6 +388,7 @@ impl<
         &self,
         contact_card: &ContactCard,
     ) -> Result<Arc<Mutex<Individual>>, ReceivePrekeyOpError> {
+        let _writing = self.write_lock.lock().await;
         let op = contact_card.op();
         op.try_verify()?;
 
@@ -425,6 +438,7 @@ impl<
         &self,
         prekey: ShareKey,
     ) -> Result<Arc<Signed<RotateKeyOp>>, SigningError> {
+        let _writing = self.write_lock.lock().await;
         self.active
             .lock()
             .await
@@ -434,6 +448,7 @@ impl<
 
     #[instrument(skip_all)]
     pub async fn expand_prekeys(&self) -> Result<Arc<Signed<AddKeyOp>>, SigningError> {
+        let _writing = self.write_lock.lock().await;
         self.active
             .lock()
             .await
@@ -485,6 +500,7 @@ impl<
 
     #[instrument(skip_all)]
     pub async fn register_group(&self, root_delegation: Signed<Delegation<F, S, T, L>>) -> bool {
+        let _writing = self.write_lock.lock().await;
         if self
             .groups
             .lock()
@@ -539,6 +555,7 @@ impl<
         can: Access,
         other_relevant_docs: &[Arc<Mutex<Document<F, S, T, L>>>], // TODO make this automatic
     ) -> Result<AddMemberUpdate<F, S, T, L>, AddMemberError> {
+        let _writing = self.write_lock.lock().await;
         let signer = { self.active.lock().await.signer.clone() };
 
         // Who can read the affected documents: the resource itself, and the documents
@@ -625,6 +642,7 @@ impl<
         retain_all_other_members: bool,
         resource: &Membered<F, S, T, L>,
     ) -> Result<RevokeMemberUpdate<F, S, T, L>, RevokeMemberError> {
+        let _writing = self.write_lock.lock().await;
         let mut relevant_docs = BTreeMap::new();
         for (doc_id, Ability { doc, .. }) in self.reachable_docs().await {
             let locked = doc.lock().await;
@@ -726,6 +744,7 @@ impl<
         pred_refs: &Vec<T>,
         content: &[u8],
     ) -> Result<(EncryptedContentWithUpdate<T>, SymmetricKey), EncryptContentError> {
+        let _writing = self.write_lock.lock().await;
         let signer = { self.active.lock().await.signer.clone() };
         let (result, application_secret_key) = {
             let mut locked_csprng = self.csprng.lock().await;
@@ -790,6 +809,7 @@ impl<
         &self,
         doc: Arc<Mutex<Document<F, S, T, L>>>,
     ) -> Result<(Signed<CgkaOperation>, ShareKey, ShareSecretKey), EncryptError> {
+        let _writing = self.write_lock.lock().await;
         let signer = { self.active.lock().await.signer.clone() };
         let mut locked_csprng = self.csprng.lock().await;
         let (op, new_share_key, new_share_secret_key) = doc
@@ -1581,6 +1601,11 @@ impl<
 
     #[instrument(skip_all)]
     pub async fn receive_prekey_op(&self, key_op: &KeyOp) -> Result<(), ReceivePrekeyOpError> {
+        let _writing = self.write_lock.lock().await;
+        self.apply_prekey_op(key_op).await
+    }
+
+    async fn apply_prekey_op(&self, key_op: &KeyOp) -> Result<(), ReceivePrekeyOpError> {
         let id = Identifier(*key_op.issuer());
         // Drop any prekey op addressed to Public so its individual can never
         // expand or rotate.
@@ -1641,6 +1666,14 @@ impl<
     pub async fn receive_delegation(
         &self,
         static_dlg: &Signed<StaticDelegation<T>>,
+    ) -> Result<(), ReceiveStaticDelegationError<F, S, T, L>> {
+        let _writing = self.write_lock.lock().await;
+        self.apply_delegation(static_dlg).await
+    }
+
+    async fn apply_delegation(
+        &self,
+        static_dlg: &Signed<StaticDelegation<T>>,
     ) -> Result<(), ReceiveStaticDelegationError<F, S, T, L>> {
         if self
             .delegations
@@ -1744,6 +1777,14 @@ impl<
     pub async fn receive_revocation(
         &self,
         static_rev: &Signed<StaticRevocation<T>>,
+    ) -> Result<(), ReceiveStaticDelegationError<F, S, T, L>> {
+        let _writing = self.write_lock.lock().await;
+        self.apply_revocation(static_rev).await
+    }
+
+    async fn apply_revocation(
+        &self,
+        static_rev: &Signed<StaticRevocation<T>>,
     ) -> Result<(), ReceiveStaticDelegationError<F, S, T, L>> {
         if self
             .revocations
@@ -1814,19 +1855,27 @@ impl<
     pub async fn receive_static_event(
         &self,
         static_event: StaticEvent<T>,
+    ) -> Result<(), ReceiveStaticEventError<F, S, T, L>> {
+        let _writing = self.write_lock.lock().await;
+        self.apply_static_event(static_event).await
+    }
+
+    async fn apply_static_event(
+        &self,
+        static_event: StaticEvent<T>,
     ) -> Result<(), ReceiveStaticEventError<F, S, T, L>> {
         match static_event {
             StaticEvent::PrekeysExpanded(add_op) => {
-                self.receive_prekey_op(&Arc::new(*add_op).into()).await?
+                self.apply_prekey_op(&Arc::new(*add_op).into()).await?
             }
             StaticEvent::PrekeyRotated(rot_op) => {
-                self.receive_prekey_op(&Arc::new(*rot_op).into()).await?
+                self.apply_prekey_op(&Arc::new(*rot_op).into()).await?
             }
             StaticEvent::CgkaOperation(cgka_op) => {
-                self.receive_cgka_op(*cgka_op).await?;
+                self.apply_cgka_op(*cgka_op).await?;
             }
-            StaticEvent::Delegated(dlg) => self.receive_delegation(&dlg).await?,
-            StaticEvent::Revoked(rev) => self.receive_revocation(&rev).await?,
+            StaticEvent::Delegated(dlg) => self.apply_delegation(&dlg).await?,
+            StaticEvent::Revoked(rev) => self.apply_revocation(&rev).await?,
         }
         Ok(())
     }
@@ -1847,6 +1896,14 @@ impl<
     pub async fn receive_cgka_op(
         &self,
         signed_op: Signed<CgkaOperation>,
+    ) -> Result<(), ReceiveCgkaOpError> {
+        let _writing = self.write_lock.lock().await;
+        self.apply_cgka_op(signed_op).await
+    }
+
+    async fn apply_cgka_op(
+        &self,
+        signed_op: Signed<CgkaOperation>,
     ) -> Result<(), ReceiveCgkaOpError> {
         signed_op.try_verify()?;
 
@@ -2009,6 +2066,7 @@ impl<
 
     #[instrument(skip_all)]
     pub async fn into_archive(&self) -> Archive<T> {
+        let _writing = self.write_lock.lock().await;
         let topsorted_ops = {
             let delegations = self.delegations.lock().await;
             let revocations = self.revocations.lock().await;
@@ -2327,6 +2385,7 @@ impl<
             csprng,
             ciphertext_store,
             event_listener: listener,
+            write_lock: Arc::new(Mutex::new(())),
             _plaintext_phantom: PhantomData,
         })
     }
@@ -2337,6 +2396,7 @@ impl<
         &self,
         archive: Archive<T>,
     ) -> Result<Vec<Arc<StaticEvent<T>>>, ReceiveStaticEventError<F, S, T, L>> {
+        let _writing = self.write_lock.lock().await;
         tracing::debug!("Keyhive::ingest_archive()");
         {
             let locked_active = self.active.lock().await;
@@ -2354,7 +2414,7 @@ impl<
             .chain([archived_individual])
         {
             for op in indie.prekey_ops().values() {
-                self.receive_prekey_op(op).await?;
+                self.apply_prekey_op(op).await?;
             }
         }
 
@@ -2366,7 +2426,7 @@ impl<
                 StaticMembershipOperation::Revocation(signed) => StaticEvent::Revoked(signed),
             })
             .collect::<Vec<_>>();
-        self.ingest_unsorted_static_events(events).await;
+        self.ingest(events).await;
 
         for (doc_id, doc_archive) in archive.docs {
             if let Some(cgka) = doc_archive.cgka {
@@ -2376,9 +2436,7 @@ impl<
             }
         }
 
-        Ok(self
-            .ingest_unsorted_static_events(archive.pending_events)
-            .await)
+        Ok(self.ingest(archive.pending_events).await)
     }
 
     /// Merge another replica's key agreement for a document, with its secrets.
@@ -2402,8 +2460,13 @@ impl<
     #[instrument(level = "trace", skip_all)]
     pub async fn ingest_unsorted_static_events(
         &self,
-        mut events: Vec<StaticEvent<T>>,
+        events: Vec<StaticEvent<T>>,
     ) -> Vec<Arc<StaticEvent<T>>> {
+        let _writing = self.write_lock.lock().await;
+        self.ingest(events).await
+    }
+
+    async fn ingest(&self, mut events: Vec<StaticEvent<T>>) -> Vec<Arc<StaticEvent<T>>> {
         // FIXME: Some errors might not be recoverable on future attempts
         tracing::debug!("Keyhive::ingest_unsorted_static_events()");
         use std::collections::{HashMap, HashSet};
@@ -2427,7 +2490,7 @@ impl<
             let epoch_len = epoch.len();
 
             for event in epoch {
-                if let Err(e) = self.receive_static_event(event.clone()).await {
+                if let Err(e) = self.apply_static_event(event.clone()).await {
                     if matches!(e, ReceiveStaticEventError::ReceivePrekeyOpError(_)) {
                         tracing::warn!("Dropping unrecoverable prekey event: {:?}", e);
                     } else {
-- 
2.43.0


From 2bdee6df863564f575e6fd2e099cf6274a55b87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:09 +0000
Subject: [PATCH 51/55] fix: adding to a group that cannot read does not need
 the key agreement

A member was added, and the addition reported as refused, when a document in
which the group may only relay had no key agreement yet.
---
 keyhive_core/src/keyhive.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index c87b936..82a6fd2 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -575,10 +575,15 @@ impl<
                         locked.cgka().is_ok(),
                     )
                 };
-                if id != resource_id && !transitive.contains_key(&resource_id) {
+                // Nobody comes to read a document through a group that cannot
+                if id != resource_id
+                    && !transitive
+                        .get(&resource_id)
+                        .is_some_and(|(_, can)| can.is_reader())
+                {
                     continue;
                 }
-                if !has_cgka && (id == resource_id || transitive[&resource_id].1.is_reader()) {
+                if !has_cgka {
                     // The key agreement may not have arrived yet. Find that out before
                     // the delegation is made and reported.
                     return Err(CgkaError::NotInitialized.into());
-- 
2.43.0


From e1e257c5803ecec236b9064da6d9e80c2a8769f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:22 +0000
Subject: [PATCH 52/55] fix: a queue of events hands back the latest and the
 earliest as asked

---
 keyhive_core/src/listener/deque.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/keyhive_core/src/listener/deque.rs b/keyhive_core/src/listener/deque.rs
index e08d31a..7ef8205 100644
--- a/keyhive_core/src/listener/deque.rs
+++ b/keyhive_core/src/listener/deque.rs
@@ -36,12 +36,12 @@ where
 
     pub async fn pop_latest(&self) -> Option<Event<F, S, T, Self>> {
         let mut locked = self.0.lock().await;
-        locked.pop_front()
+        locked.pop_back()
     }
 
     pub async fn pop_earliest(&self) -> Option<Event<F, S, T, Self>> {
         let mut locked = self.0.lock().await;
-        locked.pop_back()
+        locked.pop_front()
     }
 
     pub async fn is_empty(&self) -> bool {
-- 
2.43.0


From 39a647945930e9344a057930b4296eb2515d5f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:21 +0000
Subject: [PATCH 53/55] fix: only a group's own signed delegation registers it

---
 keyhive_core/src/keyhive.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 82a6fd2..8b64959 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -501,6 +501,11 @@ impl<
     #[instrument(skip_all)]
     pub async fn register_group(&self, root_delegation: Signed<Delegation<F, S, T, L>>) -> bool {
         let _writing = self.write_lock.lock().await;
+        // A group starts with what it has delegated itself
+        if root_delegation.payload().proof().is_some() || root_delegation.try_verify().is_err() {
+            return false;
+        }
+
         if self
             .groups
             .lock()
-- 
2.43.0


From 55c2f7d2c03524cd4406d49b5efc170dc6da4674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:41 +0000
Subject: [PATCH 54/55] fix: what is encrypted is not traced

---
 keyhive_crypto/src/symmetric_key.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/keyhive_crypto/src/symmetric_key.rs b/keyhive_crypto/src/symmetric_key.rs
index e109b33..b08d7a9 100644
--- a/keyhive_crypto/src/symmetric_key.rs
+++ b/keyhive_crypto/src/symmetric_key.rs
@@ -49,7 +49,7 @@ impl SymmetricKey {
     }
 
     /// Encrypt data with the [`SymmetricKey`].
-    #[instrument(skip(self))]
+    #[instrument(skip_all)]
     pub fn try_encrypt(
         &self,
         nonce: Siv,
@@ -71,7 +71,7 @@ impl SymmetricKey {
     }
 
     /// AEAD-seal `plaintext`, returning a self-contained `nonce(24) || ciphertext`.
-    #[instrument(skip(self))]
+    #[instrument(skip_all)]
     pub fn try_seal(
         &self,
         plaintext: &[u8],
-- 
2.43.0


From fb2f7b19e690132eb9be0f96ee293f2bc716f611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:26 +0000
Subject: [PATCH 55/55] fix: a document can be relevant to its own new member

---
 keyhive_core/src/principal/membered.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/keyhive_core/src/principal/membered.rs b/keyhive_core/src/principal/membered.rs
index 0255956..0b6f9de 100644
--- a/keyhive_core/src/principal/membered.rs
+++ b/keyhive_core/src/principal/membered.rs
@@ -121,10 +121,16 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                 .add_member(member_to_add, can, signer, other_relevant_docs)
                 .await?),
             Membered::Document(_, document) => {
+                // The document itself is always relevant, and already locked
+                let others: Vec<_> = other_relevant_docs
+                    .iter()
+                    .filter(|other| !Arc::ptr_eq(other, document))
+                    .cloned()
+                    .collect();
                 document
                     .lock()
                     .await
-                    .add_member(member_to_add, can, signer, other_relevant_docs)
+                    .add_member(member_to_add, can, signer, &others)
                     .await
             }
         }
-- 
2.43.0

