From bbe55fbe0eb90643b14e45a64a70e2ef78eb3e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:48 +0000
Subject: [PATCH 01/16] fix: keep track of the last child when the last sibling
 is unlinked

Unlinking the last sibling left the cyclic link of the first sibling pointing
to the unlinked node, so the parent reported a foreign node as its last child
and appended further children to it.
---
 src/node/edit.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/node/edit.rs b/src/node/edit.rs
index 326c29a..836f46a 100644
--- a/src/node/edit.rs
+++ b/src/node/edit.rs
@@ -73,6 +73,8 @@ impl<'a, T> OrphanRoot<'a, T> {
         //  * node_to_unlink --> next_sibling
         //      * node_to_unlink.next_sibling (if available)
         //      * next_sibling.prev_sibling_cyclic (if available)
+        //  * first_sibling --> last_sibling
+        //      * first_sibling.prev_sibling_cyclic (if `node_to_unlink` is the last)
 
         let parent = node_to_unlink.parent_link();
         let prev_sibling = node_to_unlink.prev_sibling_link();
@@ -95,6 +97,11 @@ impl<'a, T> OrphanRoot<'a, T> {
         }
         if let Some(next_sibling) = next_sibling {
             next_sibling.replace_prev_sibling_cyclic(prev_sibling_cyclic.downgrade());
+        } else if let Some(first_sibling) =
+            parent.as_ref().and_then(|parent| parent.first_child_link())
+        {
+            // The last sibling is unlinked. Now the previous sibling is the last.
+            first_sibling.replace_prev_sibling_cyclic(prev_sibling_cyclic.downgrade());
         }
 
         // Update `node_to_unlink`.
-- 
2.43.0


From 5c17f8b8cbbbaf6346356ae18fdb495531913e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:48 +0000
Subject: [PATCH 02/16] fix: update the last child when a childless last
 sibling is replaced with its children

try_replace_with_children() on a childless last sibling left the cyclic link
of the first sibling pointing to the removed node.
---
 src/node/edit.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/node/edit.rs b/src/node/edit.rs
index 836f46a..b1ab9fe 100644
--- a/src/node/edit.rs
+++ b/src/node/edit.rs
@@ -682,6 +682,11 @@ pub(super) fn try_replace_with_children<T>(this: &NodeCoreLink<T>) -> Result<(),
                 }
                 (Some(prev_sibling_link), None) => {
                     prev_sibling_link.replace_next_sibling(None);
+                    let first_sibling_link = parent_link
+                        .first_child_link()
+                        .expect("[validity] the parent has at least one child (prev of `self`)");
+                    // `prev_sibling_link` is the new last sibling.
+                    first_sibling_link.replace_prev_sibling_cyclic(prev_sibling_link.downgrade());
                 }
                 (None, Some(next_sibling_link)) => {
                     let last_sibling_link_weak = parent_link
-- 
2.43.0


From 83d079e37ce048703287abdddf50cb1c05cd0fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:24 +0000
Subject: [PATCH 03/16] fix: reject impossible moves inside a tree before
 unlinking the node

try_detach_insert_subtree() to a place under the moved node made a cycle
instead of failing with AncestorDescendantLoop (and silently did nothing for the
root), and a move next to the root or next to the node itself failed only after
the node had been unlinked, which left the tree broken.
---
 src/node/edit.rs | 44 ++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 40 insertions(+), 4 deletions(-)

diff --git a/src/node/edit.rs b/src/node/edit.rs
index b1ab9fe..cc34d88 100644
--- a/src/node/edit.rs
+++ b/src/node/edit.rs
@@ -340,17 +340,53 @@ pub(super) fn detach_subtree<T>(this: &NodeCoreLink<T>) {
     orphan_this.create_new_tree();
 }
 
+/// Returns the node which will be the parent of a node inserted to the given destination.
+///
+/// # Failures
+///
+/// Returns [`HierarchyError::SiblingsWithoutParent`] as an error if the
+/// destination is a sibling of a root node.
+fn parent_of_destination<T>(
+    dest: InsertAs<&NodeCoreLink<T>>,
+) -> Result<NodeCoreLink<T>, HierarchyError> {
+    match dest {
+        InsertAs::FirstChildOf(parent) | InsertAs::LastChildOf(parent) => Ok(parent.clone()),
+        InsertAs::PreviousSiblingOf(anchor) | InsertAs::NextSiblingOf(anchor) => anchor
+            .parent_link()
+            .ok_or(HierarchyError::SiblingsWithoutParent),
+    }
+}
+
 /// Detaches the node and its descendant from the current parent, and inserts to other place in the
 /// same tree.
+///
+/// # Failures
+///
+/// Fails if:
+///
+/// * the destination is a sibling of the root node, or
+/// * the destination is under the node being moved.
+///
+/// The tree is left unchanged on failure.
 #[inline]
 pub(super) fn detach_and_move_inside_same_tree<T>(
     this: &NodeCoreLink<T>,
     dest: InsertAs<&NodeCoreLink<T>>,
 ) -> Result<(), HierarchyError> {
-    if this.is_root() {
-        // Detaching entire tree here is meaningless.
-        // Do nothing.
-        return Ok(());
+    // Check the destination before unlinking, in order to leave the tree
+    // consistent on failure.
+    let mut ancestor = Some(parent_of_destination(dest)?);
+    while let Some(current) = ancestor {
+        if current.ptr_eq(this) {
+            return Err(HierarchyError::AncestorDescendantLoop);
+        }
+        ancestor = current.parent_link();
+    }
+    if let InsertAs::PreviousSiblingOf(anchor) | InsertAs::NextSiblingOf(anchor) = dest {
+        if anchor.ptr_eq(this) {
+            // The node is already at the destination.
+            return Ok(());
+        }
     }
 
     let orphan_this = OrphanRoot::new_by_unlink(this);
-- 
2.43.0


From 4b269d2e4d5e206f8e994d391c84f94bb0fe84d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:24 +0000
Subject: [PATCH 04/16] fix: reject a move next to the root of another tree
 before unlinking the node

try_detach_insert_subtree() returned SiblingsWithoutParent only after the
node had been unlinked and its subtree had been made part of the other tree.
---
 src/node/edit.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/node/edit.rs b/src/node/edit.rs
index cc34d88..aa2b10e 100644
--- a/src/node/edit.rs
+++ b/src/node/edit.rs
@@ -408,6 +408,10 @@ pub(super) fn detach_and_move_to_another_tree<T>(
     dest: InsertAs<&NodeCoreLink<T>>,
     dest_tree_core: &Rc<TreeCore<T>>,
 ) -> Result<(), HierarchyError> {
+    // Check the destination before unlinking, in order to leave the trees
+    // consistent on failure.
+    parent_of_destination(dest)?;
+
     let orphan_this = OrphanRoot::new_by_unlink(this);
     orphan_this
         .set_tree_core(dest_tree_core)
-- 
2.43.0


From f65e1cad8f0e2234df0acbe559480783626494e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:43 +0000
Subject: [PATCH 05/16] fix: do not panic when user data accesses weak
 references while being dropped

NodeWeak::upgrade() panicked instead of returning None when called from the
Drop implementation of node data, since the tree was already gone while the
node was not, or since the membership was still mutably borrowed while the last
reference to the tree was released.
---
 src/node/membership.rs | 22 ++++++++++++++++++----
 src/node/plain.rs      |  3 ++-
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/node/membership.rs b/src/node/membership.rs
index ac3acc3..9113e5c 100644
--- a/src/node/membership.rs
+++ b/src/node/membership.rs
@@ -2,6 +2,7 @@
 
 use core::cell::{Ref, RefCell};
 use core::fmt;
+use core::mem;
 use core::num::NonZeroUsize;
 
 use alloc::rc::{Rc, Weak};
@@ -230,9 +231,17 @@ impl<'a, T> MembershipRef<'a, T> {
                             "[consistency] locks can be acquired only from strong node references"
                         );
                         let weak_core = Rc::downgrade(tree_core);
-                        *core = MembershipCore::Weak {
-                            tree_core: weak_core,
-                        };
+                        let released = mem::replace(
+                            &mut *core,
+                            MembershipCore::Weak {
+                                tree_core: weak_core,
+                            },
+                        );
+                        // Dropping the last reference to the tree drops the
+                        // user data, and that may access this membership.
+                        // So the borrow should be finished before that.
+                        drop(core);
+                        drop(released);
                     }
                 }
             }
@@ -260,7 +269,12 @@ impl<'a, T> MembershipRef<'a, T> {
                 if lock_aggregator.has_lock() {
                     tree_core.transfer_single_lock_to(new_tree_core)?;
                 }
-                *tree_core = new_tree_core.clone();
+                let released = mem::replace(tree_core, new_tree_core.clone());
+                // Dropping the last reference to the tree drops the user data,
+                // and that may access this membership. So the borrow should be
+                // finished before that.
+                drop(core);
+                drop(released);
             }
         }
         Ok(())
diff --git a/src/node/plain.rs b/src/node/plain.rs
index 98240b2..883aa0d 100644
--- a/src/node/plain.rs
+++ b/src/node/plain.rs
@@ -2942,6 +2942,7 @@ impl<T> NodeWeak<T> {
     #[must_use]
     pub fn upgrade(&self) -> Option<Node<T>> {
         let link = self.link.upgrade()?;
-        Some(Node::with_node_core(link))
+        // The tree might be already being dropped even if the node is not yet.
+        NodeLink::new(link).map(Node::with_node_link)
     }
 }
-- 
2.43.0


From 10a143c83d75e8655695b735d2dbf3d608e10255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:40 +0000
Subject: [PATCH 06/16] fix: do not destroy the moved nodes when a root node is
 moved into another tree

The core of the emptied tree still referred to the moved node as its root, so
dropping it tore the moved subtree (and the destination tree) apart.
---
 src/node/edit.rs       | 4 ++++
 src/node/internal.rs   | 8 ++++++++
 src/node/membership.rs | 4 ++--
 src/tree.rs            | 5 +++++
 4 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/node/edit.rs b/src/node/edit.rs
index aa2b10e..5d49589 100644
--- a/src/node/edit.rs
+++ b/src/node/edit.rs
@@ -412,6 +412,10 @@ pub(super) fn detach_and_move_to_another_tree<T>(
     // consistent on failure.
     parent_of_destination(dest)?;
 
+    // Keep the source tree alive until the nodes are completely moved, since
+    // memberships of the nodes might be the last references to it.
+    let _source_tree_core = this.tree_core();
+
     let orphan_this = OrphanRoot::new_by_unlink(this);
     orphan_this
         .set_tree_core(dest_tree_core)
diff --git a/src/node/internal.rs b/src/node/internal.rs
index 838d31b..ff5614e 100644
--- a/src/node/internal.rs
+++ b/src/node/internal.rs
@@ -85,6 +85,14 @@ impl<T> NodeCoreLink<T> {
     #[inline]
     #[must_use]
     pub(super) fn belongs_to_tree_core_rc(&self, tree_core: &Rc<TreeCore<T>>) -> bool {
+        self.membership_ref()
+            .ptr_eq_tree_core(Rc::as_ptr(tree_core))
+    }
+
+    /// Returns true if the node belongs to the tree with the tree core at the given address.
+    #[inline]
+    #[must_use]
+    pub(crate) fn belongs_to_tree_core_ptr(&self, tree_core: *const TreeCore<T>) -> bool {
         self.membership_ref().ptr_eq_tree_core(tree_core)
     }
 
diff --git a/src/node/membership.rs b/src/node/membership.rs
index 9113e5c..02e05df 100644
--- a/src/node/membership.rs
+++ b/src/node/membership.rs
@@ -282,7 +282,7 @@ impl<'a, T> MembershipRef<'a, T> {
 
     /// Returns true if the membership refers to the same tree core allocation.
     #[must_use]
-    pub(super) fn ptr_eq_tree_core(&self, tree_core: &Rc<TreeCore<T>>) -> bool {
+    pub(super) fn ptr_eq_tree_core(&self, tree_core: *const TreeCore<T>) -> bool {
         let core = self
             .0
             .try_borrow()
@@ -291,7 +291,7 @@ impl<'a, T> MembershipRef<'a, T> {
             MembershipCore::Weak { tree_core } => tree_core.as_ptr(),
             MembershipCore::Strong { tree_core, .. } => Rc::as_ptr(tree_core),
         };
-        self_ptr == Rc::as_ptr(tree_core)
+        self_ptr == tree_core
     }
 
     /// Decrements the aggregated lock count.
diff --git a/src/tree.rs b/src/tree.rs
index d25d1eb..2d25b68 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -88,6 +88,11 @@ impl<T> Drop for TreeCore<T> {
             .try_borrow()
             .expect("[validity] `TreeCore` is being accessed exclusively")
             .clone();
+        if !root_link.belongs_to_tree_core_ptr(self) {
+            // The entire tree has been moved into another tree, so the nodes
+            // are no longer owned by this tree.
+            return;
+        }
         // Not using `DepthFirstLinkTraverser` here is intentional.
         // The links would be in inconsistent states before being dropped, so
         // avoid introducing hidden invariants from `DepthFirstLinkTraverser`.
-- 
2.43.0


From 4ec5968623558258450aaec136096a08cb42dde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:40 +0000
Subject: [PATCH 07/16] fix: keep the source tree alive until a subtree is
 completely detached

When the detached node was the last strong reference to its tree, the rest of
the tree was dropped while the memberships were being updated. Weak references
to the alive descendants could not be upgraded from the data being dropped.
---
 src/node/edit.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/node/edit.rs b/src/node/edit.rs
index 5d49589..4922daf 100644
--- a/src/node/edit.rs
+++ b/src/node/edit.rs
@@ -336,6 +336,10 @@ pub(super) fn detach_subtree<T>(this: &NodeCoreLink<T>) {
         return;
     }
 
+    // Keep the source tree alive until the nodes are completely moved, since
+    // memberships of the nodes might be the last references to it.
+    let _source_tree_core = this.tree_core();
+
     let orphan_this = OrphanRoot::new_by_unlink(this);
     orphan_this.create_new_tree();
 }
-- 
2.43.0


From f49dd48a4d3d0f00cd24835ee8e16f0dff813d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:40 +0000
Subject: [PATCH 08/16] fix: close the root of the tree builder even if it is
 not the root of a tree

With TreeBuilder::with_root(), closing exactly the given node moved to its real
parent instead of finishing, so further nodes were added outside the subtree.
---
 src/serial.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/serial.rs b/src/serial.rs
index 482ecec..33700e5 100644
--- a/src/serial.rs
+++ b/src/serial.rs
@@ -577,8 +577,17 @@ impl<T> TreeBuilder<T> {
                 }
                 *current = current.parent().ok_or(TreeBuildError::RootClosed)?;
             }
-            // Now `current` is a parent node of the result node.
-            self.current = current.parent();
+            // Now `current` is a child node of the result node.
+            let is_root = self
+                .root
+                .as_ref()
+                .map_or(false, |root| current.ptr_eq_plain(root));
+            self.current = if is_root {
+                // This is the root of the subtree, even if it has a parent.
+                None
+            } else {
+                current.parent()
+            };
             Ok(())
         } else if self.root.is_some() {
             Err(TreeBuildError::RootClosed)
-- 
2.43.0


From c7d7a4c4fe934973c8ead8890f9751cf5bc31898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:08 +0000
Subject: [PATCH 09/16] fix: stop stable siblings traversal at the end of its
 range

The traverser did not stop when its two ends met: items were duplicated when it
was iterated from both ends, and the preceding siblings traversal ran past the
node. Also the preceding siblings traversal excluded the first sibling instead of the
node itself.
---
 src/node/frozen.rs       | 3 ++-
 src/traverse/siblings.rs | 8 ++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/node/frozen.rs b/src/node/frozen.rs
index 97d277f..e5acff0 100644
--- a/src/node/frozen.rs
+++ b/src/node/frozen.rs
@@ -839,7 +839,8 @@ impl<T> FrozenNode<T> {
     #[must_use]
     pub fn preceding_siblings_stable(&self) -> traverse::StableSiblingsTraverser<T> {
         let mut iter = self.preceding_siblings_or_self_stable();
-        iter.next();
+        // Skip `self`, which is the last item.
+        iter.next_back();
         iter
     }
 
diff --git a/src/traverse/siblings.rs b/src/traverse/siblings.rs
index d8d8ee5..32f9d36 100644
--- a/src/traverse/siblings.rs
+++ b/src/traverse/siblings.rs
@@ -168,6 +168,10 @@ impl<T> Iterator for StableSiblingsTraverser<T> {
 
     fn next(&mut self) -> Option<Self::Item> {
         let (next, next_back) = self.next.take()?;
+        if FrozenNode::ptr_eq(&next, &next_back) {
+            // The next node is the last node.
+            return Some(next);
+        }
         self.next = next
             .next_sibling()
             .map(|next_of_next| (next_of_next, next_back));
@@ -186,6 +190,10 @@ impl<T> Iterator for StableSiblingsTraverser<T> {
 impl<T> DoubleEndedIterator for StableSiblingsTraverser<T> {
     fn next_back(&mut self) -> Option<Self::Item> {
         let (next, next_back) = self.next.take()?;
+        if FrozenNode::ptr_eq(&next, &next_back) {
+            // The next node is the last node.
+            return Some(next_back);
+        }
         self.next = next_back
             .prev_sibling()
             .map(|next_of_next_back| (next, next_of_next_back));
-- 
2.43.0


From 4ab06a778a6251a8abade7cb91c2eee517058a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:08 +0000
Subject: [PATCH 10/16] fix: stop stable depth-first traversal at the end of
 its range

The traverser did not stop when its two ends met: it ran out of the subtree
when the toplevel node was not the root, and returned the same events twice when it
was iterated from both ends.
---
 src/traverse/depth_first.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/traverse/depth_first.rs b/src/traverse/depth_first.rs
index 945ddc1..5c397aa 100644
--- a/src/traverse/depth_first.rs
+++ b/src/traverse/depth_first.rs
@@ -386,11 +386,28 @@ impl<T> StableDepthFirstTraverser<T> {
     }
 }
 
+impl<T> StableDepthFirstTraverser<T> {
+    /// Returns true if the two events are identical.
+    #[must_use]
+    fn is_same_event(a: &DftEvent<FrozenNode<T>>, b: &DftEvent<FrozenNode<T>>) -> bool {
+        match (a, b) {
+            (DftEvent::Open(a), DftEvent::Open(b)) | (DftEvent::Close(a), DftEvent::Close(b)) => {
+                FrozenNode::ptr_eq(a, b)
+            }
+            _ => false,
+        }
+    }
+}
+
 impl<T> Iterator for StableDepthFirstTraverser<T> {
     type Item = DftEvent<FrozenNode<T>>;
 
     fn next(&mut self) -> Option<Self::Item> {
         let (next, next_back) = self.next.take()?;
+        if Self::is_same_event(&next, &next_back) {
+            // The next event is the last event.
+            return Some(next);
+        }
         self.next = next.next().map(|next_of_next| (next_of_next, next_back));
         Some(next)
     }
@@ -413,6 +430,10 @@ impl<T> Iterator for StableDepthFirstTraverser<T> {
 impl<T> DoubleEndedIterator for StableDepthFirstTraverser<T> {
     fn next_back(&mut self) -> Option<Self::Item> {
         let (next, next_back) = self.next.take()?;
+        if Self::is_same_event(&next, &next_back) {
+            // The next event is the last event.
+            return Some(next_back);
+        }
         self.next = next_back
             .prev()
             .map(|prev_of_next_back| (next, prev_of_next_back));
-- 
2.43.0


From 7e668cb8f5fd2a9a2b91925310b2fc885f16a6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:08 +0000
Subject: [PATCH 11/16] fix: make DftEvent::close_current terminate

It looked at the same next event forever when the current node had a child (or
when a closed node had a next sibling).
---
 src/traverse/depth_first.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/traverse/depth_first.rs b/src/traverse/depth_first.rs
index 5c397aa..048117e 100644
--- a/src/traverse/depth_first.rs
+++ b/src/traverse/depth_first.rs
@@ -116,12 +116,15 @@ macro_rules! impl_dft_event_methods_for_node {
             #[must_use]
             pub fn close_current(&self) -> Option<$ty_node<T>> {
                 let mut depth = 0_usize;
+                let mut current = self.next()?;
                 loop {
-                    match self.next()? {
+                    let next = current.next();
+                    match current {
                         Self::Open(_) => depth += 1,
                         Self::Close(node) if depth == 0 => return Some(node),
                         Self::Close(_) => depth -= 1,
                     }
+                    current = next?;
                 }
             }
 
-- 
2.43.0


From 8ba3a8e16800b9f170c7fead21ecebb4656d0af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 12/16] fix: avoid depth overflow of non-allocating
 breadth-first traversal

Starting at the depth usize::MAX panicked (or restarted from the depth 0 without
overflow checks) while it should yield nothing.
---
 src/traverse/breadth_first.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/traverse/breadth_first.rs b/src/traverse/breadth_first.rs
index 1b2a49b..b9ec9fd 100644
--- a/src/traverse/breadth_first.rs
+++ b/src/traverse/breadth_first.rs
@@ -80,7 +80,14 @@ impl<T> Iterator for NonAllocatingBreadthFirstTraverser<T> {
         }
 
         // No more nodes in the current depth. Go deeper.
-        self.current_depth += 1;
+        self.current_depth = match self.current_depth.checked_add(1) {
+            Some(depth) => depth,
+            None => {
+                // No nodes can be deeper.
+                self.root = None;
+                return None;
+            }
+        };
         self.inner = StableShallowDepthFirstTraverser::with_toplevel(
             self.root.clone(),
             Some(self.current_depth),
-- 
2.43.0


From b7ec7cb750cc7e1afd690a7188a7b3d088769e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:26 +0000
Subject: [PATCH 13/16] fix: collect the nodes to be cloned before inserting
 the clone

try_clone_insert_subtree() left a partial subtree at the destination when some
data could not be borrowed, and never terminated when the destination was inside
the source subtree, since it kept cloning the nodes it had just inserted.
---
 src/node/edit.rs | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/src/node/edit.rs b/src/node/edit.rs
index 4922daf..cc23ea7 100644
--- a/src/node/edit.rs
+++ b/src/node/edit.rs
@@ -3,10 +3,11 @@
 use core::cmp::Ordering;
 
 use alloc::rc::Rc;
+use alloc::vec::Vec;
 
 use crate::anchor::{AdoptAs, InsertAs};
 use crate::node::{HierarchyError, HotNode, Node, NodeCoreLink, NodeCoreLinkWeak};
-use crate::serial::{TreeBuildError, TreeBuilder};
+use crate::serial::{Event, TreeBuildError, TreeBuilder};
 use crate::traverse::DftEvent;
 use crate::tree::TreeCore;
 
@@ -818,24 +819,25 @@ pub(super) fn try_clone_insert_subtree<T>(
 where
     T: Clone,
 {
-    let subtree_root = dest.try_create_node(
-        source
-            .try_borrow_data()
-            .map_err(HierarchyError::BorrowNodeData)?
-            .clone(),
-    )?;
-    let mut events = source.to_events();
-    // Skip the opening of the root, since it will be processed by calling
-    // `TreeBuilder::with_root()`.
-    events.next();
+    // Collect all the events before the insertion: the destination should be
+    // left unchanged when some data cannot be borrowed, and the new nodes should
+    // not be cloned again when the destination is inside the source subtree.
+    let mut events = source
+        .to_events()
+        .collect::<Result<Vec<_>, _>>()
+        .map_err(HierarchyError::BorrowNodeData)?
+        .into_iter();
+    // The opening of the root is processed by calling `TreeBuilder::with_root()`.
+    let root_data = match events.next() {
+        Some(Event::Open(data)) => data,
+        _ => unreachable!("[validity] the first event should be the opening of the root"),
+    };
+    let subtree_root = dest.try_create_node(root_data)?;
     events
-        .try_fold(
-            TreeBuilder::with_root(subtree_root),
-            |mut builder, ev_res| {
-                builder.push_event(ev_res?)?;
-                Ok(builder)
-            },
-        )
+        .try_fold(TreeBuilder::with_root(subtree_root), |mut builder, ev| {
+            builder.push_event(ev)?;
+            Ok(builder)
+        })
         .and_then(|builder| builder.finish())
         .map(|node| {
             node.bundle_new_hierarchy_edit_grant()
-- 
2.43.0


From 83a68bdcf283f9f6c92bf24d62eb540310a5c0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:34 +0000
Subject: [PATCH 14/16] fix: print nodes with empty content in pretty debug
 print

A node whose formatted data is empty was omitted from the output altogether.
---
 src/node/debug_print/pretty.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/node/debug_print/pretty.rs b/src/node/debug_print/pretty.rs
index b4ad2da..1c41d83 100644
--- a/src/node/debug_print/pretty.rs
+++ b/src/node/debug_print/pretty.rs
@@ -80,6 +80,8 @@ struct IndentWriter<'a, 'b> {
     indents: Vec<IndentedBlockState>,
     /// The number of pending whitespace-only indents.
     pending_ws_only_indent_level: usize,
+    /// Whether nothing is written yet for the current item.
+    is_item_empty: bool,
 }
 
 impl<'a, 'b> IndentWriter<'a, 'b> {
@@ -91,6 +93,7 @@ impl<'a, 'b> IndentWriter<'a, 'b> {
             line_state: LineState::BeforeIndent,
             indents: Vec::new(),
             pending_ws_only_indent_level: 0,
+            is_item_empty: true,
         }
     }
 
@@ -112,10 +115,24 @@ impl<'a, 'b> IndentWriter<'a, 'b> {
             is_last_item,
             is_first_line: true,
         });
+        self.is_item_empty = true;
 
         Ok(())
     }
 
+    /// Finishes writing the content of the current item.
+    ///
+    /// Writes the line of the item if the content is empty, since otherwise the
+    /// item won't appear in the output.
+    fn finish_content(&mut self) -> fmt::Result {
+        if self.is_item_empty {
+            self.write_indent_partial()?;
+            self.line_state = LineState::PartialIndent;
+            self.is_item_empty = false;
+        }
+        Ok(())
+    }
+
     /// Closes the current item.
     ///
     /// Returns `Ok(())` if an item is successfully closed.
@@ -196,6 +213,7 @@ impl fmt::Write for IndentWriter<'_, '_> {
                     level.is_first_line = level.is_first_line && !ends_with_newline;
                 }
                 self.fmt.write_str(content)?;
+                self.is_item_empty = false;
 
                 self.line_state = if ends_with_newline {
                     LineState::BeforeIndent
@@ -313,6 +331,7 @@ fn prepare_next_node_printing<T>(
     writer: &mut IndentWriter<'_, '_>,
     traverser: &mut DepthFirstLinkTraverser<'_, T>,
 ) -> Result<Option<NodeCoreLink<T>>, fmt::Error> {
+    writer.finish_content()?;
     for ev in traverser {
         let link = match ev {
             DftEvent::Open(link) => link,
-- 
2.43.0


From 3c8e024308d421b3dcd14c83fe64d67e8b634db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:42 +0000
Subject: [PATCH 15/16] fix: size hint of depth-limited traversal for nodes
 with children

---
 src/traverse/depth_first.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/traverse/depth_first.rs b/src/traverse/depth_first.rs
index 048117e..f29bee6 100644
--- a/src/traverse/depth_first.rs
+++ b/src/traverse/depth_first.rs
@@ -673,8 +673,15 @@ impl<T> Iterator for StableShallowDepthFirstTraverser<T> {
                 let min = match depth.cmp(depth_back) {
                     // `Open` for `depth`, and `Close` for `depth..=depth_back`.
                     Ordering::Greater => depth - depth_back + 2,
-                    // `Open` and `Close` for `depth`.
-                    Ordering::Equal if FrozenNode::ptr_eq(next, next_back) => return (2, Some(2)),
+                    Ordering::Equal if FrozenNode::ptr_eq(next, next_back) => {
+                        if *depth == self.max_depth() || !next.has_children() {
+                            // `Open` and `Close` for `depth`.
+                            return (2, Some(2));
+                        }
+                        // `Open` for `depth`, `Open` and `Close` for at least
+                        // one child, and `Close` for `depth`.
+                        4
+                    }
                     // `Open`, `Close`, `Open` again, and `Close` again for `depth`.
                     Ordering::Equal => 4,
                     // `Open` for `depth..=depth_back`, and `Close` for `depth`.
-- 
2.43.0


From 50dc330ffe60442d04835afd06cc0420f6e9c07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:10 +0000
Subject: [PATCH 16/16] fix: do not walk the ancestors on insertion of an
 interrupting parent

The check for loops, needed for moves inside a tree, made the operation
O(depth).
---
 src/node/edit.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/node/edit.rs b/src/node/edit.rs
index cc23ea7..6a8cc02 100644
--- a/src/node/edit.rs
+++ b/src/node/edit.rs
@@ -589,7 +589,10 @@ pub(super) fn create_as_interrupting_parent<T>(this: &NodeCoreLink<T>, data: T)
                     .expect("[validity] newly created node won't make no loop");
             }
             // Move `this` and its subtree under the new node.
-            detach_and_move_inside_same_tree(this, InsertAs::LastChildOf(new_link))
+            // There is no need to look for loops up to the root, since the new
+            // node is a sibling of `this`.
+            OrphanRoot::new_by_unlink(this)
+                .insert_as_last_child_of(new_link)
                 .expect("[validity] the new node is neither ancestor nor descendant of `this`");
         } else {
             let new_downgraded = new.link.downgrade();
-- 
2.43.0

