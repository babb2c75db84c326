From f7f9627d840acd213c4aa371526b3a820e4c4915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:49 +0000
Subject: [PATCH 01/16] verif hook: narrow RRB_WIDTH under
 cfg(librrb_verif_w4/w8)

---
 src/lib.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 0968e58..afca698 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -28,6 +28,7 @@
 //! operations are easier to be implement. The aim is that this translates to a faster data
 //! structure.
 #![deny(missing_docs)]
+#![allow(unexpected_cfgs)]
 #![cfg_attr(debug_assertions, allow(missing_docs))]
 #![cfg_attr(feature = "may_dangle", feature(dropck_eyepatch))]
 
@@ -51,8 +52,18 @@ use archery::{ArcK, RcK};
 use node_impls::basic::{Internal, Leaf};
 
 /// The width of the RRB tree nodes. The maximum number of elements in a leaf or internal node.
+#[cfg(not(any(librrb_verif_w4, librrb_verif_w8)))]
 pub const RRB_WIDTH: usize = 64;
 
+/// Verification hook: a narrow tree reaches deep shapes with few elements. Only built with
+/// `RUSTFLAGS="--cfg librrb_verif_w4"`.
+#[cfg(librrb_verif_w4)]
+pub const RRB_WIDTH: usize = 4;
+
+/// Verification hook: see above. Only built with `RUSTFLAGS="--cfg librrb_verif_w8"`.
+#[cfg(all(librrb_verif_w8, not(librrb_verif_w4)))]
+pub const RRB_WIDTH: usize = 8;
+
 /// Represents a side of a container.
 #[derive(Clone, Copy, Debug, PartialEq)]
 pub enum Side {
-- 
2.43.0


From 48f4f4e7ceb29deb943e4bf4ef33cdc372bfa1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:49 +0000
Subject: [PATCH 02/16] verif hook: tree shape dump under cfg(librrb_verif)

---
 src/vector.rs | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/src/vector.rs b/src/vector.rs
index a8f0cd8..1779218 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -2322,6 +2322,46 @@ where
     }
 }
 
+// Verification hook: a read-only dump of the tree's shape, for checking recorded runs of the real
+// code against an explicit specification. Only built with `RUSTFLAGS="--cfg librrb_verif"`.
+#[cfg(librrb_verif)]
+impl<Internal> InternalVector<Internal>
+where
+    Internal: InternalTrait,
+{
+    /// Returns the shape of the tree as JSON. A leaf is its number of elements, an internal node is
+    /// `[level, [sizes recorded for the children], [children]]`. The whole is
+    /// `[len, [left spine, leaf first], root, [right spine, leaf first]]`.
+    #[doc(hidden)]
+    pub fn verif_shape(&self) -> String {
+        fn list<T>(items: impl Iterator<Item = T>, f: impl Fn(T) -> String) -> String {
+            format!("[{}]", items.map(f).collect::<Vec<_>>().join(","))
+        }
+        fn internal<I: InternalTrait>(node: &I) -> String {
+            let child = |i| node.get_child_ref_at_slot(i).unwrap();
+            let sizes = list(0..node.slots(), |i| child(i).1.len().to_string());
+            let children = list(0..node.slots(), |i| match child(i).0 {
+                crate::node_traits::NodeRef::Leaf(x) => x.load().len().to_string(),
+                crate::node_traits::NodeRef::Internal(x) => internal(&*x.load()),
+            });
+            format!("[{},{},{}]", node.level(), sizes, children)
+        }
+        fn any<I: InternalTrait>(node: &NodeRc<I>) -> String {
+            match node {
+                NodeRc::Leaf(x) => x.load().len().to_string(),
+                NodeRc::Internal(x) => internal(&*x.load()),
+            }
+        }
+        format!(
+            "[{},{},{},{}]",
+            self.len,
+            list(self.left_spine.iter(), any),
+            any(&self.root),
+            list(self.right_spine.iter(), any)
+        )
+    }
+}
+
 impl<Internal> std::ops::Index<usize> for InternalVector<Internal>
 where
     Internal: InternalTrait,
-- 
2.43.0


From 81ea333b2cb2cd66dd865bddedd12968d8af0491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:14 +0000
Subject: [PATCH 03/16] fix: equal_range*_in_range_by treated an inclusive end
 as two elements shorter

---
 src/vector.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vector.rs b/src/vector.rs
index 1779218..63debc4 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -1455,7 +1455,7 @@ where
         };
 
         let mut end = match range.end_bound() {
-            Bound::Included(x) => x - 1,
+            Bound::Included(x) => x + 1,
             Bound::Excluded(x) => *x,
             Bound::Unbounded => self.len,
         };
@@ -1587,7 +1587,7 @@ where
         };
 
         let mut end = match range.end_bound() {
-            Bound::Included(x) => x - 1,
+            Bound::Included(x) => x + 1,
             Bound::Excluded(x) => *x,
             Bound::Unbounded => self.len,
         };
-- 
2.43.0


From 1cbc9c0ee605b8a8f5ef7de059bed587a46d0161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:14 +0000
Subject: [PATCH 04/16] fix: equal_range* panicked or looped on an empty vector
 or range

---
 src/vector.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vector.rs b/src/vector.rs
index 63debc4..a1ab2d4 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -1592,6 +1592,10 @@ where
             Bound::Unbounded => self.len,
         };
 
+        if start >= end {
+            return Err(start);
+        }
+
         let avg = |x: usize, y: usize| (x / 2) + (y / 2) + (x % 2 + y % 2) / 2;
         let mut focus = self.focus();
 
-- 
2.43.0


From df12481ffd862fcd9c3322fa944a105342face80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:14 +0000
Subject: [PATCH 05/16] fix: Focus::split_at on a narrowed focus ignored the
 start of its range

---
 src/focus.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/focus.rs b/src/focus.rs
index 0e2b6cc..9c7fd12 100644
--- a/src/focus.rs
+++ b/src/focus.rs
@@ -364,8 +364,9 @@ where
         if idx >= self.len() {
             panic!("Split is out of range")
         }
-        let first_range = self.range.start..idx;
-        let second_range = idx..self.range.end;
+        let split = self.range.start + idx;
+        let first_range = self.range.start..split;
+        let second_range = split..self.range.end;
         let first = Focus::narrowed_tree(self.tree, first_range);
         let second = Focus::narrowed_tree(self.tree, second_range);
         (first, second)
-- 
2.43.0


From 8270253feef65511183f4eda981798819422b537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:14 +0000
Subject: [PATCH 06/16] fix: Focus::narrow accepted ranges reaching past a
 narrowed focus

---
 src/focus.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/focus.rs b/src/focus.rs
index 9c7fd12..4b032cb 100644
--- a/src/focus.rs
+++ b/src/focus.rs
@@ -334,7 +334,7 @@ where
             Bound::Included(x) => x + 1,
             Bound::Excluded(x) => *x,
         };
-        if range_end > self.range.end {
+        if range_end > self.len() {
             panic!("Range must be inside the parent range");
         }
         let new_start = self.range.start + range_start;
-- 
2.43.0


From d508484477fc456ae9eaf2de156919bed6df826e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:14 +0000
Subject: [PATCH 07/16] fix: an empty Focus panicked on a vector whose root is
 an empty internal node

---
 src/focus.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/focus.rs b/src/focus.rs
index 4b032cb..6603c50 100644
--- a/src/focus.rs
+++ b/src/focus.rs
@@ -174,7 +174,7 @@ where
         let mut range_end = 0;
         let mut focus_range = 0..0;
         let mut spine_position = None;
-        let mut focus_node = &tree.root;
+        let mut focus_node = tree.left_spine.first().unwrap_or(&tree.root);
         for (node_position, node) in tree_iter {
             let range_start = range_end;
             range_end = range_start + node.len();
-- 
2.43.0


From 171ce7f8cf0a29df2301dab7ea7bcda37831d12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:14 +0000
Subject: [PATCH 08/16] fix: FocusMut panicked after an out of range get on a
 borrowed leaf

---
 src/focus.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/focus.rs b/src/focus.rs
index 6603c50..46829ff 100644
--- a/src/focus.rs
+++ b/src/focus.rs
@@ -705,10 +705,8 @@ where
     fn drop_path_nodes(&mut self) {
         self.root = None;
         // panic!("rawr {}", self.path.len());
-        if self.leaf.take().is_some() {
-            // println!("dropping leaf {:?} ", self.leaf_range);
-            self.leaf_range = 0..0;
-        }
+        self.leaf = None;
+        self.leaf_range = 0..0;
         while self.path.pop().is_some() {
             // println!("dropping internal {:?} ", p.1);
         }
-- 
2.43.0


From 8785b1d63f2c3cb151d036b100edd0d4d5e01035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:49 +0000
Subject: [PATCH 09/16] fix: sorting many equal elements recursed once per
 element and overflowed the stack

---
 src/sort.rs | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/sort.rs b/src/sort.rs
index 5515318..2b7b7d1 100644
--- a/src/sort.rs
+++ b/src/sort.rs
@@ -102,10 +102,19 @@ pub(crate) fn do_single_sort<R, F, Internal>(
             cmp::Ordering::Greater => {}
         }
     }
-    // If by accident we picked the minimum element as a pivot, we just call sort again with the
-    // rest of the vector.
+    // If by accident we picked the minimum element as a pivot, we gather the items equal to it right
+    // behind it and call sort again with the rest of the vector.
     if less_count == 0 {
-        do_single_sort(&mut rest, rng, comparator);
+        let mut equal_position = 0;
+        for index in 0..rest.len() {
+            if comparator(rest.index(index), first.index(0)) == cmp::Ordering::Equal {
+                mem::swap(first.index(0), rest.index(equal_position));
+                mem::swap(first.index(0), rest.index(index));
+                equal_position += 1;
+            }
+        }
+        let (_, mut greater_focus) = rest.split_at(equal_position);
+        do_single_sort(&mut greater_focus, rng, comparator);
         return;
     }
 
@@ -280,10 +289,22 @@ pub(crate) fn do_dual_sort<R, F, Internal1, Internal2>(
             cmp::Ordering::Greater => {}
         }
     }
-    // If by accident we picked the minimum element as a pivot, we just call sort again with the
-    // rest of the vector.
+    // If by accident we picked the minimum element as a pivot, we gather the items equal to it right
+    // behind it and call sort again with the rest of the vector.
     if less_count == 0 {
-        do_dual_sort(&mut rest_focus, &mut rest_dual, rng, comparator);
+        let mut equal_position = 0;
+        for index in 0..rest_focus.len() {
+            if comparator(rest_focus.index(index), first_focus.index(0)) == cmp::Ordering::Equal {
+                mem::swap(first_focus.index(0), rest_focus.index(equal_position));
+                mem::swap(first_focus.index(0), rest_focus.index(index));
+                mem::swap(first_dual.index(0), rest_dual.index(equal_position));
+                mem::swap(first_dual.index(0), rest_dual.index(index));
+                equal_position += 1;
+            }
+        }
+        let (_, mut greater_focus) = rest_focus.split_at(equal_position);
+        let (_, mut greater_dual) = rest_dual.split_at(equal_position);
+        do_dual_sort(&mut greater_focus, &mut greater_dual, rng, comparator);
         return;
     }
 
-- 
2.43.0


From 7824bccd4ea1866179165853c491fb3b1a17416a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:53 +0000
Subject: [PATCH 10/16] fix: every FocusMut leaked the size tables of the nodes
 it borrowed

---
 src/focus.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/focus.rs b/src/focus.rs
index 46829ff..8ac9207 100644
--- a/src/focus.rs
+++ b/src/focus.rs
@@ -646,9 +646,6 @@ where
     fn drop(&mut self) {
         self.drop_path_nodes();
         self.drop_borrowed_nodes();
-        while let Some(node) = self.nodes.pop() {
-            std::mem::forget(node);
-        }
         unsafe {
             ManuallyDrop::drop(&mut self.nodes);
         }
-- 
2.43.0


From c7e93a38e0dc569d63110874d1e700258c018575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:26 +0000
Subject: [PATCH 11/16] fix: Focus::get overflowed on a huge index of a
 narrowed focus

---
 src/focus.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/focus.rs b/src/focus.rs
index 8ac9207..7d8fa33 100644
--- a/src/focus.rs
+++ b/src/focus.rs
@@ -260,7 +260,7 @@ where
     /// assert_eq!(focus.get(3), None);
     /// ```
     pub fn get(&mut self, idx: usize) -> Option<&<Internal::Leaf as LeafTrait>::Item> {
-        let new_idx = idx + self.range.start;
+        let new_idx = idx.checked_add(self.range.start)?;
         if self.range.contains(&new_idx) {
             if !self.focus_range.contains(&new_idx) {
                 self.refocus(new_idx);
-- 
2.43.0


From 923fde4ab8bd1f648e480cdcb458320c57e893a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:06 +0000
Subject: [PATCH 12/16] fix: a range bound at usize::MAX overflowed instead of
 reaching past the end

---
 src/focus.rs  |  4 ++--
 src/vector.rs | 24 ++++++++++++------------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/focus.rs b/src/focus.rs
index 7d8fa33..303854c 100644
--- a/src/focus.rs
+++ b/src/focus.rs
@@ -327,11 +327,11 @@ where
         let range_start = match range.start_bound() {
             Bound::Unbounded => 0,
             Bound::Included(x) => *x,
-            Bound::Excluded(x) => x + 1,
+            Bound::Excluded(x) => x.saturating_add(1),
         };
         let range_end = match range.end_bound() {
             Bound::Unbounded => self.len(),
-            Bound::Included(x) => x + 1,
+            Bound::Included(x) => x.saturating_add(1),
             Bound::Excluded(x) => *x,
         };
         if range_end > self.len() {
diff --git a/src/vector.rs b/src/vector.rs
index a1ab2d4..d388634 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -1169,11 +1169,11 @@ where
         let range_start = match range.start_bound() {
             Bound::Unbounded => 0,
             Bound::Included(x) => *x,
-            Bound::Excluded(x) => x + 1,
+            Bound::Excluded(x) => x.saturating_add(1),
         };
         let range_end = match range.end_bound() {
             Bound::Unbounded => self.len(),
-            Bound::Included(x) => x + 1,
+            Bound::Included(x) => x.saturating_add(1),
             Bound::Excluded(x) => *x,
         };
 
@@ -1401,11 +1401,11 @@ where
         let range_start = match range.start_bound() {
             Bound::Unbounded => 0,
             Bound::Included(x) => *x,
-            Bound::Excluded(x) => x + 1,
+            Bound::Excluded(x) => x.saturating_add(1),
         };
         let range_end = match range.end_bound() {
             Bound::Unbounded => self.len(),
-            Bound::Included(x) => x + 1,
+            Bound::Included(x) => x.saturating_add(1),
             Bound::Excluded(x) => *x,
         };
         range_start..range_end
@@ -1820,11 +1820,11 @@ where
         let range_start = match range.start_bound() {
             Bound::Unbounded => 0,
             Bound::Included(x) => *x,
-            Bound::Excluded(x) => x + 1,
+            Bound::Excluded(x) => x.saturating_add(1),
         };
         let range_end = match range.end_bound() {
             Bound::Unbounded => self.len(),
-            Bound::Included(x) => x + 1,
+            Bound::Included(x) => x.saturating_add(1),
             Bound::Excluded(x) => *x,
         };
         let mut focus = self.focus_mut();
@@ -1868,11 +1868,11 @@ where
         let range_start = match range.start_bound() {
             Bound::Unbounded => 0,
             Bound::Included(x) => *x,
-            Bound::Excluded(x) => x + 1,
+            Bound::Excluded(x) => x.saturating_add(1),
         };
         let range_end = match range.end_bound() {
             Bound::Unbounded => self.len(),
-            Bound::Included(x) => x + 1,
+            Bound::Included(x) => x.saturating_add(1),
             Bound::Excluded(x) => *x,
         };
         let mut focus = self.focus_mut();
@@ -1912,11 +1912,11 @@ where
         let range_start = match range.start_bound() {
             Bound::Unbounded => 0,
             Bound::Included(x) => *x,
-            Bound::Excluded(x) => x + 1,
+            Bound::Excluded(x) => x.saturating_add(1),
         };
         let range_end = match range.end_bound() {
             Bound::Unbounded => self.len(),
-            Bound::Included(x) => x + 1,
+            Bound::Included(x) => x.saturating_add(1),
             Bound::Excluded(x) => *x,
         };
         let mut focus = self.focus_mut();
@@ -1960,11 +1960,11 @@ where
         let range_start = match range.start_bound() {
             Bound::Unbounded => 0,
             Bound::Included(x) => *x,
-            Bound::Excluded(x) => x + 1,
+            Bound::Excluded(x) => x.saturating_add(1),
         };
         let range_end = match range.end_bound() {
             Bound::Unbounded => self.len(),
-            Bound::Included(x) => x + 1,
+            Bound::Included(x) => x.saturating_add(1),
             Bound::Excluded(x) => *x,
         };
         let comp = |x: &<Internal::Leaf as LeafTrait>::Item,
-- 
2.43.0


From 3a16d696b562ddb4aa44efc906f31a126e58307d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:33 +0000
Subject: [PATCH 13/16] verif hook: height of the tree under cfg(librrb_verif)

---
 src/vector.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/vector.rs b/src/vector.rs
index d388634..f8bc043 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -2364,6 +2364,12 @@ where
             list(self.right_spine.iter(), any)
         )
     }
+
+    /// Returns the number of levels below the root.
+    #[doc(hidden)]
+    pub fn verif_height(&self) -> usize {
+        self.left_spine.len()
+    }
 }
 
 impl<Internal> std::ops::Index<usize> for InternalVector<Internal>
-- 
2.43.0


From 3b6965605857ff92561a8059bd1b3d1e5e4f4631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:42 +0000
Subject: [PATCH 14/16] fix: every concatenation of a shorter vector left a
 sparse child in the root

The seam of the shorter tree was pushed up through one node a level until it
reached the root of the taller one, so the root filled up with chains of single
children and the tree grew by a level about every RRB_WIDTH concatenations
however few elements they added: 400 appends of up to nine elements made a tree
of height 7, the height of a tree of 10^12 elements. Above the shorter tree the
seam is now kept as the spine node of the new tree.
---
 src/vector.rs | 63 +++++++++++++++++++++++++++++++++++----------------
 1 file changed, 44 insertions(+), 19 deletions(-)

diff --git a/src/vector.rs b/src/vector.rs
index f8bc043..de3b19a 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -973,6 +973,8 @@ where
         }
 
         let new_len = self.len + other.len();
+        let left_height = self.right_spine.len();
+        let right_height = other.left_spine.len();
 
         // Make the spines the same length
         while self.right_spine.len() < other.left_spine.len() {
@@ -1031,30 +1033,53 @@ where
                 parent_node.push_child(Side::Front, right_child);
             }
         }
+        let mut level = 0;
         while !self.right_spine.is_empty() {
             let mut left_node = self.right_spine.pop().unwrap();
             let mut right_node = other.left_spine.pop().unwrap();
+            level += 1;
+
+            // Above the shorter tree there might be nothing to merge on one of the sides
+            if !left_node.is_empty() && !right_node.is_empty() {
+                let mut left = left_node.internal_mut().load_mut();
+                let mut right = right_node.internal_mut().load_mut();
+
+                left.pack_children();
+                let mut left_right_most = left.pop_child(Side::Back);
+                while !left_right_most.is_full() && !right.is_empty() {
+                    let mut right_left_most = right.pop_child(Side::Front);
+                    right_left_most.share_children_with(
+                        &mut left_right_most,
+                        Side::Front,
+                        right_left_most.slots(),
+                    );
+                    if !right_left_most.is_empty() {
+                        right.push_child(Side::Front, right_left_most);
+                    }
+                }
+                left.push_child(Side::Back, left_right_most);
+                right.pack_children();
+                let slots = right.slots();
+                right.share_children_with(&mut *left, Side::Front, slots);
+            }
 
-            let mut left = left_node.internal_mut().load_mut();
-            let mut right = right_node.internal_mut().load_mut();
-
-            left.pack_children();
-            let mut left_right_most = left.pop_child(Side::Back);
-            while !left_right_most.is_full() && !right.is_empty() {
-                let mut right_left_most = right.pop_child(Side::Front);
-                right_left_most.share_children_with(
-                    &mut left_right_most,
-                    Side::Front,
-                    right_left_most.slots(),
-                );
-                if !right_left_most.is_empty() {
-                    right.push_child(Side::Front, right_left_most);
+            if level > left_height.min(right_height) {
+                // The shorter tree only has what came up from below here. If that leaves a single
+                // node it can be the spine node of the new tree. Pushing it up instead would add a
+                // sparse child to the root on every concatenation.
+                let spine = if right_height < left_height {
+                    &mut other.right_spine
+                } else {
+                    &mut self.left_spine
+                };
+                if right_node.is_empty() && left_node.free_slots() != 0 {
+                    spine[level] = left_node;
+                    continue;
+                } else if left_node.is_empty() && right_node.free_slots() != 0 {
+                    spine[level] = right_node;
+                    continue;
                 }
             }
-            left.push_child(Side::Back, left_right_most);
-            right.pack_children();
-            let slots = right.slots();
-            right.share_children_with(&mut *left, Side::Front, slots);
 
             if !left_node.is_empty() {
                 self.right_spine
@@ -1064,7 +1089,7 @@ where
                     .load_mut()
                     .push_child(Side::Back, left_node);
             }
-            if !right.is_empty() {
+            if !right_node.is_empty() {
                 other
                     .left_spine
                     .last_mut()
-- 
2.43.0


From 630d465b7576f4b994aa7d6fc9c134d330eb5ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:54 +0000
Subject: [PATCH 15/16] fix: splitting a node checked every node below it in
 release builds too

---
 src/node_impls/basic.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/node_impls/basic.rs b/src/node_impls/basic.rs
index 9aaf30a..1b7c3e2 100644
--- a/src/node_impls/basic.rs
+++ b/src/node_impls/basic.rs
@@ -857,8 +857,11 @@ impl<Leaf: LeafTrait, P: SharedPointerKind> InternalTrait for Internal<Leaf, P>
             result.push_child(Side::Front, subresult);
         }
 
-        self.debug_check_invariants(original_position, self.level());
-        result.debug_check_invariants(original_len - original_position, result.level());
+        if cfg!(debug_assertions) {
+            // This visits every node below, so it is not something to do in a release build
+            self.debug_check_invariants(original_position, self.level());
+            result.debug_check_invariants(original_len - original_position, result.level());
+        }
         result
     }
 
-- 
2.43.0


From 28a1f3e58d2d3eeec0a26ab3f971136c2b2da614 Mon Sep 17 00:00:00 2001
From: root <root@localhost>
Date: Thu, 19 Nov 2026 08:39:05 +0000
Subject: [PATCH 16/16] fix: constant_vec_of_length of 2^63 elements or more
 overflowed and never ended

---
 src/vector.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vector.rs b/src/vector.rs
index de3b19a..cf0e473 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -456,6 +456,10 @@ where
             if len & accumulator.len() != 0 {
                 store.append(accumulator.clone());
             }
+            if accumulator.len() > len / 2 {
+                // Doubling this again would exceed what was asked for, and possibly a usize
+                break;
+            }
             accumulator.append(accumulator.clone());
         }
         store
-- 
2.43.0

