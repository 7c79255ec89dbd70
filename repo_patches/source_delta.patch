From ea2c02b7db52b42647155f28276efb70eff87445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:34 +0000
Subject: [PATCH 01/17] fix: querying a tree with at most leafsize points
 panicked

The root of such a tree is a leaf, but every query took its initial
candidate from the root with Node::stem, which only accepted stems.
---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index cfe4ef2..b30bfd2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -113,7 +113,8 @@ impl<T: Float, const D: usize> Node<T, D> {
     fn stem<'a>(&'a self) -> &'a Point<T, D> {
         match self {
             Node::Stem { point, .. } => point,
-            _ => unreachable!("only to be used on stems"),
+            // With at most `leafsize` points, the root is a (nonempty) leaf
+            Node::Leaf { points, .. } => &points[0],
         }
     }
 
-- 
2.43.0


From bf6e8aa74f0726b3355c162d68aa8486b324dc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:54 +0000
Subject: [PATCH 02/17] fix: building from data with NaNs compared them before
 rejecting the data

The check ran alongside the build, whose comparisons are undefined
behavior on NaNs (debug builds abort). Wait for the check first.
---
 src/lib.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index b30bfd2..f64030d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -150,6 +150,9 @@ impl<'t, T: Float + Send + Debug, const D: usize> Tree<'t, T, D> {
         std::thread::scope(|s| {
             let handle = s.spawn(|| check_data(input));
 
+            // Ensure we've checked data before building: comparing a NaN is undefined behavior
+            unsafe { handle.join().unwrap_unchecked()? };
+
             // This is used to determine the size several allocations
             let data_len = input.len();
             let height_hint = data_len.ilog2() as usize;
@@ -247,9 +250,6 @@ impl<'t, T: Float + Send + Debug, const D: usize> Tree<'t, T, D> {
             };
             let root_node = unsafe { nodes.pop().unwrap_unchecked() };
 
-            // Ensure we've checked data before returning
-            unsafe { handle.join().unwrap_unchecked()? };
-
             let start = input.as_ptr() as *const [NotNan<T>; D];
 
             Ok(Tree {
@@ -471,6 +471,9 @@ impl<'t, T: Float + Send + Debug, const D: usize> Tree<'t, T, D> {
             // SAFETY: the thread is joined within this
             let handle = s.spawn(|| check_data(input));
 
+            // Ensure we've checked data before building: comparing a NaN is undefined behavior
+            handle.join().unwrap()?;
+
             // This is used to determine the size several allocations
             let data_len = input.len();
             let height_hint = data_len.ilog2() as usize;
@@ -559,9 +562,6 @@ impl<'t, T: Float + Send + Debug, const D: usize> Tree<'t, T, D> {
 
             let root_node: Node<T, D> = nodes.pop().expect("root node should exist");
 
-            // ensure we've checked data before returning
-            handle.join().unwrap()?;
-
             let start = input.as_ptr() as *const [NotNan<T>; D];
 
             Ok(Tree {
-- 
2.43.0


From 1a3223eac923d5e53e519410f56855f7d084252f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:54 +0000
Subject: [PATCH 03/17] fix: size_of_tree underflowed with leafsize 0

Building a tree with leafsize 0 panicked in debug builds and did not
return in release builds.
---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index f64030d..14a6cb3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -821,8 +821,8 @@ mod tests {
 
 fn size_of_tree(datalen: usize, leafsize: usize) -> usize {
     if likely(datalen > leafsize) {
-        let left = datalen / 2 - 1;
-        let right = datalen / 2 - datalen % 2;
+        let left = (datalen / 2).saturating_sub(1);
+        let right = (datalen / 2).saturating_sub(datalen % 2);
         1 + size_of_tree(left, leafsize) + size_of_tree(right, leafsize)
     } else if datalen == 0 {
         0
-- 
2.43.0


From 5453e8ebc6b7fb4fe054c72a3928ff1ac6b6b642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:11 +0000
Subject: [PATCH 04/17] fix: k = 0 neighbor queries were undefined behavior

The container unwraps its largest element unchecked. Return no neighbors.
---
 src/query_k.rs               | 5 +++++
 src/query_k/parallel.rs      | 8 +++++++-
 src/query_k/parallel_axis.rs | 8 +++++++-
 src/query_k/parallel_with.rs | 8 +++++++-
 4 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/query_k.rs b/src/query_k.rs
index ea50d65..cafae69 100644
--- a/src/query_k.rs
+++ b/src/query_k.rs
@@ -25,6 +25,11 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
         // Check for valid query point
         let query: &[NotNan<T>; D] = check_point_return(query)?;
 
+        // The container needs room for at least one neighbor
+        if k == 0 {
+            return Ok(Default::default());
+        }
+
         if let Some(ref boxsize) = self.boxsize {
             // Periodic query
             Ok(self.query_nearest_k_periodic(query, k, boxsize))
diff --git a/src/query_k/parallel.rs b/src/query_k/parallel.rs
index 25bb3e5..9d553b4 100644
--- a/src/query_k/parallel.rs
+++ b/src/query_k/parallel.rs
@@ -4,7 +4,7 @@ use std::fmt::Debug;
 
 use crate::{
     point::{Float, Point},
-    utils::{check_point_return, FnntwResult, QueryKResult},
+    utils::{check_data, check_point_return, FnntwResult, QueryKResult},
     Node, Tree,
 };
 use ordered_float::NotNan;
@@ -19,6 +19,12 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
     ) -> FnntwResult<QueryKResult<'t, T, D>, T> {
         use rayon::prelude::{IndexedParallelIterator, IntoParallelIterator, ParallelIterator};
 
+        // The container needs room for at least one neighbor
+        if k == 0 {
+            check_data(queries)?;
+            return Ok(Default::default());
+        }
+
         #[cfg(feature = "timing")]
         let alloc_timer = std::time::Instant::now();
 
diff --git a/src/query_k/parallel_axis.rs b/src/query_k/parallel_axis.rs
index 781ff13..70e8a5e 100644
--- a/src/query_k/parallel_axis.rs
+++ b/src/query_k/parallel_axis.rs
@@ -5,7 +5,7 @@ use std::fmt::Debug;
 use crate::{
     distance::{calc_dist_sq_to_space, new_best_kth_axis},
     point::{Float, Point},
-    utils::{check_point_return, FnntwError, FnntwResult},
+    utils::{check_data, check_point_return, FnntwError, FnntwResult},
     Node, Tree,
 };
 use ordered_float::NotNan;
@@ -26,6 +26,12 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
             return Err(FnntwError::InvalidAxis);
         }
 
+        // The container needs room for at least one neighbor
+        if k == 0 {
+            check_data(queries)?;
+            return Ok(Default::default());
+        }
+
         let mut axes = Vec::with_capacity(queries.len() * k);
         let mut nonaxes = Vec::with_capacity(queries.len() * k);
         #[cfg(not(feature = "no-index"))]
diff --git a/src/query_k/parallel_with.rs b/src/query_k/parallel_with.rs
index 4822629..6d3758b 100644
--- a/src/query_k/parallel_with.rs
+++ b/src/query_k/parallel_with.rs
@@ -4,7 +4,7 @@ use std::fmt::Debug;
 
 use crate::{
     point::{Float, Point},
-    utils::{check_point_return, FnntwResult, QueryKResult},
+    utils::{check_data, check_point_return, FnntwResult, QueryKResult},
     Node, Tree,
 };
 use ordered_float::NotNan;
@@ -20,6 +20,12 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
         use rayon::prelude::{IndexedParallelIterator, IntoParallelIterator, ParallelIterator};
         use sync_unsafe_cell::SyncUnsafeCell;
 
+        // The container needs room for at least one neighbor
+        if k == 0 {
+            check_data(queries)?;
+            return Ok(Default::default());
+        }
+
         #[cfg(feature = "timing")]
         let alloc_timer = std::time::Instant::now();
 
-- 
2.43.0


From cc7190c18dcda07d8e2c0352c9aaf8c156c9d927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:12 +0000
Subject: [PATCH 05/17] fix: batched queries with k larger than the data
 returned uninitialized memory

The results were sized and strided for k neighbors per query, when only
data.len() exist. Return min(k, data.len()) neighbors per query, as
query_nearest_k does.
---
 src/query_k/parallel.rs      | 3 +++
 src/query_k/parallel_axis.rs | 3 +++
 src/query_k/parallel_with.rs | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/query_k/parallel.rs b/src/query_k/parallel.rs
index 9d553b4..8d79341 100644
--- a/src/query_k/parallel.rs
+++ b/src/query_k/parallel.rs
@@ -19,6 +19,9 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
     ) -> FnntwResult<QueryKResult<'t, T, D>, T> {
         use rayon::prelude::{IndexedParallelIterator, IntoParallelIterator, ParallelIterator};
 
+        // There are at most this many neighbors per query
+        let k = k.min(self.data.len());
+
         // The container needs room for at least one neighbor
         if k == 0 {
             check_data(queries)?;
diff --git a/src/query_k/parallel_axis.rs b/src/query_k/parallel_axis.rs
index 70e8a5e..e5854b7 100644
--- a/src/query_k/parallel_axis.rs
+++ b/src/query_k/parallel_axis.rs
@@ -26,6 +26,9 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
             return Err(FnntwError::InvalidAxis);
         }
 
+        // There are at most this many neighbors per query
+        let k = k.min(self.data.len());
+
         // The container needs room for at least one neighbor
         if k == 0 {
             check_data(queries)?;
diff --git a/src/query_k/parallel_with.rs b/src/query_k/parallel_with.rs
index 6d3758b..1a90aac 100644
--- a/src/query_k/parallel_with.rs
+++ b/src/query_k/parallel_with.rs
@@ -20,6 +20,9 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
         use rayon::prelude::{IndexedParallelIterator, IntoParallelIterator, ParallelIterator};
         use sync_unsafe_cell::SyncUnsafeCell;
 
+        // There are at most this many neighbors per query
+        let k = k.min(self.data.len());
+
         // The container needs room for at least one neighbor
         if k == 0 {
             check_data(queries)?;
-- 
2.43.0


From 44e5acca571f975de4db4308b5c88d6758949971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:44 +0000
Subject: [PATCH 06/17] fix: large builds split runs of identical values at
 their start

With at least 100,000 points, every split of a run of identical values
put all but one of them on the right, so that building recursed once per
point and overflowed the stack (and took quadratic time).
---
 src/moms.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/moms.rs b/src/moms.rs
index 90295f0..f003679 100644
--- a/src/moms.rs
+++ b/src/moms.rs
@@ -296,6 +296,9 @@ pub fn moms_seq<T: Float, const D: usize>(
         right_timer.elapsed().as_micros()
     );
 
+    // Any element equal to the approximate median can be the split point. Choose the one closest
+    // to the middle, so that runs of identical values are also split in half.
+    let left = (slice.len() / 2).clamp(left, left + equal - 1);
     let (left, remainder) = slice.split_at_mut(left);
     let (approx_median, right) = remainder.split_first_mut().unwrap();
 
-- 
2.43.0


From 06b636a026fe538237ba330ea38e11d93d9962d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:30 +0000
Subject: [PATCH 07/17] fix: queries recursed once per visited stem and
 overflowed the stack

check_stem emptied the whole queue at every level of recursion. Queries
that visit many nodes (large k, many dimensions) crashed with
leafsize 1 and a few 100,000 points.
---
 src/query.rs                 | 28 +++++++++++++++++++++++++---
 src/query_k.rs               | 21 ++++++++++++++++++---
 src/query_k/parallel_axis.rs | 22 +++++++++++++++++++---
 3 files changed, 62 insertions(+), 9 deletions(-)

diff --git a/src/query.rs b/src/query.rs
index db1b8d2..3a7a30e 100644
--- a/src/query.rs
+++ b/src/query.rs
@@ -206,7 +206,7 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
             // Sibling is a parent (e.g. for unbalanced tree)
             Node::Stem { .. } => {
                 self.check_parent(query, stem, current_best_dist_sq, current_best_neighbor);
-                self.check_stem(
+                self.descend_stem(
                     query,
                     sibling,
                     current_best_dist_sq,
@@ -239,9 +239,9 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
         }
     }
 
-    /// If sibling is a stem, then we need to recurse back down
+    /// If sibling is a stem, then we need to go back down
 
-    fn check_stem<'i, 'o>(
+    fn descend_stem<'i, 'o>(
         &'i self,
         query: &[NotNan<T>; D],
         stem: &'i Node<T, D>,
@@ -310,6 +310,28 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
             current_best_dist_sq,
             current_best_neighbor,
         );
+    }
+
+    /// Checks everything at and below a stem that can be closer than what was found so far.
+    /// This does not recurse, whose depth would be proportional to the number of nodes visited.
+    fn check_stem<'i, 'o>(
+        &'i self,
+        query: &[NotNan<T>; D],
+        stem: &'i Node<T, D>,
+        current_best_dist_sq: &'o mut T,
+        current_best_neighbor: &'o mut &'i Point<T, D>,
+        points_to_check: &'o mut Vec<(&'i usize, &'i Point<T, D>, T)>,
+    ) where
+        'i: 'o,
+        't: 'i,
+    {
+        self.descend_stem(
+            query,
+            stem,
+            current_best_dist_sq,
+            current_best_neighbor,
+            points_to_check,
+        );
 
         // Now we empty out the queue
         while let Some((sibling, parent, dist_sq_to_space)) = points_to_check.pop() {
diff --git a/src/query_k.rs b/src/query_k.rs
index cafae69..79c0f3a 100644
--- a/src/query_k.rs
+++ b/src/query_k.rs
@@ -220,7 +220,7 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
             // Sibling is a parent (e.g. for unbalanced tree)
             Node::Stem { .. } => {
                 self.check_parent_k(query, stem, container);
-                self.check_stem_k(query, sibling, container, points_to_check)
+                self.descend_stem_k(query, sibling, container, points_to_check)
             }
         }
     }
@@ -240,9 +240,9 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
         }
     }
 
-    /// If sibling is a stem, then we need to recurse back down
+    /// If sibling is a stem, then we need to go back down
 
-    fn check_stem_k<'i, 'o>(
+    fn descend_stem_k<'i, 'o>(
         &'i self,
         query: &'o [NotNan<T>; D],
         stem: &'i Node<T, D>,
@@ -305,6 +305,21 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
 
         // We are now at a leaf; check it
         self.check_leaf_k(query, current_node.iter(), container);
+    }
+
+    /// Checks everything at and below a stem that can be closer than what was found so far.
+    /// This does not recurse, whose depth would be proportional to the number of nodes visited.
+    fn check_stem_k<'i, 'o>(
+        &'i self,
+        query: &'o [NotNan<T>; D],
+        stem: &'i Node<T, D>,
+        container: &'o mut Container<'i, T, D>,
+        points_to_check: &'o mut Vec<(&'i usize, &'i Point<T, D>, T)>,
+    ) where
+        'i: 'o,
+        't: 'i,
+    {
+        self.descend_stem_k(query, stem, container, points_to_check);
 
         // Now we empty out the queue
         while let Some((sibling, parent, dist_sq_to_space)) = points_to_check.pop() {
diff --git a/src/query_k/parallel_axis.rs b/src/query_k/parallel_axis.rs
index e5854b7..98ed20b 100644
--- a/src/query_k/parallel_axis.rs
+++ b/src/query_k/parallel_axis.rs
@@ -318,7 +318,7 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
             // Sibling is a parent (e.g. for unbalanced tree)
             Node::Stem { .. } => {
                 self.check_parent_k_axis(query, stem, container, axis);
-                self.check_stem_k_axis(query, sibling, container, points_to_check, axis)
+                self.descend_stem_k_axis(query, sibling, container, points_to_check, axis)
             }
         }
     }
@@ -339,9 +339,9 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
         }
     }
 
-    /// If sibling is a stem, then we need to recurse back down
+    /// If sibling is a stem, then we need to go back down
 
-    fn check_stem_k_axis<'i, 'o>(
+    fn descend_stem_k_axis<'i, 'o>(
         &'i self,
         query: &'o [NotNan<T>; D],
         stem: &'i Node<T, D>,
@@ -401,6 +401,22 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
 
         // We are now at a leaf; check it
         self.check_leaf_k_axis(query, current_node.iter(), container, axis);
+    }
+
+    /// Checks everything at and below a stem that can be closer than what was found so far.
+    /// This does not recurse, whose depth would be proportional to the number of nodes visited.
+    fn check_stem_k_axis<'i, 'o>(
+        &'i self,
+        query: &'o [NotNan<T>; D],
+        stem: &'i Node<T, D>,
+        container: &'o mut ContainerAxis<'i, T, D>,
+        points_to_check: &'o mut Vec<(&'i usize, &'i Point<T, D>, T)>,
+        axis: usize,
+    ) where
+        'i: 'o,
+        't: 'i,
+    {
+        self.descend_stem_k_axis(query, stem, container, points_to_check, axis);
 
         // Now we empty out the queue
         while let Some((sibling, parent, dist_sq_to_space)) = points_to_check.pop() {
-- 
2.43.0


From 23f83b45f7e5c64b80b35c37c0e1fcd1bac194d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:56 +0000
Subject: [PATCH 08/17] fix: k-neighbor queries returned uninitialized memory
 when squared distances overflow

The placeholder that stands for neighbors not found yet was at the
largest finite distance, so that candidates at an overflowing (infinite)
distance did not replace it and fewer than k neighbors were written.
---
 src/distance.rs              | 6 ++++--
 src/query_k.rs               | 4 ++--
 src/query_k/parallel.rs      | 4 ++--
 src/query_k/parallel_axis.rs | 4 ++--
 src/query_k/parallel_with.rs | 4 ++--
 5 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/distance.rs b/src/distance.rs
index c2a6d97..e25bde6 100644
--- a/src/distance.rs
+++ b/src/distance.rs
@@ -24,7 +24,8 @@ where
         }
     }
 
-    dist_sq
+    // Overflowing distances remain less than infinity, which is further than any neighbor
+    dist_sq.min(T::max_value())
 }
 
 pub fn squared_euclidean_axis<T: Float, const D: usize>(
@@ -52,7 +53,8 @@ where
         }
     }
 
-    (ax + nonax, ax, nonax)
+    // Overflowing distances remain less than infinity, which is further than any neighbor
+    ((ax + nonax).min(T::max_value()), ax, nonax)
 }
 
 pub fn new_best<'t, 'i, 'o, T: Float, const D: usize>(
diff --git a/src/query_k.rs b/src/query_k.rs
index 79c0f3a..b4bd20c 100644
--- a/src/query_k.rs
+++ b/src/query_k.rs
@@ -59,7 +59,7 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
 
         // Initialize candidate container with dummy point
         let mut container = Container::new(k.min(self.input.len()));
-        container.push((T::max_value(), current_node.stem()));
+        container.push((T::infinity(), current_node.stem()));
 
         // Recurse down (and then up and down) the stem
         self.check_stem_k(query, current_node, &mut container, &mut points_to_check);
@@ -89,7 +89,7 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
 
             // Initialize candidate container with dummy point
             let mut container = Container::new(k.min(self.input.len()));
-            container.push((T::max_value(), current_node.stem()));
+            container.push((T::infinity(), current_node.stem()));
 
             // Recurse down (and then up and down) the stem
             self.check_stem_k(query, current_node, &mut container, &mut points_to_check);
diff --git a/src/query_k/parallel.rs b/src/query_k/parallel.rs
index 8d79341..d08a366 100644
--- a/src/query_k/parallel.rs
+++ b/src/query_k/parallel.rs
@@ -116,7 +116,7 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
     {
         // Get reference to the root node
         let current_node: &'q Node<T, D> = &self.root_node;
-        container.push((T::max_value(), current_node.stem()));
+        container.push((T::infinity(), current_node.stem()));
 
         // Recurse down (and then up and down) the stem
         self.check_stem_k(query, current_node, container, points_to_check);
@@ -142,7 +142,7 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
         let mut real_image_container: &mut Container<T, D> = {
             // Get reference to the root node
             let current_node: &Node<T, D> = &self.root_node;
-            container.push((T::max_value(), current_node.stem()));
+            container.push((T::infinity(), current_node.stem()));
 
             // Recurse down (and then up and down) the stem
             self.check_stem_k(query, current_node, container, points_to_check);
diff --git a/src/query_k/parallel_axis.rs b/src/query_k/parallel_axis.rs
index 98ed20b..d3cb00a 100644
--- a/src/query_k/parallel_axis.rs
+++ b/src/query_k/parallel_axis.rs
@@ -134,7 +134,7 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
         // Get reference to the root node
         let current_node: &'q Node<T, D> = &self.root_node;
         container.push((
-            (T::max_value(), T::max_value(), T::max_value()),
+            (T::infinity(), T::infinity(), T::infinity()),
             current_node.stem(),
         ));
 
@@ -174,7 +174,7 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
             // Get reference to the root node
             let current_node: &Node<T, D> = &self.root_node;
             container.push((
-                (T::max_value(), T::max_value(), T::max_value()),
+                (T::infinity(), T::infinity(), T::infinity()),
                 current_node.stem(),
             ));
 
diff --git a/src/query_k/parallel_with.rs b/src/query_k/parallel_with.rs
index 1a90aac..b316ee1 100644
--- a/src/query_k/parallel_with.rs
+++ b/src/query_k/parallel_with.rs
@@ -131,7 +131,7 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
     {
         // Get reference to the root node
         let current_node: &'q Node<T, D> = &self.root_node;
-        container.push((T::max_value(), current_node.stem()));
+        container.push((T::infinity(), current_node.stem()));
 
         // Recurse down (and then up and down) the stem
         self.check_stem_k(query, current_node, container, points_to_check);
@@ -157,7 +157,7 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
         let real_image_container: &mut Container<T, D> = {
             // Get reference to the root node
             let current_node: &Node<T, D> = &self.root_node;
-            container.push((T::max_value(), current_node.stem()));
+            container.push((T::infinity(), current_node.stem()));
 
             // Recurse down (and then up and down) the stem
             self.check_stem_k(query, current_node, container, points_to_check);
-- 
2.43.0


From db23cbc6a58f1fffa93c753ee1864a3c3f5239c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:08 +0000
Subject: [PATCH 09/17] fix: pyfnntw panicked instead of raising ValueError on
 invalid f64 data

---
 pyfnntw/src/lib.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pyfnntw/src/lib.rs b/pyfnntw/src/lib.rs
index c7c9526..e8bdae2 100644
--- a/pyfnntw/src/lib.rs
+++ b/pyfnntw/src/lib.rs
@@ -226,10 +226,9 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                                 Box<dyn std::error::Error>,
                             > {
                                 let tree = if let Some(psl) = par_split_level {
-                                    FNNTWTree::<'_, f64, 2>::new_parallel(data, leafsize, psl)
-                                        .unwrap()
+                                    FNNTWTree::<'_, f64, 2>::new_parallel(data, leafsize, psl)?
                                 } else {
-                                    FNNTWTree::<'_, f64, 2>::new(data, leafsize).unwrap()
+                                    FNNTWTree::<'_, f64, 2>::new(data, leafsize)?
                                 };
                                 if let Some(boxsize) = boxsize {
                                     let boxsize: [f64; 2] = boxsize.as_slice()?.try_into()?;
@@ -262,10 +261,9 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                                 Box<dyn std::error::Error>,
                             > {
                                 let tree = if let Some(psl) = par_split_level {
-                                    FNNTWTree::<'_, f64, 3>::new_parallel(data, leafsize, psl)
-                                        .unwrap()
+                                    FNNTWTree::<'_, f64, 3>::new_parallel(data, leafsize, psl)?
                                 } else {
-                                    FNNTWTree::<'_, f64, 3>::new(data, leafsize).unwrap()
+                                    FNNTWTree::<'_, f64, 3>::new(data, leafsize)?
                                 };
                                 if let Some(boxsize) = boxsize {
                                     let boxsize: [f64; 3] = boxsize.as_slice()?.try_into()?;
-- 
2.43.0


From 14fce037fb1c9ad814beb2d2b3520f49433ca210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:30 +0000
Subject: [PATCH 10/17] fix: pyfnntw panicked instead of raising ValueError on
 an invalid query point

---
 pyfnntw/src/lib.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/pyfnntw/src/lib.rs b/pyfnntw/src/lib.rs
index e8bdae2..221792b 100644
--- a/pyfnntw/src/lib.rs
+++ b/pyfnntw/src/lib.rs
@@ -481,17 +481,13 @@ macro_rules! tree_impl {
                     let query: &[[$float; $dim]] = slice_as_chunks::<$float, $dim>(query.as_slice().unwrap());
 
                     let kdtree = self.borrow_tree();
-                    let query_size = query.len();
-                    let mut distances = Vec::with_capacity(query_size);
-                    let mut indices = Vec::with_capacity(query_size);
                     query
                         .into_par_iter()
-                        .map_with(kdtree, |t, q| {
-                            t.query_nearest(q).expect("you likely have a nan")
+                        .map(|q| kdtree.query_nearest(q))
+                        .collect::<FnntwResult<(Vec<_>, Vec<_>), $float>>()
+                        .map_err(|e| {
+                            PyValueError::new_err(format!("query failed {e}"))
                         })
-                        .unzip_into_vecs(&mut distances, &mut indices);
-
-                    Ok((distances, indices))
                 }
 
                 fn query_k(
-- 
2.43.0


From 7c7986d74becd96483b020bffd8aa1093730bcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:30 +0000
Subject: [PATCH 11/17] fix: pyfnntw read out of bounds with k larger than the
 data

There are only as many neighbors per query as there are points: return
that many columns, as the Rust library does.
---
 pyfnntw/src/lib.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pyfnntw/src/lib.rs b/pyfnntw/src/lib.rs
index 221792b..893fba6 100644
--- a/pyfnntw/src/lib.rs
+++ b/pyfnntw/src/lib.rs
@@ -137,7 +137,7 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
             axis: Option<usize>,
         ) -> PyResult<(PyObject, PyObject)> {
             if let Some(axis) = axis {
-                let k = k.unwrap_or(1);
+                let k = k.unwrap_or(1).min(slf.0.len());
                 let (axis, nonaxis) = slf.0.query_k_axis(query.as_array(), k, axis)?;
                 let distances =
                     unsafe { Array2::from_shape_vec_unchecked((query.shape()[0], k), axis) };
@@ -157,7 +157,7 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                         indices.into_pyarray(slf.py()).into(),
                     ))
                 } else {
-                    let k = k.unwrap();
+                    let k = k.unwrap().min(slf.0.len());
                     let (distances, indices) = slf.0.query_k(query.as_array(), k)?;
                     // SAFETY: the shape has been checked aldready
                     let distances = unsafe {
@@ -323,7 +323,7 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
             // }
 
             if let Some(axis) = axis {
-                let k = k.unwrap_or(1);
+                let k = k.unwrap_or(1).min(slf.0.len());
                 let (axis, nonaxis) = slf.0.query_k_axis(query.as_array(), k, axis)?;
                 let distances =
                     unsafe { Array2::from_shape_vec_unchecked((query.shape()[0], k), axis) };
@@ -343,7 +343,7 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                         indices.into_pyarray(slf.py()).into(),
                     ))
                 } else {
-                    let k = k.unwrap();
+                    let k = k.unwrap().min(slf.0.len());
                     let (distances, indices) = slf.0.query_k(query.as_array(), k)?;
                     // SAFETY: the shape has been checked aldready
                     let distances = unsafe {
@@ -450,6 +450,8 @@ struct Tree3<'a, T: Float> {
 // }
 
 trait FNTree<T: Float> {
+    /// The number of points in the tree
+    fn len(&self) -> usize;
     fn query(&self, query: ArrayView2<T>) -> PyResult<(Vec<T>, Vec<u64>)>;
     fn query_k(&self, query: ArrayView2<T>, k: usize) -> PyResult<(Vec<T>, Vec<u64>)>;
     fn query_k_axis(
@@ -464,6 +466,10 @@ macro_rules! tree_impl {
     ($float:ty, $dim:literal) => {
         concat_idents::concat_idents!(tree = Tree, $dim {
             impl<'a> FNTree<$float> for tree<'a, $float> {
+                fn len(&self) -> usize {
+                    self.borrow_data().len()
+                }
+
                 fn query(&self, query: ArrayView2<$float>) -> PyResult<(Vec<$float>, Vec<u64>)> {
                     // Check dimensions of data
                     let dims: [usize; 2] = query
-- 
2.43.0


From 2c2a97f3f2d36d53e94f49aed0d9989ce40aa5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:30 +0000
Subject: [PATCH 12/17] fix: pyfnntw panicked instead of raising ValueError on
 non-contiguous arrays

---
 pyfnntw/src/lib.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/pyfnntw/src/lib.rs b/pyfnntw/src/lib.rs
index 893fba6..549e4e0 100644
--- a/pyfnntw/src/lib.rs
+++ b/pyfnntw/src/lib.rs
@@ -59,7 +59,9 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                     // a copy of the data
                     let data: &[[f32; 2]] = unsafe {
                         std::mem::transmute(slice_as_chunks::<f32, 2>(
-                            data.as_array().as_slice().unwrap(),
+                            data.as_array().as_slice().ok_or_else(|| {
+                                PyValueError::new_err("data must be C-contiguous")
+                            })?,
                         ))
                     };
 
@@ -94,7 +96,9 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                     // a copy of the data
                     let data: &[[f32; 3]] = unsafe {
                         std::mem::transmute(slice_as_chunks::<f32, 3>(
-                            data.as_array().as_slice().unwrap(),
+                            data.as_array().as_slice().ok_or_else(|| {
+                                PyValueError::new_err("data must be C-contiguous")
+                            })?,
                         ))
                     };
 
@@ -214,7 +218,9 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                     // a copy of the data
                     let data: &[[f64; 2]] = unsafe {
                         std::mem::transmute(slice_as_chunks::<f64, 2>(
-                            data.as_array().as_slice().unwrap(),
+                            data.as_array().as_slice().ok_or_else(|| {
+                                PyValueError::new_err("data must be C-contiguous")
+                            })?,
                         ))
                     };
 
@@ -249,7 +255,9 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                     // a copy of the data
                     let data: &[[f64; 3]] = unsafe {
                         std::mem::transmute(slice_as_chunks::<f64, 3>(
-                            data.as_array().as_slice().unwrap(),
+                            data.as_array().as_slice().ok_or_else(|| {
+                                PyValueError::new_err("data must be C-contiguous")
+                            })?,
                         ))
                     };
 
@@ -484,7 +492,9 @@ macro_rules! tree_impl {
                         ));
                     }
 
-                    let query: &[[$float; $dim]] = slice_as_chunks::<$float, $dim>(query.as_slice().unwrap());
+                    let query: &[[$float; $dim]] = slice_as_chunks::<$float, $dim>(query.as_slice().ok_or_else(|| {
+                        PyValueError::new_err("query must be C-contiguous")
+                    })?);
 
                     let kdtree = self.borrow_tree();
                     query
@@ -516,7 +526,7 @@ macro_rules! tree_impl {
                     // Transform slice of floats into slice of arrays
                     let query: &[[$float; $dim]] = slice_as_chunks::<$float, $dim>(query
                         .as_slice()
-                        .unwrap()
+                        .ok_or_else(|| PyValueError::new_err("query must be C-contiguous"))?
                     );
 
                     {
@@ -597,7 +607,7 @@ macro_rules! tree_impl {
                     // Transform slice of floats into slice of arrays
                     let query: &[[$float; $dim]] = slice_as_chunks::<$float, $dim>(query
                         .as_slice()
-                        .unwrap()
+                        .ok_or_else(|| PyValueError::new_err("query must be C-contiguous"))?
                     );
 
                     self.borrow_tree().query_nearest_k_parallel_axis(query, k, axis).map_err(|e| {
-- 
2.43.0


From a9b3f169a0a3135b535e4993f1af5f4c74db8edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:14 +0000
Subject: [PATCH 13/17] fix: pyfnntw trees outlived the data they refer to

---
 pyfnntw/src/lib.rs | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/pyfnntw/src/lib.rs b/pyfnntw/src/lib.rs
index 549e4e0..de98e5b 100644
--- a/pyfnntw/src/lib.rs
+++ b/pyfnntw/src/lib.rs
@@ -15,9 +15,17 @@ use rayon::prelude::*;
 #[pymodule]
 fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
     #[pyclass]
-    struct Treef32(Box<dyn FNTree<f32> + Send + Sync + 'static>);
+    struct Treef32(
+        Box<dyn FNTree<f32> + Send + Sync + 'static>,
+        // The tree refers to the data in this array
+        #[allow(dead_code)] Py<PyArray2<f32>>,
+    );
     #[pyclass]
-    struct Treef64(Box<dyn FNTree<f64> + Send + Sync + 'static>);
+    struct Treef64(
+        Box<dyn FNTree<f64> + Send + Sync + 'static>,
+        // The tree refers to the data in this array
+        #[allow(dead_code)] Py<PyArray2<f64>>,
+    );
 
     #[pymethods]
     impl Treef32 {
@@ -45,6 +53,9 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                 }
             }
 
+            // Keep the data alive for as long as the tree
+            let array = (*data).to_owned();
+
             // Check dimensions of data
             let dims: [usize; 2] = data
                 .shape()
@@ -55,8 +66,7 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
             match dims[1] {
                 2 => {
                     // SAFETY: this data is owned by python and so the reference will remain valid for longer than this scope.
-                    // Note that it is still very possible to use-after-free but there's not much we can do about it without making
-                    // a copy of the data
+                    // The tree is stored along with a reference to the array.
                     let data: &[[f32; 2]] = unsafe {
                         std::mem::transmute(slice_as_chunks::<f32, 2>(
                             data.as_array().as_slice().ok_or_else(|| {
@@ -88,12 +98,11 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                         .try_build()
                         .map_err(|e| PyValueError::new_err(format!("failed to build tree: {e}")))?;
 
-                    Ok(Treef32(Box::new(tree)))
+                    Ok(Treef32(Box::new(tree), array))
                 }
                 3 => {
                     // SAFETY: this data is owned by python and so the reference will remain valid for longer than this scope.
-                    // Note that it is still very possible to use-after-free but there's not much we can do about it without making
-                    // a copy of the data
+                    // The tree is stored along with a reference to the array.
                     let data: &[[f32; 3]] = unsafe {
                         std::mem::transmute(slice_as_chunks::<f32, 3>(
                             data.as_array().as_slice().ok_or_else(|| {
@@ -124,7 +133,7 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                         }
                         .try_build()
                         .map_err(|e| PyValueError::new_err(format!("failed to build tree: {e}")))?;
-                    Ok(Treef32(Box::new(tree)))
+                    Ok(Treef32(Box::new(tree), array))
                 }
                 _ => {
                     return Err(PyErr::new::<exceptions::PyTypeError, _>(
@@ -204,6 +213,9 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                 }
             }
 
+            // Keep the data alive for as long as the tree
+            let array = (*data).to_owned();
+
             // Check dimensions of data
             let dims: [usize; 2] = data
                 .shape()
@@ -214,8 +226,7 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
             match dims[1] {
                 2 => {
                     // SAFETY: this data is owned by python and so the reference will remain valid for longer than this scope.
-                    // Note that it is still very possible to use-after-free but there's not much we can do about it without making
-                    // a copy of the data
+                    // The tree is stored along with a reference to the array.
                     let data: &[[f64; 2]] = unsafe {
                         std::mem::transmute(slice_as_chunks::<f64, 2>(
                             data.as_array().as_slice().ok_or_else(|| {
@@ -247,12 +258,11 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                         .try_build()
                         .map_err(|e| PyValueError::new_err(format!("failed to build tree: {e}")))?;
 
-                    Ok(Treef64(Box::new(tree)))
+                    Ok(Treef64(Box::new(tree), array))
                 }
                 3 => {
                     // SAFETY: this data is owned by python and so the reference will remain valid for longer than this scope.
-                    // Note that it is still very possible to use-after-free but there's not much we can do about it without making
-                    // a copy of the data
+                    // The tree is stored along with a reference to the array.
                     let data: &[[f64; 3]] = unsafe {
                         std::mem::transmute(slice_as_chunks::<f64, 3>(
                             data.as_array().as_slice().ok_or_else(|| {
@@ -284,7 +294,7 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                         .try_build()
                         .map_err(|e| PyValueError::new_err(format!("failed to build tree: {e}")))?;
 
-                    Ok(Treef64(Box::new(tree)))
+                    Ok(Treef64(Box::new(tree), array))
                 }
                 _ => {
                     return Err(PyErr::new::<exceptions::PyTypeError, _>(
-- 
2.43.0


From b36f8123c8fc95de55c2da7522156f39f522098a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:12 +0000
Subject: [PATCH 14/17] fix: a buffered batch of one query panics outside of a
 thread pool

rayon runs a parallel iterator that it does not split on the calling thread,
where current_thread_index() is None.
---
 src/query_k/parallel_with.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/query_k/parallel_with.rs b/src/query_k/parallel_with.rs
index b316ee1..b18a929 100644
--- a/src/query_k/parallel_with.rs
+++ b/src/query_k/parallel_with.rs
@@ -54,8 +54,11 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
                     let query: &[NotNan<T>; D] = check_point_return(query)?;
 
                     // Get pre-allocated buffers if available
+                    // (a batch too small to be split runs on the calling thread, which need not
+                    // be in a pool and then is the only one using these buffers)
+                    let thread = rayon::current_thread_index().unwrap_or(0);
                     let (ref mut container, ref mut point_vec) =
-                        unsafe { &mut *tx_rx_vec[rayon::current_thread_index().unwrap()].get() };
+                        unsafe { &mut *tx_rx_vec[thread].get() };
 
                     // Periodic query
                     self.query_nearest_k_periodic_into_with(
@@ -83,8 +86,11 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
 
                     // Get pre-allocated buffers if available
                     // let (ref tx, ref rx) = tx_rx_vec[rayon::current_thread_index().unwrap() / 4];
+                    // (a batch too small to be split runs on the calling thread, which need not
+                    // be in a pool and then is the only one using these buffers)
+                    let thread = rayon::current_thread_index().unwrap_or(0);
                     let (ref mut container, ref mut point_vec) =
-                        unsafe { &mut *tx_rx_vec[rayon::current_thread_index().unwrap()].get() };
+                        unsafe { &mut *tx_rx_vec[thread].get() };
                     // let (mut container, mut point_vec) = rx.try_recv().unwrap_or_else(|_| {
                     //     (Container::new(k), Vec::with_capacity(self.height_hint))
                     // });
-- 
2.43.0


From baf29a9fc6cf2e7ff980c42ed7b2e1323f3cd1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:20 +0000
Subject: [PATCH 15/17] fix: pyfnntw made slices of misaligned arrays

---
 pyfnntw/src/lib.rs | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/pyfnntw/src/lib.rs b/pyfnntw/src/lib.rs
index de98e5b..fdf6945 100644
--- a/pyfnntw/src/lib.rs
+++ b/pyfnntw/src/lib.rs
@@ -6,7 +6,7 @@ use ouroboros::*;
 use pyo3::exceptions::PyValueError;
 use pyo3::{exceptions, prelude::*};
 
-use numpy::ndarray::{Array1, ArrayView2};
+use numpy::ndarray::{Array1, ArrayView2, Dimension};
 use pyo3::{pymodule, types::PyModule, PyResult, Python};
 use rayon::prelude::ParallelIterator;
 use rayon::prelude::*;
@@ -53,6 +53,12 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                 }
             }
 
+            // Arrays can start anywhere, references cannot
+            check_aligned(&data)?;
+            if let Some(boxsize) = &boxsize {
+                check_aligned(boxsize)?;
+            }
+
             // Keep the data alive for as long as the tree
             let array = (*data).to_owned();
 
@@ -149,6 +155,7 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
             k: Option<usize>,
             axis: Option<usize>,
         ) -> PyResult<(PyObject, PyObject)> {
+            check_aligned(&query)?;
             if let Some(axis) = axis {
                 let k = k.unwrap_or(1).min(slf.0.len());
                 let (axis, nonaxis) = slf.0.query_k_axis(query.as_array(), k, axis)?;
@@ -213,6 +220,12 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                 }
             }
 
+            // Arrays can start anywhere, references cannot
+            check_aligned(&data)?;
+            if let Some(boxsize) = &boxsize {
+                check_aligned(boxsize)?;
+            }
+
             // Keep the data alive for as long as the tree
             let array = (*data).to_owned();
 
@@ -310,6 +323,7 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
             k: Option<usize>,
             axis: Option<usize>,
         ) -> PyResult<(PyObject, PyObject)> {
+            check_aligned(&query)?;
             // if k == Some(1) || k.is_none() {
             //     let (distances, indices) = slf.0.query(query.as_array())?;
             //     // let distances = Array1::from_vec(distances);
@@ -467,6 +481,17 @@ struct Tree3<'a, T: Float> {
 //     }
 // }
 
+/// NumPy arrays may be views that start at any byte, e.g. of a field in a packed
+/// structure, but the elements of a slice must be aligned.
+fn check_aligned<T, D: Dimension>(array: &PyArray<T, D>) -> PyResult<()> {
+    // SAFETY: the pointer to the array object is valid for as long as the reference
+    let address = unsafe { (*array.as_array_ptr()).data } as usize;
+    if address % std::mem::align_of::<T>() != 0 {
+        return Err(PyValueError::new_err("arrays must be aligned"));
+    }
+    Ok(())
+}
+
 trait FNTree<T: Float> {
     /// The number of points in the tree
     fn len(&self) -> usize;
-- 
2.43.0


From a8762658b9f0ebe673d145c0bbefed4b93250f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:17 +0000
Subject: [PATCH 16/17] fix: data holding -0.0 was refused as negative with a
 box

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 14a6cb3..ab5241f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -746,7 +746,7 @@ impl<'t, T: Float + Send + Debug, const D: usize> Tree<'t, T, D> {
 
         // Check that the data bounding box is in R_+^n
         for component in lower {
-            if component.is_sign_negative() {
+            if component.into_inner() < T::zero() {
                 return Err(FnntwError::NegativeDataPeriodicQuery);
             } else if component.is_infinite() || component.is_nan() {
                 return Err(FnntwError::InvalidBoxsize);
-- 
2.43.0


From 758b753f6071e0a63a21e8c8808e2c49a8b49ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:17 +0000
Subject: [PATCH 17/17] fix: periodic queries at -0.0 panicked in debug builds

The sign bit of a zero says nothing about which side of the origin it is on.
---
 src/query.rs                 | 6 +++---
 src/query_k.rs               | 6 +++---
 src/query_k/parallel.rs      | 6 +++---
 src/query_k/parallel_axis.rs | 6 +++---
 src/query_k/parallel_with.rs | 6 +++---
 5 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/query.rs b/src/query.rs
index 3a7a30e..3cbe64c 100644
--- a/src/query.rs
+++ b/src/query.rs
@@ -81,9 +81,9 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
             // safety: made safe with const gneric
             let upper = unsafe { boxsize.get_unchecked(side) } - query_component;
 
-            // !negative includes zero
-            debug_assert!(!upper.is_sign_negative());
-            debug_assert!(!query_component.is_sign_negative());
+            // these include zero, of either sign
+            debug_assert!(upper.into_inner() >= T::zero());
+            debug_assert!(query_component.into_inner() >= T::zero());
 
             // Choose lesser of two and then square
             closest_side_dist2[side] = upper.min(*query_component).powi(2);
diff --git a/src/query_k.rs b/src/query_k.rs
index b4bd20c..525ca59 100644
--- a/src/query_k.rs
+++ b/src/query_k.rs
@@ -108,9 +108,9 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
             // safety: made safe by const generic
             let upper = unsafe { boxsize.get_unchecked(side) } - query_component;
 
-            // !negative includes zero
-            debug_assert!(!upper.is_sign_negative());
-            debug_assert!(!query_component.is_sign_negative());
+            // these include zero, of either sign
+            debug_assert!(upper.into_inner() >= T::zero());
+            debug_assert!(query_component.into_inner() >= T::zero());
 
             // Choose lesser of two and then square
             closest_side_dist2[side] = upper.min(*query_component).powi(2);
diff --git a/src/query_k/parallel.rs b/src/query_k/parallel.rs
index d08a366..60d6c33 100644
--- a/src/query_k/parallel.rs
+++ b/src/query_k/parallel.rs
@@ -161,9 +161,9 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
             // safety: made safe by const generic
             let upper = unsafe { boxsize.get_unchecked(side) } - query_component;
 
-            // !negative includes zero
-            debug_assert!(!upper.is_sign_negative());
-            debug_assert!(!query_component.is_sign_negative());
+            // these include zero, of either sign
+            debug_assert!(upper.into_inner() >= T::zero());
+            debug_assert!(query_component.into_inner() >= T::zero());
 
             // Choose lesser of two and then square
             closest_side_dist2[side] = upper.min(*query_component).powi(2);
diff --git a/src/query_k/parallel_axis.rs b/src/query_k/parallel_axis.rs
index d3cb00a..fd702fa 100644
--- a/src/query_k/parallel_axis.rs
+++ b/src/query_k/parallel_axis.rs
@@ -195,9 +195,9 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
             // safety: made safe by const generic
             let upper = unsafe { boxsize.get_unchecked(side) } - query_component;
 
-            // !negative includes zero
-            debug_assert!(!upper.is_sign_negative());
-            debug_assert!(!query_component.is_sign_negative());
+            // these include zero, of either sign
+            debug_assert!(upper.into_inner() >= T::zero());
+            debug_assert!(query_component.into_inner() >= T::zero());
 
             // Choose lesser of two and then square
             closest_side_dist2[side] = upper.min(*query_component).powi(2);
diff --git a/src/query_k/parallel_with.rs b/src/query_k/parallel_with.rs
index b18a929..514480b 100644
--- a/src/query_k/parallel_with.rs
+++ b/src/query_k/parallel_with.rs
@@ -182,9 +182,9 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
             // safety: made safe by const generic
             let upper = unsafe { boxsize.get_unchecked(side) } - query_component;
 
-            // !negative includes zero
-            debug_assert!(!upper.is_sign_negative());
-            debug_assert!(!query_component.is_sign_negative());
+            // these include zero, of either sign
+            debug_assert!(upper.into_inner() >= T::zero());
+            debug_assert!(query_component.into_inner() >= T::zero());
 
             // Choose lesser of two and then square
             closest_side_dist2[side] = upper.min(*query_component).powi(2);
-- 
2.43.0

