From af9d3d8a89b94022438a1484e107140c7a30a422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 1/3] fix: report the inserted vertex, not its successor, from
 CoboundaryIterator

RipsCoboundary::column_with_filtration computed distances to the wrong vertex,
giving wrong filtration values or an out-of-bounds panic.
---
 phlite_rips/src/cohomology.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/phlite_rips/src/cohomology.rs b/phlite_rips/src/cohomology.rs
index ded27da..570b92e 100644
--- a/phlite_rips/src/cohomology.rs
+++ b/phlite_rips/src/cohomology.rs
@@ -95,8 +95,9 @@ impl<CF: NonZeroCoefficient> Iterator for CoboundaryIterator<CF> {
             CF::one().additive_inverse()
         };
 
+        let inserted_vertex = self.next_vertex;
         self.next_vertex += 1;
-        Some((coeff, index, self.next_vertex))
+        Some((coeff, index, inserted_vertex))
     }
 }
 
-- 
2.43.0


From 56f223527aa799bf559dcbb1d6824829154be445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:12 +0000
Subject: [PATCH 2/3] fix: do not keep the column cache borrowed while a cached
 column is iterated

WithCachedCols::column returned an iterator holding a Ref into its RefCell, so
requesting another, not yet cached, column before that iterator was dropped
(e.g. a product of a cached matrix with itself) panicked.
---
 phlite/src/matrices/adaptors.rs | 48 +++++++--------------------------
 1 file changed, 10 insertions(+), 38 deletions(-)

diff --git a/phlite/src/matrices/adaptors.rs b/phlite/src/matrices/adaptors.rs
index 49619bf..b87d392 100644
--- a/phlite/src/matrices/adaptors.rs
+++ b/phlite/src/matrices/adaptors.rs
@@ -8,12 +8,7 @@
 // ====== WithTrivialFiltration ================
 
 use std::{
-    cell::{Ref, RefCell},
-    cmp::Reverse,
-    collections::HashMap,
-    hash::Hash,
-    marker::PhantomData,
-    ops::Deref,
+    cell::RefCell, cmp::Reverse, collections::HashMap, hash::Hash, marker::PhantomData, ops::Deref,
 };
 
 use crate::columns::{BHCol, ColumnEntry};
@@ -198,29 +193,6 @@ pub struct WithCachedCols<M: MatrixOracle> {
     pub cache: RefCell<HashMap<M::ColT, Vec<(M::CoefficientField, M::RowT)>>>,
 }
 
-// Essentialy https://stackoverflow.com/questions/33541492/returning-iterator-of-a-vec-in-a-refcell
-struct CachedColIter<'a, T> {
-    inner: Option<Ref<'a, [T]>>,
-}
-
-impl<'a, T> Iterator for CachedColIter<'a, T> {
-    type Item = Ref<'a, T>;
-
-    fn next(&mut self) -> Option<Self::Item> {
-        match self.inner.take() {
-            Some(borrow) => match *borrow {
-                [] => None,
-                [_, ..] => {
-                    let (head, tail) = Ref::map_split(borrow, |slice| (&slice[0], &slice[1..]));
-                    self.inner.replace(tail);
-                    Some(head)
-                }
-            },
-            None => None,
-        }
-    }
-}
-
 impl<M> MatrixOracle for WithCachedCols<M>
 where
     M: MatrixOracle<ColT: Hash>,
@@ -242,16 +214,16 @@ where
                 .borrow_mut()
                 .insert(col.clone(), col_as_vec.clone());
         }
-        // Get a borrow to the column
-        let cache_borrow = self.cache.borrow();
-        let col_borrow = Ref::map(cache_borrow, |c| {
-            &c.get(&col).expect("Just populated key")[..]
-        });
+        // Clone the entries out, so that the cache is not borrowed whilst the caller iterates.
+        // Otherwise, caching another column during that iteration would panic.
+        let col_as_vec = self
+            .cache
+            .borrow()
+            .get(&col)
+            .expect("Just populated key")
+            .clone();
         // Return an iterator
-        CachedColIter {
-            inner: Some(col_borrow),
-        }
-        .map(|entry| entry.clone())
+        col_as_vec.into_iter()
     }
 }
 
-- 
2.43.0


From 5d662b1041e863b0532dbdb6803487504b12a70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:16 +0000
Subject: [PATCH 3/3] fix: do not extend simplices beyond max_dim when max_dim
 is 0

build_rips_bases(.., 0) indexed past the bases it had allocated and panicked
whenever there were at least two points.
---
 phlite_rips/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phlite_rips/src/lib.rs b/phlite_rips/src/lib.rs
index 8bc9032..c13c1a6 100644
--- a/phlite_rips/src/lib.rs
+++ b/phlite_rips/src/lib.rs
@@ -145,7 +145,7 @@ fn add_cofacets(
     let max_element = simplex_as_vec.last().unwrap();
     let prev_dimension = simplex_as_vec.len() - 1;
     let new_dimension = prev_dimension + 1;
-    if *max_element == n_vertices - 1 {
+    if *max_element == n_vertices - 1 || new_dimension > max_dim {
         // Cannot extend
         return;
     }
-- 
2.43.0

