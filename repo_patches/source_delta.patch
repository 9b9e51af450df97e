From d00c83382938ea815b3ed396f202b7dbbebc44aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:43 +0000
Subject: [PATCH 1/5] fix: yield elements in order from the back of
 fixed-capacity B-tree iterators

InnerIter::next_back advanced the innermost node from the front, and
NodeIntoIter::next_back moved the front cursor instead of the back one.
---
 src/btree/core.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/btree/core.rs b/src/btree/core.rs
index 30a6f5a..5a272c4 100644
--- a/src/btree/core.rs
+++ b/src/btree/core.rs
@@ -1169,7 +1169,7 @@ where
                 Err(arc) => Some(Descend(Leased(arc))),
             }
         } else if self.next_elem_x < self.end_elems {
-            self.next_elem_x -= 1;
+            self.end_elems -= 1;
             let kv = match &mut self.n {
                 Owned(n) => unsafe {
                     let k = n.elems.keys[self.end_elems].assume_init_read();
@@ -1285,7 +1285,7 @@ impl<E, N, NI: NodeIterator<E, N>> DoubleEndedIterator for InnerIter<E, N, NI> {
     fn next_back(&mut self) -> Option<Self::Item> {
         use IterAction::*;
         while let Some(w) = self.work.back_mut() {
-            match w.next() {
+            match w.next_back() {
                 Some(Return(kv)) => {
                     self.len -= 1;
                     return Some(kv);
-- 
2.43.0


From f45b293d4dbe975514731488b1f93823a107625a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:43 +0000
Subject: [PATCH 2/5] fix: a BTreeSet is a subset of an equal BTreeSet

---
 src/btree/btree_set.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/btree/btree_set.rs b/src/btree/btree_set.rs
index 8676567..505f7b2 100644
--- a/src/btree/btree_set.rs
+++ b/src/btree/btree_set.rs
@@ -125,7 +125,7 @@ impl<T, const N: usize> BTreeSet<T, N> {
         T: Ord,
     {
         self.is_empty()
-            || (self.len() < other.len()
+            || (self.len() <= other.len()
                 && self.difference(other).next().is_none())
     }
 
-- 
2.43.0


From 01ecc38804c580149d4fa213af3c3de191f44292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:33 +0000
Subject: [PATCH 3/5] fix: report exact size hints from iterators that
 implement ExactSizeIterator

The default size_hint is (0, None), which breaks adaptors that rely on the
ExactSizeIterator contract (zip(..).len(), take(..).len(), ...). range_mut
gets its own wrapper because its length is only an upper bound.
---
 src/avl.rs             | 44 +++++++++++++++++++++++++++++++++++++++++-
 src/avl/avl_set.rs     |  8 ++++++++
 src/btree.rs           | 12 ++++++++++++
 src/btree/btree_set.rs |  8 ++++++++
 src/btree/core.rs      |  4 ++++
 5 files changed, 75 insertions(+), 1 deletion(-)

diff --git a/src/avl.rs b/src/avl.rs
index e0b793a..bf96c1d 100644
--- a/src/avl.rs
+++ b/src/avl.rs
@@ -1693,7 +1693,9 @@ impl<K, V> AvlMap<K, V> {
             }
         }
 
-        InnerIter::<IterMutNode<'_, K, V>> { work, len }
+        RangeMut {
+            iter: InnerIter { work, len },
+        }
     }
 
     /// Removes the entry for the given key and returns the unmapped value.
@@ -1961,6 +1963,10 @@ impl<Node: IterNode> Iterator for InnerIter<Node> {
             }
         }
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len, Some(self.len))
+    }
 }
 
 impl<Node: IterNode> DoubleEndedIterator for InnerIter<Node> {
@@ -2026,6 +2032,10 @@ impl<'a, K, V> Iterator for Iter<'a, K, V> {
     fn next(&mut self) -> Option<Self::Item> {
         self.iter.next()
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.iter.len(), Some(self.iter.len()))
+    }
 }
 
 impl<'a, K, V> DoubleEndedIterator for Iter<'a, K, V> {
@@ -2072,6 +2082,10 @@ impl<'a, K: Clone, V: Clone> Iterator for IterMut<'a, K, V> {
     fn next(&mut self) -> Option<Self::Item> {
         self.iter.next()
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.iter.len(), Some(self.iter.len()))
+    }
 }
 
 impl<'a, K: Clone, V: Clone> DoubleEndedIterator for IterMut<'a, K, V> {
@@ -2112,6 +2126,30 @@ impl<'a, K, V> DoubleEndedIterator for Range<'a, K, V> {
 
 impl<'a, K, V> FusedIterator for Range<'a, K, V> {}
 
+struct RangeMut<'a, K: Clone, V: Clone> {
+    iter: InnerIter<IterMutNode<'a, K, V>>,
+}
+
+impl<'a, K: Clone, V: Clone> Iterator for RangeMut<'a, K, V> {
+    type Item = (&'a K, &'a mut V);
+
+    fn next(&mut self) -> Option<Self::Item> {
+        self.iter.next()
+    }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (0, Some(self.iter.len()))
+    }
+}
+
+impl<'a, K: Clone, V: Clone> DoubleEndedIterator for RangeMut<'a, K, V> {
+    fn next_back(&mut self) -> Option<Self::Item> {
+        self.iter.next_back()
+    }
+}
+
+impl<'a, K: Clone, V: Clone> FusedIterator for RangeMut<'a, K, V> {}
+
 trait IntoItem<K, V> {
     type Item;
 
@@ -2217,6 +2255,10 @@ impl<K: Clone, V: Clone> Iterator for IntoIter<K, V> {
     fn next(&mut self) -> Option<Self::Item> {
         self.iter.next()
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.iter.len(), Some(self.iter.len()))
+    }
 }
 
 impl<K: Clone, V: Clone> DoubleEndedIterator for IntoIter<K, V> {
diff --git a/src/avl/avl_set.rs b/src/avl/avl_set.rs
index 888aff1..eaf6c6b 100644
--- a/src/avl/avl_set.rs
+++ b/src/avl/avl_set.rs
@@ -448,6 +448,10 @@ impl<'a, T> Iterator for Iter<'a, T> {
     fn next(&mut self) -> Option<Self::Item> {
         self.iter.next().map(|e| e.0)
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.iter.len(), Some(self.iter.len()))
+    }
 }
 
 crate::make_set_op_iter!(Difference, Iter<'a, T>, 0b100);
@@ -473,6 +477,10 @@ impl<T: Clone> Iterator for IntoIter<T> {
     fn next(&mut self) -> Option<Self::Item> {
         self.iter.next().map(|e| e.0)
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.iter.len(), Some(self.iter.len()))
+    }
 }
 
 impl<K: Clone + Ord> std::ops::BitAnd for &AvlSet<K> {
diff --git a/src/btree.rs b/src/btree.rs
index 982216e..85e1c18 100644
--- a/src/btree.rs
+++ b/src/btree.rs
@@ -1422,6 +1422,10 @@ impl<'a, K, V, const N: usize> Iterator for Iter<'a, K, V, N> {
     fn next(&mut self) -> Option<Self::Item> {
         self.iter.next().map(|(ref k, ref v)| (k, v))
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.iter.len, Some(self.iter.len))
+    }
 }
 
 impl<'a, K, V, const N: usize> DoubleEndedIterator for Iter<'a, K, V, N> {
@@ -1490,6 +1494,10 @@ where
     fn next(&mut self) -> Option<Self::Item> {
         self.iter.next().map(|(ref k, ref mut v)| (k, v))
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.iter.len, Some(self.iter.len))
+    }
 }
 
 impl<'a, K, V, const N: usize> DoubleEndedIterator for IterMut<'a, K, V, N>
@@ -1752,6 +1760,10 @@ where
     fn next(&mut self) -> Option<Self::Item> {
         self.iter.next()
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.iter.len, Some(self.iter.len))
+    }
 }
 
 impl<K, V, const N: usize> DoubleEndedIterator for IntoIter<K, V, N>
diff --git a/src/btree/btree_set.rs b/src/btree/btree_set.rs
index 505f7b2..3336878 100644
--- a/src/btree/btree_set.rs
+++ b/src/btree/btree_set.rs
@@ -373,6 +373,10 @@ impl<'a, T, const N: usize> Iterator for Iter<'a, T, N> {
     fn next(&mut self) -> Option<Self::Item> {
         self.iter.next().map(|e| e.0)
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.iter.len(), Some(self.iter.len()))
+    }
 }
 
 impl<'a, T, const N: usize> DoubleEndedIterator for Iter<'a, T, N> {
@@ -407,6 +411,10 @@ impl<T: Clone, const N: usize> Iterator for IntoIter<T, N> {
     fn next(&mut self) -> Option<Self::Item> {
         self.iter.next().map(|e| e.0)
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.iter.len(), Some(self.iter.len()))
+    }
 }
 
 impl<T: Clone, const N: usize> DoubleEndedIterator for IntoIter<T, N> {
diff --git a/src/btree/core.rs b/src/btree/core.rs
index 5a272c4..ce06e8c 100644
--- a/src/btree/core.rs
+++ b/src/btree/core.rs
@@ -1279,6 +1279,10 @@ impl<E, N, NI: NodeIterator<E, N>> Iterator for InnerIter<E, N, NI> {
 
         None
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len, Some(self.len))
+    }
 }
 
 impl<E, N, NI: NodeIterator<E, N>> DoubleEndedIterator for InnerIter<E, N, NI> {
-- 
2.43.0


From 01673ff6422835e9a36defb97acedada3a4e62b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:33 +0000
Subject: [PATCH 4/5] fix: deserialize maps with a size hint of usize::MAX
 without overflow

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 84fc0eb..bdc16c5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -405,7 +405,7 @@ mod serde {
 
                     Ok(MAP::make_half(scratch))
                 } else {
-                    let lf_len = (len + 1) / 2; // left gets big half for mid pt
+                    let lf_len = len - len / 2; // left gets big half for mid pt
                     let rt_len = len - lf_len;
                     let lhs =
                         build_map_by_halves::<MAP, M>(access, lf_len, scratch)?;
-- 
2.43.0


From 31148d472ce49411f940b8c43f3db5a29081abcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:37 +0000
Subject: [PATCH 5/5] fix: keep AVL map and set lengths consistent when user
 code panics

retain, append and split_off detach the root before calling closures, key
comparisons or clones; a panic there left a stale length behind.
---
 src/avl.rs         | 11 ++++++++---
 src/avl/avl_set.rs |  1 +
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/avl.rs b/src/avl.rs
index bf96c1d..c76894d 100644
--- a/src/avl.rs
+++ b/src/avl.rs
@@ -1000,9 +1000,11 @@ impl<K, V> AvlMap<K, V> {
         K: Ord + Clone,
         V: Clone,
     {
+        // lengths first, in case a key comparison or a clone panics
+        self.len = 0;
+        other.len = 0;
         self.root = union(self.root.take(), other.root.take());
         self.len = len(&self.root);
-        other.len = 0;
     }
 
     /// Drops all elements from the map.
@@ -1764,7 +1766,8 @@ impl<K, V> AvlMap<K, V> {
         V: Clone,
         F: FnMut(&K, &mut V) -> bool,
     {
-        let (root, len) = retain(self.root.take(), &mut f);
+        // retain builds a new tree; keep the old one in case f panics
+        let (root, len) = retain(self.root.clone(), &mut f);
         self.root = root;
         self.len = len;
     }
@@ -1789,10 +1792,12 @@ impl<K, V> AvlMap<K, V> {
         Q: Ord + ?Sized,
         V: Clone,
     {
+        // length first, in case a key comparison or a clone panics
+        let old_len = replace(&mut self.len, 0);
         let (lhs, orig_kv, mut rhs) = split(self.root.take(), key);
 
         let len_lhs = len(&lhs);
-        let len_rhs = self.len - len_lhs;
+        let len_rhs = old_len - len_lhs;
 
         self.len = len_lhs;
         self.root = lhs;
diff --git a/src/avl/avl_set.rs b/src/avl/avl_set.rs
index eaf6c6b..50851f6 100644
--- a/src/avl/avl_set.rs
+++ b/src/avl/avl_set.rs
@@ -352,6 +352,7 @@ impl<T> AvlSet<T> {
         }
 
         let Some(mut root) = self.map.root.take() else { return; };
+        self.map.len = 0; // in case f panics
         Arc::make_mut(&mut root);
         let Ok(root) = Arc::try_unwrap(root) else { panic!("try_unwrap fail?") };
         let mut acc = AvlMap::new();
-- 
2.43.0

