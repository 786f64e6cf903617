From 57ff9874a0fff5f5ce9a47436abd50be2fa54481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:21 +0000
Subject: [PATCH 01/11] fix: de! works without importing debug_single and
 without arguments in optimised builds

---
 src/misc/debug.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/misc/debug.rs b/src/misc/debug.rs
index a793711..c0e4ca3 100644
--- a/src/misc/debug.rs
+++ b/src/misc/debug.rs
@@ -18,7 +18,7 @@ macro_rules! de {
     };
     ($($val:expr),+ $(,)?) => {
         eprint!("#{}", line!());
-        ($(debug_single!($val)),+,);
+        ($($crate::debug_single!($val)),+,);
         eprintln!();
     };
 }
@@ -26,5 +26,6 @@ macro_rules! de {
 #[cfg(not(debug_assertions))]
 #[macro_export]
 macro_rules! de {
+    () => { };
     ($($val:expr),+ $(,)?) => { };
 }
-- 
2.43.0


From 666d7cf65cc1b216003a347d50af7779e1390c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:21 +0000
Subject: [PATCH 02/11] fix: UnionFind::join links the representatives, not the
 given elements

---
 src/data_structure/union_find.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/data_structure/union_find.rs b/src/data_structure/union_find.rs
index cfbf111..d141902 100644
--- a/src/data_structure/union_find.rs
+++ b/src/data_structure/union_find.rs
@@ -35,11 +35,11 @@ impl UnionFind {
         if fx == fy {
             return false;
         }
-        if self.sz[x] > self.sz[y] {
+        if self.sz[fx] > self.sz[fy] {
             std::mem::swap(&mut fx, &mut fy);
         }
-        self.fa[x] = y;
-        self.sz[y] += self.sz[x];
+        self.fa[fx] = fy;
+        self.sz[fy] += self.sz[fx];
         true
     }
 
-- 
2.43.0


From 87b4b08fd0203abe04c1994841331163e28b24f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:21 +0000
Subject: [PATCH 03/11] fix: FenwickTree::partition_point does not underflow on
 an empty tree

---
 src/data_structure/fenwick_tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_structure/fenwick_tree.rs b/src/data_structure/fenwick_tree.rs
index 607548c..9e71b34 100644
--- a/src/data_structure/fenwick_tree.rs
+++ b/src/data_structure/fenwick_tree.rs
@@ -100,7 +100,7 @@ where
     {
         let mut pos = 0;
         let mut sum: T = Default::default();
-        for i in (0..=(usize::BITS - 1 - self.n.leading_zeros())).rev() {
+        for i in (0..(usize::BITS - self.n.leading_zeros())).rev() {
             let next = pos + (1 << i);
             if next <= self.n && pred(&(sum.clone() + self.ary[next - 1].clone())) {
                 sum += self.ary[next - 1].clone();
-- 
2.43.0


From f51e1e0eed808834907996de85b4c4729fd348e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:21 +0000
Subject: [PATCH 04/11] fix: FenwickTree::add refuses positions outside the
 tree

---
 src/data_structure/fenwick_tree.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/data_structure/fenwick_tree.rs b/src/data_structure/fenwick_tree.rs
index 9e71b34..27892f6 100644
--- a/src/data_structure/fenwick_tree.rs
+++ b/src/data_structure/fenwick_tree.rs
@@ -51,6 +51,7 @@ where
         T: std::ops::AddAssign<U>,
     {
         let n = self.n;
+        assert!(idx < n);
         idx += 1;
         while idx <= n {
             self.ary[idx - 1] += val.clone();
-- 
2.43.0


From 8465e20ab0edd6ebea2f441492844b4678996b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:21 +0000
Subject: [PATCH 05/11] fix: FenwickTree::sum refuses reversed ranges

---
 src/data_structure/fenwick_tree.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/data_structure/fenwick_tree.rs b/src/data_structure/fenwick_tree.rs
index 27892f6..ee6d1ce 100644
--- a/src/data_structure/fenwick_tree.rs
+++ b/src/data_structure/fenwick_tree.rs
@@ -74,6 +74,7 @@ where
     where
         T: std::ops::Sub<Output = T>,
     {
+        assert!(l <= r);
         self.pref(r) - self.pref(l)
     }
 
-- 
2.43.0


From d6b39641bfa76450d021754abf3037670c926244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:21 +0000
Subject: [PATCH 06/11] fix: SparseTable::get refuses ranges that end past the
 table

---
 src/data_structure/sparse_table.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_structure/sparse_table.rs b/src/data_structure/sparse_table.rs
index d783c48..fa73297 100644
--- a/src/data_structure/sparse_table.rs
+++ b/src/data_structure/sparse_table.rs
@@ -32,7 +32,7 @@ where
 
     /// get the result for [l, r)
     pub fn get(&self, l: usize, r: usize) -> T {
-        assert!(l < r);
+        assert!(l < r && r <= self.data[0].len());
         let c = lg(r - l) as usize;
         (self.op)(self.data[c][l], self.data[c][r - (1 << c)])
     }
-- 
2.43.0


From 7ec98bd73e5c5aac838597f313a3356edaa6252a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:21 +0000
Subject: [PATCH 07/11] fix: SparseTable::from accepts an empty slice

---
 src/data_structure/sparse_table.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_structure/sparse_table.rs b/src/data_structure/sparse_table.rs
index fa73297..10b8f4d 100644
--- a/src/data_structure/sparse_table.rs
+++ b/src/data_structure/sparse_table.rs
@@ -17,7 +17,7 @@ where
     /// Construct a sparse table from slice `v`.
     pub fn from(v: &[T], init: T, op: F) -> Self {
         let n = v.len();
-        let count = lg(n) as usize + 1;
+        let count = if n == 0 { 1 } else { lg(n) as usize + 1 };
         let mut data = vec![vec![init; n]; count];
         data[0].clone_from_slice(v);
         for c in 1..count {
-- 
2.43.0


From 0ce8af8655977b15e40a36a8008c8ba9110fbb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:21 +0000
Subject: [PATCH 08/11] fix: the empty product of residues is canonical for
 modulus 1

---
 src/misc/modint.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/misc/modint.rs b/src/misc/modint.rs
index 1ddf641..d7708a4 100644
--- a/src/misc/modint.rs
+++ b/src/misc/modint.rs
@@ -674,7 +674,7 @@ pub trait ModIntBase:
     #[inline]
     fn pow(self, mut n: u64) -> Self {
         let mut x = self;
-        let mut r = Self::raw(1);
+        let mut r = Self::new(1);
         while n > 0 {
             if n & 1 == 1 {
                 r *= x;
@@ -1044,9 +1044,9 @@ macro_rules! impl_folding {
 
 impl_folding! {
     impl<M: Modulus> Sum<_>     for StaticModInt<M>  { fn sum(_)     -> _ { _(Self::raw(0), Add::add) } }
-    impl<M: Modulus> Product<_> for StaticModInt<M>  { fn product(_) -> _ { _(Self::raw(1), Mul::mul) } }
+    impl<M: Modulus> Product<_> for StaticModInt<M>  { fn product(_) -> _ { _(Self::new(1), Mul::mul) } }
     impl<I: Id     > Sum<_>     for DynamicModInt<I> { fn sum(_)     -> _ { _(Self::raw(0), Add::add) } }
-    impl<I: Id     > Product<_> for DynamicModInt<I> { fn product(_) -> _ { _(Self::raw(1), Mul::mul) } }
+    impl<I: Id     > Product<_> for DynamicModInt<I> { fn product(_) -> _ { _(Self::new(1), Mul::mul) } }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 4a88815b4ff8d2063716817e287645351058bf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:21 +0000
Subject: [PATCH 09/11] fix: set_modulus refuses moduli beyond 2^31, which the
 arithmetic does not support

---
 src/misc/modint.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/misc/modint.rs b/src/misc/modint.rs
index d7708a4..f1d8945 100644
--- a/src/misc/modint.rs
+++ b/src/misc/modint.rs
@@ -356,6 +356,9 @@ impl<I: Id> DynamicModInt<I> {
         if modulus == 0 {
             panic!("the modulus must not be 0");
         }
+        if modulus > 1 << 31 {
+            panic!("the modulus must not exceed 2^31");
+        }
         I::companion_barrett().update(modulus);
     }
 
-- 
2.43.0


From 3d36b26b020c7346fe0e172c4fa0b33b91ace669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:21 +0000
Subject: [PATCH 10/11] fix: Dinic::add_edge checks both ends before recording
 half of an edge

---
 src/graph/max_flow.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/graph/max_flow.rs b/src/graph/max_flow.rs
index 7001ed3..4f04118 100644
--- a/src/graph/max_flow.rs
+++ b/src/graph/max_flow.rs
@@ -70,6 +70,8 @@ impl<Cap: Integral> Dinic<Cap> {
     }
 
     pub fn add_edge(&mut self, u: usize, v: usize, cap: Cap) {
+        assert!(u < self.n);
+        assert!(v < self.n);
         self.g[u].push(self.e.len());
         self.e.push(Edge { to: v, cap});
         self.g[v].push(self.e.len());
-- 
2.43.0


From d04e2abe53931cc1fcbb5923943a24bf5d45a532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:21 +0000
Subject: [PATCH 11/11] fix: AugmentedPath::add_edge refuses right vertices
 that do not exist

---
 src/graph/bipartite_matching.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/graph/bipartite_matching.rs b/src/graph/bipartite_matching.rs
index 38a6da9..bd5d88e 100644
--- a/src/graph/bipartite_matching.rs
+++ b/src/graph/bipartite_matching.rs
@@ -17,6 +17,7 @@ impl AugmentedPath {
     }
 
     pub fn add_edge(&mut self, u: usize, v: usize) {
+        assert!(v < self.r.len());
         self.g[u].push(v);
     }
 
-- 
2.43.0

