From 1733a9ae876f12b05454c497e629b36b9a3d2e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:12 +0000
Subject: [PATCH 1/6] fix: subtract polynomials without negating the subtrahend

`a - b` and `a -= b` negated b first and overflowed for coefficients
whose negation is not representable, although the difference is.
---
 src/algebra/polynomial.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/algebra/polynomial.rs b/src/algebra/polynomial.rs
index 3498866..90e3447 100644
--- a/src/algebra/polynomial.rs
+++ b/src/algebra/polynomial.rs
@@ -162,8 +162,9 @@ fn test_add_assign_for_ref_polynomials_of_ints() {
 impl<T: Ring> std::ops::Sub for Polynomial<T> {
     type Output = Self;
 
-    fn sub(self, rhs: Self) -> Self {
-        self + -rhs
+    fn sub(mut self, rhs: Self) -> Self {
+        self -= &rhs;
+        self
     }
 }
 
@@ -177,7 +178,7 @@ fn test_sub_for_polynomials_of_int() {
 
 impl<T: Ring> std::ops::SubAssign for Polynomial<T> {
     fn sub_assign(&mut self, rhs: Self) {
-        *self += -rhs
+        *self -= &rhs
     }
 }
 
-- 
2.43.0


From 1aca60a147d352ab5b572ca8747a39e9fe14333a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:37 +0000
Subject: [PATCH 2/6] fix: compare polynomials independently of trailing zero
 coefficients

Equality compared the stored coefficient lists, such that x - x, x * 0 and
other results with trailing zeros were not equal to the zero polynomial and
the ring laws did not hold under ==.
---
 src/algebra/polynomial.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/algebra/polynomial.rs b/src/algebra/polynomial.rs
index 90e3447..f4e77f1 100644
--- a/src/algebra/polynomial.rs
+++ b/src/algebra/polynomial.rs
@@ -12,11 +12,25 @@ let p = Polynomial::from_coefficients(vec![1, 2, 3]); // p(x) = 1 + 2*x + 3*x^2
 assert_eq!(p.eval(2), 1 + 2*2 + 3*4);
 ```
 */
-#[derive(Debug, Clone, Eq, PartialEq)]
+#[derive(Debug, Clone)]
 pub struct Polynomial<T: Ring> {
     a: Vec<T>,
 }
 
+impl<T: Ring> PartialEq for Polynomial<T> {
+    /// Compares the coefficients of two polynomials, where coefficients which
+    /// are not stored are zero.
+    fn eq(&self, other: &Self) -> bool {
+        let common = self.a.len().min(other.a.len());
+        let is_zero = |a: &T| *a == T::zero();
+        self.a[..common] == other.a[..common]
+            && self.a[common..].iter().all(is_zero)
+            && other.a[common..].iter().all(is_zero)
+    }
+}
+
+impl<T: Ring + Eq> Eq for Polynomial<T> {}
+
 impl<T: Ring> Polynomial<T> {
     /// Creates a new `Polynomial` from a vector of coefficients.
     ///
-- 
2.43.0


From c448595034a7b825cdc727fe2a66d62f0276da26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:04 +0000
Subject: [PATCH 3/6] fix: reject vectors of different lengths in DVector +=
 and -=

A longer right hand side was silently truncated, and a shorter one made the
operation panic after part of the target had been changed.
---
 src/linalg/dvector.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/linalg/dvector.rs b/src/linalg/dvector.rs
index b597c57..f580816 100644
--- a/src/linalg/dvector.rs
+++ b/src/linalg/dvector.rs
@@ -597,6 +597,7 @@ where
     Rhs: VectorExpr,
 {
     fn add_assign(&mut self, rhs: Rhs) {
+        assert_eq!(self.len(), rhs.len());
         for index in 0..self.len() {
             self.0[index] += rhs.entry(index);
         }
@@ -635,6 +636,7 @@ where
     Rhs: VectorExpr,
 {
     fn sub_assign(&mut self, rhs: Rhs) {
+        assert_eq!(self.len(), rhs.len());
         for index in 0..self.len() {
             self.0[index] -= rhs.entry(index);
         }
-- 
2.43.0


From 5396e99780e4f308aee065e2fc78ec542b55eeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:18 +0000
Subject: [PATCH 4/6] fix: reject matrices of different shapes in DMatrix +=
 and -=

A right hand side with more rows or columns was silently cropped, and a
smaller one made the operation panic after part of the target had been
changed.
---
 src/linalg/dmatrix.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/linalg/dmatrix.rs b/src/linalg/dmatrix.rs
index ac88116..c4b5780 100644
--- a/src/linalg/dmatrix.rs
+++ b/src/linalg/dmatrix.rs
@@ -713,6 +713,8 @@ where
     Rhs: MatrixExpr,
 {
     fn add_assign(&mut self, rhs: Rhs) {
+        assert_eq!(self.num_rows(), rhs.num_rows());
+        assert_eq!(self.num_cols(), rhs.num_cols());
         let num_cols = self.num_cols();
         for row in 0..self.num_rows() {
             for col in 0..num_cols {
@@ -756,6 +758,8 @@ where
     Rhs: MatrixExpr,
 {
     fn sub_assign(&mut self, rhs: Rhs) {
+        assert_eq!(self.num_rows(), rhs.num_rows());
+        assert_eq!(self.num_cols(), rhs.num_cols());
         let num_cols = self.num_cols();
         for row in 0..self.num_rows() {
             for col in 0..num_cols {
-- 
2.43.0


From f575af5d7b207c9e9241cab4bb88dc286520a02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:18 +0000
Subject: [PATCH 5/6] fix: reject vectors of different lengths in the inner
 product

The product silently ignored the surplus entries of the longer vector.
---
 src/linalg/dvector.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/linalg/dvector.rs b/src/linalg/dvector.rs
index f580816..b5ae625 100644
--- a/src/linalg/dvector.rs
+++ b/src/linalg/dvector.rs
@@ -676,6 +676,7 @@ where
     type Output = T;
 
     fn mul(self, rhs: Self) -> T {
+        assert_eq!(self.len(), rhs.len());
         self.0
             .iter()
             .zip(rhs.0.iter())
-- 
2.43.0


From a5b476d15b05a34d721effa2770a3a1d3927d745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:15 +0000
Subject: [PATCH 6/6] fix: panic for out-of-bounds columns and rows of a
 DMatrix

An index with a column that is out of bounds (or a row so large that
row * num_cols wraps around in release builds) silently read or wrote
another entry of the matrix.
---
 src/linalg/dmatrix.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/linalg/dmatrix.rs b/src/linalg/dmatrix.rs
index c4b5780..6e8a7b7 100644
--- a/src/linalg/dmatrix.rs
+++ b/src/linalg/dmatrix.rs
@@ -527,7 +527,7 @@ where
     type Entry = T;
 
     fn entry(&self, row: usize, col: usize) -> Self::Entry {
-        self.data[row * self.num_cols + col].clone()
+        self[[row, col]].clone()
     }
 
     fn num_rows(&self) -> usize {
@@ -550,7 +550,7 @@ where
     type Entry = T;
 
     fn entry(&self, row: usize, col: usize) -> Self::Entry {
-        self.data[row * self.num_cols + col].clone()
+        self[[row, col]].clone()
     }
 
     fn num_rows(&self) -> usize {
@@ -649,11 +649,26 @@ fn test_dmatrix_same() {
     );
 }
 
+impl<T> DMatrix<T> {
+    /// Returns the position of an entry in `self.data`.
+    ///
+    /// Panics, if the row or the column is out of bounds.
+    fn data_index(&self, [row, col]: [usize; 2]) -> usize {
+        assert!(
+            row < self.num_rows && col < self.num_cols,
+            "The entry ({row}, {col}) is out of bounds of a {}x{} matrix.",
+            self.num_rows,
+            self.num_cols
+        );
+        row * self.num_cols + col
+    }
+}
+
 impl<T> Index<[usize; 2]> for DMatrix<T> {
     type Output = T;
 
     fn index(&self, row_and_col: [usize; 2]) -> &Self::Output {
-        &self.data[row_and_col[0] * self.num_cols + row_and_col[1]]
+        &self.data[self.data_index(row_and_col)]
     }
 }
 
@@ -668,7 +683,8 @@ fn test_index_dmatrix() {
 
 impl<T> IndexMut<[usize; 2]> for DMatrix<T> {
     fn index_mut(&mut self, row_and_col: [usize; 2]) -> &mut <Self as Index<[usize; 2]>>::Output {
-        &mut self.data[row_and_col[0] * self.num_cols + row_and_col[1]]
+        let data_index = self.data_index(row_and_col);
+        &mut self.data[data_index]
     }
 }
 
-- 
2.43.0

