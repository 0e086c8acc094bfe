From c41adb22c674de22255100f0db4789f0429a2407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:21:01 +0000
Subject: [PATCH 01/13] fix: return zero for the first out-of-range index of a
 dense multivector

Reading the coefficient at index 2^dim panicked instead of returning zero,
unlike larger indices and the other storage types.
---
 src/coeff_storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coeff_storage.rs b/src/coeff_storage.rs
index 4773bb6..23754d6 100644
--- a/src/coeff_storage.rs
+++ b/src/coeff_storage.rs
@@ -41,7 +41,7 @@ where
 
     #[inline(always)]
     fn get_by_idx(&self, idx: IndexType) -> T {
-        if idx > self.array.len() {
+        if idx >= self.array.len() {
             return T::zero();
         }
         self.array[idx].clone()
-- 
2.43.0


From 4b6746c751205d7d432f347730535120accab25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:21:01 +0000
Subject: [PATCH 02/13] fix: do not report invertible multivectors as singular

Matrix inversion gave up when a diagonal element below the pivot became
zero, although a later row swap takes care of that. Even basis vectors of
Cl(4) had no inverse.
---
 src/fftrepr/matrix.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/fftrepr/matrix.rs b/src/fftrepr/matrix.rs
index 96cb73d..feefaf4 100644
--- a/src/fftrepr/matrix.rs
+++ b/src/fftrepr/matrix.rs
@@ -66,9 +66,6 @@ pub(crate) fn matrix_inv<T: DivRing + Clone + Norm>(
                     return None;
                 }
             }
-            if w[(j, j)].is_zero() {
-                return None;
-            }
         }
     }
     // To diagonal
-- 
2.43.0


From 7f3b3c08fb5dfe5915bd5547996573ac797b998f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:21:01 +0000
Subject: [PATCH 03/13] fix: return None from inv() when rounding hides a
 singular matrix

A zero pivot that became a tiny non-zero number produced a meaningless
result instead of None.
---
 src/fftrepr/mod.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/fftrepr/mod.rs b/src/fftrepr/mod.rs
index 25f0fb5..13555e2 100644
--- a/src/fftrepr/mod.rs
+++ b/src/fftrepr/mod.rs
@@ -172,9 +172,12 @@ where
     {
         let ret_arr = matrix::matrix_inv(&self.arr.index_axis(Axis(0), 0))?;
         let (m, n) = ret_arr.dim();
-        Some(Self::from_array3_unchecked(
-            ret_arr.into_shape_clone([1, m, n]).ok()?,
-        ))
+        let ret = Self::from_array3_unchecked(ret_arr.into_shape_clone([1, m, n]).ok()?);
+        // Rounding errors can make a singular matrix look invertible.
+        if !(&ret * self).approx_eq(&Self::one(), 1e-6) {
+            return None;
+        }
+        Some(ret)
     }
 
     /// Reversal for the representation.
-- 
2.43.0


From 4e10115fb4679279c38479a1b6672b2aee44a903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:21:01 +0000
Subject: [PATCH 04/13] fix: make PGA points at the origin finite

The point was divided by the length of its coordinate vector, which is zero
at the origin. Normalize by all homogeneous coordinates instead, the way
hyperplanes are.
---
 src/pga.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pga.rs b/src/pga.rs
index c2c1e79..2d60670 100644
--- a/src/pga.rs
+++ b/src/pga.rs
@@ -23,8 +23,8 @@ where
 {
     fn pga_point(coords: impl IntoIterator<Item = f64>) -> Result<Self, ClError> {
         let mut coords: Vec<f64> = coords.into_iter().collect();
-        let mag = coords.iter().map(|c| c * c).sum::<f64>().sqrt();
         coords.push(f64::one());
+        let mag = coords.iter().map(|c| c * c).sum::<f64>().sqrt();
         let p = Self::from_vector(coords)?.dual();
         Ok(p / mag)
     }
-- 
2.43.0


From 7e0060b7874871bd3e55b3f85ffa8c677ff0497e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:21:01 +0000
Subject: [PATCH 05/13] fix: reject PGA translations with a wrong number of
 coordinates

One coordinate too many silently produced a multivector with a vector part,
which is not a translation.
---
 src/pga.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pga.rs b/src/pga.rs
index 2d60670..7956d8d 100644
--- a/src/pga.rs
+++ b/src/pga.rs
@@ -37,6 +37,10 @@ where
     }
 
     fn pga_translation(direction: impl IntoIterator<Item = f64>) -> Result<Self, ClError> {
+        let direction: Vec<f64> = direction.into_iter().collect();
+        if direction.len() != SPC_DIM {
+            return Err(ClError::InvalidShape);
+        }
         let e_idx = A::proj_mask();
         let bivec = Self::from_indexed_iter(
             direction
-- 
2.43.0


From c4f82b59d66187be75915757b3ecd24bcde886c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:21:01 +0000
Subject: [PATCH 06/13] fix: check the destination length in iclifft_into

A too short destination panicked and a too long one was partly overwritten.
Return InvalidShape instead.
---
 src/clifft/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/clifft/mod.rs b/src/clifft/mod.rs
index 219671c..2db9481 100644
--- a/src/clifft/mod.rs
+++ b/src/clifft/mod.rs
@@ -298,6 +298,9 @@ pub fn iclifft_into(
     matrix: ArrayView2<Complex64>,
     mut dest: ArrayViewMut1<Complex64>,
 ) -> Result<(), ClError> {
+    if dest.len() != matrix.len() {
+        return Err(ClError::InvalidShape);
+    }
     iclifft_nn_into(matrix, dest.view_mut())?;
 
     // Multiply imaginary basis vectors of Cl(m, m) by -i to produce Cl(2m) multivector
-- 
2.43.0


From 3c2a4407c261e4dcd6176170f9228286bde3d246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:21:01 +0000
Subject: [PATCH 07/13] fix: do not truncate the grade in sparse multivectors

Grades above u32::MAX wrapped around, so grade 2^32 returned the scalar.
---
 src/coeff_storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coeff_storage.rs b/src/coeff_storage.rs
index 23754d6..9977ab8 100644
--- a/src/coeff_storage.rs
+++ b/src/coeff_storage.rs
@@ -174,7 +174,7 @@ where
         T: 'a,
     {
         self.coeff_enumerate()
-            .filter(move |(idx, _)| idx.count_ones() == (grade as u32))
+            .filter(move |(idx, _)| (idx.count_ones() as usize) == grade)
     }
 
     fn add(&self, rhs: &Self) -> Self {
-- 
2.43.0


From 55f38dbf6738f8105e8966e05df0f837948dde22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:21:01 +0000
Subject: [PATCH 08/13] fix: make the grade iterator empty for huge grades

A grade above isize::MAX became negative and recursed without end.
---
 src/index_utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/index_utils.rs b/src/index_utils.rs
index af571f6..0fb141d 100644
--- a/src/index_utils.rs
+++ b/src/index_utils.rs
@@ -24,7 +24,7 @@ impl std::iter::Iterator for GradeIter {
     type Item = IndexType;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.pos + 1 < self.weight as isize {
+        if self.pos < -1 || ((self.pos + 1) as usize) < self.weight {
             return None;
         }
 
-- 
2.43.0


From d9ec64728e9967848ae7b4bd8d8d1f6775b37363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:21:01 +0000
Subject: [PATCH 09/13] fix: reject 64-dimensional algebras at compile time

The number of basis blades of such an algebra does not fit the index type,
so every constructor overflowed.
---
 src/algebra.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebra.rs b/src/algebra.rs
index f372cef..67c4ad5 100644
--- a/src/algebra.rs
+++ b/src/algebra.rs
@@ -395,7 +395,7 @@ macro_rules! impl_algebra_base {
         }
         impl $crate::algebra::ClBasis<{$crate::count_items!($($signature),+)}> for $name {}
         // Limit the algebra size to fit the IndexType
-        $crate::algebra::const_assert!({$crate::count_items!($($signature),+)} <= 8*size_of::<$crate::types::IndexType>());
+        $crate::algebra::const_assert!({$crate::count_items!($($signature),+)} < 8*size_of::<$crate::types::IndexType>());
         // Optional traits implementations
         $crate::impl_split_signature!($name, $($signature),+);
         $crate::impl_non_degenerate!($name, $($signature),+);
-- 
2.43.0


From 0e721b79b8951a6a9ad7a251babae5b64e5c8bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:25:30 +0000
Subject: [PATCH 10/13] fix: scale the exponent by a norm that bounds the
 powers

In mixed signatures the magnitude can be zero and the largest coefficient
one while the powers still grow, so the truncated series was wrong by up to
several percent.
---
 src/fftrepr/mod.rs | 14 ++++++++------
 src/lib.rs         |  9 ++++-----
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/fftrepr/mod.rs b/src/fftrepr/mod.rs
index 13555e2..e635b4f 100644
--- a/src/fftrepr/mod.rs
+++ b/src/fftrepr/mod.rs
@@ -106,14 +106,16 @@ where
         let mut coeff = 1.0;
         let mut i = 1;
 
-        // Ensure that the magnitude and all the coefficients are below 1
+        // Ensure that the sum of the row-sum norms of the matrices is at most 1, and so are its powers,
         // so that the series doesn't blow up
-        let mut max_c: f64 = 1.0;
-        for (_, ci) in self.arr.indexed_iter() {
-            max_c = f64::max(ci.norm(), max_c);
+        let mut max_c: f64 = 0.0;
+        for m in self.arr.axis_iter(Axis(0)) {
+            let row_sums = m
+                .axis_iter(Axis(0))
+                .map(|row| row.fold(0.0, |s, c| s + c.norm()));
+            max_c += row_sums.fold(0.0, f64::max);
         }
-        max_c = max_c.max(self.mag2().norm().sqrt());
-        max_c = max_c.ceil();
+        max_c = max_c.max(1.0).ceil();
         let int_pow = max_c as usize;
         let normalized_self = self / max_c;
 
diff --git a/src/lib.rs b/src/lib.rs
index a8a5840..2fac630 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -302,14 +302,13 @@ where
         let mut coeff = 1.0;
         let mut i = 1;
 
-        // Ensure that the magnitude and all the coefficients are below 1
+        // Ensure that the sum of the coefficient norms is at most 1, and so are its powers,
         // so that the series doesn't blow up
-        let mut max_c: f64 = 1.0;
+        let mut max_c: f64 = 0.0;
         for (_, ci) in self.coeff_enumerate() {
-            max_c = f64::max(ci.norm(), max_c);
+            max_c += ci.norm();
         }
-        max_c = max_c.max(self.mag2().norm().sqrt());
-        max_c = max_c.ceil();
+        max_c = max_c.max(1.0).ceil();
         let int_pow = max_c as usize;
         let inv_max_c = T::from(1.0 / max_c);
         let normalized_mv = self * &inv_max_c;
-- 
2.43.0


From a704af89a09d0f8288e77345cb68726017b33431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:25:30 +0000
Subject: [PATCH 11/13] fix: drop coefficients that a sparse filter sets to
 zero

The predicate may change the coefficients. The ones it zeroed stayed in the
map and were counted as non-zero.
---
 src/mv_sparse.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mv_sparse.rs b/src/mv_sparse.rs
index 9374c66..4cb7ee6 100644
--- a/src/mv_sparse.rs
+++ b/src/mv_sparse.rs
@@ -45,11 +45,13 @@ where
     }
 
     /// Drop all the coefficients for which the predicate is false.
-    pub fn filter_inplace<F>(&mut self, f: F)
+    pub fn filter_inplace<F>(&mut self, mut f: F)
     where
         F: FnMut(&IndexType, &mut T) -> bool,
     {
-        self.coeffs.coeffs.retain(f);
+        self.coeffs
+            .coeffs
+            .retain(|idx, c| f(idx, c) && !c.is_zero());
     }
 
     /// Consume self and return it without all the coefficients for which the predicate is false.
-- 
2.43.0


From ce770e5588be0c8eb2ccd2f0db516f25c81b44de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:44:52 +0000
Subject: [PATCH 12/13] fix: compute the size of sparse multivectors in the
 index type

The size was computed as a 32-bit integer. Sparse multivectors of algebras with
32 or more generators panicked in debug builds and lost their coefficients in
release builds. With 31 generators out-of-range writes were accepted.
---
 src/coeff_storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coeff_storage.rs b/src/coeff_storage.rs
index 9977ab8..74bd24f 100644
--- a/src/coeff_storage.rs
+++ b/src/coeff_storage.rs
@@ -136,7 +136,7 @@ where
     fn new(dim: usize) -> Self {
         SparseStorage {
             dim,
-            size: (1 << dim) as IndexType,
+            size: 1 << dim,
             coeffs: HashMap::new(),
         }
     }
-- 
2.43.0


From 6cd8aef1d552f1cceee4d28c2bc631aef46d3ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:33:46 +0000
Subject: [PATCH 13/13] fix: keep rounding errors out of the back substitution
 of the matrix inverse

Elimination leaves rounding errors below the diagonal. Back substitution read them
as if they were part of the row, so the inverse of a matrix with large entries was
lost.
---
 src/fftrepr/matrix.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fftrepr/matrix.rs b/src/fftrepr/matrix.rs
index feefaf4..b70e480 100644
--- a/src/fftrepr/matrix.rs
+++ b/src/fftrepr/matrix.rs
@@ -73,7 +73,8 @@ pub(crate) fn matrix_inv<T: DivRing + Clone + Norm>(
         for j in (0..i).rev() {
             // Accommodate for non-commutative T, such as quaternions.
             let coeff = T::one().ref_div(&w[(i, i)]).ref_mul(&w[(j, i)]);
-            for m in j..2 * n {
+            // The i-th row is zero to the left of the diagonal, rounding errors left there must not spread.
+            for m in i..2 * n {
                 w[(j, m)] = w[(j, m)].ref_sub(&coeff.ref_mul(&w[(i, m)]));
             }
         }
-- 
2.43.0

