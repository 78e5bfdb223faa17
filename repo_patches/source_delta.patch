From c176e0a3cd92e69165d6e1c2ecf7913681c3b6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:20 +0000
Subject: [PATCH 01/21] fix: un-share copy-on-write storage before unchecked
 mutable indexing

In release builds `atm` called `uget_mut` on arrays whose storage may be
shared (ArcArray, CowArray), so in-place routines wrote into other handles
of the same data.
---
 src/index.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/index.rs b/src/index.rs
index 85fd73a..7c24f6e 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -39,6 +39,11 @@ impl<A, S: DataMut<Elem = A>, D: Dimension, I: NdIndex<D>> UncheckedIndexMut<I>
             self.get_mut(index).unwrap()
         }
         #[cfg(not(debug_assertions))]
-        self.uget_mut(index)
+        {
+            // `uget_mut` requires uniquely held data. This is not a given for copy-on-write storage
+            // such as `ArcArray` and `CowArray`, so un-share the data first.
+            let _ = self.as_mut_ptr();
+            self.uget_mut(index)
+        }
     }
 }
-- 
2.43.0


From e6943c6caa280202b3784c3f8d0dcf9eaa98472e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:20 +0000
Subject: [PATCH 02/21] fix: cancellation in the 2x2 subproblem of the
 symmetric eigensolver

The basis vector was computed as a difference of two nearly equal numbers
whenever the first diagonal element is the smaller one, which yielded
eigenvectors with errors of up to 100%.
---
 src/eigh.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/eigh.rs b/src/eigh.rs
index d99f0ea..0f01faa 100644
--- a/src/eigh.rs
+++ b/src/eigh.rs
@@ -108,7 +108,14 @@ fn symmetric_eig<A: NdFloat, S: DataMut<Elem = A>>(
                 diag[start + 1],
             )
             .unwrap(); // XXX not sure when this unwrap panics
-            let basis = (eigvals.0 - diag[start + 1], off_diag[start]);
+
+            // Both forms span the eigenvector of the larger eigenvalue, pick the one that doesn't
+            // suffer from cancellation
+            let basis = if diag[start] >= diag[start + 1] {
+                (eigvals.0 - diag[start + 1], off_diag[start])
+            } else {
+                (off_diag[start], eigvals.0 - diag[start])
+            };
 
             diag[start] = eigvals.0;
             diag[start + 1] = eigvals.1;
-- 
2.43.0


From aea32cf3e5831e3ceb177c191b7b18ba8f71d469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:21 +0000
Subject: [PATCH 03/21] fix: cancellation in the 2x2 subproblem of the SVD

Singular vectors of the 2x2 problem were derived from v1^2 - m11^2 even when
v1 is close to m11, leading to wrong singular values and reconstruction
errors of more than 20%.
---
 src/svd.rs | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/src/svd.rs b/src/svd.rs
index e2f6105..d8170c3 100644
--- a/src/svd.rs
+++ b/src/svd.rs
@@ -378,31 +378,33 @@ fn compute_2x2_uptrig_svd<A: NdFloat>(
     let two = A::from(2.0).unwrap();
     let denom = (m11 + m22).hypot(m12) + (m11 - m22).hypot(m12);
 
-    // NOTE: v1 is the singular value that is the closest to m22.
-    // This prevents cancellation issues when constructing the vector `csv` below. If we chose
-    // otherwise, we would have v1 ~= m11 when m12 is small. This would cause catastrophic
-    // cancellation on `v1 * v1 - m11 * m11` below.
-    let mut v1 = m11 * m22 * two / denom;
-    let mut v2 = denom / two;
+    // NOTE: v1 is the singular value with the smaller magnitude.
+    let v1 = m11 * m22 * two / denom;
+    let v2 = denom / two;
 
     let mut u = None;
     let mut v_t = None;
 
     if compute_v || compute_u {
-        let cv = m11 * m12;
-        let sv = v1 * v1 - m11 * m11;
-        let (csv, sgn_v) = GivensRotation::new(cv, sv);
-        v1 *= sgn_v;
-        v2 *= sgn_v;
+        // Both forms are parallel to the right-singular vector of v1, since they are orthogonal to
+        // one of the rows of `M.t * M - v1^2 * I`. Pick the one that doesn't suffer from
+        // cancellation, because v1 can get arbitrarily close to the smaller diagonal element.
+        let (cv, sv) = if m11.abs() >= m22.abs() {
+            (m11 * m12, (v1 - m11) * (v1 + m11))
+        } else {
+            (m12 * m12 + (m22 - v1) * (m22 + v1), -m11 * m12)
+        };
+        let (csv, _) = GivensRotation::new(cv, sv);
+
+        // Derive the left-singular vectors from `M * v / v2`, where `v` is the right-singular
+        // vector of v2. Unlike its counterpart for v1, this is accurate for tiny v1.
+        let cu = m22 * csv.c();
+        let su = m11 * csv.s() - m12 * csv.c();
+        let (csu, _) = GivensRotation::new(cu, su);
+
         if compute_v {
-            v_t = Some(csv.clone());
+            v_t = Some(csv);
         }
-
-        let cu = (m11 * csv.c() + m12 * csv.s()) / v1;
-        let su = (m22 * csv.s()) / v1;
-        let (csu, sgn_u) = GivensRotation::new(cu, su);
-        v1 *= sgn_u;
-        v2 *= sgn_u;
         if compute_u {
             u = Some(csu);
         }
-- 
2.43.0


From 03a60fb6d8eb185bea3f313d1fc1c0e43f671222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:21 +0000
Subject: [PATCH 04/21] fix: SVD never terminates on NaN or infinite elements

---
 src/svd.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/svd.rs b/src/svd.rs
index d8170c3..cc5f483 100644
--- a/src/svd.rs
+++ b/src/svd.rs
@@ -236,9 +236,10 @@ fn delimit_subproblem<A: NdFloat>(
     while n > 0 {
         let m = n - 1;
         unsafe {
-            if off_diag.at(m).is_zero()
-                || off_diag.at(m).abs() <= eps * (diag.at(n).abs() + diag.at(m).abs())
-            {
+            // A NaN counts as decoupled, otherwise the subproblem would never shrink
+            let coupled = !off_diag.at(m).is_zero()
+                && off_diag.at(m).abs() > eps * (diag.at(n).abs() + diag.at(m).abs());
+            if !coupled {
                 *off_diag.atm(m) = A::zero();
             } else if diag.at(m).abs() <= eps {
                 *diag.atm(m) = A::zero();
@@ -266,7 +267,9 @@ fn delimit_subproblem<A: NdFloat>(
         let m = new_start - 1;
 
         unsafe {
-            if off_diag.at(m).abs() <= eps * (diag.at(new_start).abs() + diag.at(m).abs()) {
+            let coupled =
+                off_diag.at(m).abs() > eps * (diag.at(new_start).abs() + diag.at(m).abs());
+            if !coupled {
                 *off_diag.atm(m) = A::zero();
                 break;
             }
-- 
2.43.0


From daebcbe79ce4e91d279a57622b397e182a300238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:21 +0000
Subject: [PATCH 05/21] fix: Cholesky accepts NaN pivots

---
 src/cholesky.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cholesky.rs b/src/cholesky.rs
index f98091b..776a9bb 100644
--- a/src/cholesky.rs
+++ b/src/cholesky.rs
@@ -66,7 +66,8 @@ where
                 d = *self.at((j, j)) - d;
             }
 
-            if d <= A::zero() {
+            // the comparison alone lets NaN slip through
+            if d.is_nan() || d <= A::zero() {
                 return Err(LinalgError::NotPositiveDefinite);
             }
 
-- 
2.43.0


From 26e0ce7036e583c94251db35a85b7d8efde8c038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:58 +0000
Subject: [PATCH 06/21] fix: LOBPCG constraints which are not orthonormal

Projecting onto the complement of Y needs (Y' Y)^-1, but only one of the two
triangular systems of its Cholesky factorization was solved.
---
 src/lobpcg/algorithm.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lobpcg/algorithm.rs b/src/lobpcg/algorithm.rs
index 9bdce9e..32424b4 100644
--- a/src/lobpcg/algorithm.rs
+++ b/src/lobpcg/algorithm.rs
@@ -70,6 +70,10 @@ fn apply_constraints<A: NdFloat>(
     let u = cholesky_yy
         .solve_triangular_into(gram_yv, UPLO::Lower)
         .unwrap();
+    let u = cholesky_yy
+        .t()
+        .solve_triangular_into(u, UPLO::Upper)
+        .unwrap();
 
     // performs `v = -1 y . u + 1 v`, therefore `v -= y.u`
     ndarray::linalg::general_mat_mul(-A::one(), &y, &u, A::one(), &mut v);
-- 
2.43.0


From 7ee0166d7f91aa52dccf93020783f832ab5a1e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:58 +0000
Subject: [PATCH 07/21] fix: spurious eigenpairs of the Rayleigh-Ritz step in
 LOBPCG

Directions in which the Gram matrix is numerically singular were kept with a
clamped norm and reported as eigenvalues close to zero.
---
 src/lobpcg/algorithm.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/lobpcg/algorithm.rs b/src/lobpcg/algorithm.rs
index 32424b4..dd39f4c 100644
--- a/src/lobpcg/algorithm.rs
+++ b/src/lobpcg/algorithm.rs
@@ -15,8 +15,21 @@ use super::{Lobpcg, LobpcgResult};
 /// Solve the generalized eigenvalue problem with pencil (A, B)
 fn generalized_eig<A: NdFloat>(a: Array2<A>, b: Array2<A>) -> Result<(Array1<A>, Array2<A>)> {
     let (vals_b, vecs_b) = b.eigh_into()?;
-    let vals_b_recip = vals_b.mapv_into(|x| (x.max(A::from(1e-10f32).unwrap())).sqrt().recip());
-    let vecs_b_tilde = vecs_b * vals_b_recip;
+
+    // drop directions in which B is numerically singular, they have no meaningful Rayleigh quotient
+    // and would show up as spurious eigenvalues close to zero
+    let cutoff = A::from(1e-10f32).unwrap().max(
+        vals_b.iter().copied().fold(A::zero(), A::max)
+            * A::epsilon()
+            * A::from(vals_b.len()).unwrap(),
+    );
+    let mask = vals_b.iter().map(|x| *x > cutoff).collect::<Vec<_>>();
+    let vals_b_recip = vals_b
+        .iter()
+        .filter(|x| **x > cutoff)
+        .map(|x| x.sqrt().recip())
+        .collect::<Array1<A>>();
+    let vecs_b_tilde = ndarray_mask(vecs_b.view(), &mask) * vals_b_recip;
     let a_tilde = vecs_b_tilde.t().dot(&a.dot(&vecs_b_tilde));
     let (vals_a, vecs_a) = a_tilde.eigh_into()?;
     let vecs = vecs_b_tilde.dot(&vecs_a);
@@ -36,6 +49,11 @@ fn sorted_eig<A: NdFloat>(
         _ => a.eigh_into()?,
     };
 
+    // abort if there are not enough directions left
+    if res.0.len() < size {
+        return Err(LinalgError::NotPositiveDefinite);
+    }
+
     // sort and ensure that signs are deterministic
     let (vals, vecs) = res.sort_eig(order);
     let s = vecs.row(0).mapv(|x| x.signum());
-- 
2.43.0


From ffcf4300dd9a1309a5e0aa85947727d4943590d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:59 +0000
Subject: [PATCH 08/21] fix: LOBPCG panics instead of returning the best result

If an operator or preconditioner yields non-finite values, then the
eigenvalues of the Rayleigh-Ritz step can be NaN and sorting them panics.
---
 src/lobpcg/algorithm.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lobpcg/algorithm.rs b/src/lobpcg/algorithm.rs
index dd39f4c..ac65e6e 100644
--- a/src/lobpcg/algorithm.rs
+++ b/src/lobpcg/algorithm.rs
@@ -49,8 +49,8 @@ fn sorted_eig<A: NdFloat>(
         _ => a.eigh_into()?,
     };
 
-    // abort if there are not enough directions left
-    if res.0.len() < size {
+    // abort if there are not enough directions left, or if the decomposition is not meaningful
+    if res.0.len() < size || res.0.iter().any(|x| x.is_nan()) {
         return Err(LinalgError::NotPositiveDefinite);
     }
 
-- 
2.43.0


From 4670171f9d258f4b1632d5f16164ca90eeb8cfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:59 +0000
Subject: [PATCH 09/21] fix: TruncatedEigIterator does not account for existing
 constraints

After the orthogonal complement was exhausted it repeated eigenpairs or
panicked.
---
 src/lobpcg/eig.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/lobpcg/eig.rs b/src/lobpcg/eig.rs
index 2cc15e6..3c6e2e5 100644
--- a/src/lobpcg/eig.rs
+++ b/src/lobpcg/eig.rs
@@ -179,13 +179,20 @@ impl<A: NdFloat + Sum, R: Rng> IntoIterator for TruncatedEig<A, R> {
     fn into_iter(self) -> TruncatedEigIterator<A, R> {
         TruncatedEigIterator {
             step_size: 1,
-            remaining: self.problem.len_of(Axis(0)),
+            remaining: self.max_pairs(),
             eig: self,
         }
     }
 }
 
 impl<A: NdFloat + Sum, R: Rng> TruncatedEig<A, R> {
+    /// Number of eigenpairs which exist in the orthogonal complement of the constraints
+    fn max_pairs(&self) -> usize {
+        let num_constraints = self.constraints.as_ref().map_or(0, |x| x.ncols());
+
+        self.problem.len_of(Axis(0)).saturating_sub(num_constraints)
+    }
+
     pub fn into_iter_step_size(self, step_size: usize) -> Result<TruncatedEigIterator<A, R>> {
         TruncatedEigIterator::new(self, step_size)
     }
@@ -230,7 +237,7 @@ impl<A: NdFloat + Sum, R: Rng> TruncatedEigIterator<A, R> {
         }
 
         Ok(TruncatedEigIterator {
-            remaining: obj.problem.len_of(Axis(0)),
+            remaining: obj.max_pairs(),
             eig: obj,
             step_size,
         })
-- 
2.43.0


From 383a937f88ac729c8f3733d452ce46016ee749de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:59 +0000
Subject: [PATCH 10/21] fix: NaN singular values of rank-deficient problems in
 TruncatedSvd

---
 src/lobpcg/svd.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lobpcg/svd.rs b/src/lobpcg/svd.rs
index ac941af..d0262f5 100644
--- a/src/lobpcg/svd.rs
+++ b/src/lobpcg/svd.rs
@@ -50,7 +50,11 @@ impl<A: NdFloat + 'static + MagnitudeCorrection> TruncatedSvdResult<A> {
         } else {
             a.sort_by(|(_, x), (_, y)| x.partial_cmp(y).unwrap());
 
-            let (values, indices) = a.into_iter().map(|(a, b)| (b.sqrt(), a)).unzip();
+            // eigenvalues of a positive semi-definite matrix can turn out slightly negative
+            let (values, indices) = a
+                .into_iter()
+                .map(|(a, b)| (b.max(A::zero()).sqrt(), a))
+                .unzip();
 
             (values, indices)
         };
-- 
2.43.0


From 677f294fc7f1b0a2e3f3407bca45b08c9b510fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:59 +0000
Subject: [PATCH 11/21] fix: TruncatedSvd panics when no singular value was
 requested

---
 src/lobpcg/svd.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lobpcg/svd.rs b/src/lobpcg/svd.rs
index d0262f5..f709f6e 100644
--- a/src/lobpcg/svd.rs
+++ b/src/lobpcg/svd.rs
@@ -30,7 +30,10 @@ impl<A: NdFloat + 'static + MagnitudeCorrection> TruncatedSvdResult<A> {
         // numerate eigenvalues
         let mut a = self.eigvals.iter().enumerate().collect::<Vec<_>>();
 
-        let (values, indices) = if self.order == Order::Largest {
+        let (values, indices) = if a.is_empty() {
+            // no singular value was requested
+            (Vec::new(), Vec::new())
+        } else if self.order == Order::Largest {
             // sort by magnitude
             a.sort_by(|(_, x), (_, y)| x.partial_cmp(y).unwrap().reverse());
 
-- 
2.43.0


From 0d5e3675e1763eb7f4af85c589fda92476fd2ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:18 +0000
Subject: [PATCH 12/21] fix: constrained LOBPCG leaves the complement of the
 constraints

The residual was measured including its component along the constraints. That
component never vanishes unless the constraints span an invariant subspace, so
the solver iterated on rounding errors until eigenvalues and eigenvectors no
longer belonged together. Measure the residual in the complement, and
orthogonalize the search directions twice because the normalization amplifies
the rounding errors of a single pass.
---
 src/lobpcg/algorithm.rs | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/src/lobpcg/algorithm.rs b/src/lobpcg/algorithm.rs
index ac65e6e..5d29d20 100644
--- a/src/lobpcg/algorithm.rs
+++ b/src/lobpcg/algorithm.rs
@@ -218,7 +218,10 @@ pub fn lobpcg<A: NdFloat + Sum, F: Fn(ArrayView2<A>) -> Array2<A>, G: Fn(ArrayVi
         let lambda_x = x.dot(&lambda_diag);
 
         // calculate residual AX - lambdaX
-        let r = &ax - &lambda_x;
+        let mut r = &ax - &lambda_x;
+        if let (Some(ref y), Some(ref cholesky_yy)) = (&y, &cholesky_yy) {
+            apply_constraints(r.view_mut(), cholesky_yy, y.view());
+        }
 
         // calculate L2 norm of error for every eigenvalue
         let residual_norms = r
@@ -262,24 +265,23 @@ pub fn lobpcg<A: NdFloat + Sum, F: Fn(ArrayView2<A>) -> Array2<A>, G: Fn(ArrayVi
         let mut active_block_r = ndarray_mask(r.view(), &activemask);
         // apply preconditioner
         m(active_block_r.view_mut());
-        // apply constraints to the preconditioned residuals
-        if let (Some(ref y), Some(ref cholesky_yy)) = (&y, &cholesky_yy) {
-            apply_constraints(active_block_r.view_mut(), cholesky_yy, y.view());
+        // orthogonalize the preconditioned residuals to the constraints and to x, twice because the
+        // normalization amplifies the rounding errors of the first pass if little is left of a column
+        let mut r = active_block_r;
+        let orthonormalized = (0..2).try_for_each(|_| {
+            if let (Some(ref y), Some(ref cholesky_yy)) = (&y, &cholesky_yy) {
+                apply_constraints(r.view_mut(), cholesky_yy, y.view());
+            }
+            // performs `v = -1 x . u + 1 v`, therefore `v -= x.u`
+            let u = x.t().dot(&r);
+            ndarray::linalg::general_mat_mul(-A::one(), &x, &u, A::one(), &mut r);
+
+            r = orthonormalize(r.clone())?.0;
+            Ok(())
+        });
+        if let Err(err) = orthonormalized {
+            break Err(err);
         }
-        // orthogonalize the preconditioned residual to x
-        // performs `v = -1 y . u + 1 v`, therefore `v -= y.u`
-        ndarray::linalg::general_mat_mul(
-            -A::one(),
-            &x,
-            &x.t().dot(&active_block_r),
-            A::one(),
-            &mut active_block_r,
-        );
-
-        let (r, _) = match orthonormalize(active_block_r) {
-            Ok(x) => x,
-            Err(err) => break Err(err),
-        };
 
         let ar = a(r.view());
 
-- 
2.43.0


From 2956d7e761ab8fd604dd01e08901b8e3095de874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:51 +0000
Subject: [PATCH 13/21] fix: spurious eigenpairs of LOBPCG in single precision

The eigenvalues of a singular Gram matrix scatter by more than the bare product
of dimension and machine precision, so directions consisting of rounding errors
passed the cutoff and appeared as eigenpairs far outside of the spectrum.
---
 src/lobpcg/algorithm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lobpcg/algorithm.rs b/src/lobpcg/algorithm.rs
index 5d29d20..7e51e73 100644
--- a/src/lobpcg/algorithm.rs
+++ b/src/lobpcg/algorithm.rs
@@ -21,7 +21,7 @@ fn generalized_eig<A: NdFloat>(a: Array2<A>, b: Array2<A>) -> Result<(Array1<A>,
     let cutoff = A::from(1e-10f32).unwrap().max(
         vals_b.iter().copied().fold(A::zero(), A::max)
             * A::epsilon()
-            * A::from(vals_b.len()).unwrap(),
+            * A::from(10 * vals_b.len()).unwrap(),
     );
     let mask = vals_b.iter().map(|x| *x > cutoff).collect::<Vec<_>>();
     let vals_b_recip = vals_b
-- 
2.43.0


From 172d6191806dbc9e18f446153a760a54e05fdc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:23 +0000
Subject: [PATCH 14/21] fix: Householder reflections of columns of extreme
 magnitude

The squared norm of a column of tiny (or huge) elements underflows (or
overflows), so the reflection was not orthogonal at all. This happens for
ordinary rank-deficient matrices in single precision, whose trailing columns
are rounding noise, and broke the orthogonality of QR, SVD and eigenvectors.
---
 src/householder.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/householder.rs b/src/householder.rs
index f1b51b2..f7faf0d 100644
--- a/src/householder.rs
+++ b/src/householder.rs
@@ -9,7 +9,20 @@ use crate::reflection::Reflection;
 pub fn reflection_axis_mut<A: NdFloat, S: DataMut<Elem = A>>(
     col: &mut ArrayBase<S, Ix1>,
 ) -> Option<A> {
-    let reflection_norm_sq = col.dot(col);
+    let mut reflection_norm_sq = col.dot(col);
+
+    // The squares of elements of extreme magnitude overflow or underflow, rescale those columns
+    let mut scale = A::one();
+    if reflection_norm_sq < A::min_positive_value() / A::epsilon()
+        || reflection_norm_sq > A::max_value() * A::epsilon()
+    {
+        let amax = col.fold(A::zero(), |a, b| a.max(b.abs()));
+        if !amax.is_zero() && amax.is_finite() {
+            scale = amax;
+            *col /= scale;
+            reflection_norm_sq = col.dot(col);
+        }
+    }
     let reflection_norm = reflection_norm_sq.sqrt();
 
     let first = *col.get(0).unwrap();
@@ -21,7 +34,7 @@ pub fn reflection_axis_mut<A: NdFloat, S: DataMut<Elem = A>>(
 
     if !new_norm_sq.is_zero() {
         *col /= new_norm_sq.sqrt();
-        Some(-signed_norm)
+        Some(-signed_norm * scale)
     } else {
         None
     }
-- 
2.43.0


From f9d5e2fd801503b017b3d0283434594c078db0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:23 +0000
Subject: [PATCH 15/21] fix: Givens rotations of subnormal components

The norm of subnormal components is too inaccurate to normalize them, which
yielded rotations that are not orthogonal.
---
 src/givens.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/givens.rs b/src/givens.rs
index 68944a2..d8a3917 100644
--- a/src/givens.rs
+++ b/src/givens.rs
@@ -9,6 +9,20 @@ pub struct GivensRotation<A> {
     s: A,
 }
 
+/// Normalizes the vector `[x, y]`, returning its components and its original norm
+fn normalize<A: NdFloat>(x: A, y: A) -> (A, A, A) {
+    let norm = x.hypot(y);
+    let amax = x.abs().max(y.abs());
+    // The norm of subnormal components is too inaccurate to yield a unit vector
+    if norm < A::min_positive_value() / A::epsilon() && !amax.is_zero() {
+        let (x, y) = (x / amax, y / amax);
+        let norm = x.hypot(y);
+        (x / norm, y / norm, norm * amax)
+    } else {
+        (x / norm, y / norm, norm)
+    }
+}
+
 impl<A: NdFloat> GivensRotation<A> {
     /// Computes rotation `R` such that the `y` component of `R * [x, y].t` is 0
     ///
@@ -17,10 +31,8 @@ impl<A: NdFloat> GivensRotation<A> {
     pub fn cancel_y(x: A, y: A) -> Option<(Self, A)> {
         // Not equivalent to nalgebra impl
         if !y.is_zero() {
-            let r = x.hypot(y);
-            let c = x / r;
-            let s = -y / r;
-            Some((Self { c, s }, r))
+            let (c, s, r) = normalize(x, y);
+            Some((Self { c, s: -s }, r))
         } else {
             None
         }
@@ -45,10 +57,8 @@ impl<A: NdFloat> GivensRotation<A> {
     }
 
     pub fn try_new(c: A, s: A, eps: A) -> Option<(Self, A)> {
-        let norm = c.hypot(s);
+        let (c, s, norm) = normalize(c, s);
         if norm > eps {
-            let c = c / norm;
-            let s = s / norm;
             Some((Self { c, s }, norm))
         } else {
             None
-- 
2.43.0


From e2aefce56024170f75639f180e7df3bcd8a11129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:23 +0000
Subject: [PATCH 16/21] fix: Wilkinson shift divides zero by zero

The square of a tiny off-diagonal element underflows. Together with equal
diagonal elements this led to NaN eigenvalues and eigenvectors.
---
 src/eigh.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eigh.rs b/src/eigh.rs
index 0f01faa..bc9b191 100644
--- a/src/eigh.rs
+++ b/src/eigh.rs
@@ -185,9 +185,9 @@ fn delimit_subproblem<A: NdFloat>(
 ///     tmn  tnn
 pub(crate) fn wilkinson_shift<A: NdFloat>(tmm: A, tnn: A, tmn: A) -> A {
     if !tmn.is_zero() {
-        let tmn_sq = tmn * tmn;
         let d = (tmm - tnn) * A::from(0.5).unwrap();
-        tnn - tmn_sq / (d + d.signum() * (d * d + tmn_sq).sqrt())
+        // Squaring `tmn` can underflow, which would lead to a division of zero by zero
+        tnn - tmn * (tmn / (d + d.signum() * d.hypot(tmn)))
     } else {
         tnn
     }
-- 
2.43.0


From 3e4a527adffd328c30ac7a133105caa4d984e7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:23 +0000
Subject: [PATCH 17/21] fix: symmetric eigensolver never terminates on
 subnormal off-diagonals

An off-diagonal element close to the subnormal range never gets small relative
to a similarly tiny diagonal, so the iteration didn't terminate, e.g. for
constant matrices in single precision.
---
 src/eigh.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/eigh.rs b/src/eigh.rs
index bc9b191..5e79894 100644
--- a/src/eigh.rs
+++ b/src/eigh.rs
@@ -97,7 +97,7 @@ fn symmetric_eig<A: NdFloat, S: DataMut<Elem = A>>(
                 }
             }
 
-            if off_diag[m].abs() <= eps * (diag[m].abs() + diag[n].abs()) {
+            if off_diag[m].abs() <= decoupled_below(diag[m], diag[n], eps) {
                 end -= 1;
             }
         } else if subdim == 2 {
@@ -138,6 +138,16 @@ fn symmetric_eig<A: NdFloat, S: DataMut<Elem = A>>(
     Ok((diag, q_mat))
 }
 
+/// Largest magnitude of an off-diagonal element between two diagonal elements that is negligible
+///
+/// The largest element of the matrix was scaled to one, so elements close to the subnormal range
+/// are negligible as well. They are too inaccurate to ever become small relative to a similarly
+/// tiny diagonal.
+fn decoupled_below<A: NdFloat>(diag_m: A, diag_n: A, eps: A) -> A {
+    let negligible = A::min_positive_value() / A::epsilon();
+    eps * (diag_m.abs() + diag_n.abs()) + negligible
+}
+
 fn delimit_subproblem<A: NdFloat>(
     diag: &Array1<A>,
     off_diag: &mut Array1<A>,
@@ -149,7 +159,7 @@ fn delimit_subproblem<A: NdFloat>(
     while n > 0 {
         let m = n - 1;
         unsafe {
-            if off_diag.at(m).abs() > eps * (diag.at(n).abs() + diag.at(m).abs()) {
+            if off_diag.at(m).abs() > decoupled_below(*diag.at(n), *diag.at(m), eps) {
                 break;
             }
         }
@@ -165,7 +175,7 @@ fn delimit_subproblem<A: NdFloat>(
         let m = new_start - 1;
         unsafe {
             if off_diag.at(m).is_zero()
-                || off_diag.at(m).abs() <= eps * (diag.at(new_start).abs() + diag.at(m).abs())
+                || off_diag.at(m).abs() <= decoupled_below(*diag.at(new_start), *diag.at(m), eps)
             {
                 *off_diag.atm(m) = A::zero();
                 break;
-- 
2.43.0


From 44bb6a1c5c84f49d36c5c192c051896815f5b2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:27 +0000
Subject: [PATCH 18/21] fix: eigenvalues of a 2x2 matrix with a reversed axis
 could not be sorted

The diagonal kept the orientation of the matrix, so sort_eig panicked on the
output of eigvalsh.
---
 src/tridiagonal.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tridiagonal.rs b/src/tridiagonal.rs
index 29148c5..5e964a8 100644
--- a/src/tridiagonal.rs
+++ b/src/tridiagonal.rs
@@ -95,7 +95,8 @@ impl<A: NdFloat, S: DataMut<Elem = A>> TridiagonalDecomp<A, S> {
     /// arrays
     pub fn into_diagonals(self) -> (Array1<A>, Array1<A>) {
         (
-            self.diag_matrix.diag().to_owned(),
+            // `to_owned` would keep the orientation of a matrix with reversed axes
+            self.diag_matrix.diag().iter().copied().collect(),
             self.off_diagonal.mapv_into(A::abs),
         )
     }
-- 
2.43.0


From e3084133322efa254bd1d8c9c179e9b4f1a3a11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:43 +0000
Subject: [PATCH 19/21] fix: SVD zeroes the left-singular vector of a negative
 diagonal element

---
 src/svd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/svd.rs b/src/svd.rs
index cc5f483..6f3eef5 100644
--- a/src/svd.rs
+++ b/src/svd.rs
@@ -215,7 +215,7 @@ fn svd<A: NdFloat, S: DataMut<Elem = A>>(
         if val.is_sign_negative() {
             diag[i] = -val;
             if let Some(u) = &mut u {
-                u.column_mut(i).mul_assign(-A::zero());
+                u.column_mut(i).mul_assign(-A::one());
             }
         }
     }
-- 
2.43.0


From e447fa6b3710d11fca0dc6716faa3005489128e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:51 +0000
Subject: [PATCH 20/21] fix: start block of lobpcg near the span of the
 constraints left the complement

---
 src/lobpcg/algorithm.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lobpcg/algorithm.rs b/src/lobpcg/algorithm.rs
index 7e51e73..9d18f2b 100644
--- a/src/lobpcg/algorithm.rs
+++ b/src/lobpcg/algorithm.rs
@@ -181,7 +181,14 @@ pub fn lobpcg<A: NdFloat + Sum, F: Fn(ArrayView2<A>) -> Array2<A>, G: Fn(ArrayVi
     });
 
     // orthonormalize the initial guess
-    let (x, _) = orthonormalize(x).map_err(|err| (err, None))?;
+    let (mut x, _) = orthonormalize(x).map_err(|err| (err, None))?;
+
+    // the normalization amplifies the rounding errors of the constraints if little was left of the
+    // initial guess, apply them again
+    if let (Some(ref y), Some(ref cholesky_yy)) = (&y, &cholesky_yy) {
+        apply_constraints(x.view_mut(), cholesky_yy, y.view());
+        x = orthonormalize(x).map_err(|err| (err, None))?.0;
+    }
 
     // calculate AX and XAX for Rayleigh quotient
     let ax = a(x.view());
-- 
2.43.0


From 221b5bd94da1bad9d204127542c9285470ce0520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:37 +0000
Subject: [PATCH 21/21] fix: search directions made of rounding errors in
 lobpcg when the complement is exhausted

---
 src/lobpcg/algorithm.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/lobpcg/algorithm.rs b/src/lobpcg/algorithm.rs
index 9d18f2b..4a50a2c 100644
--- a/src/lobpcg/algorithm.rs
+++ b/src/lobpcg/algorithm.rs
@@ -275,7 +275,8 @@ pub fn lobpcg<A: NdFloat + Sum, F: Fn(ArrayView2<A>) -> Array2<A>, G: Fn(ArrayVi
         // orthogonalize the preconditioned residuals to the constraints and to x, twice because the
         // normalization amplifies the rounding errors of the first pass if little is left of a column
         let mut r = active_block_r;
-        let orthonormalized = (0..2).try_for_each(|_| {
+        let orthonormalized = (0..2).try_for_each(|pass| {
+            let norms = r.map_axis(Axis(0), |x| x.norm_l2());
             if let (Some(ref y), Some(ref cholesky_yy)) = (&y, &cholesky_yy) {
                 apply_constraints(r.view_mut(), cholesky_yy, y.view());
             }
@@ -283,7 +284,18 @@ pub fn lobpcg<A: NdFloat + Sum, F: Fn(ArrayView2<A>) -> Array2<A>, G: Fn(ArrayVi
             let u = x.t().dot(&r);
             ndarray::linalg::general_mat_mul(-A::one(), &x, &u, A::one(), &mut r);
 
-            r = orthonormalize(r.clone())?.0;
+            let (q, scales) = orthonormalize(r.clone())?;
+            r = q;
+
+            // a column of the first pass which shrinks in the second one consists of rounding errors
+            // only, there is no such direction left in the complement
+            if pass == 1 {
+                for (i, mut col) in r.columns_mut().into_iter().enumerate() {
+                    if scales[(i, i)] < norms[i] * A::from(0.1).unwrap() {
+                        col.fill(A::zero());
+                    }
+                }
+            }
             Ok(())
         });
         if let Err(err) = orthonormalized {
-- 
2.43.0

