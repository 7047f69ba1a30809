From 35262788ecb7c269c650f53a88558c79aec9dc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:11 +0000
Subject: [PATCH 1/5] fix: EllStable back-substitution and rank-one factor
 update

The centre was computed from the scratch triangle instead of the factor, the
off-diagonal factor update used L*p instead of the running vector, and a zero
sigma turned the factor into NaN, so EllStable discarded feasible points.
---
 src/ell_stable.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/ell_stable.rs b/src/ell_stable.rs
index fcd9cb6..1ad4a82 100644
--- a/src/ell_stable.rs
+++ b/src/ell_stable.rs
@@ -93,7 +93,7 @@ impl EllStable {
         let mut g_t = inv_md_inv_ml_g.clone();
         for i in (1..ndim).rev() {
             for j in i..ndim {
-                g_t[i - 1] -= self.mq.at(j, i - 1) * g_t[j];
+                g_t[i - 1] -= self.mq.at(i - 1, j) * g_t[j];
             }
         }
 
@@ -104,20 +104,22 @@ impl EllStable {
         }
 
         // Rank-one update
-        let mu_val = sigma / (1.0 - sigma);
-        let mut oldt = omega / mu_val;
+        let mut v = grad.clone();
+        let ratio = sigma / (1.0 - sigma) / omega;
+        let mut oldt = 1.0;
         let last_idx = ndim - 1;
         for j in 0..last_idx {
-            let temp = oldt + gg_t[j];
-            let beta2 = inv_md_inv_ml_g[j] / temp;
+            let temp = oldt + ratio * gg_t[j];
+            let beta2 = ratio * inv_md_inv_ml_g[j] / temp;
             self.mq.data_mut()[j * n + j] *= oldt / temp;
             let row_start_j = j * n;
             for l in (j + 1)..ndim {
-                self.mq.data_mut()[row_start_j + l] += beta2 * self.mq.at(l, j);
+                v[l] -= self.mq.at(l, j);
+                self.mq.data_mut()[row_start_j + l] += beta2 * v[l];
             }
             oldt = temp;
         }
-        let temp = oldt + gg_t[last_idx];
+        let temp = oldt + ratio * gg_t[last_idx];
         self.mq.data_mut()[last_idx * n + last_idx] *= oldt / temp;
         self.kappa *= delta;
 
-- 
2.43.0


From c2abbe85b1694107a474f895b63771c3a89c7b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:30 +0000
Subject: [PATCH 2/5] fix: bsearch hands the narrowed interval back to its
 caller

The interval parameter is taken by mutable reference but was never written, so
the bracket (and with it the optimal value) found by the search was lost.
---
 src/cutting_plane.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cutting_plane.rs b/src/cutting_plane.rs
index 6332811..a17e227 100644
--- a/src/cutting_plane.rs
+++ b/src/cutting_plane.rs
@@ -451,6 +451,7 @@ where
     for niter in 0..options.max_iters {
         let tau = (upper - lower) / 2.0;
         if tau < options.tolerance {
+            *intrvl = (lower, upper);
             return (upper != u_orig, niter);
         }
         let mut gamma = lower; // l may be `i32` or `Fraction`
@@ -462,5 +463,6 @@ where
             lower = gamma;
         }
     }
+    *intrvl = (lower, upper);
     (upper != u_orig, options.max_iters)
 }
-- 
2.43.0


From e0e73b902416289404fc4f40e0265656db16b098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:33 +0000
Subject: [PATCH 3/5] fix: conjugate_gradient accepts a starting point that
 already solves the system

The residual of the starting point was never tested, so a zero residual led to
a zero denominator and an error although the system was solved.
---
 src/conjugate_gradient.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/conjugate_gradient.rs b/src/conjugate_gradient.rs
index 4e31a21..773d1f6 100644
--- a/src/conjugate_gradient.rs
+++ b/src/conjugate_gradient.rs
@@ -35,6 +35,10 @@ pub fn conjugate_gradient(
     let mut direction = residual.clone();
     let mut residual_norm_sq = residual.dot(&residual);
 
+    if residual_norm_sq.sqrt() < tol {
+        return Ok(x);
+    }
+
     for _iter in 0..max_iter {
         let a_dir = a.dot_mv(&direction);
         let dir_dot_a_dir = direction.dot(&a_dir);
-- 
2.43.0


From 0ab2d5a8e833afa06e220bbfe3aaf353577ce2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:36 +0000
Subject: [PATCH 4/5] fix: SvmOracle cut offset is the violation 1 - margin

With the margin itself as offset the reported cut excludes separating
hyperplanes whenever the worst margin lies between 1/2 and 1.
---
 src/oracles/svm_oracle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oracles/svm_oracle.rs b/src/oracles/svm_oracle.rs
index 5211a6d..211e166 100644
--- a/src/oracles/svm_oracle.rs
+++ b/src/oracles/svm_oracle.rs
@@ -54,7 +54,7 @@ impl OracleOptim<Arr> for SvmOracle {
         let grad_with_b = Arr::from(grad_vec);
 
         *gamma = min_val;
-        ((grad_with_b, SingleCut(min_val)), true)
+        ((grad_with_b, SingleCut(1.0 - min_val)), true)
     }
 }
 
-- 
2.43.0


From da7c544599aa95bf8f626630c319d79e931bd59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:02 +0000
Subject: [PATCH 5/5] fix: stock lowpass case has a non-empty passband window

The ripple in dB was taken of the deviation itself instead of 1 + deviation, so
the lower passband limit (162) exceeded the upper one (0.006) and no filter
could ever satisfy the specification.
---
 src/oracles/lowpass_oracle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oracles/lowpass_oracle.rs b/src/oracles/lowpass_oracle.rs
index 89a971f..d4e3ab9 100644
--- a/src/oracles/lowpass_oracle.rs
+++ b/src/oracles/lowpass_oracle.rs
@@ -153,7 +153,7 @@ impl OracleOptim<Arr> for LowpassOracle {
 pub fn create_lowpass_case(ndim: usize) -> LowpassOracle {
     let delta0_wpass = 0.025;
     let delta0_wstop = 0.125;
-    let delta1 = 20.0 * (delta0_wpass * PI).log10();
+    let delta1 = 20.0 * (1.0 + delta0_wpass * PI).log10();
     let delta2 = 20.0 * (delta0_wstop * PI).log10();
 
     let low_pass = 10.0f64.powf(-delta1 / 20.0);
-- 
2.43.0

