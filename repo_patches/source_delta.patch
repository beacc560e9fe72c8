From f39ea7aa60c6b5a997f7cab315d7f8673a81e5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:44 +0000
Subject: [PATCH 01/19] fix: Anderson extrapolation must invert the Gram matrix
 of the iterate differences

C was built as U^T U (ws_size x ws_size) while the K x K system needs U U^T.
The code read a wrong K x K corner (no useful extrapolation), and panicked
with an out-of-bounds index whenever the working set had fewer entries than K.
---
 src/solvers/anderson_bcd/mod.rs | 2 +-
 src/solvers/anderson_cd/mod.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solvers/anderson_bcd/mod.rs b/src/solvers/anderson_bcd/mod.rs
index 6b84b73..7989282 100644
--- a/src/solvers/anderson_bcd/mod.rs
+++ b/src/solvers/anderson_bcd/mod.rs
@@ -158,7 +158,7 @@ pub fn anderson_accel<F, DM, T, DF, P>(
         .unwrap();
 
         // Computes the extrapolation matrix à la Anderson
-        let C = U.t().dot(U);
+        let C = U.dot(&U.t());
         let _res = solve_lin_sys(C.view(), Array1::<F>::ones(K).view()); // TODO: change into LAPACK inversion
 
         match _res {
diff --git a/src/solvers/anderson_cd/mod.rs b/src/solvers/anderson_cd/mod.rs
index 6a1b00e..8c31418 100644
--- a/src/solvers/anderson_cd/mod.rs
+++ b/src/solvers/anderson_cd/mod.rs
@@ -147,7 +147,7 @@ pub fn anderson_accel<F, DM, T, DF, P>(
         .unwrap();
 
         // Computes the extrapolation matrix à la Anderson
-        let C = U.t().dot(U);
+        let C = U.dot(&U.t());
         let _res = solve_lin_sys(C.view(), Array1::<F>::ones(K).view());
 
         match _res {
-- 
2.43.0


From 81f664dabc85e829ff6c659614f5af743d09acfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:51 +0000
Subject: [PATCH 02/19] fix: BlockL1PlusL2 violation at zero rows uses the
 gradient norm, not its square

The squared norm under-reports violations below 1 (the multi-task Elastic Net
stopped before its optimality conditions held) and over-reports those above.
---
 src/penalties/block_separable/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/penalties/block_separable/mod.rs b/src/penalties/block_separable/mod.rs
index 5ef9964..dceb13b 100644
--- a/src/penalties/block_separable/mod.rs
+++ b/src/penalties/block_separable/mod.rs
@@ -169,7 +169,7 @@ impl<F: Float> MultiTaskPenalty<F> for BlockL1PlusL2<F> {
                             .sqrt()
                     }
                     false => {
-                        let norm_grad_j = grad_idx.dot(&grad_idx);
+                        let norm_grad_j = grad_idx.dot(&grad_idx).sqrt();
                         F::max(F::zero(), norm_grad_j - self.alpha * self.l21_ratio)
                     }
                 }
-- 
2.43.0


From 6685813d83e27731ea5ee9367fb958f821e7169d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:23 +0000
Subject: [PATCH 03/19] fix: BlockMCP violation accounts for the gradient in
 the concave region

For 0 < ||W_j|| < alpha * gamma the distance ignored the gradient, so
stationary points were never recognised and other points were mis-ranked.
---
 src/penalties/block_separable/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/penalties/block_separable/mod.rs b/src/penalties/block_separable/mod.rs
index dceb13b..9c4f4d0 100644
--- a/src/penalties/block_separable/mod.rs
+++ b/src/penalties/block_separable/mod.rs
@@ -270,7 +270,13 @@ impl<F: Float> MultiTaskPenalty<F> for BlockMCP<F> {
                         if norm_W_j < self.alpha * self.gamma {
                             // distance of -grad_j to alpha * W[j] / ||W_j|| - W[j] / gamma
                             let scale = self.alpha / norm_W_j - F::one() / self.gamma;
-                            W_j.map(|&W_ij| (W_ij * scale).powi(2)).sum().sqrt()
+                            grad_idx
+                                .iter()
+                                .zip(W_j)
+                                .fold(F::zero(), |sum, (&grad_ij, &w_ij)| {
+                                    sum + (grad_ij + w_ij * scale).powi(2)
+                                })
+                                .sqrt()
                         } else {
                             // distance of -grad_j to 0
                             grad_idx.dot(&grad_idx).sqrt()
-- 
2.43.0


From 1d63651b9d84817a65415e89506901e2cf912c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:31 +0000
Subject: [PATCH 04/19] fix: block soft-thresholding and L0.5 prox are NaN at
 the origin with a zero threshold

0 / 0 (resp. 0 * inf) was evaluated when both the input and the threshold were
zero, e.g. multi-task models with alpha = 0 and a zero target.
---
 src/utils/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index ff74f94..1e460ef 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -22,7 +22,7 @@ pub mod prox_funcs {
     /// [`MultiTaskPenalty::L21`].
     pub fn block_soft_thresholding<F: Float>(x: ArrayView1<F>, threshold: F) -> Array1<F> {
         let norm_x = x.map(|&xi| xi.powi(2)).sum().sqrt();
-        if norm_x < threshold {
+        if norm_x <= threshold {
             return Array1::<F>::zeros(x.len());
         }
         let scale = F::one() - threshold / norm_x;
@@ -32,7 +32,7 @@ pub mod prox_funcs {
     /// This function implements the proximal operator of [`Penalty::L05`].
     pub fn prox_05<F: Float>(x: F, threshold: F) -> F {
         let t = F::cast(F::cast(3. / 2.) * threshold.powf(F::cast(2. / 3.)));
-        if x.abs() < t {
+        if x.abs() <= t {
             return F::zero();
         }
         x * F::cast(2. / 3.)
-- 
2.43.0


From c0f27233644c4bccccb0c6e8596d023ccb918374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:16 +0000
Subject: [PATCH 05/19] fix: MCP and BlockMCP prox when the step size reaches
 gamma

For stepsize >= gamma the proximal problem is concave below alpha * gamma and
its minimizer is a hard-thresholding at alpha * sqrt(gamma * stepsize). The
previous formula thresholded at alpha * stepsize, which is not a minimizer and
let coordinate descent increase the objective on columns of small norm.
---
 src/penalties/block_separable/mod.rs | 10 ++++++++++
 src/penalties/separable/mod.rs       | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/penalties/block_separable/mod.rs b/src/penalties/block_separable/mod.rs
index 9c4f4d0..4cca7ca 100644
--- a/src/penalties/block_separable/mod.rs
+++ b/src/penalties/block_separable/mod.rs
@@ -225,11 +225,21 @@ impl<F: Float> MultiTaskPenalty<F> for BlockMCP<F> {
     ///                       x                                     ||x|| > alpha * gamma
     ///                       (1 - alpha * threshold / ||x||) * x   otherwise
     ///                       / (1 - threshold / gamma)
+    ///
+    /// When threshold >= gamma, this is a hard-thresholding at alpha * sqrt(gamma * threshold).
     fn prox(&self, value: ArrayView1<F>, stepsize: F) -> Array1<F> {
         let cast1 = F::cast(1.);
         let tau = self.alpha * stepsize;
         let g = self.gamma / stepsize;
         let norm_value = value.dot(&value).sqrt();
+        // The proximal problem is concave on [0, alpha * gamma] when stepsize >= gamma: its
+        // minimizer is either 0 or the value itself
+        if g <= cast1 {
+            return match norm_value <= self.alpha * (self.gamma * stepsize).sqrt() {
+                true => Array1::<F>::zeros(value.len()),
+                false => value.to_owned(),
+            };
+        }
         if norm_value <= tau {
             Array1::<F>::zeros(value.len())
         } else if norm_value > g * tau {
diff --git a/src/penalties/separable/mod.rs b/src/penalties/separable/mod.rs
index d2b0c3c..4567b23 100644
--- a/src/penalties/separable/mod.rs
+++ b/src/penalties/separable/mod.rs
@@ -192,9 +192,19 @@ impl<F: Float> Penalty<F> for MCP<F> {
     ///                      x                                      if |x| > alpha * gamma
     ///                      sign(x) * (|x| - alpha * threshold)
     ///                      / (1 - threshold / gamma)              otherwise
+    ///
+    /// When threshold >= gamma, this is a hard-thresholding at alpha * sqrt(gamma * threshold).
     fn prox(&self, value: F, stepsize: F) -> F {
         let tau = self.alpha * stepsize;
         let g = self.gamma / stepsize;
+        // The proximal problem is concave on [0, alpha * gamma] when stepsize >= gamma: its
+        // minimizer is either 0 or the value itself
+        if g <= F::one() {
+            return match value.abs() <= self.alpha * (self.gamma * stepsize).sqrt() {
+                true => F::zero(),
+                false => value,
+            };
+        }
         if value.abs() <= tau {
             F::zero()
         } else if value.abs() > g * tau {
-- 
2.43.0


From ac31aef51cc33ef500b1b38157f940532b67fb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:37 +0000
Subject: [PATCH 06/19] fix: solve_lin_sys exchanges rows when the pivot is
 null

Without partial pivoting a nonsingular system with a zero diagonal entry was
either reported singular ([[0,1],[1,0]]) or solved wrongly ([[0,1],[1,1]]).
---
 src/utils/mod.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 1e460ef..16097e6 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -126,7 +126,19 @@ pub mod helpers {
         }
 
         // Echelon form
-        for i in 0..size - 1 {
+        for i in 0..size.saturating_sub(1) {
+            // Partial pivoting: a nonsingular matrix can have a null (or tiny) diagonal entry
+            let mut pivot = i;
+            for row in i + 1..size {
+                if system[[row, i]].abs() > system[[pivot, i]].abs() {
+                    pivot = row;
+                }
+            }
+            if pivot != i {
+                for k in i..size + 1 {
+                    system.swap([i, k], [pivot, k]);
+                }
+            }
             for j in i..size - 1 {
                 if system[[i, i]] == F::zero() {
                     continue;
-- 
2.43.0


From a689e0c901bd5817c99e7b66b02e5574b828fbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:59 +0000
Subject: [PATCH 07/19] fix: logistic datafit value overflows to infinity for
 large margins

log(1 + exp(z)) is infinite as soon as exp(z) overflows (z > 709, or z > 88 in
f32) although the loss is about z; the objective could not be compared anymore.
---
 src/datafits/single_task/mod.rs | 8 +++-----
 src/utils/mod.rs                | 5 +++++
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/datafits/single_task/mod.rs b/src/datafits/single_task/mod.rs
index d319480..d7d3796 100644
--- a/src/datafits/single_task/mod.rs
+++ b/src/datafits/single_task/mod.rs
@@ -1,10 +1,8 @@
-use std::f64::consts::E;
-
 use ndarray::{s, Array1, ArrayBase, ArrayView1, Axis, Data, Ix2};
 
 use super::Float;
 use crate::datasets::{csc_array::CSCArray, AsSingleTargets, DatasetBase, DesignMatrix};
-use crate::utils::helpers::sigmoid;
+use crate::utils::helpers::{log1p_exp, sigmoid};
 
 #[cfg(test)]
 mod tests;
@@ -218,7 +216,7 @@ impl<F: Float, D: Data<Elem = F>, T: AsSingleTargets<Elem = F>> Datafit<F, Array
         let y = dataset.targets().try_single_target().unwrap();
         Xw.iter()
             .zip(y)
-            .map(|(&xw_i, &y_i)| F::log(F::one() + F::exp(-xw_i * y_i), F::cast(E)))
+            .map(|(&xw_i, &y_i)| log1p_exp(-xw_i * y_i))
             .sum::<F>()
             / F::cast(y.len())
     }
@@ -284,7 +282,7 @@ impl<F: Float, T: AsSingleTargets<Elem = F>> Datafit<F, CSCArray<'_, F>, T> for
         let y = dataset.targets().try_single_target().unwrap();
         Xw.iter()
             .zip(y)
-            .map(|(&xw_i, &y_i)| F::log(F::one() + F::exp(-xw_i * y_i), F::cast(E)))
+            .map(|(&xw_i, &y_i)| log1p_exp(-xw_i * y_i))
             .sum::<F>()
             / F::cast(y.len())
     }
diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 16097e6..dbcf64e 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -182,6 +182,11 @@ pub mod helpers {
     pub fn sigmoid<F: Float>(x: F) -> F {
         F::one() / (F::one() + F::exp(-x))
     }
+
+    /// This function computes `log(1 + exp(x))` without overflowing for large `x`.
+    pub fn log1p_exp<F: Float>(x: F) -> F {
+        x.max(F::zero()) + F::exp(-x.abs()).ln_1p()
+    }
 }
 
 /// This module contains helpers functions to efficiently write tests.
-- 
2.43.0


From 206a59105b7e009fa57906a753afb413e303a86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:06 +0000
Subject: [PATCH 08/19] fix: BlockMCParams rejects gamma below 1, like MCParams

---
 src/estimators/hyperparams.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/estimators/hyperparams.rs b/src/estimators/hyperparams.rs
index 17f659d..d6cf52d 100644
--- a/src/estimators/hyperparams.rs
+++ b/src/estimators/hyperparams.rs
@@ -711,6 +711,8 @@ impl<F: Float> ParamGuard for BlockMCParams<F> {
             Err(EstimatorError::InvalidRegularization(
                 self.0.alpha.to_f32().unwrap(),
             ))
+        } else if self.0.gamma < F::one() {
+            Err(EstimatorError::InvalidGamma(self.0.gamma.to_f32().unwrap()))
         } else if self.0.tolerance.is_negative() {
             Err(EstimatorError::InvalidTolerance(
                 self.0.tolerance.to_f32().unwrap(),
-- 
2.43.0


From 366a228d0b45d3472777135cd390084186230ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:36 +0000
Subject: [PATCH 09/19] fix: hyperparameter checks reject NaN

NaN passed every comparison-based check, so fitting either panicked later on or
returned the null model as if it had converged.
---
 src/estimators/hyperparams.rs | 38 ++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/estimators/hyperparams.rs b/src/estimators/hyperparams.rs
index d6cf52d..fb4b2f8 100644
--- a/src/estimators/hyperparams.rs
+++ b/src/estimators/hyperparams.rs
@@ -154,11 +154,11 @@ impl<F: Float> ParamGuard for LassoParams<F> {
 
     /// Validate the hyper parameters
     fn check_ref(&self) -> Result<&Self::Checked> {
-        if self.0.alpha.is_negative() {
+        if self.0.alpha.is_negative() || self.0.alpha.is_nan() {
             Err(EstimatorError::InvalidRegularization(
                 self.0.alpha.to_f32().unwrap(),
             ))
-        } else if self.0.tolerance.is_negative() {
+        } else if self.0.tolerance.is_negative() || self.0.tolerance.is_nan() {
             Err(EstimatorError::InvalidTolerance(
                 self.0.tolerance.to_f32().unwrap(),
             ))
@@ -329,11 +329,11 @@ impl<F: Float> ParamGuard for MultiTaskLassoParams<F> {
 
     /// Validate the hyper parameters
     fn check_ref(&self) -> Result<&Self::Checked> {
-        if self.0.alpha.is_negative() {
+        if self.0.alpha.is_negative() || self.0.alpha.is_nan() {
             Err(EstimatorError::InvalidRegularization(
                 self.0.alpha.to_f32().unwrap(),
             ))
-        } else if self.0.tolerance.is_negative() {
+        } else if self.0.tolerance.is_negative() || self.0.tolerance.is_nan() {
             Err(EstimatorError::InvalidTolerance(
                 self.0.tolerance.to_f32().unwrap(),
             ))
@@ -516,13 +516,13 @@ impl<F: Float> ParamGuard for MCParams<F> {
 
     /// Validate the hyper parameters
     fn check_ref(&self) -> Result<&Self::Checked> {
-        if self.0.alpha.is_negative() {
+        if self.0.alpha.is_negative() || self.0.alpha.is_nan() {
             Err(EstimatorError::InvalidRegularization(
                 self.0.alpha.to_f32().unwrap(),
             ))
-        } else if self.0.gamma < F::one() {
+        } else if self.0.gamma < F::one() || self.0.gamma.is_nan() {
             Err(EstimatorError::InvalidGamma(self.0.gamma.to_f32().unwrap()))
-        } else if self.0.tolerance.is_negative() {
+        } else if self.0.tolerance.is_negative() || self.0.tolerance.is_nan() {
             Err(EstimatorError::InvalidTolerance(
                 self.0.tolerance.to_f32().unwrap(),
             ))
@@ -707,13 +707,13 @@ impl<F: Float> ParamGuard for BlockMCParams<F> {
 
     /// Validate the hyper parameters
     fn check_ref(&self) -> Result<&Self::Checked> {
-        if self.0.alpha.is_negative() {
+        if self.0.alpha.is_negative() || self.0.alpha.is_nan() {
             Err(EstimatorError::InvalidRegularization(
                 self.0.alpha.to_f32().unwrap(),
             ))
-        } else if self.0.gamma < F::one() {
+        } else if self.0.gamma < F::one() || self.0.gamma.is_nan() {
             Err(EstimatorError::InvalidGamma(self.0.gamma.to_f32().unwrap()))
-        } else if self.0.tolerance.is_negative() {
+        } else if self.0.tolerance.is_negative() || self.0.tolerance.is_nan() {
             Err(EstimatorError::InvalidTolerance(
                 self.0.tolerance.to_f32().unwrap(),
             ))
@@ -898,15 +898,18 @@ impl<F: Float> ParamGuard for ElasticNetParams<F> {
 
     /// Validate the hyper parameters
     fn check_ref(&self) -> Result<&Self::Checked> {
-        if self.0.alpha.is_negative() {
+        if self.0.alpha.is_negative() || self.0.alpha.is_nan() {
             Err(EstimatorError::InvalidRegularization(
                 self.0.alpha.to_f32().unwrap(),
             ))
-        } else if self.0.l1_ratio > F::one() || self.0.l1_ratio < F::zero() {
+        } else if self.0.l1_ratio > F::one()
+            || self.0.l1_ratio < F::zero()
+            || self.0.l1_ratio.is_nan()
+        {
             Err(EstimatorError::InvalidL1Ratio(
                 self.0.l1_ratio.to_f32().unwrap(),
             ))
-        } else if self.0.tolerance.is_negative() {
+        } else if self.0.tolerance.is_negative() || self.0.tolerance.is_nan() {
             Err(EstimatorError::InvalidTolerance(
                 self.0.tolerance.to_f32().unwrap(),
             ))
@@ -1091,15 +1094,18 @@ impl<F: Float> ParamGuard for MultiTaskElasticNetParams<F> {
 
     /// Validate the hyper parameters
     fn check_ref(&self) -> Result<&Self::Checked> {
-        if self.0.alpha.is_negative() {
+        if self.0.alpha.is_negative() || self.0.alpha.is_nan() {
             Err(EstimatorError::InvalidRegularization(
                 self.0.alpha.to_f32().unwrap(),
             ))
-        } else if self.0.l1_ratio > F::one() || self.0.l1_ratio < F::zero() {
+        } else if self.0.l1_ratio > F::one()
+            || self.0.l1_ratio < F::zero()
+            || self.0.l1_ratio.is_nan()
+        {
             Err(EstimatorError::InvalidL1Ratio(
                 self.0.l1_ratio.to_f32().unwrap(),
             ))
-        } else if self.0.tolerance.is_negative() {
+        } else if self.0.tolerance.is_negative() || self.0.tolerance.is_nan() {
             Err(EstimatorError::InvalidTolerance(
                 self.0.tolerance.to_f32().unwrap(),
             ))
-- 
2.43.0


From 15978afa37ccadf6f70053219ad55fad07968253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:56 +0000
Subject: [PATCH 10/19] fix: L0.5 problems are solved using the fixed point
 violation

The L0.5 penalty reports a null distance to the subdifferential, so the solver
stopped at once and always returned zero coefficients. As its documentation
says, the violation of the fixed point schema must be used instead: penalties
may now override the violation, and L05 does.
---
 src/penalties/separable/mod.rs | 36 ++++++++++++++++++++++++++++++++++
 src/solvers/anderson_cd/mod.rs |  2 +-
 2 files changed, 37 insertions(+), 1 deletion(-)

diff --git a/src/penalties/separable/mod.rs b/src/penalties/separable/mod.rs
index 4567b23..638d20f 100644
--- a/src/penalties/separable/mod.rs
+++ b/src/penalties/separable/mod.rs
@@ -31,6 +31,19 @@ pub trait Penalty<F: Float> {
         grad: ArrayView1<F>,
         ws: ArrayView1<usize>,
     ) -> (Array1<F>, F);
+
+    /// This method computes the violation of the optimality conditions used by the
+    /// solver to build the working sets and to stop. It is the distance to the
+    /// subdifferential, unless the latter is uninformative for the penalty.
+    fn opt_violation(
+        &self,
+        w: ArrayView1<F>,
+        grad: ArrayView1<F>,
+        _lipschitz: ArrayView1<F>,
+        ws: ArrayView1<usize>,
+    ) -> (Array1<F>, F) {
+        self.subdiff_distance(w, grad, ws)
+    }
 }
 
 /// The L1 penalty
@@ -286,6 +299,29 @@ impl<F: Float> Penalty<F> for L05<F> {
     ) -> (Array1<F>, F) {
         (Array1::<F>::zeros(ws.len()), F::zero())
     }
+
+    /// Computes the violation of the fixed point iterate schema
+    ///
+    /// violation = |w[j] - prox(w[j] - grad / lipschitz[j], 1 / lipschitz[j])|
+    fn opt_violation(
+        &self,
+        w: ArrayView1<F>,
+        grad: ArrayView1<F>,
+        lipschitz: ArrayView1<F>,
+        ws: ArrayView1<usize>,
+    ) -> (Array1<F>, F) {
+        let violation = Array1::from_iter(grad.iter().zip(ws).map(|(&grad_idx, &j)| {
+            match lipschitz[j] == F::zero() {
+                true => F::zero(),
+                false => {
+                    let step = F::one() / lipschitz[j];
+                    (w[j] - self.prox(w[j] - grad_idx * step, step)).abs()
+                }
+            }
+        }));
+        let max_violation = violation.fold(F::zero(), |max_val, &v| F::max(max_val, v));
+        (violation, max_violation)
+    }
 }
 
 // SCAD penalty
diff --git a/src/solvers/anderson_cd/mod.rs b/src/solvers/anderson_cd/mod.rs
index 8c31418..31ac66a 100644
--- a/src/solvers/anderson_cd/mod.rs
+++ b/src/solvers/anderson_cd/mod.rs
@@ -51,7 +51,7 @@ where
     P: Penalty<F>,
 {
     let grad_ws = construct_grad(dataset, Xw, ws, datafit);
-    let (kkt_ws, kkt_ws_max) = penalty.subdiff_distance(w, grad_ws.view(), ws);
+    let (kkt_ws, kkt_ws_max) = penalty.opt_violation(w, grad_ws.view(), datafit.step_size(), ws);
     (kkt_ws, kkt_ws_max)
 }
 
-- 
2.43.0


From 2940354d773269b139b40cfa15adc85a55f426d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:42 +0000
Subject: [PATCH 11/19] fix: Python constructors validate gamma and l1_ratio
 instead of alpha

MCPRegressor/BlockMCPRegressor rejected every alpha below 1 and accepted any
gamma; ElasticNet/MultiTaskElasticNet rejected every alpha above 1 and accepted
any l1_ratio.
---
 python/sparseglm/estimators.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/sparseglm/estimators.py b/python/sparseglm/estimators.py
index ade3d82..0a5438f 100644
--- a/python/sparseglm/estimators.py
+++ b/python/sparseglm/estimators.py
@@ -269,7 +269,7 @@ class MCPRegressor(Estimator):
             use_accel=use_accel, verbose=verbose)
         if not isinstance(alpha, float) or alpha < 0:
             raise ValueError("alpha={} must be a positive float".format(alpha))
-        elif not isinstance(gamma, float) or alpha < 1:
+        elif not isinstance(gamma, float) or not gamma >= 1:
             raise ValueError("gamma={} must be a float greater than \
                               1".format(gamma))
         else:
@@ -358,7 +358,7 @@ class BlockMCPRegressor(Estimator):
             use_accel=use_accel, max_epochs=max_epochs)
         if not isinstance(alpha, float) or alpha < 0:
             raise ValueError("alpha={} must be a positive float".format(alpha))
-        elif not isinstance(gamma, float) or alpha < 1:
+        elif not isinstance(gamma, float) or not gamma >= 1:
             raise ValueError("gamma={} must be a float greater than \
                               1".format(gamma))
         else:
@@ -459,7 +459,7 @@ class ElasticNet(Estimator):
         else:
             self.alpha = alpha
 
-        if not isinstance(l1_ratio, float) or alpha < 0 or alpha > 1:
+        if not isinstance(l1_ratio, float) or not 0 <= l1_ratio <= 1:
             raise ValueError("l1_ratio={} must be between 0 and 1"
                              .format(l1_ratio))
         else:
@@ -547,7 +547,7 @@ class MultiTaskElasticNet(Estimator):
             raise ValueError("alpha={} must be a positive float".format(alpha))
         else:
             self.alpha = alpha
-        if not isinstance(l1_ratio, float) or alpha < 0 or alpha > 1:
+        if not isinstance(l1_ratio, float) or not 0 <= l1_ratio <= 1:
             raise ValueError("l1_ratio={} must be between 0 and 1"
                              .format(l1_ratio))
         else:
-- 
2.43.0


From 1c34fda089e89229708e3ee1c9d9e351c3d1fb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:42 +0000
Subject: [PATCH 12/19] fix: Python predict works on fitted estimators

The truth value of a coefficient array is ambiguous, so predict raised on every
fitted model with more than one coefficient, and on null one-feature models.
---
 python/sparseglm/estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/sparseglm/estimators.py b/python/sparseglm/estimators.py
index 0a5438f..8371122 100644
--- a/python/sparseglm/estimators.py
+++ b/python/sparseglm/estimators.py
@@ -44,7 +44,7 @@ class Estimator(BaseEstimator):
 
     def predict(self, X):
         """Predicts the test set."""
-        if not self.coef_:
+        if self.coef_ is None:
             raise Exception("Estimator must be fitted before inference.")
         return X @ self.coef_.T
 
-- 
2.43.0


From 2d5aa7718499abca4b494e9b29d7b7d0650ea789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:42 +0000
Subject: [PATCH 13/19] fix: Python estimators reject K=0, p0=0 and NaN
 hyperparameters

They reached the Rust checks, whose failure aborts with a PanicException; the
error message also named the value of alpha instead of the offending one.
---
 python/sparseglm/estimators.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/python/sparseglm/estimators.py b/python/sparseglm/estimators.py
index 8371122..d321aa6 100644
--- a/python/sparseglm/estimators.py
+++ b/python/sparseglm/estimators.py
@@ -32,12 +32,12 @@ class Estimator(BaseEstimator):
         self.coef_ = None
 
     def _validate_params(self):
-        def _check_types(var, type, var_name):
-            if not isinstance(var, type) or var < 0:
-                raise ValueError("{}={} must be a positive {}."
-                                 .format(var_name, self.alpha, type))
-        _check_types(self.K, int, "K")
-        _check_types(self.p0, int, "p0")
+        def _check_types(var, type, var_name, minimum=0):
+            if not isinstance(var, type) or not var >= minimum:
+                raise ValueError("{}={} must be a {} greater or equal to {}."
+                                 .format(var_name, var, type, minimum))
+        _check_types(self.K, int, "K", minimum=1)
+        _check_types(self.p0, int, "p0", minimum=1)
         _check_types(self.tol, float, "tol")
         _check_types(self.max_iter, int, "max_iter")
         _check_types(self.max_epochs, int, "max_epochs")
@@ -92,7 +92,7 @@ class Lasso(Estimator):
         super(Lasso, self).__init__(
             max_iter=max_iter, tol=tol, p0=p0, max_epochs=max_epochs, K=K,
             use_accel=use_accel, verbose=verbose)
-        if not isinstance(alpha, float) or alpha < 0:
+        if not isinstance(alpha, float) or not alpha >= 0:
             raise ValueError("alpha={} must be a positive float".format(alpha))
         else:
             self.alpha = alpha
@@ -172,7 +172,7 @@ class MultiTaskLasso(Estimator):
         super(MultiTaskLasso, self).__init__(
             max_iter=max_iter, tol=tol, p0=p0, K=K, verbose=verbose,
             use_accel=use_accel, max_epochs=max_epochs)
-        if not isinstance(alpha, float) or alpha < 0:
+        if not isinstance(alpha, float) or not alpha >= 0:
             raise ValueError("alpha={} must be a positive float".format(alpha))
         else:
             self.alpha = alpha
@@ -267,7 +267,7 @@ class MCPRegressor(Estimator):
         super(MCPRegressor, self).__init__(
             max_iter=max_iter, K=K, tol=tol, p0=p0, max_epochs=max_epochs,
             use_accel=use_accel, verbose=verbose)
-        if not isinstance(alpha, float) or alpha < 0:
+        if not isinstance(alpha, float) or not alpha >= 0:
             raise ValueError("alpha={} must be a positive float".format(alpha))
         elif not isinstance(gamma, float) or not gamma >= 1:
             raise ValueError("gamma={} must be a float greater than \
@@ -356,7 +356,7 @@ class BlockMCPRegressor(Estimator):
         super(BlockMCPRegressor, self).__init__(
             max_iter=max_iter, tol=tol, p0=p0, K=K, verbose=verbose,
             use_accel=use_accel, max_epochs=max_epochs)
-        if not isinstance(alpha, float) or alpha < 0:
+        if not isinstance(alpha, float) or not alpha >= 0:
             raise ValueError("alpha={} must be a positive float".format(alpha))
         elif not isinstance(gamma, float) or not gamma >= 1:
             raise ValueError("gamma={} must be a float greater than \
@@ -454,7 +454,7 @@ class ElasticNet(Estimator):
         super(ElasticNet, self).__init__(
             max_iter=max_iter, tol=tol, p0=p0, max_epochs=max_epochs, K=K,
             use_accel=use_accel, verbose=verbose)
-        if not isinstance(alpha, float) or alpha < 0:
+        if not isinstance(alpha, float) or not alpha >= 0:
             raise ValueError("alpha={} must be a positive float".format(alpha))
         else:
             self.alpha = alpha
@@ -543,7 +543,7 @@ class MultiTaskElasticNet(Estimator):
         super(MultiTaskElasticNet, self).__init__(
             max_iter=max_iter, max_epochs=max_epochs, tol=tol, p0=p0,
             use_accel=use_accel, K=K, verbose=verbose)
-        if not isinstance(alpha, float) or alpha < 0:
+        if not isinstance(alpha, float) or not alpha >= 0:
             raise ValueError("alpha={} must be a positive float".format(alpha))
         else:
             self.alpha = alpha
-- 
2.43.0


From 5b79d8a805e70cde5dbd86583bdf66bdaa3fe00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:49 +0000
Subject: [PATCH 14/19] fix: invalid hyperparameters raise ValueError instead
 of a Rust panic in Python

Values assigned after construction (set_params) are only checked by the Rust
core; unwrapping its error raised PanicException, which is not an Exception.
---
 python/src/block_mcp.rs              | 11 +++++++++--
 python/src/elastic_net.rs            | 11 +++++++++--
 python/src/lasso.rs                  | 11 +++++++++--
 python/src/mcp.rs                    | 11 +++++++++--
 python/src/mtl_lasso.rs              | 11 +++++++++--
 python/src/multi_task_elastic_net.rs | 11 +++++++++--
 6 files changed, 54 insertions(+), 12 deletions(-)

diff --git a/python/src/block_mcp.rs b/python/src/block_mcp.rs
index 511868e..fb1acc4 100644
--- a/python/src/block_mcp.rs
+++ b/python/src/block_mcp.rs
@@ -1,4 +1,5 @@
 use numpy::{PyArray, PyArray1, PyArray2};
+use pyo3::exceptions::PyValueError;
 use pyo3::prelude::*;
 use sparseglm::{
     datasets::{csc_array::CSCArray, DenseDatasetView, SparseDataset},
@@ -45,7 +46,10 @@ impl BlockMCPWrapper {
         y: &PyArray2<f64>,
     ) -> PyResult<&'py PyArray2<f64>> {
         let dataset = DenseDatasetView::from((x.as_array(), y.as_array()));
-        let _estimator = self.inner.fit(&dataset).unwrap();
+        let _estimator = self
+            .inner
+            .fit(&dataset)
+            .map_err(|e| PyValueError::new_err(e.to_string()))?;
         Ok(PyArray::from_array(py, &_estimator.coefficients()))
     }
 
@@ -59,7 +63,10 @@ impl BlockMCPWrapper {
     ) -> PyResult<&'py PyArray2<f64>> {
         let x = CSCArray::new(data.as_array(), indices.as_array(), indptr.as_array());
         let dataset = SparseDataset::from((x, y.as_array()));
-        let _estimator = self.inner.fit(&dataset).unwrap();
+        let _estimator = self
+            .inner
+            .fit(&dataset)
+            .map_err(|e| PyValueError::new_err(e.to_string()))?;
         Ok(PyArray::from_array(py, &_estimator.coefficients()))
     }
 }
diff --git a/python/src/elastic_net.rs b/python/src/elastic_net.rs
index be404f9..f21e0e7 100644
--- a/python/src/elastic_net.rs
+++ b/python/src/elastic_net.rs
@@ -1,4 +1,5 @@
 use numpy::{PyArray, PyArray1, PyArray2};
+use pyo3::exceptions::PyValueError;
 use pyo3::prelude::*;
 use sparseglm::{
     datasets::{csc_array::CSCArray, DenseDatasetView, SparseDataset},
@@ -45,7 +46,10 @@ impl ElasticNetWrapper {
         y: &PyArray1<f64>,
     ) -> PyResult<&'py PyArray1<f64>> {
         let dataset = DenseDatasetView::from((x.as_array(), y.as_array()));
-        let _estimator = self.inner.fit(&dataset).unwrap();
+        let _estimator = self
+            .inner
+            .fit(&dataset)
+            .map_err(|e| PyValueError::new_err(e.to_string()))?;
         Ok(PyArray::from_array(py, &_estimator.coefficients()))
     }
 
@@ -59,7 +63,10 @@ impl ElasticNetWrapper {
     ) -> PyResult<&'py PyArray1<f64>> {
         let x = CSCArray::new(data.as_array(), indices.as_array(), indptr.as_array());
         let dataset = SparseDataset::from((x, y.as_array()));
-        let _estimator = self.inner.fit(&dataset).unwrap();
+        let _estimator = self
+            .inner
+            .fit(&dataset)
+            .map_err(|e| PyValueError::new_err(e.to_string()))?;
         Ok(PyArray::from_array(py, &_estimator.coefficients()))
     }
 }
diff --git a/python/src/lasso.rs b/python/src/lasso.rs
index c022cbe..41b44d1 100644
--- a/python/src/lasso.rs
+++ b/python/src/lasso.rs
@@ -1,4 +1,5 @@
 use numpy::{PyArray, PyArray1, PyArray2};
+use pyo3::exceptions::PyValueError;
 use pyo3::prelude::*;
 use sparseglm::{
     datasets::{csc_array::CSCArray, DenseDatasetView, SparseDataset},
@@ -43,7 +44,10 @@ impl LassoWrapper {
         y: &PyArray1<f64>,
     ) -> PyResult<&'py PyArray1<f64>> {
         let dataset = DenseDatasetView::from((x.as_array(), y.as_array()));
-        let _estimator = self.inner.fit(&dataset).unwrap();
+        let _estimator = self
+            .inner
+            .fit(&dataset)
+            .map_err(|e| PyValueError::new_err(e.to_string()))?;
         Ok(PyArray::from_array(py, &_estimator.coefficients()))
     }
 
@@ -57,7 +61,10 @@ impl LassoWrapper {
     ) -> PyResult<&'py PyArray1<f64>> {
         let x = CSCArray::new(data.as_array(), indices.as_array(), indptr.as_array());
         let dataset = SparseDataset::from((x, y.as_array()));
-        let _estimator = self.inner.fit(&dataset).unwrap();
+        let _estimator = self
+            .inner
+            .fit(&dataset)
+            .map_err(|e| PyValueError::new_err(e.to_string()))?;
         Ok(PyArray::from_array(py, &_estimator.coefficients()))
     }
 }
diff --git a/python/src/mcp.rs b/python/src/mcp.rs
index 23a1bc6..960cfbc 100644
--- a/python/src/mcp.rs
+++ b/python/src/mcp.rs
@@ -1,4 +1,5 @@
 use numpy::{PyArray, PyArray1, PyArray2};
+use pyo3::exceptions::PyValueError;
 use pyo3::prelude::*;
 use sparseglm::{
     datasets::{csc_array::CSCArray, DenseDatasetView, SparseDataset},
@@ -45,7 +46,10 @@ impl MCPWrapper {
         y: &PyArray1<f64>,
     ) -> PyResult<&'py PyArray1<f64>> {
         let dataset = DenseDatasetView::from((x.as_array(), y.as_array()));
-        let _estimator = self.inner.fit(&dataset).unwrap();
+        let _estimator = self
+            .inner
+            .fit(&dataset)
+            .map_err(|e| PyValueError::new_err(e.to_string()))?;
         Ok(PyArray::from_array(py, &_estimator.coefficients()))
     }
 
@@ -59,7 +63,10 @@ impl MCPWrapper {
     ) -> PyResult<&'py PyArray1<f64>> {
         let x = CSCArray::new(data.as_array(), indices.as_array(), indptr.as_array());
         let dataset = SparseDataset::from((x, y.as_array()));
-        let _estimator = self.inner.fit(&dataset).unwrap();
+        let _estimator = self
+            .inner
+            .fit(&dataset)
+            .map_err(|e| PyValueError::new_err(e.to_string()))?;
         Ok(PyArray::from_array(py, &_estimator.coefficients()))
     }
 }
diff --git a/python/src/mtl_lasso.rs b/python/src/mtl_lasso.rs
index 3aa75bf..1d4ce82 100644
--- a/python/src/mtl_lasso.rs
+++ b/python/src/mtl_lasso.rs
@@ -1,4 +1,5 @@
 use numpy::{PyArray, PyArray1, PyArray2};
+use pyo3::exceptions::PyValueError;
 use pyo3::prelude::*;
 use sparseglm::{
     datasets::{csc_array::CSCArray, DenseDatasetView, SparseDataset},
@@ -43,7 +44,10 @@ impl MultiTaskLassoWrapper {
         y: &PyArray2<f64>,
     ) -> PyResult<&'py PyArray2<f64>> {
         let dataset = DenseDatasetView::from((x.as_array(), y.as_array()));
-        let _estimator = self.inner.fit(&dataset).unwrap();
+        let _estimator = self
+            .inner
+            .fit(&dataset)
+            .map_err(|e| PyValueError::new_err(e.to_string()))?;
         Ok(PyArray::from_array(py, &_estimator.coefficients()))
     }
 
@@ -57,7 +61,10 @@ impl MultiTaskLassoWrapper {
     ) -> PyResult<&'py PyArray2<f64>> {
         let x = CSCArray::new(data.as_array(), indices.as_array(), indptr.as_array());
         let dataset = SparseDataset::from((x, y.as_array()));
-        let _estimator = self.inner.fit(&dataset).unwrap();
+        let _estimator = self
+            .inner
+            .fit(&dataset)
+            .map_err(|e| PyValueError::new_err(e.to_string()))?;
         Ok(PyArray::from_array(py, &_estimator.coefficients()))
     }
 }
diff --git a/python/src/multi_task_elastic_net.rs b/python/src/multi_task_elastic_net.rs
index ef91cac..76824a5 100644
--- a/python/src/multi_task_elastic_net.rs
+++ b/python/src/multi_task_elastic_net.rs
@@ -1,4 +1,5 @@
 use numpy::{PyArray, PyArray1, PyArray2};
+use pyo3::exceptions::PyValueError;
 use pyo3::prelude::*;
 use sparseglm::{
     datasets::{csc_array::CSCArray, DenseDatasetView, SparseDataset},
@@ -45,7 +46,10 @@ impl MultiTaskElasticNetWrapper {
         y: &PyArray2<f64>,
     ) -> PyResult<&'py PyArray2<f64>> {
         let dataset = DenseDatasetView::from((x.as_array(), y.as_array()));
-        let _estimator = self.inner.fit(&dataset).unwrap();
+        let _estimator = self
+            .inner
+            .fit(&dataset)
+            .map_err(|e| PyValueError::new_err(e.to_string()))?;
         Ok(PyArray::from_array(py, &_estimator.coefficients()))
     }
 
@@ -59,7 +63,10 @@ impl MultiTaskElasticNetWrapper {
     ) -> PyResult<&'py PyArray2<f64>> {
         let x = CSCArray::new(data.as_array(), indices.as_array(), indptr.as_array());
         let dataset = SparseDataset::from((x, y.as_array()));
-        let _estimator = self.inner.fit(&dataset).unwrap();
+        let _estimator = self
+            .inner
+            .fit(&dataset)
+            .map_err(|e| PyValueError::new_err(e.to_string()))?;
         Ok(PyArray::from_array(py, &_estimator.coefficients()))
     }
 }
-- 
2.43.0


From 126957fedb53cdda1ac512d086be8a876215dae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:49 +0000
Subject: [PATCH 15/19] fix: Python estimators accept float32 design matrices

float32 arrays passed validation unconverted although the extension only takes
float64, so fitting raised a TypeError.
---
 python/sparseglm/estimators.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/python/sparseglm/estimators.py b/python/sparseglm/estimators.py
index d321aa6..f44c3ea 100644
--- a/python/sparseglm/estimators.py
+++ b/python/sparseglm/estimators.py
@@ -109,7 +109,7 @@ class Lasso(Estimator):
             Measurements.
         """
         self._validate_params()
-        X = check_array(X, 'csc', dtype=[np.float64, np.float32], order='F',
+        X = check_array(X, 'csc', dtype=np.float64, order='F',
                         copy=False, accept_large_sparse=False)
         y = check_array(y, 'csc', dtype=X.dtype.type, order='F', copy=False,
                         ensure_2d=False)
@@ -189,7 +189,7 @@ class MultiTaskLasso(Estimator):
             Measurements.
         """
         self._validate_params()
-        check_X_params = dict(dtype=[np.float64, np.float32], order='F',
+        check_X_params = dict(dtype=np.float64, order='F',
                               accept_sparse='csc')
         check_Y_params = dict(ensure_2d=False, order='F')
         X, Y = self._validate_data(X, Y, validate_separately=(check_X_params,
@@ -288,7 +288,7 @@ class MCPRegressor(Estimator):
             Measurements.
         """
         self._validate_params()
-        X = check_array(X, 'csc', dtype=[np.float64, np.float32], order='F',
+        X = check_array(X, 'csc', dtype=np.float64, order='F',
                         copy=False, accept_large_sparse=False)
         y = check_array(y, 'csc', dtype=X.dtype.type, order='F', copy=False,
                         ensure_2d=False)
@@ -377,7 +377,7 @@ class BlockMCPRegressor(Estimator):
             Measurements.
         """
         self._validate_params()
-        check_X_params = dict(dtype=[np.float64, np.float32], order='F',
+        check_X_params = dict(dtype=np.float64, order='F',
                               accept_sparse='csc')
         check_Y_params = dict(ensure_2d=False, order='F')
         X, Y = self._validate_data(X, Y, validate_separately=(check_X_params,
@@ -477,7 +477,7 @@ class ElasticNet(Estimator):
             Measurements.
         """
         self._validate_params()
-        X = check_array(X, 'csc', dtype=[np.float64, np.float32], order='F',
+        X = check_array(X, 'csc', dtype=np.float64, order='F',
                         copy=False, accept_large_sparse=False)
         y = check_array(y, 'csc', dtype=X.dtype.type, order='F', copy=False,
                         ensure_2d=False)
@@ -566,7 +566,7 @@ class MultiTaskElasticNet(Estimator):
             Measurements.
         """
         self._validate_params()
-        check_X_params = dict(dtype=[np.float64, np.float32], order='F',
+        check_X_params = dict(dtype=np.float64, order='F',
                               accept_sparse='csc')
         check_Y_params = dict(ensure_2d=False, order='F')
         X, Y = self._validate_data(X, Y, validate_separately=(check_X_params,
-- 
2.43.0


From 85974ef7fa90fc5c11f5f660573d682bee9f0064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:49 +0000
Subject: [PATCH 16/19] fix: single-task Python estimators reject X and y of
 different lengths

Dense data made the extension panic and sparse data were fitted silently on
the wrong samples.
---
 python/sparseglm/estimators.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/sparseglm/estimators.py b/python/sparseglm/estimators.py
index f44c3ea..9c81337 100644
--- a/python/sparseglm/estimators.py
+++ b/python/sparseglm/estimators.py
@@ -4,7 +4,7 @@ import scipy.sparse as sp
 from . import _lib
 
 from sklearn.base import BaseEstimator
-from sklearn.utils import check_array
+from sklearn.utils import check_array, check_consistent_length
 
 
 __all__ = [
@@ -113,6 +113,7 @@ class Lasso(Estimator):
                         copy=False, accept_large_sparse=False)
         y = check_array(y, 'csc', dtype=X.dtype.type, order='F', copy=False,
                         ensure_2d=False)
+        check_consistent_length(X, y)
 
         self._inner = _lib.LassoWrapper(
             alpha=self.alpha, max_iterations=self.max_iter, ws_start_size=self.p0,
@@ -292,6 +293,7 @@ class MCPRegressor(Estimator):
                         copy=False, accept_large_sparse=False)
         y = check_array(y, 'csc', dtype=X.dtype.type, order='F', copy=False,
                         ensure_2d=False)
+        check_consistent_length(X, y)
 
         self._inner = _lib.MCPWrapper(
             alpha=self.alpha, gamma=self.gamma, max_iterations=self.max_iter,
@@ -481,6 +483,7 @@ class ElasticNet(Estimator):
                         copy=False, accept_large_sparse=False)
         y = check_array(y, 'csc', dtype=X.dtype.type, order='F', copy=False,
                         ensure_2d=False)
+        check_consistent_length(X, y)
 
         self._inner = _lib.ElasticNetWrapper(
             alpha=self.alpha, l1_ratio=self.l1_ratio,
-- 
2.43.0


From b9a9b4574ca6a2cf8ce90a959524dbce380ce57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:49 +0000
Subject: [PATCH 17/19] fix: make_correlated_data accepts the documented 1-d
 w_true

The (n_samples, 1) noise could not be added to the 1-d product X @ w_true.
---
 python/sparseglm/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/sparseglm/utils.py b/python/sparseglm/utils.py
index 851edaf..e8d6ecf 100644
--- a/python/sparseglm/utils.py
+++ b/python/sparseglm/utils.py
@@ -95,6 +95,8 @@ def make_correlated_data(
         w_true = np.zeros((n_features, n_tasks))
         support = rng.choice(n_features, nnz, replace=False)
         w_true[support, :] = rng.randn(nnz, n_tasks)
+    elif w_true.ndim == 1:
+        w_true = w_true[:, np.newaxis]
 
     Y = X @ w_true
     if snr != np.inf:
-- 
2.43.0


From bf85175bf5daae5ed68c9e9ba5e86a21244045d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:47:31 +0000
Subject: [PATCH 18/19] fix: report target matrices without columns as non
 castable instead of panicking

---
 src/datasets/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/datasets/mod.rs b/src/datasets/mod.rs
index d87c7b9..64f4c14 100644
--- a/src/datasets/mod.rs
+++ b/src/datasets/mod.rs
@@ -110,12 +110,12 @@ pub trait AsMultiTargets: Sized {
 /// like [`Lasso`] or [`MCPEstimator`].
 pub trait AsSingleTargets: AsMultiTargets {
     /// This method tries to cast an array into a 1-dimensional array (a target vector).
-    /// Matrices with more than 1 columns can't be casted to vectors. A
+    /// Matrices that don't have exactly 1 column can't be casted to vectors. A
     /// [`Error::NonCastableSingleTargets`] is thrown.
     fn try_single_target(&self) -> Result<ArrayView1<Self::Elem>, Error> {
         let multi_targets = self.as_multi_tasks();
 
-        if multi_targets.len_of(Axis(1)) > 1 {
+        if multi_targets.len_of(Axis(1)) != 1 {
             return Err(Error::NonCastableSingleTargets);
         }
 
-- 
2.43.0


From 765cbd0cd19a724042c8d4fd8358ebe753f299d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:10:54 +0000
Subject: [PATCH 19/19] fix: column norms of CSC matrices with repeated entries

A CSC matrix may store several entries for the same row of a column, which are
summed. The gradients and model fits summed them, the Lipschitz constants added
their squares: the steps were too long and the fit diverged (NaN coefficients)
or stopped away from the optimum.
---
 src/datafits/multi_task/mod.rs  |  5 +----
 src/datafits/single_task/mod.rs | 15 ++-------------
 src/datasets/csc_array.rs       | 24 +++++++++++++++++++++++-
 3 files changed, 26 insertions(+), 18 deletions(-)

diff --git a/src/datafits/multi_task/mod.rs b/src/datafits/multi_task/mod.rs
index fc715eb..c0688e4 100644
--- a/src/datafits/multi_task/mod.rs
+++ b/src/datafits/multi_task/mod.rs
@@ -141,18 +141,15 @@ impl<F: Float, T: AsMultiTargets<Elem = F>> MultiTaskDatafit<F, CSCArray<'_, F>,
         let Y = dataset.targets().as_multi_tasks();
 
         self.XtY = Array2::<F>::zeros((n_features, n_tasks));
-        self.lipschitz = Array1::<F>::zeros(n_features);
+        self.lipschitz = X.squared_norms(dataset.targets().n_samples()) / n_samples;
 
         for j in 0..n_features {
-            let mut nrm2 = F::zero();
             let mut xty = Array1::<F>::zeros(n_tasks);
             for idx in X.indptr[j]..X.indptr[j + 1] {
-                nrm2 += X.data[idx as usize] * X.data[idx as usize];
                 for t in 0..n_tasks {
                     xty[t] += X.data[idx as usize] * Y[[X.indices[idx as usize] as usize, t]];
                 }
             }
-            self.lipschitz[j] = nrm2 / n_samples;
             self.XtY.slice_mut(s![j, ..]).assign(&xty);
         }
     }
diff --git a/src/datafits/single_task/mod.rs b/src/datafits/single_task/mod.rs
index d7d3796..ddacc1a 100644
--- a/src/datafits/single_task/mod.rs
+++ b/src/datafits/single_task/mod.rs
@@ -124,15 +124,12 @@ impl<F: Float, T: AsSingleTargets<Elem = F>> Datafit<F, CSCArray<'_, F>, T> for
         let X = dataset.design_matrix();
         let y = dataset.targets().try_single_target().unwrap();
         self.Xty = Array1::<F>::zeros(n_features);
-        self.lipschitz = Array1::<F>::zeros(n_features);
+        self.lipschitz = X.squared_norms(n_samples) / F::cast(n_samples);
         for j in 0..n_features {
-            let mut nrm2 = F::zero();
             let mut xty = F::zero();
             for idx in X.indptr[j]..X.indptr[j + 1] {
-                nrm2 += X.data[idx as usize] * X.data[idx as usize];
                 xty += X.data[idx as usize] * y[X.indices[idx as usize] as usize];
             }
-            self.lipschitz[j] = nrm2 / F::cast(n_samples);
             self.Xty[j] = xty;
         }
     }
@@ -265,16 +262,8 @@ impl<F: Float, T: AsSingleTargets<Elem = F>> Datafit<F, CSCArray<'_, F>, T> for
     /// product XTy useful during the optimization routine.
     fn initialize(&mut self, dataset: &DatasetBase<CSCArray<'_, F>, T>) {
         let n_samples = dataset.targets().n_samples();
-        let n_features = dataset.design_matrix().n_features();
         let X = dataset.design_matrix();
-        self.lipschitz = Array1::<F>::zeros(n_features);
-        for j in 0..n_features {
-            let mut nrm2 = F::zero();
-            for idx in X.indptr[j]..X.indptr[j + 1] {
-                nrm2 += X.data[idx as usize] * X.data[idx as usize];
-            }
-            self.lipschitz[j] = nrm2 / F::cast(4 * n_samples);
-        }
+        self.lipschitz = X.squared_norms(n_samples) / F::cast(4 * n_samples);
     }
 
     /// This method computes the value of the datafit for some model fit.
diff --git a/src/datasets/csc_array.rs b/src/datasets/csc_array.rs
index 5c3fdca..d6de483 100644
--- a/src/datasets/csc_array.rs
+++ b/src/datasets/csc_array.rs
@@ -1,4 +1,5 @@
-use ndarray::ArrayView1;
+use crate::Float;
+use ndarray::{Array1, ArrayView1};
 
 /// CSCArrays allows to optimally store very sparse matrices in a column-first
 /// fashion. For more information, see:
@@ -24,3 +25,24 @@ impl<'a, T> CSCArray<'a, T> {
         }
     }
 }
+
+impl<F: Float> CSCArray<'_, F> {
+    /// This method computes the squared norm of each column, the entries stored several
+    /// times for the same row being summed.
+    pub(crate) fn squared_norms(&self, n_samples: usize) -> Array1<F> {
+        let n_features = self.indptr.len() - 1;
+        let mut norms = Array1::<F>::zeros(n_features);
+        let mut Xj = Array1::<F>::zeros(n_samples);
+        for j in 0..n_features {
+            for idx in self.indptr[j]..self.indptr[j + 1] {
+                Xj[self.indices[idx as usize] as usize] += self.data[idx as usize];
+            }
+            for idx in self.indptr[j]..self.indptr[j + 1] {
+                let i = self.indices[idx as usize] as usize;
+                norms[j] += Xj[i] * Xj[i];
+                Xj[i] = F::zero();
+            }
+        }
+        norms
+    }
+}
-- 
2.43.0

