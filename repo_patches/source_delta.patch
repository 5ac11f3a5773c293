From 5041826a55b00416ea1798555f6d7b070290cbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:36 +0000
Subject: [PATCH 01/39] fix: store bounds and x0 as floats

With integer lower bounds the affine scaling copied upper bounds into an
integer array and truncated them, so that optimization converged to points
that are not minima; with an integer x0 the initial point could not be moved
away from the boundary by less than one.
---
 fides/minimize.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fides/minimize.py b/fides/minimize.py
index 3ae0166..65d7512 100644
--- a/fides/minimize.py
+++ b/fides/minimize.py
@@ -250,8 +250,8 @@ class Optimizer:
                 f'function with argument resfun set to `True`.'
             )
 
-        self.lb: np.ndarray = np.array(lb)
-        self.ub: np.ndarray = np.array(ub)
+        self.lb: np.ndarray = np.array(lb, dtype=float)
+        self.ub: np.ndarray = np.array(ub, dtype=float)
 
         if options is None:
             options = {}
@@ -354,7 +354,7 @@ class Optimizer:
         """
         self._reset(start_id)
 
-        self.x = np.array(x0).copy()
+        self.x = np.array(x0, dtype=float)
         if self.x.ndim > 1:
             raise ValueError('x0 must be a vector with x.ndim == 1!')
         self.make_non_degenerate()
-- 
2.43.0


From e220539946f6490d73da39628f47cdf1636b5f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:36 +0000
Subject: [PATCH 02/39] fix: store Hessian approximations as floats

An integer initial Hessian (or integer Gauss-Newton matrix) could not be
updated in place and made the first update fail.
---
 fides/hessian_approximation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fides/hessian_approximation.py b/fides/hessian_approximation.py
index aeb07b9..7e9c178 100644
--- a/fides/hessian_approximation.py
+++ b/fides/hessian_approximation.py
@@ -45,7 +45,7 @@ class HessianApproximation:
                     f'dimension, was {hess.shape[0]}, '
                     f'but should be {dim}.'
                 )
-            self._hess = hess.copy()
+            self._hess = np.array(hess, dtype=float)
         self._diff = np.zeros_like(self._hess)
 
     def get_mat(self) -> np.ndarray:
@@ -79,7 +79,7 @@ class HessianApproximation:
                 f'shape, was {mat.shape}, '
                 f'but should be {self._hess.shape}.'
             )
-        self._hess = mat.copy()
+        self._hess = np.array(mat, dtype=float)
 
     @property
     def requires_resfun(self):
-- 
2.43.0


From eea10366548a2e6237e80249d85348b4ae58298a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:36 +0000
Subject: [PATCH 03/39] fix: skip the SR1 update if the approximation is
 already exact

z == 0 passed the degeneracy check and 0/0 filled the approximation with nan.
---
 fides/hessian_approximation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fides/hessian_approximation.py b/fides/hessian_approximation.py
index 7e9c178..fcbf48c 100644
--- a/fides/hessian_approximation.py
+++ b/fides/hessian_approximation.py
@@ -213,7 +213,7 @@ class SR1(IterativeHessianApproximation):
         d = z.T.dot(s)
 
         # [NocedalWright2006] (6.26) reject if update degenerate
-        if np.abs(d) >= np.sqrt(np.spacing(1)) * norm(s) * norm(z):
+        if np.abs(d) > np.sqrt(np.spacing(1)) * norm(s) * norm(z):
             self._diff = np.outer(z, z.T) / d
         else:
             self._diff = np.zeros_like(self._hess)
-- 
2.43.0


From b54c6d8a484bb84d02dce7658f2f396a77cb5d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:22 +0000
Subject: [PATCH 04/39] fix: skip Broyden class updates that divide by zero

Without the curvature condition, or with a singular or indefinite initial
approximation, y^T s or s^T B s can be exactly zero, which filled the
approximation with nan.
---
 fides/hessian_approximation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fides/hessian_approximation.py b/fides/hessian_approximation.py
index fcbf48c..c0c0b8f 100644
--- a/fides/hessian_approximation.py
+++ b/fides/hessian_approximation.py
@@ -630,7 +630,7 @@ def broyden_class_update(
     c = u.T.dot(s)
     b = y.T.dot(s)
 
-    if b <= 0 and enforce_curv_cond:
+    if (b <= 0 and enforce_curv_cond) or b == 0 or c == 0:
         return np.zeros_like(mat)
 
     update = np.outer(y, y.T) / b - np.outer(u, u.T) / c
-- 
2.43.0


From a53e84eb830b2252d2539c4b840701b976dbddb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:22 +0000
Subject: [PATCH 05/39] fix: apply Broyden's bad update and make it satisfy the
 secant equation

BB overrode update() and never applied the computed difference, so the
approximation stayed at its initial value forever; the computed difference
was not Broyden's second update either.
---
 fides/hessian_approximation.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/fides/hessian_approximation.py b/fides/hessian_approximation.py
index c0c0b8f..6382e0f 100644
--- a/fides/hessian_approximation.py
+++ b/fides/hessian_approximation.py
@@ -244,13 +244,15 @@ class BB(IterativeHessianApproximation):
     This scheme only works with a function that returns (fval, grad)
     """
 
-    def update(self, s: np.ndarray, y: np.ndarray) -> None:
-        b = y.T.dot(s)
+    def _compute_update(self, s: np.ndarray, y: np.ndarray) -> None:
         z = y - self._hess.dot(s)
-        if b <= 0:
-            self._diff = np.zeros_like(self._hess)
+        v = self._hess.T.dot(y)
+        d = v.dot(s)
+        # skip if the update of the inverse does not exist
+        if np.abs(d) > np.sqrt(np.spacing(1)) * norm(s) * norm(v):
+            self._diff = np.outer(z, v) / d
         else:
-            self._diff = np.outer(z, s.T) / b
+            self._diff = np.zeros_like(self._hess)
 
 
 class HybridApproximation(HessianApproximation):
-- 
2.43.0


From 9ed43d6207a9866668f310b04ab9ae6abbb69951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:22 +0000
Subject: [PATCH 06/39] fix: reset hybrid switching when a new optimization is
 started

A second minimize() call with the same optimizer started in the switched
state if the first one had switched.
---
 fides/hessian_approximation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fides/hessian_approximation.py b/fides/hessian_approximation.py
index 6382e0f..c922fe3 100644
--- a/fides/hessian_approximation.py
+++ b/fides/hessian_approximation.py
@@ -276,6 +276,10 @@ class HybridApproximation(HessianApproximation):
 
 
 class HybridSwitchApproximation(HybridApproximation):
+    def _init_mat(self, dim: int, hess: np.ndarray | None = None):
+        super()._init_mat(dim, hess)
+        self._switched = False
+
     def _switched_update(self, s: np.ndarray, y: np.ndarray, hess: np.ndarray):
         self.hessian_update.update(s, y)
         new_hess = self.hessian_update.get_mat() if self._switched else hess
-- 
2.43.0


From 340bac2f28e1f7adaf914a04e9798db3b7ccc037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:22 +0000
Subject: [PATCH 07/39] fix: keep the TSSM approximation finite when residuals
 vanish

Reaching a point with zero residuals divided by zero and returned a Hessian
approximation filled with nan.
---
 fides/hessian_approximation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fides/hessian_approximation.py b/fides/hessian_approximation.py
index c922fe3..8090aff 100644
--- a/fides/hessian_approximation.py
+++ b/fides/hessian_approximation.py
@@ -555,7 +555,9 @@ class TSSM(StructuredApproximation):
         # Equation (2.10)
         self._structured_diff = broyden_class_update(
             ys, s, bs, phi=self.phi, enforce_curv_cond=self.enforce_curv_cond
-        ) / norm(r)
+        )
+        if norm(r) > 0:
+            self._structured_diff /= norm(r)
         self.A += self._structured_diff
         # Equation (2.9)
         self._update_hess_and_store_diff(hess + norm(r) * self.A)
-- 
2.43.0


From 8468081823f3d1cbefafbd1ddfdf4db1f00bff2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:22 +0000
Subject: [PATCH 08/39] fix: validate solver and stepback choices given under
 string keys

The check compared the key by identity, so with plain string keys any string
was accepted as subspace solver or stepback strategy.
---
 fides/constants.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fides/constants.py b/fides/constants.py
index b5161be..9dce9f8 100644
--- a/fides/constants.py
+++ b/fides/constants.py
@@ -128,10 +128,10 @@ def validate_options(options: dict):
                 f'{option_key} is not a valid options field.'
             ) from None
 
-        if option_key is Options.SUBSPACE_DIM:
+        if option is Options.SUBSPACE_DIM:
             option_value = SubSpaceDim(option_value)
 
-        if option_key is Options.STEPBACK_STRAT:
+        if option is Options.STEPBACK_STRAT:
             option_value = StepBackStrategy(option_value)
 
         expected_type = expected_types[option]
-- 
2.43.0


From 9b65d4077ee8fc6897f8c1fce123cc1ef2a5aa8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:13 +0000
Subject: [PATCH 09/39] fix: check gradient convergence at the point that is
 kept

A rejected trial point with a small gradient (a maximum that was stepped on,
or a failed evaluation that returns zeros) ended the optimization as
converged, although the returned point did not satisfy the criteria. The
relative criterion compared the new gradient to the previous function value.
---
 fides/minimize.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/fides/minimize.py b/fides/minimize.py
index 65d7512..991ca5f 100644
--- a/fides/minimize.py
+++ b/fides/minimize.py
@@ -611,7 +611,12 @@ class Optimizer:
         xtol = self.get_option(Options.XTOL)
         gatol = self.get_option(Options.GATOL)
         grtol = self.get_option(Options.GRTOL)
-        gnorm = norm(grad)
+        # gradient criteria apply to the point that is kept, which is not the
+        # trial point if the step was rejected
+        if self.tr_ratio > 0.0:
+            fval_kept, gnorm = fval, norm(grad)
+        else:
+            fval_kept, gnorm = self.fval, norm(self.grad)
         stepsx = step.ss + step.ss0
         nsx = norm(stepsx)
 
@@ -643,12 +648,12 @@ class Optimizer:
             )
             converged = True
 
-        elif gnorm <= grtol * np.abs(self.fval):
+        elif gnorm <= grtol * np.abs(fval_kept):
             self.exitflag = ExitFlag.GTOL
             self.logger.info(
                 'Stopping as gradient norm satisfies relative convergence '
                 f'criteria: {gnorm:.2E} < {grtol:.2E} * '
-                f'{np.abs(self.fval):.2E}'
+                f'{np.abs(fval_kept):.2E}'
             )
             converged = True
 
-- 
2.43.0


From 3a4cf984c026e024504d16e21ceb657ea6ef731d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:13 +0000
Subject: [PATCH 10/39] fix: reset the exitflag when a new optimization is
 started

If the objective function raised in a later minimize() call, the exitflag of
the previous optimization was still reported.
---
 fides/minimize.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fides/minimize.py b/fides/minimize.py
index 991ca5f..2d2f22b 100644
--- a/fides/minimize.py
+++ b/fides/minimize.py
@@ -301,6 +301,7 @@ class Optimizer:
         self.iterations_since_tr_update = 0
         self.n_intermediate_tr_radius = 0
         self.converged = False
+        self.exitflag = ExitFlag.DID_NOT_RUN
         self.delta = self.get_option(Options.DELTA_INIT)
         self.delta_iter = self.delta
         self.fval_min = np.inf
-- 
2.43.0


From 4fd29feb13f93b2de0b3c60bc852d87ae65beae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:13 +0000
Subject: [PATCH 11/39] fix: allow residual functions without a Hessian update
 scheme

With resfun=True and no hessian_update, fides asked for three return values
and then failed to unpack them as (res, sres).
---
 fides/minimize.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/fides/minimize.py b/fides/minimize.py
index 2d2f22b..3dc972d 100644
--- a/fides/minimize.py
+++ b/fides/minimize.py
@@ -226,10 +226,13 @@ class Optimizer:
         """
         nargout = (
             3
-            if hessian_update is None
-            or (
-                hessian_update.requires_hess
-                and not hessian_update.requires_resfun
+            if not resfun
+            and (
+                hessian_update is None
+                or (
+                    hessian_update.requires_hess
+                    and not hessian_update.requires_resfun
+                )
             )
             else 2
         )
-- 
2.43.0


From 4642596bde0dc855834eb5d14a4aad7c30b575dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:34 +0000
Subject: [PATCH 12/39] fix: do not divide by the curvature in one-dimensional
 problems

For a single variable with zero curvature (x**4 - x at 0) the proposed step
was nan, the objective was only evaluated at nan and optimization stopped
without progress.
---
 fides/steps.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/fides/steps.py b/fides/steps.py
index 0ee9f00..722c0de 100644
--- a/fides/steps.py
+++ b/fides/steps.py
@@ -278,14 +278,12 @@ class TRStep2D(Step):
         super().__init__(
             x, sg, hess, scaling, g_dscaling, delta, theta, ub, lb, logger
         )
-        s_newt = -linalg.lstsq(self.shess, sg)[0]
         # lstsq only returns absolute ev values
         e, v = np.linalg.eig(self.shess)
         self.posdef = np.min(np.real(e)) > -np.spacing(1) * np.max(np.abs(e))
 
         if len(sg) == 1:
-            s_newt = -sg[0] / self.shess[0]
-            self.subspace = np.expand_dims(s_newt, 1)
+            self.subspace = np.ones((1, 1))
             return
 
         self.newton = False
-- 
2.43.0


From a38e7a0ebf3e6ff83add27e3ce78c73d8db9227f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:34 +0000
Subject: [PATCH 13/39] fix: step back the full conjugate gradient step

Only the last conjugate gradient segment was scaled back in transformed
coordinates while all of the step was scaled back in the original
coordinates, so the predicted decrease belonged to a different step than the
one that was evaluated.
---
 fides/steps.py | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/fides/steps.py b/fides/steps.py
index 722c0de..68f4468 100644
--- a/fides/steps.py
+++ b/fides/steps.py
@@ -332,9 +332,15 @@ class CGStep(Step):
     def calculate(self):
         nsg = norm(self.sg)
         self.conj_grad(min(0.5, np.sqrt(nsg)) * nsg)
-        self.s = self.scaling.dot(self.ss + self.ss0)
+        # stepping back scales the full step, so the full step has to be
+        # the element of the subspace
+        direction = self.ss.copy()
+        normalize(direction)
+        self.subspace = np.expand_dims(direction, 1)
+        self.sc = direction.dot(self.ss) * np.ones((1,))
+        self.s = self.scaling.dot(self.ss)
         self.step_back()
-        self.qpval = quadratic_form(self.shess, self.sg, self.ss + self.ss0)
+        self.qpval = quadratic_form(self.shess, self.sg, self.ss)
 
     def conj_grad(self, eps):
         """
@@ -369,25 +375,15 @@ class TRStepSteihaug(CGStep):
             alpha = r2 / c
             zp = z + alpha * d
             if c <= 0 or norm(zp) >= self.delta:
-                self.subspace = np.expand_dims(d, 1)
-                self.ss0 = z
-                self.sc = get_1d_trust_region_boundary_solution(
-                    self.shess,
-                    self.sg,
-                    self.subspace[:, 0],
-                    self.ss0,
-                    self.delta,
-                ) * np.ones((1,))
-                self.ss = self.subspace.dot(self.sc)
+                tau = get_1d_trust_region_boundary_solution(
+                    self.shess, self.sg, d, z, self.delta
+                )
+                self.ss = z + tau * d
                 return
             rp = r + alpha * bd
             rp2 = np.dot(rp, rp)
             if np.sqrt(rp2) < eps:
-                normalize(d)
-                self.subspace = np.expand_dims(d, 1)
-                self.sc = zp.dot(d) * np.ones((1,))
-                self.ss = self.subspace.dot(self.sc)
-                self.ss0 = zp - self.ss
+                self.ss = zp
                 return
             beta = rp2 / r2
 
-- 
2.43.0


From 5c73d364118a1d92cea89382e82ed5bbebfaefcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:34 +0000
Subject: [PATCH 14/39] fix: guarantee termination of the conjugate gradient
 iteration

With the non-symmetric approximations of Broyden's methods the residual does
not have to decrease and the loop never ended. At a stationary point the step
was nan.
---
 fides/steps.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/fides/steps.py b/fides/steps.py
index 68f4468..b687fc4 100644
--- a/fides/steps.py
+++ b/fides/steps.py
@@ -364,12 +364,16 @@ class TRStepSteihaug(CGStep):
         z = np.zeros_like(self.sg)
         r = self.sg.copy()
         d = -self.sg.copy()
-        if norm(r) < eps:
+        if norm(r) <= eps:
             self.ss = z
             return
 
-        while True:
-            bd = self.shess.dot(d)
+        # the quadratic form only depends on the symmetric part and conjugate
+        # gradients only terminate for symmetric matrices
+        hess = 0.5 * (self.shess + self.shess.T)
+
+        for _ in range(10 * len(z)):
+            bd = hess.dot(d)
             c = d.dot(bd)
             r2 = np.dot(r, r)
             alpha = r2 / c
@@ -390,6 +394,7 @@ class TRStepSteihaug(CGStep):
             d = -rp + beta * d
             z = zp.copy()
             r = rp.copy()
+        self.ss = z
 
 
 class TRStepReflected(Step):
-- 
2.43.0


From 7b6de8ad574083fcd521f44a4d5cc5b9f6d6f78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:33 +0000
Subject: [PATCH 15/39] fix: keep the gradient in the 2D subspace if there is
 no Newton step

For singular Hessians with a gradient outside of their range, the least
squares solution can be zero or orthogonal to all directions of descent. It
was used as the only direction, so that optimization with the default
subspace got stuck at points with large gradients.
---
 fides/steps.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fides/steps.py b/fides/steps.py
index b687fc4..7d14790 100644
--- a/fides/steps.py
+++ b/fides/steps.py
@@ -291,7 +291,9 @@ class TRStep2D(Step):
         if self.posdef:
             s_newt = -linalg.lstsq(self.shess, sg)[0]
 
-            if norm(s_newt) < delta:
+            # if the matrix is singular, there may be no Newton step
+            residual = norm(self.shess.dot(s_newt) + sg)
+            if norm(s_newt) < delta and residual <= 1e-6 * norm(sg):
                 # Case 0 of Fig 12 in [ColemanLi1994]
                 normalize(s_newt)
                 self.newton = True
@@ -314,7 +316,8 @@ class TRStep2D(Step):
         # if non-zero, add s_grad to subspace
         if norm(s_grad) > np.spacing(1):
             normalize(s_grad)
-            self.subspace = np.vstack([s_newt, s_grad]).T
+            subspace = np.vstack([s_newt, s_grad]).T
+            self.subspace = subspace[:, (subspace != 0).any(axis=0)]
         else:
             # s_newt and s_grad are parallel but we already projected
             # s_grad, so use s_newt here
-- 
2.43.0


From 86af3e43a4d1a104bb04d3fc0c3fcc72ed5e40e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:33 +0000
Subject: [PATCH 16/39] fix: orthonormalize the subspace of truncated steps

After removing the truncated variables, the columns of a two-dimensional
subspace were normalized but no longer orthogonal, so that truncated steps
could exceed the trust region radius.
---
 fides/steps.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fides/steps.py b/fides/steps.py
index 7d14790..f5b9d2d 100644
--- a/fides/steps.py
+++ b/fides/steps.py
@@ -486,9 +486,9 @@ class TRStepTruncated(Step):
         subspace[iminbr, :] = 0
         # reduce subspace
         subspace = subspace[:, (subspace != 0).any(axis=0)]
-        # normalize subspace
-        for ix in range(subspace.shape[1]):
-            normalize(subspace[:, ix])
+        # orthonormalize subspace, so that norms are preserved
+        if subspace.shape[1] > 0:
+            subspace = linalg.orth(subspace)
         self.subspace = subspace
 
         for iminbr in step.iminbr:
-- 
2.43.0


From d5fa48c05b4542a72f17bc2ba92eee3bf2bfcbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:33 +0000
Subject: [PATCH 17/39] fix: account for the truncated part when re-solving
 truncated steps

The multi-dimensional restricted subproblem used the gradient of the model at
the current point instead of the gradient at the truncated variables.
---
 fides/steps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fides/steps.py b/fides/steps.py
index f5b9d2d..8429956 100644
--- a/fides/steps.py
+++ b/fides/steps.py
@@ -210,7 +210,7 @@ class Step:
         subspace
         """
         self.chess = self.subspace.T.dot(self.shess.dot(self.subspace))
-        self.cg = self.subspace.T.dot(self.sg)
+        self.cg = self.subspace.T.dot(self.sg + self.shess.dot(self.ss0))
 
     def compute_step(self) -> None:
         """
-- 
2.43.0


From 765dd8c27c1abd407d22c6ca66eacb74abf69a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:05 +0000
Subject: [PATCH 18/39] fix: use orthonormal eigenvectors in the n-dimensional
 subproblem

The general eigenvalue decomposition does not return orthogonal eigenvectors
for repeated eigenvalues (and complex ones for slightly asymmetric matrices),
so the solution was not the minimizer, e.g. for
[[4, 1, -1], [1, 4, -1], [-1, -1, 4]].
---
 fides/subproblem.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/fides/subproblem.py b/fides/subproblem.py
index 692be3e..f2e4e2b 100644
--- a/fides/subproblem.py
+++ b/fides/subproblem.py
@@ -135,9 +135,8 @@ def solve_nd_trust_region_subproblem(
 
     # instead of a cholesky factorization, we go with an eigenvalue
     # decomposition, which works pretty well for n=2
-    eigvals, eigvecs = linalg.eig(b)
-    eigvals = np.real(eigvals)
-    eigvecs = np.real(eigvecs)
+    # the quadratic form only depends on the symmetric part
+    eigvals, eigvecs = linalg.eigh(0.5 * (b + b.T))
     w = -eigvecs.T.dot(g)
     jmin = eigvals.argmin()
     mineig = eigvals[jmin]
-- 
2.43.0


From 6203541f7f7a121dd925f4d60b5a390c808039c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:05 +0000
Subject: [PATCH 19/39] fix: only treat the hard case of the subproblem as such

If the step without its component along the smallest eigenvalue was within
the trust region, the subproblem was treated as the hard case even if the
gradient was not orthogonal to that eigenvector, and the step was extended in
an arbitrary, possibly ascending, direction.
---
 fides/subproblem.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/fides/subproblem.py b/fides/subproblem.py
index f2e4e2b..aae418e 100644
--- a/fides/subproblem.py
+++ b/fides/subproblem.py
@@ -177,7 +177,7 @@ def solve_nd_trust_region_subproblem(
                 args=(w, eigvals, eigvecs, delta),
             )
             s = slam(r, w, eigvals, eigvecs)
-            if norm(s) <= delta + 1e-12:
+            if abs(delta * secular(r, w, eigvals, eigvecs, delta)) <= 1e-10:
                 logger.debug('Found boundary subproblem solution via newton')
                 return s, 'indef'
         except RuntimeError:
@@ -200,7 +200,7 @@ def solve_nd_trust_region_subproblem(
                     args=(w, eigvals, eigvecs, delta),
                 )
                 s = slam(r, w, eigvals, eigvecs)
-                if norm(s) <= delta + np.sqrt(np.spacing(1)):
+                if abs(delta * secular(r, w, eigvals, eigvecs, delta)) <= 1e-8:
                     logger.debug(
                         'Found boundary subproblem solution via brentq'
                     )
@@ -209,14 +209,18 @@ def solve_nd_trust_region_subproblem(
             pass  # may end up here due to ill-conditioning, treat as hard case
 
     # HARD CASE (gradient is orthogonal to eigenvector to smallest eigenvalue)
-    w[(eigvals - mineig) == 0] = 0
+    hard = (eigvals - mineig) <= 1e-14 * np.max(np.abs(eigvals))
+    # if the gradient is only nearly orthogonal, follow its descent direction
+    v = eigvecs.dot(np.where(hard, w, 0))
+    v = v / norm(v) if norm(v) > 0 else eigvecs[:, jmin]
+    w[hard] = 0
     s = slam(-mineig, w, eigvals, eigvecs)
-    # we know that ||s(lam) + sigma*v_jmin|| = delta, since v_jmin is
-    # orthonormal, we can just substract the difference in norm to get
+    # we know that ||s(lam) + sigma*v|| = delta, since v is normalized and
+    # orthogonal to s, we can just substract the difference in norm to get
     # the right length.
 
     sigma = np.sqrt(max(delta**2 - norm(s) ** 2, 0))
-    s = s + sigma * eigvecs[:, jmin]
+    s = s + sigma * v
     logger.debug('Found boundary 2D subproblem solution via hard case')
     return s, 'hard'
 
@@ -304,6 +308,8 @@ def secular(
     """
     if lam < -np.min(eigvals):
         return np.inf  # safeguard to implement boundary
+    if np.any((eigvals + lam == 0) & (w != 0)):
+        return -1 / delta  # ||s|| is infinite
     s = slam(lam, w, eigvals, eigvecs)
     sn = norm(s)
     if sn > 0:
-- 
2.43.0


From fe957917d5a641344b860f934e9fa1622ee68d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:58 +0000
Subject: [PATCH 20/39] fix: move degenerate points off the bounds for large
 variables

---
 fides/minimize.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/fides/minimize.py b/fides/minimize.py
index 3dc972d..88c377f 100644
--- a/fides/minimize.py
+++ b/fides/minimize.py
@@ -715,14 +715,15 @@ class Optimizer:
         """
         if eps is None:
             eps = 1e2 * np.spacing(1)
-        if (
-            np.min(np.abs(self.ub - self.x)) < eps
-            or np.min(np.abs(self.x - self.lb)) < eps
+        # smaller changes may be lost to rounding for large x
+        eps = eps * np.maximum(np.abs(self.x), 1.0)
+        if np.any(np.abs(self.ub - self.x) < eps) or np.any(
+            np.abs(self.x - self.lb) < eps
         ):
             upperi = (self.ub - self.x) < eps
             loweri = (self.x - self.lb) < eps
-            self.x[upperi] = self.x[upperi] - eps
-            self.x[loweri] = self.x[loweri] + eps
+            self.x[upperi] = self.x[upperi] - eps[upperi]
+            self.x[loweri] = self.x[loweri] + eps[loweri]
 
     def get_affine_scaling(self) -> tuple[np.ndarray, np.ndarray]:
         """
-- 
2.43.0


From c88dda01ba8bc26c0477d410912ecc7751b80888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:38 +0000
Subject: [PATCH 21/39] fix: do not add rounding errors to the 2D subspace

---
 fides/steps.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fides/steps.py b/fides/steps.py
index 8429956..c082538 100644
--- a/fides/steps.py
+++ b/fides/steps.py
@@ -312,9 +312,10 @@ class TRStep2D(Step):
             s_grad = scaling.dot(np.sign(sg) + (sg == 0))
 
         normalize(s_newt)
+        norm_grad = norm(s_grad)
         s_grad = s_grad - s_newt * s_newt.dot(s_grad)
-        # if non-zero, add s_grad to subspace
-        if norm(s_grad) > np.spacing(1):
+        # if non-zero up to rounding errors, add s_grad to subspace
+        if norm(s_grad) > np.sqrt(np.spacing(1)) * norm_grad:
             normalize(s_grad)
             subspace = np.vstack([s_newt, s_grad]).T
             self.subspace = subspace[:, (subspace != 0).any(axis=0)]
-- 
2.43.0


From dbd05e412ff0841eed802fd3dbc6cad2c96c2668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:03 +0000
Subject: [PATCH 22/39] fix: do not exceed bounds by rounding errors

---
 fides/minimize.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fides/minimize.py b/fides/minimize.py
index 88c377f..99af25d 100644
--- a/fides/minimize.py
+++ b/fides/minimize.py
@@ -416,6 +416,11 @@ class Optimizer:
             )
 
             x_new = self.x + step.s + step.s0
+            # steps to the boundary can exceed it by rounding errors
+            x_clip = np.clip(x_new, self.lb, self.ub)
+            eps = 1e2 * np.spacing(1) * np.maximum(np.abs(x_clip), 1.0)
+            rounding = np.abs(x_new - x_clip) < eps
+            x_new[rounding] = x_clip[rounding]
             funout_new = self.fevaler(x_new)
 
             if np.isfinite(funout_new.fval):
-- 
2.43.0


From b197cbdfb7a788e4f868254047a6952bf21a58f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:59 +0000
Subject: [PATCH 23/39] fix: keep the boundary solution finite if the start is
 on the boundary

---
 fides/subproblem.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fides/subproblem.py b/fides/subproblem.py
index aae418e..9e832f3 100644
--- a/fides/subproblem.py
+++ b/fides/subproblem.py
@@ -73,10 +73,11 @@ def solve_1d_trust_region_subproblem(
 def get_1d_trust_region_boundary_solution(b, g, s, s0, delta):
     a = np.dot(s, s)
     b_coef = 2 * np.dot(s0, s)
-    c = np.dot(s0, s0) - delta**2
+    # s0 on the boundary can be outside due to rounding
+    c = min(np.dot(s0, s0) - delta**2, 0.0)
 
     aux = b_coef + math.copysign(np.sqrt(b_coef**2 - 4 * a * c), b_coef)
-    ts = [-aux / (2 * a), -2 * c / aux]
+    ts = [-aux / (2 * a), -2 * c / aux if aux != 0 else 0.0]
     qs = [quadratic_form(b, g, s0 + t * s) for t in ts]
     return ts[np.argmin(qs)]
 
-- 
2.43.0


From 45f7c96761a8bb5dc16cfb9edb97548e997f6c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:51 +0000
Subject: [PATCH 24/39] fix: solve for the multiplier of the subproblem with
 relative precision

---
 fides/subproblem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fides/subproblem.py b/fides/subproblem.py
index 9e832f3..0cecb72 100644
--- a/fides/subproblem.py
+++ b/fides/subproblem.py
@@ -196,7 +196,7 @@ def solve_nd_trust_region_subproblem(
                     secular,
                     xa,
                     xb,
-                    xtol=1e-12,
+                    xtol=np.spacing(xa),
                     maxiter=maxiter,
                     args=(w, eigvals, eigvecs, delta),
                 )
-- 
2.43.0


From f2ad8dcae9f4cb5c2d805b4df751bebe1f56e5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:59 +0000
Subject: [PATCH 25/39] fix: keep truncated variables truncated when
 orthonormalizing

---
 fides/steps.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fides/steps.py b/fides/steps.py
index c082538..f028317 100644
--- a/fides/steps.py
+++ b/fides/steps.py
@@ -489,7 +489,10 @@ class TRStepTruncated(Step):
         subspace = subspace[:, (subspace != 0).any(axis=0)]
         # orthonormalize subspace, so that norms are preserved
         if subspace.shape[1] > 0:
+            truncated = (subspace == 0).all(axis=1)
             subspace = linalg.orth(subspace)
+            # remove rounding errors, truncated variables must not change
+            subspace[truncated, :] = 0
         self.subspace = subspace
 
         for iminbr in step.iminbr:
-- 
2.43.0


From b307a848728b103227ddf7e50c46c856facb9047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:49 +0000
Subject: [PATCH 26/39] fix: check dimensions of the objective output before
 using it

A Hessian that is a Python scalar raised AttributeError instead of the
intended ValueError.
---
 fides/minimize.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/fides/minimize.py b/fides/minimize.py
index 99af25d..4cdb069 100644
--- a/fides/minimize.py
+++ b/fides/minimize.py
@@ -365,6 +365,7 @@ class Optimizer:
         self.check_in_bounds()
 
         funout = self.fevaler(self.x)
+        funout.checkdims()
 
         self.fval, self.grad = funout.fval, funout.grad
         if self.hessian_update is not None:
@@ -376,8 +377,6 @@ class Optimizer:
         else:
             self.hess = funout.hess.copy()
 
-        funout.checkdims()
-
         self.track_minimum(funout)
         self.log_header()
         self.log_step_initial()
-- 
2.43.0


From 962600d703895ac1ab93841787f8f086bec18886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:49 +0000
Subject: [PATCH 27/39] fix: refuse scalar x0

Zero-dimensional x0 passed the check and raised TypeError or IndexError
later on.
---
 fides/minimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fides/minimize.py b/fides/minimize.py
index 4cdb069..2bc0905 100644
--- a/fides/minimize.py
+++ b/fides/minimize.py
@@ -359,7 +359,7 @@ class Optimizer:
         self._reset(start_id)
 
         self.x = np.array(x0, dtype=float)
-        if self.x.ndim > 1:
+        if self.x.ndim != 1:
             raise ValueError('x0 must be a vector with x.ndim == 1!')
         self.make_non_degenerate()
         self.check_in_bounds()
-- 
2.43.0


From 3ef523d57c0a8fbc1a31177df92c917ae42c9dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:49 +0000
Subject: [PATCH 28/39] fix: refuse initial Hessian approximations that are not
 square matrices

Vectors and scalars raised AttributeError, matrices with superfluous columns
failed later on.
---
 fides/hessian_approximation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fides/hessian_approximation.py b/fides/hessian_approximation.py
index 8090aff..75962bf 100644
--- a/fides/hessian_approximation.py
+++ b/fides/hessian_approximation.py
@@ -39,11 +39,11 @@ class HessianApproximation:
         if hess is None:
             self._hess = np.eye(dim)
         else:
-            if hess.shape[0] != dim:
+            if np.shape(hess) != (dim, dim):
                 raise ValueError(
                     'Initial approximation had inconsistent '
-                    f'dimension, was {hess.shape[0]}, '
-                    f'but should be {dim}.'
+                    f'dimension, was {np.shape(hess)}, '
+                    f'but should be {(dim, dim)}.'
                 )
             self._hess = np.array(hess, dtype=float)
         self._diff = np.zeros_like(self._hess)
-- 
2.43.0


From 7b3f056dde15647255bfac744cc417315420435b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:49 +0000
Subject: [PATCH 29/39] fix: raise TypeError for infinite maxiter

The conversion to int raised OverflowError.
---
 fides/constants.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fides/constants.py b/fides/constants.py
index 9dce9f8..e910045 100644
--- a/fides/constants.py
+++ b/fides/constants.py
@@ -136,7 +136,11 @@ def validate_options(options: dict):
 
         expected_type = expected_types[option]
         if not isinstance(option_value, expected_type):
-            if expected_type == Integral and int(option_value) == option_value:
+            if (
+                expected_type == Integral
+                and option_value not in (np.inf, -np.inf)
+                and int(option_value) == option_value
+            ):
                 continue
             raise TypeError(
                 f'Type mismatch for option {option_key}. '
-- 
2.43.0


From 398f9b23f2562708ffe61528a656f9a92c072693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:40 +0000
Subject: [PATCH 30/39] fix: do not share arrays with the objective function

An objective function that reuses the arrays it returns overwrote the gradient
of the current point, one that modifies its argument the point itself.
---
 fides/minimize.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fides/minimize.py b/fides/minimize.py
index 2bc0905..2d7af5d 100644
--- a/fides/minimize.py
+++ b/fides/minimize.py
@@ -4,6 +4,7 @@ Minimization
 This module performs the optimization given a step proposal.
 """
 
+import copy
 import logging
 import time
 import uuid
@@ -49,7 +50,8 @@ class FunEvaluator:
         self.funargs = funargs
 
     def __call__(self, x: np.ndarray):
-        ret = self.fun(x, **self.funargs)
+        # do not share arrays with the function, which may change its input
+        ret = self.fun(x.copy(), **self.funargs)
 
         if not isinstance(ret, tuple) or len(ret) != self.nargout:
             nargout = len(ret) if isinstance(ret, tuple) else 1
@@ -63,6 +65,9 @@ class FunEvaluator:
                 f'needs to return 3 values (fval, grad, hess).'
             )
 
+        # ... or its previous outputs
+        ret = copy.deepcopy(ret)
+
         if self.resfun:
             res, sres = ret
             return Funout(
-- 
2.43.0


From a2befb71f3257576789ce78d4dc48790e5000a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:11 +0000
Subject: [PATCH 31/39] fix: compare Newton steps with the radius in relative
 terms

With an absolute tolerance, steps exceeded radii of the order of 1e-8 by any
factor, so that shrinking the radius further had no effect.
---
 fides/subproblem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fides/subproblem.py b/fides/subproblem.py
index 0cecb72..e9b3a43 100644
--- a/fides/subproblem.py
+++ b/fides/subproblem.py
@@ -154,7 +154,7 @@ def solve_nd_trust_region_subproblem(
     # POSITIVE DEFINITE
     if mineig > 0:  # positive definite
         s = np.real(slam(0, w, eigvals, eigvecs))  # s = - self.cB\self.cg_hat
-        if norm(s) <= delta + np.sqrt(np.spacing(1)):  # CASE 0
+        if norm(s) <= delta * (1 + np.sqrt(np.spacing(1))):  # CASE 0
             logger.debug('Interior subproblem solution')
             return s, 'posdef'
         else:
-- 
2.43.0


From ae0a89c7c8c07655552644ef763252c0a97e53f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:37 +0000
Subject: [PATCH 32/39] fix: keep refined steps within the trust region

The refinement may stop after its maximum number of iterations without
satisfying the constraints.
---
 fides/steps.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fides/steps.py b/fides/steps.py
index f028317..140b43b 100644
--- a/fides/steps.py
+++ b/fides/steps.py
@@ -568,6 +568,10 @@ class RefinedStep(Step):
         )
         self.sc = res.x
         self.ss = self.subspace.dot(self.sc)
+        if norm(self.ss) > self.delta:
+            # constraints may be violated if the refinement did not converge
+            self.sc *= self.delta / norm(self.ss)
+            self.ss = self.subspace.dot(self.sc)
         self.s = self.scaling.dot(self.ss)
         self.step_back()
         self.qpval = quadratic_form(self.shess, self.sg, self.ss)
-- 
2.43.0


From fd2e044dc417ed793836cc3cda7bb6f3fd805387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:55 +0000
Subject: [PATCH 33/39] fix: hand out a copy of the structured update

---
 fides/hessian_approximation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fides/hessian_approximation.py b/fides/hessian_approximation.py
index 75962bf..7778f10 100644
--- a/fides/hessian_approximation.py
+++ b/fides/hessian_approximation.py
@@ -498,7 +498,7 @@ class StructuredApproximation(HessianApproximation):
         return True  # pragma: no cover
 
     def get_structured_diff(self) -> np.ndarray:
-        return self._structured_diff
+        return self._structured_diff.copy()
 
 
 class SSM(StructuredApproximation):
-- 
2.43.0


From bd2d3fa839630587a40ba2af3ca2fe728a25c91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:55 +0000
Subject: [PATCH 34/39] fix: treat integer outputs of the objective as real
 numbers

---
 fides/minimize.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/fides/minimize.py b/fides/minimize.py
index 2d7af5d..507806f 100644
--- a/fides/minimize.py
+++ b/fides/minimize.py
@@ -65,8 +65,13 @@ class FunEvaluator:
                 f'needs to return 3 values (fval, grad, hess).'
             )
 
-        # ... or its previous outputs
-        ret = copy.deepcopy(ret)
+        # ... or its previous outputs, and always compute in double precision
+        ret = tuple(
+            np.array(v, dtype=float)
+            if isinstance(v, np.ndarray)
+            else copy.deepcopy(v)
+            for v in ret
+        )
 
         if self.resfun:
             res, sres = ret
-- 
2.43.0


From 5728478b1daaaef9e374cf95b9224b3874ecbee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:19 +0000
Subject: [PATCH 35/39] fix: do not report results of an earlier run if a run
 fails early

---
 fides/minimize.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fides/minimize.py b/fides/minimize.py
index 507806f..a082da4 100644
--- a/fides/minimize.py
+++ b/fides/minimize.py
@@ -323,6 +323,12 @@ class Optimizer:
             start_id = str(uuid.uuid1())
         self.start_id = start_id
         self.history = defaultdict(list)
+        # nothing of an earlier run may be reported if this one fails early
+        n = self.ub.size
+        self.fval = np.inf
+        self.x, self.grad = np.full(n, np.nan), np.full(n, np.nan)
+        self.x_min, self.grad_min = self.x, self.grad
+        self.hess = np.full((n, n), np.nan)
 
     def minimize(
         self,
-- 
2.43.0


From e3a52a225de8975eab647f98710393f41d78eb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:19 +0000
Subject: [PATCH 36/39] fix: resolve multipliers close to the smallest
 eigenvalue

---
 fides/subproblem.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/fides/subproblem.py b/fides/subproblem.py
index e9b3a43..eea2d48 100644
--- a/fides/subproblem.py
+++ b/fides/subproblem.py
@@ -141,6 +141,7 @@ def solve_nd_trust_region_subproblem(
     w = -eigvecs.T.dot(g)
     jmin = eigvals.argmin()
     mineig = eigvals[jmin]
+    evmax = np.max(np.abs(eigvals))
 
     # since B symmetric eigenvecs V are orthonormal
     # B + lambda I = V * (E + lambda I) * V.T
@@ -160,7 +161,10 @@ def solve_nd_trust_region_subproblem(
         else:
             laminit = 0
     else:
-        laminit = -mineig
+        laminit = 0
+        # continue in terms of lambda + mineig, as the distance to the pole
+        # would not be resolved otherwise
+        eigvals = eigvals - mineig
 
     # INDEFINITE CASE
     # note that this includes what Nocedal calls the "hard case" but with
@@ -210,12 +214,12 @@ def solve_nd_trust_region_subproblem(
             pass  # may end up here due to ill-conditioning, treat as hard case
 
     # HARD CASE (gradient is orthogonal to eigenvector to smallest eigenvalue)
-    hard = (eigvals - mineig) <= 1e-14 * np.max(np.abs(eigvals))
+    hard = (eigvals - eigvals[jmin]) <= 1e-14 * evmax
     # if the gradient is only nearly orthogonal, follow its descent direction
     v = eigvecs.dot(np.where(hard, w, 0))
     v = v / norm(v) if norm(v) > 0 else eigvecs[:, jmin]
     w[hard] = 0
-    s = slam(-mineig, w, eigvals, eigvecs)
+    s = slam(-eigvals[jmin], w, eigvals, eigvecs)
     # we know that ||s(lam) + sigma*v|| = delta, since v is normalized and
     # orthogonal to s, we can just substract the difference in norm to get
     # the right length.
-- 
2.43.0


From ecf9e48b5659f77f525634ac6426bea14f0b962d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:07 +0000
Subject: [PATCH 37/39] fix: account for the magnitude of the iterate when
 clipping trial points

---
 fides/minimize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fides/minimize.py b/fides/minimize.py
index a082da4..cb3ec03 100644
--- a/fides/minimize.py
+++ b/fides/minimize.py
@@ -433,7 +433,8 @@ class Optimizer:
             x_new = self.x + step.s + step.s0
             # steps to the boundary can exceed it by rounding errors
             x_clip = np.clip(x_new, self.lb, self.ub)
-            eps = 1e2 * np.spacing(1) * np.maximum(np.abs(x_clip), 1.0)
+            magnitude = np.abs([x_clip, self.x, step.s0])
+            eps = 1e2 * np.spacing(1) * np.maximum(magnitude.max(axis=0), 1.0)
             rounding = np.abs(x_new - x_clip) < eps
             x_new[rounding] = x_clip[rounding]
             funout_new = self.fevaler(x_new)
-- 
2.43.0


From 2a65ffcbfb51196ca9a37c854298fadbae8042b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:17 +0000
Subject: [PATCH 38/39] fix: do not move points out of boxes that have no room
 for it

---
 fides/minimize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fides/minimize.py b/fides/minimize.py
index cb3ec03..1a3ab78 100644
--- a/fides/minimize.py
+++ b/fides/minimize.py
@@ -743,6 +743,8 @@ class Optimizer:
         ):
             upperi = (self.ub - self.x) < eps
             loweri = (self.x - self.lb) < eps
+            # if bounds (nearly) coincide, there is no room to move
+            upperi, loweri = upperi & ~loweri, loweri & ~upperi
             self.x[upperi] = self.x[upperi] - eps[upperi]
             self.x[loweri] = self.x[loweri] + eps[loweri]
 
-- 
2.43.0


From 1e5d130c0938f764043c2175990b2f786257fc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:17 +0000
Subject: [PATCH 39/39] fix: refine steps of problems with variables fixed by
 their bounds

---
 fides/steps.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/fides/steps.py b/fides/steps.py
index 140b43b..00cf6ea 100644
--- a/fides/steps.py
+++ b/fides/steps.py
@@ -534,6 +534,9 @@ class RefinedStep(Step):
         self.subspace: np.ndarray = step.subspace.copy()
         self.chess: np.ndarray = step.chess.copy()
         self.cg: np.ndarray = step.cg.copy()
+        # variables that are fixed by their bounds do not constrain the step
+        fixed = scaling.diagonal() == 0
+        scale = np.where(fixed, 1.0, scaling.diagonal())
         self.constraints = [
             NonlinearConstraint(
                 fun=lambda xc: (norm(self.subspace.dot(xc)) - delta)
@@ -541,14 +544,14 @@ class RefinedStep(Step):
                 jac=lambda xc: np.expand_dims(self.subspace.dot(xc), 1).T.dot(
                     self.subspace
                 )
-                / norm(self.subspace.dot(xc)),
+                / max(norm(self.subspace.dot(xc)), np.finfo(float).tiny),
                 lb=-np.ones((1,)) * np.inf,
                 ub=np.zeros((1,)),
             ),
             LinearConstraint(
                 A=self.subspace,
-                lb=self.theta * (lb - x) / scaling.diagonal(),
-                ub=self.theta * (ub - x) / scaling.diagonal(),
+                lb=self.theta * np.where(fixed, -np.inf, (lb - x) / scale),
+                ub=self.theta * np.where(fixed, np.inf, (ub - x) / scale),
             ),
         ]
         self.guess: np.ndarray = step.sc.copy()
-- 
2.43.0

