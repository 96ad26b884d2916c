From c4bbfc38e531db9a7cd433dd5565b8b15ef94c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:57 +0000
Subject: [PATCH 1/5] fix: evaluate ODE dynamics at the times of the step being
 taken

odeint passed the end of the interval as the start time of the step, so
time dependent dynamics were integrated over shifted intervals.
---
 magpi/ode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/ode.py b/magpi/ode.py
index 6d9fbbe..1814ce7 100644
--- a/magpi/ode.py
+++ b/magpi/ode.py
@@ -54,7 +54,7 @@ def _odeint(df, unroll, method, y, ts, *args):
     def _step(state, t):
         y, t_prev = state
         dt = t - t_prev
-        y = method(df, y, t, dt, *args)
+        y = method(df, y, t_prev, dt, *args)
         return (y, t), y
 
     _, ys = lax.scan(_step, (y, ts[0]), ts[1:], unroll=unroll)
-- 
2.43.0


From 28df58aafdcfef5b172ae7fe9baef1274c039582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:57 +0000
Subject: [PATCH 2/5] fix: never accept samples with NaN or zero density in
 rejection sampling

The comparison let NaN densities through, and zero densities whenever the
uniform draw is exactly 0.
---
 magpi/sampling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/magpi/sampling.py b/magpi/sampling.py
index 16d116f..734d47a 100644
--- a/magpi/sampling.py
+++ b/magpi/sampling.py
@@ -44,7 +44,8 @@ def rejection_sampling(
 
         def not_valid(state):
             _, p, sample = state
-            return p > (pdf(sample) / m)
+            # negated: a NaN density must not be accepted
+            return jnp.logical_not(p < (pdf(sample) / m))
 
         _, _, sample = lax.while_loop(not_valid, body, (key, p, sample))
         return sample
-- 
2.43.0


From 0107625b51619e43801ec78b1c3d800803699ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:57 +0000
Subject: [PATCH 3/5] fix: shrink the trust region if the objective is NaN at
 the trial point

The step was rejected but the radius kept, so that the very same step was
tried over and over again.
---
 magpi/tr.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/magpi/tr.py b/magpi/tr.py
index 76037c9..935d810 100644
--- a/magpi/tr.py
+++ b/magpi/tr.py
@@ -162,6 +162,8 @@ class TR(jaxopt_base.IterativeSolver):
             nom = old_value - value
             denom = -(tree_vdot(old_grad, p) + 1 / 2 * tree_vdot(p, hvp(p)))
             rho = (nom) / (denom)
+            # a failed evaluation is a failed step
+            rho = jnp.where(jnp.isnan(value), -jnp.inf, rho)
             tr_radius = update_tr_radius(
                 state.tr_radius,
                 self.max_tr_radius,
-- 
2.43.0


From 6cb5644965f72f4d06cdb0b4e7492af57e153f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:57 +0000
Subject: [PATCH 4/5] fix: do not carry a NaN subproblem tolerance over to
 later steps

After one NaN gradient the steihaug tolerance stayed NaN for the rest of the
optimisation.
---
 magpi/tr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/magpi/tr.py b/magpi/tr.py
index 935d810..3fba1e2 100644
--- a/magpi/tr.py
+++ b/magpi/tr.py
@@ -140,7 +140,8 @@ class TR(jaxopt_base.IterativeSolver):
         unroll = self._get_unroll_option()
         norm_df = tree_l2_norm(old_grad)
         eps = jnp.minimum(1 / 2, norm_df ** self.forcing_parameter) * norm_df
-        eps = jnp.minimum(state.subproblem_result.eps, eps)
+        # fmin: a NaN gradient must not stick to the tolerance of all later steps
+        eps = jnp.fmin(state.subproblem_result.eps, eps)
         eps = jnp.maximum(self.tol, eps)
         steihaug_result = steihaug(
             old_grad,
-- 
2.43.0


From aa2db1d859f9bba4b81763b31afc4d6f8142fb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:10 +0000
Subject: [PATCH 5/5] fix: reject steps for which the model predicts an
 increase

With inexact curvature products both the predicted and the actual reduction
can be negative. Their ratio is then positive and the step which increases
the objective was accepted.
---
 magpi/tr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/magpi/tr.py b/magpi/tr.py
index 3fba1e2..6df22fe 100644
--- a/magpi/tr.py
+++ b/magpi/tr.py
@@ -163,8 +163,8 @@ class TR(jaxopt_base.IterativeSolver):
             nom = old_value - value
             denom = -(tree_vdot(old_grad, p) + 1 / 2 * tree_vdot(p, hvp(p)))
             rho = (nom) / (denom)
-            # a failed evaluation is a failed step
-            rho = jnp.where(jnp.isnan(value), -jnp.inf, rho)
+            # a failed evaluation or a predicted increase is a failed step
+            rho = jnp.where(jnp.isnan(value) | (denom < 0), -jnp.inf, rho)
             tr_radius = update_tr_radius(
                 state.tr_radius,
                 self.max_tr_radius,
-- 
2.43.0

