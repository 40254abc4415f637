From 011a67c4cd6584c165fc044df6724aea7d071001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:30 +0000
Subject: [PATCH 01/17] fix: save the final value exactly once when using
 SaveAt(steps=..., t1=...)

When no step was accepted (t0 == t1, an event at t0, or every step rejected) then
SaveAt(steps=n, t1=True) saved nothing at all; and with an event with a root finder that
does not trigger (or a boolean event) SaveAt(steps=n) saved the final value twice.
---
 diffrax/_integrate.py | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/diffrax/_integrate.py b/diffrax/_integrate.py
index 8241fa9..6187639 100644
--- a/diffrax/_integrate.py
+++ b/diffrax/_integrate.py
@@ -849,25 +849,27 @@ def loop(
             # We're not saving the final value via `steps`,
             # so we might need to save it via `t1`.
             t1_saved_via_steps = False
-        elif subsaveat.steps == 1:
-            # We're definitely saving the final value via `steps`,
-            # so we can skip saving it via `t1`.
-            t1_saved_via_steps = True
         else:
             # We might be saving the final value via `steps`,
-            # so we might need to save it via `t1`.
-            t1_saved_via_steps = final_state.num_accepted_steps % subsaveat.steps == 0
-        if event is None or event.root_finder is None:
-            if type(t1_saved_via_steps) is bool:
-                t1_not_saved_via_steps = not t1_saved_via_steps
-            else:
-                t1_not_saved_via_steps = jnp.logical_not(t1_saved_via_steps)
-            pred = subsaveat.t1 & t1_not_saved_via_steps
+            # so we might need to save it via `t1`. (Note that nothing has been saved
+            # via `steps` if we did not accept any steps at all.)
+            t1_saved_via_steps = (
+                final_state.num_accepted_steps % subsaveat.steps == 0
+            ) & (final_state.num_accepted_steps > 0)
+        if type(t1_saved_via_steps) is bool:
+            pred = subsaveat.t1
         else:
-            # If we're using an event with a root finder, and are saving steps,
-            # then we need to write the final value here because we deleted the
-            # last value after the event time above.
-            pred = subsaveat.t1 | t1_saved_via_steps
+            if event is None or event.root_finder is None:
+                deleted_via_event = False
+            else:
+                # If we're using an event with a root finder, and are saving steps,
+                # then we need to write the final value here if we deleted the last
+                # value after the event time above.
+                deleted_via_event = final_state.tprev > tfinal
+            if subsaveat.t1 or deleted_via_event is not False:
+                pred = jnp.where(t1_saved_via_steps, deleted_via_event, subsaveat.t1)
+            else:
+                pred = False
         if pred is not False:
             save_state = _save(
                 tfinal, yfinal, args, subsaveat.fn, save_state, repeat=1, pred=pred
-- 
2.43.0


From 4e1f3347edb125e3956810a2c0ed01ccb76cbba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:56 +0000
Subject: [PATCH 02/17] fix: event functions see the original time when
 integrating backwards in time

When t1 < t0 the event functions were called with the internal (negated) time.
---
 diffrax/_integrate.py | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/diffrax/_integrate.py b/diffrax/_integrate.py
index 6187639..4915126 100644
--- a/diffrax/_integrate.py
+++ b/diffrax/_integrate.py
@@ -114,6 +114,28 @@ def _is_none(x: Any) -> bool:
     return x is None
 
 
+class _DirectionCondFn(eqx.Module):
+    # Internally we always integrate forwards in time (c.f. `WrapTerm`). This undoes that
+    # normalisation, so that event functions see the original times and terms.
+    cond_fn: Callable
+    direction: IntScalarLike
+
+    def __call__(self, t, y, args, *, terms, t0, t1, dt0, **kwargs):
+        terms = jtu.tree_map(
+            lambda x: x.term, terms, is_leaf=lambda x: isinstance(x, WrapTerm)
+        )
+        return self.cond_fn(
+            t * self.direction,
+            y,
+            args,
+            terms=terms,
+            t0=t0 * self.direction,
+            t1=t1 * self.direction,
+            dt0=None if dt0 is None else dt0 * self.direction,
+            **kwargs,
+        )
+
+
 class TermAndSolverIncompatible(ValueError):
     pass
 
@@ -1248,6 +1270,17 @@ def diffeqsolve(
 
     saveat = jtu.tree_map(_subsaveat_direction_fn, saveat, is_leaf=_is_subsaveat)
 
+    if event is not None:
+        event = eqx.tree_at(
+            lambda e: e.cond_fn,
+            event,
+            jtu.tree_map(
+                lambda fn: _DirectionCondFn(fn, direction),
+                event.cond_fn,
+                is_leaf=callable,
+            ),
+        )
+
     # Initialise states
     tprev = t0
     error_order = solver.error_order(terms)
-- 
2.43.0


From dd752f37bbc65519243a179e24e89286d327762b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:01 +0000
Subject: [PATCH 03/17] fix: pad Solution.ts with inf after an event when
 integrating backwards in time

Entries of Solution.ts after the event were -inf, rather than inf, if t1 < t0.
---
 diffrax/_integrate.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/diffrax/_integrate.py b/diffrax/_integrate.py
index 4915126..37074ad 100644
--- a/diffrax/_integrate.py
+++ b/diffrax/_integrate.py
@@ -1512,8 +1512,11 @@ def diffeqsolve(
 
     progress_meter.close(final_state.progress_meter_state)
     is_save_state = lambda x: isinstance(x, SaveState)
+    # Unused entries are always `inf`, regardless of the direction of integration.
     ts = jtu.tree_map(
-        lambda s: s.ts * direction, final_state.save_state, is_leaf=is_save_state
+        lambda s: jnp.where(jnp.isinf(s.ts), jnp.inf, s.ts * direction),
+        final_state.save_state,
+        is_leaf=is_save_state,
     )
     ys = jtu.tree_map(lambda s: s.ys, final_state.save_state, is_leaf=is_save_state)
 
-- 
2.43.0


From 5eb462bf2bad323766c7e7a9576a803a157ba074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:33 +0000
Subject: [PATCH 04/17] fix: increments of interpolations of PyTrees

evaluate(t0, t1) on the linear, cubic and dense interpolations (and so
Solution.evaluate(t0, t1)) raised a TypeError if the interpolated value was not a
single array.
---
 diffrax/_global_interpolation.py | 12 +++++++++---
 diffrax/_local_interpolation.py  |  4 ++--
 diffrax/_solver/dopri8.py        |  2 +-
 diffrax/_solver/kencarp3.py      |  2 +-
 diffrax/_solver/tsit5.py         |  2 +-
 5 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/diffrax/_global_interpolation.py b/diffrax/_global_interpolation.py
index 278d7c5..c0fb44b 100644
--- a/diffrax/_global_interpolation.py
+++ b/diffrax/_global_interpolation.py
@@ -131,7 +131,9 @@ class LinearInterpolation(AbstractGlobalInterpolation):
         """
 
         if t1 is not None:
-            return self.evaluate(t1, left=left) - self.evaluate(t0, left=left)
+            return (
+                self.evaluate(t1, left=left) ** ω - self.evaluate(t0, left=left) ** ω
+            ).ω
         index, fractional_part = self._interpret_t(t0, left)
 
         def _index(_ys):
@@ -253,7 +255,9 @@ class CubicInterpolation(AbstractGlobalInterpolation):
         """
 
         if t1 is not None:
-            return self.evaluate(t1, left=left) - self.evaluate(t0, left=left)
+            return (
+                self.evaluate(t1, left=left) ** ω - self.evaluate(t0, left=left) ** ω
+            ).ω
         index, frac = self._interpret_t(t0, left)
 
         d, c, b, a = self.coeffs
@@ -344,7 +348,9 @@ class DenseInterpolation(AbstractGlobalInterpolation):
         self, t0: RealScalarLike, t1: RealScalarLike | None = None, left: bool = True
     ) -> PyTree[Shaped[Array, "?*shape"], "Y"]:
         if t1 is not None:
-            return self.evaluate(t1, left=left) - self.evaluate(t0, left=left)
+            return (
+                self.evaluate(t1, left=left) ** ω - self.evaluate(t0, left=left) ** ω
+            ).ω
         t = t0 * self.direction
         t_bounded = self._nan_if_out_of_bounds(t)
         out = self._get_local_interpolation(t_bounded, left).evaluate(
diff --git a/diffrax/_local_interpolation.py b/diffrax/_local_interpolation.py
index 1f35d1d..70219c2 100644
--- a/diffrax/_local_interpolation.py
+++ b/diffrax/_local_interpolation.py
@@ -81,7 +81,7 @@ class ThirdOrderHermitePolynomialInterpolation(AbstractLocalInterpolation):
     ) -> PyTree[Array]:
         del left
         if t1 is not None:
-            return self.evaluate(t1) - self.evaluate(t0)
+            return (self.evaluate(t1) ** ω - self.evaluate(t0) ** ω).ω
 
         t = linear_rescale(self.t0, t0, self.t1)
 
@@ -128,7 +128,7 @@ class FourthOrderPolynomialInterpolation(AbstractLocalInterpolation):
     ) -> PyTree[Array]:
         del left
         if t1 is not None:
-            return self.evaluate(t1) - self.evaluate(t0)
+            return (self.evaluate(t1) ** ω - self.evaluate(t0) ** ω).ω
 
         t = linear_rescale(self.t0, t0, self.t1)
 
diff --git a/diffrax/_solver/dopri8.py b/diffrax/_solver/dopri8.py
index 958d881..0f38e7a 100644
--- a/diffrax/_solver/dopri8.py
+++ b/diffrax/_solver/dopri8.py
@@ -296,7 +296,7 @@ class _Dopri8Interpolation(AbstractLocalInterpolation):
     ) -> Y:
         del left
         if t1 is not None:
-            return self.evaluate(t1) - self.evaluate(t0)
+            return (self.evaluate(t1) ** ω - self.evaluate(t0) ** ω).ω
         t = linear_rescale(self.t0, t0, self.t1)
         coeffs = _vmap_polyval(jnp.asarray(self.eval_coeffs, dtype=t.dtype), t) * t
         with jax.numpy_dtype_promotion("standard"):
diff --git a/diffrax/_solver/kencarp3.py b/diffrax/_solver/kencarp3.py
index cda0448..6bcb8d4 100644
--- a/diffrax/_solver/kencarp3.py
+++ b/diffrax/_solver/kencarp3.py
@@ -112,7 +112,7 @@ class KenCarpInterpolation(AbstractLocalInterpolation):
     ) -> PyTree:
         del left
         if t1 is not None:
-            return self.evaluate(t1) - self.evaluate(t0)
+            return (self.evaluate(t1) ** ω - self.evaluate(t0) ** ω).ω
 
         t = linear_rescale(self.t0, t0, self.t1)
         explicit_k, implicit_k = self.k
diff --git a/diffrax/_solver/tsit5.py b/diffrax/_solver/tsit5.py
index 7dc7a14..789e9ce 100644
--- a/diffrax/_solver/tsit5.py
+++ b/diffrax/_solver/tsit5.py
@@ -118,7 +118,7 @@ class _Tsit5Interpolation(AbstractLocalInterpolation):
     ) -> Y:
         del left
         if t1 is not None:
-            return self.evaluate(t1) - self.evaluate(t0)
+            return (self.evaluate(t1) ** ω - self.evaluate(t0) ** ω).ω
 
         t = linear_rescale(self.t0, t0, self.t1)
 
-- 
2.43.0


From e092e942a9b19e0f68bf0e15fbe14764c6e35655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:45 +0000
Subject: [PATCH 05/17] fix: an event does not mask a failure occurring on the
 same step

---
 diffrax/_integrate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/diffrax/_integrate.py b/diffrax/_integrate.py
index 37074ad..6fd7003 100644
--- a/diffrax/_integrate.py
+++ b/diffrax/_integrate.py
@@ -648,8 +648,9 @@ def loop(
                 event_mask_leaves.append(event_mask_i & jnp.invert(had_event))
                 had_event = event_mask_i | had_event
             event_mask = jtu.tree_unflatten(event_structure, event_mask_leaves)
+            # Do not let an event mask a failure on the same step.
             result = RESULTS.where(
-                had_event,
+                had_event & is_okay(result),
                 RESULTS.event_occurred,
                 result,
             )
-- 
2.43.0


From 0d691d88d22311f6237e615aebd93f1d21f1ce7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:52 +0000
Subject: [PATCH 06/17] fix: constant steps have length dt0 when dt0 does not
 divide the interval

---
 diffrax/_step_size_controller/constant.py | 28 +++++++++++------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/diffrax/_step_size_controller/constant.py b/diffrax/_step_size_controller/constant.py
index 0225286..dc93116 100644
--- a/diffrax/_step_size_controller/constant.py
+++ b/diffrax/_step_size_controller/constant.py
@@ -11,9 +11,9 @@ from .._term import AbstractTerm
 from .base import AbstractStepSizeController
 
 
-# ConstantStepSizeState = (steps_completed, num_steps, t0_sim, t1_sim_or_dt0)
+# ConstantStepSizeState = (steps_completed, num_steps, t0_sim, t1_sim, dt0)
 _ConstantStepSizeState = tuple[
-    IntScalarLike, IntScalarLike, RealScalarLike, RealScalarLike
+    IntScalarLike, IntScalarLike, RealScalarLike, RealScalarLike, RealScalarLike
 ]
 
 
@@ -51,8 +51,7 @@ class ConstantStepSize(
         # Use `num_steps=-1` as a marker to indicate that `diffeqsolve(..., t1=...)` is
         # infinite.
         num_steps = jnp.where(jnp.isfinite(t1), num_steps, -1)
-        t1_sim_or_dt0 = jnp.where(jnp.isfinite(t1), t1, dt0)
-        return t0 + dt0, (steps_completed, num_steps, t0, t1_sim_or_dt0)
+        return t0 + dt0, (steps_completed, num_steps, t0, t1, dt0)
 
     def adapt_step_size(
         self,
@@ -73,33 +72,32 @@ class ConstantStepSize(
         RESULTS,
     ]:
         del t0, y0, y1_candidate, args, y_error, error_order
-        steps_already_completed, num_steps, t0_sim, t1_sim_or_dt0 = controller_state
+        steps_already_completed, num_steps, t0_sim, t1_sim, dt0 = controller_state
         # Number of steps that will be completed when this function returns.
         steps_completed = steps_already_completed + 1
 
-        # Calculate step size by calculating fraction of `t1 - t0` -- rather than just
+        # Calculate the end of the step as a multiple of `dt0` -- rather than just
         # adding up `dt0` multiple times -- to avoid compounding of truncation/rounding
         # errors.
-        time_dtype = jnp.result_type(t0_sim, t1_sim_or_dt0)
-        t1_next = t0_sim + (t1_sim_or_dt0 - t0_sim) * (
-            jnp.astype(steps_completed, time_dtype) / jnp.astype(num_steps, time_dtype)
-        )
+        time_dtype = jnp.result_type(t0_sim, t1_sim, dt0)
+        t1_next = t0_sim + dt0 * jnp.astype(steps_completed, time_dtype)
 
-        # If we're on the final step then use `t1` directly, this time to avoid
-        # floating-point weirdness in the above. (Not sure if necessary?)
-        t1_next = jnp.where(steps_completed == num_steps, t1_sim_or_dt0, t1_next)
+        # If we're on the final step then use `t1` directly: the final step may be
+        # smaller than `dt0`, and this also avoids floating-point weirdness in the
+        # above.
+        t1_next = jnp.where(steps_completed == num_steps, t1_sim, t1_next)
 
         # If `num_steps == -1` then we use that as a marker to indicate that we have an
         # infinite `diffeqsolve(..., t1=...)`. In this case then never mind everything
         # above, we really do just want to keep adding on `dt0` multiple times.
-        t1_next = jnp.where(num_steps >= 0, t1_next, t1 + t1_sim_or_dt0)
+        t1_next = jnp.where(num_steps >= 0, t1_next, t1 + dt0)
 
         return (
             True,
             t1,
             t1_next,
             False,
-            (steps_completed, num_steps, t0_sim, t1_sim_or_dt0),
+            (steps_completed, num_steps, t0_sim, t1_sim, dt0),
             RESULTS.successful,
         )
 
-- 
2.43.0


From 9a35b33d2492ffe2a6328dca920136130041da43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:52 +0000
Subject: [PATCH 07/17] fix: step size does not become NaN after a candidate
 overflows to infinity

---
 diffrax/_step_size_controller/pid.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/diffrax/_step_size_controller/pid.py b/diffrax/_step_size_controller/pid.py
index 752b9be..812b91b 100644
--- a/diffrax/_step_size_controller/pid.py
+++ b/diffrax/_step_size_controller/pid.py
@@ -482,9 +482,9 @@ class PIDController(
 
         def _scale(_y0, _y1_candidate, _y_error):
             # In case the solver steps into a region for which the vector field isn't
-            # defined.
-            _nan = jnp.isnan(_y1_candidate).any()
-            _y1_candidate = jnp.where(_nan, _y0, _y1_candidate)
+            # defined, or overflows.
+            _nonfinite = jnp.invert(jnp.isfinite(_y1_candidate)).any()
+            _y1_candidate = jnp.where(_nonfinite, _y0, _y1_candidate)
             _y = jnp.maximum(jnp.abs(_y0), jnp.abs(_y1_candidate))
             with jax.numpy_dtype_promotion("standard"):
                 return _y_error / (self.atol + _y * self.rtol)
-- 
2.43.0


From db16ad4b9f9c2dee14174313229298e60decc72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:22 +0000
Subject: [PATCH 08/17] fix: Midpoint and Ralston have second order dense
 output, as documented

---
 diffrax/_local_interpolation.py | 17 +++++++++++++++++
 diffrax/_solver/midpoint.py     |  2 +-
 diffrax/_solver/ralston.py      |  2 +-
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/diffrax/_local_interpolation.py b/diffrax/_local_interpolation.py
index 70219c2..5319824 100644
--- a/diffrax/_local_interpolation.py
+++ b/diffrax/_local_interpolation.py
@@ -76,6 +76,23 @@ class ThirdOrderHermitePolynomialInterpolation(AbstractLocalInterpolation):
     ):
         return cls(t0=t0, t1=t1, y0=y0, y1=y1, k0=ω(k)[0].ω, k1=ω(k)[-1].ω)
 
+    @classmethod
+    def from_k0(
+        cls,
+        *,
+        t0: RealScalarLike,
+        t1: RealScalarLike,
+        y0: PyTree[Shaped[ArrayLike, " ?*dims"], "Y"],
+        y1: PyTree[Shaped[ArrayLike, " ?*dims"], "Y"],
+        k: PyTree[Shaped[Array, "order ?*dims"], "Y"],
+    ):
+        # For solvers whose final stage is not located at the end of the step, so that
+        # `k[-1]` isn't an endpoint slope. Use just `y0`, `y1` and `k[0]`, i.e. quadratic
+        # interpolation.
+        k0 = ω(k)[0].ω
+        k1 = (2 * (y1**ω - y0**ω) - k0**ω).ω
+        return cls(t0=t0, t1=t1, y0=y0, y1=y1, k0=k0, k1=k1)
+
     def evaluate(
         self, t0: RealScalarLike, t1: RealScalarLike | None = None, left: bool = True
     ) -> PyTree[Array]:
diff --git a/diffrax/_solver/midpoint.py b/diffrax/_solver/midpoint.py
index a797b84..69e162a 100644
--- a/diffrax/_solver/midpoint.py
+++ b/diffrax/_solver/midpoint.py
@@ -32,7 +32,7 @@ class Midpoint(AbstractERK, AbstractStratonovichSolver):
     tableau: ClassVar[ButcherTableau] = _midpoint_tableau
     interpolation_cls: ClassVar[
         Callable[..., ThirdOrderHermitePolynomialInterpolation]
-    ] = ThirdOrderHermitePolynomialInterpolation.from_k
+    ] = ThirdOrderHermitePolynomialInterpolation.from_k0
 
     def order(self, terms):
         del terms
diff --git a/diffrax/_solver/ralston.py b/diffrax/_solver/ralston.py
index 098af35..7237ffb 100644
--- a/diffrax/_solver/ralston.py
+++ b/diffrax/_solver/ralston.py
@@ -38,7 +38,7 @@ class Ralston(AbstractERK, AbstractStratonovichSolver):
     tableau: ClassVar[ButcherTableau] = _ralston_tableau
     interpolation_cls: ClassVar[
         Callable[..., ThirdOrderHermitePolynomialInterpolation]
-    ] = ThirdOrderHermitePolynomialInterpolation.from_k
+    ] = ThirdOrderHermitePolynomialInterpolation.from_k0
 
     def order(self, terms):
         del terms
-- 
2.43.0


From bf086ffa0019376fe3e15447630e5657c0282b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:25 +0000
Subject: [PATCH 09/17] fix: replace_nans_at_start only replaces missing values
 in backward_hermite_coefficients

---
 diffrax/_global_interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diffrax/_global_interpolation.py b/diffrax/_global_interpolation.py
index c0fb44b..4d81c35 100644
--- a/diffrax/_global_interpolation.py
+++ b/diffrax/_global_interpolation.py
@@ -697,7 +697,7 @@ def _backward_hermite_coefficients(
     if replace_nans_at_start is None:
         y0 = ys[0]
     else:
-        y0 = jnp.broadcast_to(replace_nans_at_start, ys[0].shape)
+        y0 = jnp.where(jnp.isnan(ys[0]), replace_nans_at_start, ys[0])
     if deriv0 is None:
         with jax.numpy_dtype_promotion("standard"):
             deriv0 = (next_ys[0] - y0) / (next_ts[0] - t0)
-- 
2.43.0


From 0d216bbbafcf42b068130b05ebd84c5f14b28f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:13 +0000
Subject: [PATCH 10/17] fix: fill_forward_nans_at_end when only the first value
 is observed in backward_hermite_coefficients

---
 diffrax/_global_interpolation.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/diffrax/_global_interpolation.py b/diffrax/_global_interpolation.py
index 4d81c35..81c105a 100644
--- a/diffrax/_global_interpolation.py
+++ b/diffrax/_global_interpolation.py
@@ -690,14 +690,13 @@ def _backward_hermite_coefficients(
         _interpolation_reverse, (ts[-1], ys[-1]), (ts[1:], ys[1:]), reverse=True
     )
 
-    if fill_forward_nans_at_end:
-        next_ys = fill_forward(next_ys)
-
     t0 = ts[0]
     if replace_nans_at_start is None:
         y0 = ys[0]
     else:
         y0 = jnp.where(jnp.isnan(ys[0]), replace_nans_at_start, ys[0])
+    if fill_forward_nans_at_end:
+        next_ys = fill_forward(next_ys, y0)
     if deriv0 is None:
         with jax.numpy_dtype_promotion("standard"):
             deriv0 = (next_ys[0] - y0) / (next_ts[0] - t0)
-- 
2.43.0


From 631676f86a2805870f46861e981ec1e063629dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:43 +0000
Subject: [PATCH 11/17] fix: VirtualBrownianTree rescales the dt of every leaf,
 not of the first one only

---
 diffrax/_brownian/tree.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/diffrax/_brownian/tree.py b/diffrax/_brownian/tree.py
index 8a43066..d6e6b6e 100644
--- a/diffrax/_brownian/tree.py
+++ b/diffrax/_brownian/tree.py
@@ -314,9 +314,9 @@ class VirtualBrownianTree(AbstractBrownianPath):
             dtype = jnp.result_type(z)
             return jnp.astype(sqrt_len, dtype) * z
 
-        def is_dt(z):
-            return z is x.dt
-
+        # `x.dt` is a PyTree if `self.shape` is.
+        is_dt = jtu.tree_map(lambda _: False, x)
+        is_dt = eqx.tree_at(lambda y: y.dt, is_dt, jtu.tree_map(lambda _: True, x.dt))
         dt, other = eqx.partition(x, is_dt)
         dt_normalized = jtu.tree_map(mult, dt)
         other_normalized = jtu.tree_map(sqrt_mult, other)
-- 
2.43.0


From ef19fd3b62ea3143c4229235f741d6aa7f21d4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:43 +0000
Subject: [PATCH 12/17] fix: Langevin solvers without FSAL accept a traced
 made_jump

---
 diffrax/_solver/foster_langevin_srk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diffrax/_solver/foster_langevin_srk.py b/diffrax/_solver/foster_langevin_srk.py
index ea1026f..9c09770 100644
--- a/diffrax/_solver/foster_langevin_srk.py
+++ b/diffrax/_solver/foster_langevin_srk.py
@@ -404,7 +404,7 @@ class AbstractFosterLangevinSRK(
             )
 
         x0, v0 = y0
-        if made_jump is False:
+        if made_jump is False or not self._is_fsal:
             prev_f = st.prev_f
         else:
             prev_f = lax.cond(
-- 
2.43.0


From 899d04901c0ed7b682e7894671504a004743636e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:43 +0000
Subject: [PATCH 13/17] fix: SRK solvers use the drift's control, so that they
 solve backward in time

---
 diffrax/_solver/srk.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/diffrax/_solver/srk.py b/diffrax/_solver/srk.py
index ddb0309..b2cb9c1 100644
--- a/diffrax/_solver/srk.py
+++ b/diffrax/_solver/srk.py
@@ -362,6 +362,8 @@ class AbstractSRK(AbstractSolver[_SolverState]):
 
         # time increment
         h = t1 - t0
+        # control for the drift (which differs from `h` if solving backwards in time)
+        drift_control = drift.contr(t0, t1)
 
         # First the drift related stuff
         a = self._embed_a_lower(self.tableau.a, dtype)
@@ -545,7 +547,7 @@ class AbstractSRK(AbstractSolver[_SolverState]):
             z_j = (y0**ω + _drift_result**ω + _diffusion_result**ω).ω
 
             def compute_and_insert_kf_j(_h_kfs_in):
-                h_kf_j = drift.vf_prod(t0 + c_j * h, z_j, args, h)
+                h_kf_j = drift.vf_prod(t0 + c_j * h, z_j, args, drift_control)
                 return insert_jth_stage(_h_kfs_in, h_kf_j, j)
 
             if ignore_stage_f is None:
-- 
2.43.0


From ec7805f0222b1b9dbcde7bbdb7d270ba9483287e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:43 +0000
Subject: [PATCH 14/17] fix: space-time Levy area keeps its sign under time
 reversal in WrapTerm

---
 diffrax/_term.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/diffrax/_term.py b/diffrax/_term.py
index 9b0c031..1b89fc4 100644
--- a/diffrax/_term.py
+++ b/diffrax/_term.py
@@ -17,6 +17,7 @@ from jaxtyping import Array, ArrayLike, PyTree, Shaped
 from ._brownian import AbstractBrownianPath
 from ._custom_types import (
     AbstractBrownianIncrement,
+    AbstractSpaceTimeLevyArea,
     Args,
     Control,
     IntScalarLike,
@@ -742,7 +743,14 @@ class WrapTerm(AbstractTerm[_VF, _Control]):
     def contr(self, t0: RealScalarLike, t1: RealScalarLike, **kwargs) -> _Control:
         _t0 = jnp.where(self.direction == 1, t0, -t1)
         _t1 = jnp.where(self.direction == 1, t1, -t0)
-        return (self.direction * self.term.contr(_t0, _t1, **kwargs) ** ω).ω
+        contr = self.term.contr(_t0, _t1, **kwargs)
+        out = (self.direction * contr**ω).ω
+        if isinstance(contr, AbstractSpaceTimeLevyArea):
+            # The time-reversal of a Brownian motion has the same space-time Lévy area,
+            # as this is an average of its deviation from its chord. (Whilst its
+            # increment and its space-time-time Lévy area change sign.)
+            out = eqx.tree_at(lambda x: x.H, out, contr.H)
+        return out
 
     def prod(self, vf: _VF, control: _Control) -> Y:
         with jax.numpy_dtype_promotion("standard"):
-- 
2.43.0


From b915cbf78a7ca76dc4054334b2c23043276231e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:56 +0000
Subject: [PATCH 15/17] fix: gradient with respect to t1 when t0 + dt0 == t1

---
 diffrax/_integrate.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/diffrax/_integrate.py b/diffrax/_integrate.py
index 6fd7003..b966d0b 100644
--- a/diffrax/_integrate.py
+++ b/diffrax/_integrate.py
@@ -1298,7 +1298,9 @@ def diffeqsolve(
             )
         else:
             tnext = t0 + dt0
-    tnext = jnp.minimum(tnext, t1)
+    # Not `jnp.minimum`: if `t0 + dt0 == t1` then that would assign half of the gradient
+    # with respect to `t1` to `t0` and `dt0`.
+    tnext = jnp.where(tnext >= t1, t1, tnext)
     if solver_state is None:
         passed_solver_state = False
         solver_state = solver.init(terms, t0, tnext, y0, args)
-- 
2.43.0


From 73a55067a988c8fe71d4b1bb84e4b10281e9f37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:56 +0000
Subject: [PATCH 16/17] fix: ImplicitAdjoint accepts tags that imply a square
 Jacobian

---
 diffrax/_adjoint.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/diffrax/_adjoint.py b/diffrax/_adjoint.py
index 7bc081b..c4c5011 100644
--- a/diffrax/_adjoint.py
+++ b/diffrax/_adjoint.py
@@ -417,7 +417,9 @@ def _vf(ys, residual, inputs):
 
     y = jtu.tree_map(_unpack, ys)
     args, terms, _, _, solver, _, _ = inputs
-    return solver.func(terms, t, y, args)
+    vf = solver.func(terms, t, y, args)
+    # Same structure as `ys`, as is required by `tags` like `lineax.diagonal_tag`.
+    return jtu.tree_map(lambda x: x[None], vf)
 
 
 def _solve(inputs):
-- 
2.43.0


From b2c4428ae8987eb9b2f9cebbec215cf09a548ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:05 +0000
Subject: [PATCH 17/17] fix: interpolation refuses times that are not a number,
 as it documents

---
 diffrax/_global_interpolation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/diffrax/_global_interpolation.py b/diffrax/_global_interpolation.py
index 81c105a..902c67a 100644
--- a/diffrax/_global_interpolation.py
+++ b/diffrax/_global_interpolation.py
@@ -411,7 +411,9 @@ def _check_ts(ts: Real[Array, " times"]) -> Real[Array, " times"]:
         raise ValueError(f"`ts` must be of length at least 2; got {ts.shape[0]}")
     # Also catches any NaN times.
     ts = eqxi.error_if(
-        ts, ts[:-1] >= ts[1:], "`ts` must be monotonically strictly increasing."
+        ts,
+        jnp.invert(ts[:-1] < ts[1:]),
+        "`ts` must be monotonically strictly increasing.",
     )
     return ts
 
-- 
2.43.0

