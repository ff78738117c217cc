From 90f70f495751dd1f289b48d28c832a72be39cccb Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:01:41 +0000
Subject: [PATCH 01/30] fix: start multistep methods at t0 + h, t0 + 2h, ...
 also when t0 is not 0

---
 nbkode/multistep/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nbkode/multistep/core.py b/nbkode/multistep/core.py
index a21c9a3..4c239cd 100644
--- a/nbkode/multistep/core.py
+++ b/nbkode/multistep/core.py
@@ -58,9 +58,9 @@ class Multistep(Solver, abstract=True):
                 solver.step()
                 self.cache.push(solver.t, solver.y, solver.f)
         else:
-            # For variable step solver we run N times until h, 2h, 3h .. (ORDER - 1)h
+            # For variable step solver we run N times until t0 + h, t0 + 2h, .. t0 + (ORDER - 1)h
             solver = first_stepper_cls(self.rhs, self.t, self.y)
-            ts, ys = solver.run(np.arange(1, self.ORDER) * self.h)
+            ts, ys = solver.run(self.t + np.arange(1, self.ORDER) * self.h)
             for t, y in zip(ts, ys):
                 self.cache.push(t, y, self.rhs(t, y))
 
-- 
2.43.0


From 74890e9267d7bd1982c60628b635abc74aed0d2e Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:01:41 +0000
Subject: [PATCH 02/30] fix: order the Adams coefficients as the history is,
 oldest first

---
 nbkode/multistep/adams_bashforth.py | 8 ++++----
 nbkode/multistep/adams_moulton.py   | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/nbkode/multistep/adams_bashforth.py b/nbkode/multistep/adams_bashforth.py
index 3ad8670..a27778f 100644
--- a/nbkode/multistep/adams_bashforth.py
+++ b/nbkode/multistep/adams_bashforth.py
@@ -28,7 +28,7 @@ class AdamsBashforth2(AdamsBashforth):
         u[n+1] = u[n] + h * (3/2 *f(u[n], t[n]) - 1/2 * f(u[n-1], t[n-1]))
     """
 
-    B = np.array([3, -1]) / 2
+    B = np.array([-1, 3]) / 2
 
 
 class AdamsBashforth3(AdamsBashforth):
@@ -41,7 +41,7 @@ class AdamsBashforth3(AdamsBashforth):
 
     """
 
-    B = np.array([23, -16, 5]) / 12
+    B = np.array([5, -16, 23]) / 12
 
 
 class AdamsBashforth4(AdamsBashforth):
@@ -54,8 +54,8 @@ class AdamsBashforth4(AdamsBashforth):
 
     """
 
-    B = np.array([55, -59, 37, -9]) / 24
+    B = np.array([-9, 37, -59, 55]) / 24
 
 
 class AdamsBashforth5(AdamsBashforth):
-    B = np.array([1901, -2774, 2616, -1274, 251]) / 720
+    B = np.array([251, -1274, 2616, -2774, 1901]) / 720
diff --git a/nbkode/multistep/adams_moulton.py b/nbkode/multistep/adams_moulton.py
index 60fa9df..5af187c 100644
--- a/nbkode/multistep/adams_moulton.py
+++ b/nbkode/multistep/adams_moulton.py
@@ -47,10 +47,10 @@ class AdamsMoulton3(AdamsMoulton):
 
 
 class AdamsMoulton4(AdamsMoulton):
-    B = np.array([19, -5, 1]) / 24
+    B = np.array([1, -5, 19]) / 24
     Bn = 9 / 24
 
 
 class AdamsMoulton5(AdamsMoulton):
-    B = np.array([646, -264, 106, -19]) / 720
+    B = np.array([-19, 106, -264, 646]) / 720
     Bn = 251 / 720
-- 
2.43.0


From 1d4ac874ea7762d9b6736c0a5122cc55e21df11a Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:01:41 +0000
Subject: [PATCH 03/30] fix: report explicit multistep methods as explicit,
 implicit ones as implicit

---
 docs/tutorial.rst        | 2 +-
 nbkode/multistep/core.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/docs/tutorial.rst b/docs/tutorial.rst
index e22ef4c..f9e4f6f 100644
--- a/docs/tutorial.rst
+++ b/docs/tutorial.rst
@@ -198,7 +198,7 @@ or those which are explicit:
 .. doctest::
 
    >>> nbkode.get_solvers(implicit=False)
-   (<AdamsMoulton1>, <AdamsMoulton2>, <AdamsMoulton3>, <AdamsMoulton4>, <AdamsMoulton5>, <BackwardEuler>, <BDF1>, <BDF2>, <BDF3>, <BDF4>, <BDF5>, <BDF6>, <Runge2>, <Runge3>, <Heun3>, <RungeKutta4>, <RungeKutta3_8>, <RungeKutta23>, <RungeKutta45>, <DOP853>)
+   (<AdamsBashforth1>, <AdamsBashforth2>, <AdamsBashforth3>, <AdamsBashforth4>, <AdamsBashforth5>, <ForwardEuler>, <Runge2>, <Runge3>, <Heun3>, <RungeKutta4>, <RungeKutta3_8>, <RungeKutta23>, <RungeKutta45>, <DOP853>)
 
 or those of a given group:
 
diff --git a/nbkode/multistep/core.py b/nbkode/multistep/core.py
index 4c239cd..90bba99 100644
--- a/nbkode/multistep/core.py
+++ b/nbkode/multistep/core.py
@@ -28,7 +28,7 @@ class Multistep(Solver, abstract=True):
 
     @classproperty
     def IMPLICIT(cls):
-        return cls.Bn == 0
+        return cls.Bn != 0
 
     @classproperty
     def LEN_HISTORY(cls):
-- 
2.43.0


From 67923d094b1bf86ce394dfa265a09d11efe76b1b Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:01:41 +0000
Subject: [PATCH 04/30] fix: warn instead of failing when run_events is asked
 for past timepoints

---
 nbkode/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index 82180bc..494c315 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -438,7 +438,7 @@ class Solver(ABC, metaclass=MetaSolver):
             ys = np.concatenate((y_old, ys))
 
             if events:
-                warnings.warning("Events for past events are not implemented yet.")
+                warnings.warn("Events for past events are not implemented yet.")
 
         if is_t_sorted:
             return ts, ys, t_events, y_events
-- 
2.43.0


From 1706d80b52fd80b663991e9470c57b93ee572070 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:01:50 +0000
Subject: [PATCH 05/30] fix: raise RuntimeError from step() and skip() at
 t_bound, as documented; step() returns a copy of the state

---
 nbkode/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index 494c315..eb682cc 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -246,7 +246,8 @@ class Solver(ABC, metaclass=MetaSolver):
         if n is None and upto_t is None:
             # No parameters, make one step.
             if self._step(self.t_bound, *self._step_args):
-                return np.atleast_1d(self.t), self.y
+                return np.atleast_1d(self.t), np.copy(self.y)
+            raise RuntimeError("Integrator reached t_bound.")
         elif upto_t is None:
             # Only n is given, make n steps. If t_bound is reached, raise an exception.
             ts, ys, scon = self._nsteps(n, self.t_bound, self._step, *self._step_args)
@@ -296,7 +297,8 @@ class Solver(ABC, metaclass=MetaSolver):
 
         if n is None and upto_t is None:
             # No parameters, make one step.
-            self._nskip(1, self.t_bound, self._step, *self._step_args)
+            if self._nskip(1, self.t_bound, self._step, *self._step_args):
+                raise RuntimeError("Integrator reached t_bound.")
         elif upto_t is None:
             # Only n is given, make n steps. If t_bound is reached, raise an exception.
             if self._nskip(n, self.t_bound, self._step, *self._step_args):
-- 
2.43.0


From 3b0802378647faac03a86ad8d5b37537955360f0 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:01:50 +0000
Subject: [PATCH 06/30] fix: interpolate returns a copy of a recorded state,
 not a view of the history

---
 nbkode/core.py                 | 2 +-
 nbkode/runge_kutta/explicit.py | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index eb682cc..09faca9 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -585,7 +585,7 @@ class Solver(ABC, metaclass=MetaSolver):
         """
         t0, y0 = cache.ts[0], cache.ys[0]
         if t_eval == t0:
-            return y0
+            return np.copy(y0)
 
         dt, dy = cache.t - t0, cache.y - y0
         f0, f1 = cache.fs[0], cache.f
diff --git a/nbkode/runge_kutta/explicit.py b/nbkode/runge_kutta/explicit.py
index 8a55b58..ae62fb2 100644
--- a/nbkode/runge_kutta/explicit.py
+++ b/nbkode/runge_kutta/explicit.py
@@ -370,9 +370,9 @@ class RkInterpolator:
 
     def evaluate(self, t_eval):
         if t_eval == self.cache.ts[-1]:
-            return self.cache.ys[-1]
+            return self.cache.ys[-1].copy()
         if t_eval == self.cache.ts[-2]:
-            return self.cache.ys[-2]
+            return self.cache.ys[-2].copy()
         if not self.is_before(t_eval):
             self.update()
 
@@ -450,9 +450,9 @@ class DOP853Interpolator:
 
     def evaluate(self, t_eval):
         if t_eval == self.cache.ts[-1]:
-            return self.cache.ys[-1]
+            return self.cache.ys[-1].copy()
         if t_eval == self.cache.ts[-2]:
-            return self.cache.ys[-2]
+            return self.cache.ys[-2].copy()
         if not self.is_before(t_eval):
             self.update()
 
-- 
2.43.0


From 79a1d11a9bdba3f5891331408683b6f221dd56c1 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:01:51 +0000
Subject: [PATCH 07/30] fix: DOP853 divided by zero when the error estimate is
 exactly zero

---
 nbkode/runge_kutta/explicit.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nbkode/runge_kutta/explicit.py b/nbkode/runge_kutta/explicit.py
index ae62fb2..c090571 100644
--- a/nbkode/runge_kutta/explicit.py
+++ b/nbkode/runge_kutta/explicit.py
@@ -333,7 +333,10 @@ class DOP853(FSAL):
                 err3 = step_error(h, K, E3)
                 err5 = scaled_error_norm(y, cache.y, err5, options)
                 err3 = scaled_error_norm(y, cache.y, err3, options)
-                error_norm = err5 / np.sqrt(1 + ((err3 / (10 * err5)) ** 2))
+                if err5 == 0:
+                    error_norm = 0.0
+                else:
+                    error_norm = err5 / np.sqrt(1 + ((err3 / (10 * err5)) ** 2))
                 if step_update(error_norm, h, options, error_exponent):
                     cache.push(t, y, K[-1])
                     break
-- 
2.43.0


From bb2bd95c9631809cbd3fbd2439a41f3bfbc657ed Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:03:56 +0000
Subject: [PATCH 08/30] fix: end at the earliest terminal event of a step,
 without the events after it

---
 nbkode/event_handler.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/nbkode/event_handler.py b/nbkode/event_handler.py
index 118818f..d38b883 100644
--- a/nbkode/event_handler.py
+++ b/nbkode/event_handler.py
@@ -221,14 +221,23 @@ class EventHandler:
         """
 
         terminate = False
-        min_t = -np.inf
+        min_t = np.inf
         for ndx, event in enumerate(self.events):
             if event.evaluate(interpolate, rhs, cache, *args):
                 terminate = True
                 t, y = event.last_event
-                if t > min_t:
+                if t < min_t:
+                    min_t = t
                     self.last_event = t, y
 
+        if terminate:
+            # The integration ends at the first terminal event,
+            # anything found later within this step does not happen.
+            for event in self.events:
+                if event.t and event.t[-1] > min_t:
+                    event.t.pop()
+                    event.y.pop()
+
         return terminate
 
 
-- 
2.43.0


From f5084219d2802bc9d2ae0309177d34182fba1e6f Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:03:57 +0000
Subject: [PATCH 09/30] fix: keep the requested timepoints that precede a
 terminal event

---
 nbkode/core.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index 09faca9..4c93418 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -634,19 +634,29 @@ class Solver(ABC, metaclass=MetaSolver):
     ) -> tuple[np.ndarray, np.ndarray, bool]:
         """Run up to t, evaluating y at given t and return (t, y) as arrays."""
 
-        y_out = np.empty((t_eval.size, cache.y.size))
+        # The termination value might come after all the timepoints.
+        t_out = np.empty(t_eval.size + 1)
+        y_out = np.empty((t_eval.size + 1, cache.y.size))
 
         for ndx, ti in enumerate(t_eval):
             while cache.t < ti:
                 if not step(t_bound, rhs, cache, *args):
-                    return t_eval[:ndx], y_out[:ndx], True
+                    return t_out[:ndx], y_out[:ndx], True
                 if event_handler.evaluate(interpolate, rhs, cache, *args):
+                    t_last, y_last = event_handler.last_event
+                    # Evaluate the timepoints before the termination.
+                    while ndx < t_eval.size and t_eval[ndx] < t_last:
+                        t_out[ndx] = t_eval[ndx]
+                        y_out[ndx] = interpolate(t_eval[ndx], rhs, cache, *args)
+                        ndx += 1
                     # Append termination value.
-                    t_eval[ndx], y_out[ndx] = event_handler.last_event
-                    return t_eval[: ndx + 1], y_out[: ndx + 1], True
+                    t_out[ndx] = t_last
+                    y_out[ndx] = y_last
+                    return t_out[: ndx + 1], y_out[: ndx + 1], True
+            t_out[ndx] = ti
             y_out[ndx] = interpolate(ti, rhs, cache, *args)
 
-        return t_eval, y_out, False
+        return t_out[:-1], y_out[:-1], False
 
 
 variable_step_options = (
-- 
2.43.0


From ce35fc745846c64c3611ef565d23097503bb460c Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:03:57 +0000
Subject: [PATCH 10/30] fix: run and run_events failed when stopped early with
 unsorted timepoints

---
 nbkode/core.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index 4c93418..0caafa6 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -445,7 +445,12 @@ class Solver(ABC, metaclass=MetaSolver):
         if is_t_sorted:
             return ts, ys, t_events, y_events
 
-        ondx = np.argsort(ndx)
+        # If the integration stopped before the last timepoint, there are fewer of them
+        # and the last one is the termination value if there was a terminal event.
+        n = ts.size
+        if n and (n > t.size or ts[-1] != t[n - 1]):
+            n -= 1
+        ondx = np.concatenate((np.argsort(ndx[:n]), np.arange(n, ts.size)))
         return ts[ondx], ys[ondx], t_events, y_events
 
     def interpolate(self, t: float) -> float:
-- 
2.43.0


From eae6d99771bcfca87f3a4ed8adbd82e98060c93d Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:03:57 +0000
Subject: [PATCH 11/30] fix: locate events accurately whatever the scale of the
 event function

---
 nbkode/event_handler.py  | 2 ++
 nbkode/nbcompat/zeros.py | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/nbkode/event_handler.py b/nbkode/event_handler.py
index d38b883..245dea6 100644
--- a/nbkode/event_handler.py
+++ b/nbkode/event_handler.py
@@ -152,6 +152,8 @@ class Event:
                     event_at_sol,
                     self.last_t,
                     t,
+                    # Narrow down time, the scale of the event function is unknown.
+                    tol=0.0,
                     args=(self.func, interpolate, rhs, cache, *args),
                 )
 
diff --git a/nbkode/nbcompat/zeros.py b/nbkode/nbcompat/zeros.py
index 57c938b..7cdc7a3 100644
--- a/nbkode/nbcompat/zeros.py
+++ b/nbkode/nbcompat/zeros.py
@@ -515,7 +515,7 @@ def bisect(fun, left, right, tol=1.48e-8, maxiter=50, rtol=0.0, args=()):
     yr = fun(right, *args)
     if yr == 0:
         return right
-    if not yl * yr < 0:
+    if not np.sign(yl) * np.sign(yr) < 0:
         raise ValueError(
             "In bisect, 'fun(left, *args)' must have and opposite sign to 'fun(right, *args)'."
         )
-- 
2.43.0


From c0b3ef6987ce085a874a2bfbbc4d0402f1b6c1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:03:57 +0000
Subject: [PATCH 12/30] fix: interpolate within the step that contains t, not
 across the whole history

---
 nbkode/core.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index 0caafa6..5ee290d 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -588,12 +588,17 @@ class Solver(ABC, metaclass=MetaSolver):
 
         Does not check that t_eval is valid, that is, that it is not extrapolating.
         """
-        t0, y0 = cache.ts[0], cache.ys[0]
+        # Use the step that contains t_eval.
+        n = cache.ts.size - 2
+        while n > 0 and cache.ts[n] > t_eval:
+            n -= 1
+
+        t0, y0 = cache.ts[n], cache.ys[n]
         if t_eval == t0:
             return np.copy(y0)
 
-        dt, dy = cache.t - t0, cache.y - y0
-        f0, f1 = cache.fs[0], cache.f
+        dt, dy = cache.ts[n + 1] - t0, cache.ys[n + 1] - y0
+        f0, f1 = cache.fs[n], cache.fs[n + 1]
 
         T = (t_eval - t0) / dt
         return (
-- 
2.43.0


From 1626349c4ae12f9da9bd133b0d4532128360d028 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:03:57 +0000
Subject: [PATCH 13/30] fix: variable step methods ignored max_step

---
 nbkode/core.py             | 2 +-
 nbkode/runge_kutta/core.py | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index 5ee290d..88f0a83 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -725,7 +725,7 @@ class VariableStep:
                 self.options.rtol,
                 self.options.atol,
             )
-        self.h = np.array(h, dtype=float)
+        self.h = np.array(min(h, self.options.max_step), dtype=float)
 
 
 def check(solver, implicit=None, fixed_step=None, runge_kutta=None, multistep=None):
diff --git a/nbkode/runge_kutta/core.py b/nbkode/runge_kutta/core.py
index eed1fae..ae8ba47 100644
--- a/nbkode/runge_kutta/core.py
+++ b/nbkode/runge_kutta/core.py
@@ -92,10 +92,13 @@ class AdaptiveRungeKutta(VariableStep, RungeKutta, abstract=True):
         """
         if error_norm == 0:
             h *= options.max_factor
-            return True  # step accepted
+        else:
+            factor = options.safety_factor / error_norm**error_exponent
+            h *= min(options.max_factor, max(options.min_factor, factor))
+
+        if h > options.max_step:
+            h[()] = options.max_step
 
-        factor = options.safety_factor / error_norm**error_exponent
-        h *= min(options.max_factor, max(options.min_factor, factor))
         return error_norm < 1
 
     @classmethod
-- 
2.43.0


From 55520e3df2d6c9d7477c3b75420adbca6a1da50b Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:03:57 +0000
Subject: [PATCH 14/30] fix: fail instead of shrinking the step forever when no
 step is acceptable

---
 nbkode/runge_kutta/core.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nbkode/runge_kutta/core.py b/nbkode/runge_kutta/core.py
index ae8ba47..cbea536 100644
--- a/nbkode/runge_kutta/core.py
+++ b/nbkode/runge_kutta/core.py
@@ -99,7 +99,13 @@ class AdaptiveRungeKutta(VariableStep, RungeKutta, abstract=True):
         if h > options.max_step:
             h[()] = options.max_step
 
-        return error_norm < 1
+        if error_norm < 1:
+            return True
+
+        if not h >= options.min_step:
+            raise RuntimeError("Required step size is smaller than min_step.")
+
+        return False
 
     @classmethod
     def _step_builder(cls):
-- 
2.43.0


From c3a805d2d02f4038c56d5c97b3a465486ca3d9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:03:57 +0000
Subject: [PATCH 15/30] fix: refuse a t_bound that the start-up of a multistep
 method would go beyond

---
 nbkode/multistep/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nbkode/multistep/core.py b/nbkode/multistep/core.py
index 90bba99..e0575b6 100644
--- a/nbkode/multistep/core.py
+++ b/nbkode/multistep/core.py
@@ -46,6 +46,8 @@ class Multistep(Solver, abstract=True):
         if first_stepper_cls == "auto":
             first_stepper_cls = self.FIRST_STEPPER_CLS
 
+        self._check_time(self.t + (self.ORDER - 1) * self.h)
+
         if isinstance(first_stepper_cls, str):
             import nbkode
 
-- 
2.43.0


From 39f22a14c9928e6e9eaec402630f927f3a226679 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:03:57 +0000
Subject: [PATCH 16/30] fix: a solver class that cannot be defined left names
 registered

---
 nbkode/core.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index 88f0a83..b9a084d 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -164,11 +164,6 @@ class Solver(ABC, metaclass=MetaSolver):
                         f"Duplicate name/alias {cls.__name__} in {cls} "
                         f"collides with {cls.SOLVERS[name_or_alias]}"
                     )
-                cls.SOLVERS[name_or_alias] = cls
-            if cls.GROUP not in cls.SOLVERS_BY_GROUP:
-                cls.SOLVERS_BY_GROUP[cls.GROUP] = []
-            cls.SOLVERS_BY_GROUP[cls.GROUP].append(cls)
-
             cls._fixed_step = staticmethod(cls._fixed_step_builder())
 
             step = cls._step_builder()
@@ -183,6 +178,13 @@ class Solver(ABC, metaclass=MetaSolver):
 
             cls._step = staticmethod(_step)
 
+            # Nothing is registered unless the class is complete.
+            for name_or_alias in (cls.__name__,) + cls.ALIASES:
+                cls.SOLVERS[name_or_alias] = cls
+            if cls.GROUP not in cls.SOLVERS_BY_GROUP:
+                cls.SOLVERS_BY_GROUP[cls.GROUP] = []
+            cls.SOLVERS_BY_GROUP[cls.GROUP].append(cls)
+
     @classmethod
     @abstractmethod
     def _fixed_step_builder(cls):
-- 
2.43.0


From 73e6ebdd88ef54daaa07eb37c68ac1d57900d704 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:48:37 +0000
Subject: [PATCH 17/30] fix: a failed step altered the dense output of the last
 accepted one

---
 nbkode/runge_kutta/explicit.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/nbkode/runge_kutta/explicit.py b/nbkode/runge_kutta/explicit.py
index c090571..d44d454 100644
--- a/nbkode/runge_kutta/explicit.py
+++ b/nbkode/runge_kutta/explicit.py
@@ -88,11 +88,14 @@ class FSAL(AdaptiveRungeKutta, ERK, abstract=True):
 
         @numba.njit
         def _step(rhs, cache, h, K, options, *args):
+            # K belongs to the last step (used to interpolate) until this one is accepted.
+            K_new = np.empty_like(K)
             while True:
-                t, y = fixed_step(rhs, cache, h, K)
-                error = step_error(h, K, E)
+                t, y = fixed_step(rhs, cache, h, K_new)
+                error = step_error(h, K_new, E)
                 error_norm = scaled_error_norm(y, cache.y, error, options)
                 if step_update(error_norm, h, options, error_exponent):
+                    K[:] = K_new
                     cache.push(t, y, K[-1])
                     break
 
@@ -327,10 +330,12 @@ class DOP853(FSAL):
 
         @numba.njit
         def _step(rhs, cache, h, K, options, *args):
+            # K belongs to the last step (used to interpolate) until this one is accepted.
+            K_new = np.empty_like(K)
             while True:
-                t, y = fixed_step(rhs, cache, h, K)
-                err5 = step_error(h, K, E5)
-                err3 = step_error(h, K, E3)
+                t, y = fixed_step(rhs, cache, h, K_new)
+                err5 = step_error(h, K_new, E5)
+                err3 = step_error(h, K_new, E3)
                 err5 = scaled_error_norm(y, cache.y, err5, options)
                 err3 = scaled_error_norm(y, cache.y, err3, options)
                 if err5 == 0:
@@ -338,6 +343,7 @@ class DOP853(FSAL):
                 else:
                     error_norm = err5 / np.sqrt(1 + ((err3 / (10 * err5)) ** 2))
                 if step_update(error_norm, h, options, error_exponent):
+                    K[:] = K_new
                     cache.push(t, y, K[-1])
                     break
 
-- 
2.43.0


From 086c5f1c0d8de0274c5a560974f95120ca3c06f5 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:48:37 +0000
Subject: [PATCH 18/30] fix: DOP853 evaluated the right-hand side at
 uninitialised states when built

---
 nbkode/runge_kutta/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbkode/runge_kutta/core.py b/nbkode/runge_kutta/core.py
index cbea536..b951c2e 100644
--- a/nbkode/runge_kutta/core.py
+++ b/nbkode/runge_kutta/core.py
@@ -24,7 +24,7 @@ class RungeKutta(Solver, abstract=True):
 
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
-        self.K = np.empty((self.stages, self.y.size))
+        self.K = np.zeros((self.stages, self.y.size))
 
     @staticmethod
     def _fixed_step():
-- 
2.43.0


From 7817e4f39e602f2571442867557f03da1c1a13b7 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 20:04:29 +0000
Subject: [PATCH 19/30] fix: multistep first steppers left gaps in the start-up
 history

---
 nbkode/multistep/core.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/nbkode/multistep/core.py b/nbkode/multistep/core.py
index e0575b6..02b5f86 100644
--- a/nbkode/multistep/core.py
+++ b/nbkode/multistep/core.py
@@ -56,9 +56,18 @@ class Multistep(Solver, abstract=True):
         if first_stepper_cls.FIXED_STEP:
             # For fixed step solver we do N steps with the step size.
             solver = first_stepper_cls(self.rhs, self.t, self.y, h=self.h)
-            for _ in range(self.ORDER - 1):
+            # A multistep first stepper has already made the steps to start itself.
+            started = solver.cache.ts > self.t
+            ts = list(solver.cache.ts[started])
+            ys = [y.copy() for y in solver.cache.ys[started]]
+            fs = [f.copy() for f in solver.cache.fs[started]]
+            while len(ts) < self.ORDER - 1:
                 solver.step()
-                self.cache.push(solver.t, solver.y, solver.f)
+                ts.append(solver.t)
+                ys.append(solver.y.copy())
+                fs.append(solver.f.copy())
+            for t, y, f in zip(ts[: self.ORDER - 1], ys, fs):
+                self.cache.push(t, y, f)
         else:
             # For variable step solver we run N times until t0 + h, t0 + 2h, .. t0 + (ORDER - 1)h
             solver = first_stepper_cls(self.rhs, self.t, self.y)
-- 
2.43.0


From 13fc0f572a07e97ae10a92921d1d91c4668e1e00 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 20:12:59 +0000
Subject: [PATCH 20/30] fix: interpolating at the current time missed the
 recorded state by rounding, and events at it failed

---
 nbkode/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index b9a084d..589247a 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -591,7 +591,7 @@ class Solver(ABC, metaclass=MetaSolver):
         Does not check that t_eval is valid, that is, that it is not extrapolating.
         """
         # Use the step that contains t_eval.
-        n = cache.ts.size - 2
+        n = cache.ts.size - 1
         while n > 0 and cache.ts[n] > t_eval:
             n -= 1
 
-- 
2.43.0


From c968f1dea660c1f971c22043efc099860eef87dd Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 20:25:53 +0000
Subject: [PATCH 21/30] fix: a terminal event at a requested time was not the
 last row for unsorted times

---
 nbkode/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index 589247a..e2819cc 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -450,7 +450,7 @@ class Solver(ABC, metaclass=MetaSolver):
         # If the integration stopped before the last timepoint, there are fewer of them
         # and the last one is the termination value if there was a terminal event.
         n = ts.size
-        if n and (n > t.size or ts[-1] != t[n - 1]):
+        if events and any(event.is_terminal and len(event.t) for event in eh.events):
             n -= 1
         ondx = np.concatenate((np.argsort(ndx[:n]), np.arange(n, ts.size)))
         return ts[ondx], ys[ondx], t_events, y_events
-- 
2.43.0


From c27c9920861f94df2679c417195048ef93ea7c99 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 20:35:13 +0000
Subject: [PATCH 22/30] fix: a solver class without a group left its names
 registered

---
 nbkode/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index e2819cc..9045ded 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -179,11 +179,11 @@ class Solver(ABC, metaclass=MetaSolver):
             cls._step = staticmethod(_step)
 
             # Nothing is registered unless the class is complete.
-            for name_or_alias in (cls.__name__,) + cls.ALIASES:
-                cls.SOLVERS[name_or_alias] = cls
             if cls.GROUP not in cls.SOLVERS_BY_GROUP:
                 cls.SOLVERS_BY_GROUP[cls.GROUP] = []
             cls.SOLVERS_BY_GROUP[cls.GROUP].append(cls)
+            for name_or_alias in (cls.__name__,) + cls.ALIASES:
+                cls.SOLVERS[name_or_alias] = cls
 
     @classmethod
     @abstractmethod
-- 
2.43.0


From 752284df32db315e585f848c99f23ea908a5b7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:12:53 +0000
Subject: [PATCH 23/30] fix: secant reported convergence where the slope
 vanishes

---
 nbkode/nbcompat/zeros.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nbkode/nbcompat/zeros.py b/nbkode/nbcompat/zeros.py
index 7cdc7a3..f6ff6c2 100644
--- a/nbkode/nbcompat/zeros.py
+++ b/nbkode/nbcompat/zeros.py
@@ -364,9 +364,12 @@ def _newton(
                     #         % (itr + 1, p1))
                     #     raise RuntimeError(msg)
                     # warnings.warn(msg, RuntimeWarning)
+                    flag = _ECONVERR
+                else:
+                    flag = _ECONVERGED
                 p = (p1 + p0) / 2.0
                 return (
-                    _results_select(full_output, (p, funcalls, itr + 1, _ECONVERGED)),
+                    _results_select(full_output, (p, funcalls, itr + 1, flag)),
                     my_flag,
                 )
             else:
-- 
2.43.0


From 7084758498bd87c86ff082ead459b1c7a5495968 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:57:22 +0000
Subject: [PATCH 24/30] fix: after failing for min_step, a solver went on with
 a step below it

---
 nbkode/runge_kutta/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nbkode/runge_kutta/core.py b/nbkode/runge_kutta/core.py
index b951c2e..e91fa0f 100644
--- a/nbkode/runge_kutta/core.py
+++ b/nbkode/runge_kutta/core.py
@@ -90,6 +90,8 @@ class AdaptiveRungeKutta(VariableStep, RungeKutta, abstract=True):
         Updates h in place, so it must be an scalar numpy array.
         Returns True if step is accepted.
         """
+        rejected_h = h[()]
+
         if error_norm == 0:
             h *= options.max_factor
         else:
@@ -103,6 +105,7 @@ class AdaptiveRungeKutta(VariableStep, RungeKutta, abstract=True):
             return True
 
         if not h >= options.min_step:
+            h[()] = rejected_h
             raise RuntimeError("Required step size is smaller than min_step.")
 
         return False
-- 
2.43.0


From 38b7fc7ae379d88aea4a83b8a4e1b02d05673ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 22:01:58 +0000
Subject: [PATCH 25/30] fix: an accepted step proposed a next one below
 min_step

---
 nbkode/runge_kutta/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nbkode/runge_kutta/core.py b/nbkode/runge_kutta/core.py
index e91fa0f..6b3ee73 100644
--- a/nbkode/runge_kutta/core.py
+++ b/nbkode/runge_kutta/core.py
@@ -102,6 +102,8 @@ class AdaptiveRungeKutta(VariableStep, RungeKutta, abstract=True):
             h[()] = options.max_step
 
         if error_norm < 1:
+            if h < options.min_step:
+                h[()] = options.min_step
             return True
 
         if not h >= options.min_step:
-- 
2.43.0


From 2d3dfd428a48b2f038f5313729171cfb4b0666a7 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 22:56:14 +0000
Subject: [PATCH 26/30] fix: the increment of the numerical Jacobian was lost
 when the state is large

---
 nbkode/nbcompat/zeros.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nbkode/nbcompat/zeros.py b/nbkode/nbcompat/zeros.py
index f6ff6c2..735c00d 100644
--- a/nbkode/nbcompat/zeros.py
+++ b/nbkode/nbcompat/zeros.py
@@ -442,7 +442,8 @@ def j_newton(
 
 @numba.njit()
 def jacobian(func, x, args=()):
-    eps = 1e-10
+    # Relative to x, as an absolute increment is lost to rounding when x is large.
+    eps = 1e-10 * max(1.0, np.max(np.abs(x)))
     J = np.zeros((len(x), len(x)), dtype=np.float64)
 
     for i in range(len(x)):
-- 
2.43.0


From 2608001c1671d567925544226b45380230167924 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 00:01:24 +0000
Subject: [PATCH 27/30] fix: adaptive Runge-Kutta methods that do not reuse the
 last stage could not make a step

---
 nbkode/runge_kutta/core.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/nbkode/runge_kutta/core.py b/nbkode/runge_kutta/core.py
index 6b3ee73..9600535 100644
--- a/nbkode/runge_kutta/core.py
+++ b/nbkode/runge_kutta/core.py
@@ -121,10 +121,7 @@ class AdaptiveRungeKutta(VariableStep, RungeKutta, abstract=True):
         step_update = cls._step_update
 
         @numba.njit
-        def _step(t_bound, rhs, cache, h, K, options):
-            if cache.t + h > t_bound:
-                return False
-
+        def _step(rhs, cache, h, K, options):
             while True:
                 t, y = fixed_step(rhs, cache, h, K)
                 error = step_error(h, K, E)
@@ -133,8 +130,6 @@ class AdaptiveRungeKutta(VariableStep, RungeKutta, abstract=True):
                     cache.push(t, y, rhs(t, y))
                     break
 
-            return True
-
         return _step
 
     @property
-- 
2.43.0


From 3c74a53f65257c7456b9cf67af1028d5210aa9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 00:17:46 +0000
Subject: [PATCH 28/30] fix: an implicit multistep method whose Bn is a NumPy
 number was not found among the implicit solvers

---
 nbkode/multistep/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nbkode/multistep/core.py b/nbkode/multistep/core.py
index 02b5f86..7fe9485 100644
--- a/nbkode/multistep/core.py
+++ b/nbkode/multistep/core.py
@@ -28,7 +28,8 @@ class Multistep(Solver, abstract=True):
 
     @classproperty
     def IMPLICIT(cls):
-        return cls.Bn != 0
+        # As a Python bool, even if Bn comes from an array.
+        return bool(cls.Bn != 0)
 
     @classproperty
     def LEN_HISTORY(cls):
-- 
2.43.0


From 626e23e23d6d71670ac372551d457eaab89e3e9a Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 01:03:28 +0000
Subject: [PATCH 29/30] fix: solvers defined later were missing from
 dir(nbkode) and from the error of get_solver

---
 nbkode/__init__.py | 15 ++++-----------
 nbkode/core.py     | 10 +++-------
 2 files changed, 7 insertions(+), 18 deletions(-)

diff --git a/nbkode/__init__.py b/nbkode/__init__.py
index 90d8914..b2b6e6a 100644
--- a/nbkode/__init__.py
+++ b/nbkode/__init__.py
@@ -45,18 +45,11 @@ def test():  # pragma: no cover
     return run()
 
 
-_SOLVERS_NAMES = None
-
-
 def __dir__():
-    global _SOLVERS_NAMES
-
-    if not _SOLVERS_NAMES:
-        _SOLVERS_NAMES = ["get_groups", "get_solvers", "get_solver", "test"]
-        _SOLVERS_NAMES += list_solvers(include_alias=False)
-        _SOLVERS_NAMES = sorted(_SOLVERS_NAMES)
-
-    return _SOLVERS_NAMES
+    # Solvers can be defined at any time, so this is not kept.
+    names = ["get_groups", "get_solvers", "get_solver", "test"]
+    names += list_solvers(include_alias=False)
+    return sorted(names)
 
 
 def __getattr__(name):
diff --git a/nbkode/core.py b/nbkode/core.py
index 9045ded..3eab199 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -792,9 +792,6 @@ def get_groups():
     return tuple(sorted(Solver.SOLVERS_BY_GROUP.keys()))
 
 
-_VALID_NAME_ALIAS = None
-
-
 def list_solvers(
     fmt_string="{cls.__name__}",
     alias_fmt_string="{name} (alias of {cls.__name__})",
@@ -815,10 +812,9 @@ def get_solver(name_or_alias):
     except KeyError:
         pass
 
-    global _VALID_NAME_ALIAS
-    if not _VALID_NAME_ALIAS:
-        _VALID_NAME_ALIAS = "- " + "\n- ".join(sorted(list_solvers()))
+    # Solvers can be defined at any time, so this is not kept.
+    valid_name_alias = "- " + "\n- ".join(sorted(list_solvers()))
 
     raise ValueError(
-        f"No solver named {name_or_alias}, valid options are:\n{_VALID_NAME_ALIAS}"
+        f"No solver named {name_or_alias}, valid options are:\n{valid_name_alias}"
     )
-- 
2.43.0


From 0acc8ee900120d6d2ad46d2f52d8c1f86431329e Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 02:14:47 +0000
Subject: [PATCH 30/30] fix: the start of a multistep method could end beyond
 t_bound by rounding, or be refused though it fits

---
 nbkode/multistep/core.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/nbkode/multistep/core.py b/nbkode/multistep/core.py
index 7fe9485..7d88f1e 100644
--- a/nbkode/multistep/core.py
+++ b/nbkode/multistep/core.py
@@ -47,8 +47,6 @@ class Multistep(Solver, abstract=True):
         if first_stepper_cls == "auto":
             first_stepper_cls = self.FIRST_STEPPER_CLS
 
-        self._check_time(self.t + (self.ORDER - 1) * self.h)
-
         if isinstance(first_stepper_cls, str):
             import nbkode
 
@@ -63,16 +61,20 @@ class Multistep(Solver, abstract=True):
             ys = [y.copy() for y in solver.cache.ys[started]]
             fs = [f.copy() for f in solver.cache.fs[started]]
             while len(ts) < self.ORDER - 1:
+                self._check_time(solver.t + self.h)
                 solver.step()
                 ts.append(solver.t)
                 ys.append(solver.y.copy())
                 fs.append(solver.f.copy())
+            self._check_time(ts[self.ORDER - 2])
             for t, y, f in zip(ts[: self.ORDER - 1], ys, fs):
                 self.cache.push(t, y, f)
         else:
             # For variable step solver we run N times until t0 + h, t0 + 2h, .. t0 + (ORDER - 1)h
+            ts = self.t + np.arange(1, self.ORDER) * self.h
+            self._check_time(ts[-1])
             solver = first_stepper_cls(self.rhs, self.t, self.y)
-            ts, ys = solver.run(self.t + np.arange(1, self.ORDER) * self.h)
+            ts, ys = solver.run(ts)
             for t, y in zip(ts, ys):
                 self.cache.push(t, y, self.rhs(t, y))
 
-- 
2.43.0

