From 6392e5f5cb635f73511d395594616f930e82a1cb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:47 +0000
Subject: [PATCH 01/23] fix: Adams-Bashforth 2-5 and Adams-Moulton 4-5
 coefficients in history order (oldest first)

---
 nbkode/multistep/adams_bashforth.py | 8 ++++----
 nbkode/multistep/adams_moulton.py   | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/nbkode/multistep/adams_bashforth.py b/nbkode/multistep/adams_bashforth.py
index 3ad8670..a27778f 100644
--- a/nbkode/multistep/adams_bashforth.py
+++ b/nbkode/multistep/adams_bashforth.py
@@ -28,7 +28,7 @@ class AdamsBashforth2(AdamsBashforth):
         u[n+1] = u[n] + h * (3/2 *f(u[n], t[n]) - 1/2 * f(u[n-1], t[n-1]))
     """
 
-    B = np.array([3, -1]) / 2
+    B = np.array([-1, 3]) / 2
 
 
 class AdamsBashforth3(AdamsBashforth):
@@ -41,7 +41,7 @@ class AdamsBashforth3(AdamsBashforth):
 
     """
 
-    B = np.array([23, -16, 5]) / 12
+    B = np.array([5, -16, 23]) / 12
 
 
 class AdamsBashforth4(AdamsBashforth):
@@ -54,8 +54,8 @@ class AdamsBashforth4(AdamsBashforth):
 
     """
 
-    B = np.array([55, -59, 37, -9]) / 24
+    B = np.array([-9, 37, -59, 55]) / 24
 
 
 class AdamsBashforth5(AdamsBashforth):
-    B = np.array([1901, -2774, 2616, -1274, 251]) / 720
+    B = np.array([251, -1274, 2616, -2774, 1901]) / 720
diff --git a/nbkode/multistep/adams_moulton.py b/nbkode/multistep/adams_moulton.py
index 60fa9df..5af187c 100644
--- a/nbkode/multistep/adams_moulton.py
+++ b/nbkode/multistep/adams_moulton.py
@@ -47,10 +47,10 @@ class AdamsMoulton3(AdamsMoulton):
 
 
 class AdamsMoulton4(AdamsMoulton):
-    B = np.array([19, -5, 1]) / 24
+    B = np.array([1, -5, 19]) / 24
     Bn = 9 / 24
 
 
 class AdamsMoulton5(AdamsMoulton):
-    B = np.array([646, -264, 106, -19]) / 720
+    B = np.array([-19, 106, -264, 646]) / 720
     Bn = 251 / 720
-- 
2.43.0


From ccecae082c2424855f3b772782cf148fe96a082f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:10 +0000
Subject: [PATCH 02/23] fix: multistep solvers with an implicit formula (Bn !=
 0) are the implicit ones

---
 docs/tutorial.rst        | 2 +-
 nbkode/multistep/core.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/docs/tutorial.rst b/docs/tutorial.rst
index e22ef4c..f9e4f6f 100644
--- a/docs/tutorial.rst
+++ b/docs/tutorial.rst
@@ -198,7 +198,7 @@ or those which are explicit:
 .. doctest::
 
    >>> nbkode.get_solvers(implicit=False)
-   (<AdamsMoulton1>, <AdamsMoulton2>, <AdamsMoulton3>, <AdamsMoulton4>, <AdamsMoulton5>, <BackwardEuler>, <BDF1>, <BDF2>, <BDF3>, <BDF4>, <BDF5>, <BDF6>, <Runge2>, <Runge3>, <Heun3>, <RungeKutta4>, <RungeKutta3_8>, <RungeKutta23>, <RungeKutta45>, <DOP853>)
+   (<AdamsBashforth1>, <AdamsBashforth2>, <AdamsBashforth3>, <AdamsBashforth4>, <AdamsBashforth5>, <ForwardEuler>, <Runge2>, <Runge3>, <Heun3>, <RungeKutta4>, <RungeKutta3_8>, <RungeKutta23>, <RungeKutta45>, <DOP853>)
 
 or those of a given group:
 
diff --git a/nbkode/multistep/core.py b/nbkode/multistep/core.py
index a21c9a3..4db6d1b 100644
--- a/nbkode/multistep/core.py
+++ b/nbkode/multistep/core.py
@@ -28,7 +28,7 @@ class Multistep(Solver, abstract=True):
 
     @classproperty
     def IMPLICIT(cls):
-        return cls.Bn == 0
+        return cls.Bn != 0
 
     @classproperty
     def LEN_HISTORY(cls):
-- 
2.43.0


From 11efd5de108b59443b52c400b14455044e3196ab Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:10 +0000
Subject: [PATCH 03/23] fix: variable-step first stepper of multistep solvers
 starts from t0

---
 nbkode/multistep/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbkode/multistep/core.py b/nbkode/multistep/core.py
index 4db6d1b..46ff8e6 100644
--- a/nbkode/multistep/core.py
+++ b/nbkode/multistep/core.py
@@ -60,7 +60,7 @@ class Multistep(Solver, abstract=True):
         else:
             # For variable step solver we run N times until h, 2h, 3h .. (ORDER - 1)h
             solver = first_stepper_cls(self.rhs, self.t, self.y)
-            ts, ys = solver.run(np.arange(1, self.ORDER) * self.h)
+            ts, ys = solver.run(self.t + np.arange(1, self.ORDER) * self.h)
             for t, y in zip(ts, ys):
                 self.cache.push(t, y, self.rhs(t, y))
 
-- 
2.43.0


From f490b8334686732ad14b417412cc1c28004d3227 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:37 +0000
Subject: [PATCH 04/23] fix: step() and skip() raise at t_bound, as step(n=1)
 and skip(n=1)

They returned None instead. Also, step() returned a view of the solver's
buffer, which changed with the next step.
---
 nbkode/core.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index 82180bc..2996a27 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -244,9 +244,10 @@ class Solver(ABC, metaclass=MetaSolver):
             return np.asarray([]), np.asarray([])
 
         if n is None and upto_t is None:
-            # No parameters, make one step.
-            if self._step(self.t_bound, *self._step_args):
-                return np.atleast_1d(self.t), self.y
+            # No parameters, make one step. If t_bound is reached, raise an exception.
+            if not self._step(self.t_bound, *self._step_args):
+                raise RuntimeError("Integrator reached t_bound.")
+            return np.atleast_1d(self.t), self.y.copy()
         elif upto_t is None:
             # Only n is given, make n steps. If t_bound is reached, raise an exception.
             ts, ys, scon = self._nsteps(n, self.t_bound, self._step, *self._step_args)
@@ -296,8 +297,9 @@ class Solver(ABC, metaclass=MetaSolver):
 
         if n is None and upto_t is None:
             # No parameters, make one step.
-            self._nskip(1, self.t_bound, self._step, *self._step_args)
-        elif upto_t is None:
+            n = 1
+
+        if upto_t is None:
             # Only n is given, make n steps. If t_bound is reached, raise an exception.
             if self._nskip(n, self.t_bound, self._step, *self._step_args):
                 raise RuntimeError("Integrator reached t_bound.")
-- 
2.43.0


From cfad8dd49ce2ed8c714b53e2e83ec49239322c8f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:37 +0000
Subject: [PATCH 05/23] fix: run_events with current or past times warns
 instead of raising AttributeError

---
 nbkode/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index 2996a27..6173d13 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -440,7 +440,7 @@ class Solver(ABC, metaclass=MetaSolver):
             ys = np.concatenate((y_old, ys))
 
             if events:
-                warnings.warning("Events for past events are not implemented yet.")
+                warnings.warn("Events for past events are not implemented yet.")
 
         if is_t_sorted:
             return ts, ys, t_events, y_events
-- 
2.43.0


From a130f655348e12990e82f5611d3e5bbb99305ee7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:16 +0000
Subject: [PATCH 06/23] fix: run_events keeps the requested times before a
 terminal event

The first of them was overwritten by the event and the others were dropped.
---
 nbkode/core.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index 6173d13..9cfa556 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -634,19 +634,26 @@ class Solver(ABC, metaclass=MetaSolver):
     ) -> tuple[np.ndarray, np.ndarray, bool]:
         """Run up to t, evaluating y at given t and return (t, y) as arrays."""
 
-        y_out = np.empty((t_eval.size, cache.y.size))
+        # One more than requested, for the termination value.
+        y_out = np.empty((t_eval.size + 1, cache.y.size))
 
         for ndx, ti in enumerate(t_eval):
             while cache.t < ti:
                 if not step(t_bound, rhs, cache, *args):
                     return t_eval[:ndx], y_out[:ndx], True
                 if event_handler.evaluate(interpolate, rhs, cache, *args):
+                    t_event, y_event = event_handler.last_event
+                    # Timepoints of this step that come before the event.
+                    last = ndx
+                    while last < t_eval.size and t_eval[last] < t_event:
+                        y_out[last] = interpolate(t_eval[last], rhs, cache, *args)
+                        last += 1
                     # Append termination value.
-                    t_eval[ndx], y_out[ndx] = event_handler.last_event
-                    return t_eval[: ndx + 1], y_out[: ndx + 1], True
+                    y_out[last] = y_event
+                    return np.append(t_eval[:last], t_event), y_out[: last + 1], True
             y_out[ndx] = interpolate(ti, rhs, cache, *args)
 
-        return t_eval, y_out, False
+        return t_eval, y_out[: t_eval.size], False
 
 
 variable_step_options = (
-- 
2.43.0


From ce8e43c590fe83489ba0abb697f5d3d36ef804cc Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:16 +0000
Subject: [PATCH 07/23] fix: the earliest terminal event of a step ends the run

It was the last one in the list, and events after it were kept.
---
 nbkode/event_handler.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/nbkode/event_handler.py b/nbkode/event_handler.py
index 118818f..3a1b82b 100644
--- a/nbkode/event_handler.py
+++ b/nbkode/event_handler.py
@@ -221,14 +221,22 @@ class EventHandler:
         """
 
         terminate = False
-        min_t = -np.inf
+        min_t = np.inf
         for ndx, event in enumerate(self.events):
             if event.evaluate(interpolate, rhs, cache, *args):
                 terminate = True
                 t, y = event.last_event
-                if t > min_t:
+                if t < min_t:
+                    min_t = t
                     self.last_event = t, y
 
+        if terminate:
+            # Events of this step after the earliest terminal event do not occur.
+            for event in self.events:
+                while event.t and event.t[-1] > min_t:
+                    event.t.pop()
+                    event.y.pop()
+
         return terminate
 
 
-- 
2.43.0


From e1dd102ea934a37981a166a3d2717bc1f79288e6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:16 +0000
Subject: [PATCH 08/23] fix: interpolation at a recorded time returns a copy of
 the state

The state recorded for an event at the end of a step was a view of the
solver's buffer, which changed with the next step.
---
 nbkode/core.py                 | 2 +-
 nbkode/runge_kutta/explicit.py | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index 9cfa556..394f670 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -585,7 +585,7 @@ class Solver(ABC, metaclass=MetaSolver):
         """
         t0, y0 = cache.ts[0], cache.ys[0]
         if t_eval == t0:
-            return y0
+            return y0.copy()
 
         dt, dy = cache.t - t0, cache.y - y0
         f0, f1 = cache.fs[0], cache.f
diff --git a/nbkode/runge_kutta/explicit.py b/nbkode/runge_kutta/explicit.py
index 8a55b58..ae62fb2 100644
--- a/nbkode/runge_kutta/explicit.py
+++ b/nbkode/runge_kutta/explicit.py
@@ -370,9 +370,9 @@ class RkInterpolator:
 
     def evaluate(self, t_eval):
         if t_eval == self.cache.ts[-1]:
-            return self.cache.ys[-1]
+            return self.cache.ys[-1].copy()
         if t_eval == self.cache.ts[-2]:
-            return self.cache.ys[-2]
+            return self.cache.ys[-2].copy()
         if not self.is_before(t_eval):
             self.update()
 
@@ -450,9 +450,9 @@ class DOP853Interpolator:
 
     def evaluate(self, t_eval):
         if t_eval == self.cache.ts[-1]:
-            return self.cache.ys[-1]
+            return self.cache.ys[-1].copy()
         if t_eval == self.cache.ts[-2]:
-            return self.cache.ys[-2]
+            return self.cache.ys[-2].copy()
         if not self.is_before(t_eval):
             self.update()
 
-- 
2.43.0


From b9cf236769d744b6126223999a69f73229ec16ed Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:16 +0000
Subject: [PATCH 09/23] fix: run with unsorted times that are not all reached
 raised IndexError

---
 nbkode/core.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nbkode/core.py b/nbkode/core.py
index 394f670..81da162 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -445,7 +445,13 @@ class Solver(ABC, metaclass=MetaSolver):
         if is_t_sorted:
             return ts, ys, t_events, y_events
 
+        # Some timepoints might not have been reached, and the
+        # termination value (if there is one) goes after all of them.
+        terminated = bool(events) and not np.isnan(eh.last_event[0])
         ondx = np.argsort(ndx)
+        ondx = ondx[ondx < ts.size - terminated]
+        if terminated:
+            ondx = np.append(ondx, ts.size - 1)
         return ts[ondx], ys[ondx], t_events, y_events
 
     def interpolate(self, t: float) -> float:
-- 
2.43.0


From 15d749030e0a26d87aa0c71aaa4e8caf7e9ebcf5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:16 +0000
Subject: [PATCH 10/23] fix: DOP853 never ended a step with a zero error
 estimate

---
 nbkode/runge_kutta/explicit.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nbkode/runge_kutta/explicit.py b/nbkode/runge_kutta/explicit.py
index ae62fb2..c090571 100644
--- a/nbkode/runge_kutta/explicit.py
+++ b/nbkode/runge_kutta/explicit.py
@@ -333,7 +333,10 @@ class DOP853(FSAL):
                 err3 = step_error(h, K, E3)
                 err5 = scaled_error_norm(y, cache.y, err5, options)
                 err3 = scaled_error_norm(y, cache.y, err3, options)
-                error_norm = err5 / np.sqrt(1 + ((err3 / (10 * err5)) ** 2))
+                if err5 == 0:
+                    error_norm = 0.0
+                else:
+                    error_norm = err5 / np.sqrt(1 + ((err3 / (10 * err5)) ** 2))
                 if step_update(error_norm, h, options, error_exponent):
                     cache.push(t, y, K[-1])
                     break
-- 
2.43.0


From 812706764d8f910696bc653c6aec597bce878520 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:16 +0000
Subject: [PATCH 11/23] fix: variable-step solvers honour max_step

---
 nbkode/core.py             | 2 +-
 nbkode/runge_kutta/core.py | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index 81da162..04c3f42 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -718,7 +718,7 @@ class VariableStep:
                 self.options.rtol,
                 self.options.atol,
             )
-        self.h = np.array(h, dtype=float)
+        self.h = np.array(min(h, self.options.max_step), dtype=float)
 
 
 def check(solver, implicit=None, fixed_step=None, runge_kutta=None, multistep=None):
diff --git a/nbkode/runge_kutta/core.py b/nbkode/runge_kutta/core.py
index eed1fae..ae8ba47 100644
--- a/nbkode/runge_kutta/core.py
+++ b/nbkode/runge_kutta/core.py
@@ -92,10 +92,13 @@ class AdaptiveRungeKutta(VariableStep, RungeKutta, abstract=True):
         """
         if error_norm == 0:
             h *= options.max_factor
-            return True  # step accepted
+        else:
+            factor = options.safety_factor / error_norm**error_exponent
+            h *= min(options.max_factor, max(options.min_factor, factor))
+
+        if h > options.max_step:
+            h[()] = options.max_step
 
-        factor = options.safety_factor / error_norm**error_exponent
-        h *= min(options.max_factor, max(options.min_factor, factor))
         return error_norm < 1
 
     @classmethod
-- 
2.43.0


From b11e43641b139b062097f1afe2cbeb722137cde5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:16 +0000
Subject: [PATCH 12/23] fix: variable-step solvers integrate up to t_bound

They stopped before it, and run left out the times after the last step.
---
 nbkode/core.py | 37 +++++++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index 04c3f42..4c7de7c 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -183,6 +183,23 @@ class Solver(ABC, metaclass=MetaSolver):
 
             cls._step = staticmethod(_step)
 
+            if cls.FIXED_STEP:
+                cls._bounded_step = staticmethod(_step)
+            else:
+
+                @numba.njit
+                def _bounded_step(t_bound, rhs, cache, h, *args):
+                    if cache.t >= t_bound:
+                        return False
+                    if cache.t + h > t_bound:
+                        h[()] = t_bound - cache.t
+                    step(rhs, cache, h, *args)
+                    if cache.t > t_bound:  # by rounding
+                        cache.ts[-1] = t_bound
+                    return True
+
+                cls._bounded_step = staticmethod(_bounded_step)
+
     @classmethod
     @abstractmethod
     def _fixed_step_builder(cls):
@@ -245,12 +262,14 @@ class Solver(ABC, metaclass=MetaSolver):
 
         if n is None and upto_t is None:
             # No parameters, make one step. If t_bound is reached, raise an exception.
-            if not self._step(self.t_bound, *self._step_args):
+            if not self._bounded_step(self.t_bound, *self._step_args):
                 raise RuntimeError("Integrator reached t_bound.")
             return np.atleast_1d(self.t), self.y.copy()
         elif upto_t is None:
             # Only n is given, make n steps. If t_bound is reached, raise an exception.
-            ts, ys, scon = self._nsteps(n, self.t_bound, self._step, *self._step_args)
+            ts, ys, scon = self._nsteps(
+                n, self.t_bound, self._bounded_step, *self._step_args
+            )
             if scon:
                 raise RuntimeError("Integrator reached t_bound.")
             return ts, ys
@@ -301,7 +320,7 @@ class Solver(ABC, metaclass=MetaSolver):
 
         if upto_t is None:
             # Only n is given, make n steps. If t_bound is reached, raise an exception.
-            if self._nskip(n, self.t_bound, self._step, *self._step_args):
+            if self._nskip(n, self.t_bound, self._bounded_step, *self._step_args):
                 raise RuntimeError("Integrator reached t_bound.")
         elif n is None:
             # Only upto_t is given, move until that value.
@@ -415,7 +434,7 @@ class Solver(ABC, metaclass=MetaSolver):
             ts, ys, scon = self._run_eval_events(
                 self.t_bound,
                 t_to_run,
-                self._step,
+                self._bounded_step,
                 eh,
                 self._interpolate,
                 *self._step_args,
@@ -428,7 +447,7 @@ class Solver(ABC, metaclass=MetaSolver):
             ts, ys, scon = self._run_eval(
                 self.t_bound,
                 t_to_run,
-                self._step,
+                self._bounded_step,
                 self._interpolate,
                 *self._step_args,
             )
@@ -482,7 +501,13 @@ class Solver(ABC, metaclass=MetaSolver):
     @staticmethod
     @abstractmethod
     def _step(t_bound, rhs, cache, h, *args) -> bool:
-        """Perform one integration step."""
+        """Perform one integration step, unless it ends after t_bound."""
+
+    @staticmethod
+    @abstractmethod
+    def _bounded_step(t_bound, rhs, cache, h, *args) -> bool:
+        """Perform one integration step. In variable step methods, the step is
+        shortened to end at t_bound."""
 
     @property
     def _step_args(self):
-- 
2.43.0


From 0a8bff72b803e2c99f0bb4801f962e6ea91be619 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:16 +0000
Subject: [PATCH 13/23] fix: interpolate over the step that contains the time,
 not the whole history

---
 nbkode/core.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index 4c7de7c..243f554 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -614,12 +614,17 @@ class Solver(ABC, metaclass=MetaSolver):
 
         Does not check that t_eval is valid, that is, that it is not extrapolating.
         """
-        t0, y0 = cache.ts[0], cache.ys[0]
+        # Find the step that contains t_eval
+        ndx = cache.ts.size - 1
+        while ndx > 1 and t_eval <= cache.ts[ndx - 1]:
+            ndx -= 1
+
+        t0, y0 = cache.ts[ndx - 1], cache.ys[ndx - 1]
         if t_eval == t0:
             return y0.copy()
 
-        dt, dy = cache.t - t0, cache.y - y0
-        f0, f1 = cache.fs[0], cache.f
+        dt, dy = cache.ts[ndx] - t0, cache.ys[ndx] - y0
+        f0, f1 = cache.fs[ndx - 1], cache.fs[ndx]
 
         T = (t_eval - t0) / dt
         return (
-- 
2.43.0


From cf65c11c15853bb86eb836a7f82025d3902a9717 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:16 +0000
Subject: [PATCH 14/23] fix: bisect rejected brackets in which the product of
 the values underflows

---
 nbkode/nbcompat/zeros.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbkode/nbcompat/zeros.py b/nbkode/nbcompat/zeros.py
index 57c938b..7cdc7a3 100644
--- a/nbkode/nbcompat/zeros.py
+++ b/nbkode/nbcompat/zeros.py
@@ -515,7 +515,7 @@ def bisect(fun, left, right, tol=1.48e-8, maxiter=50, rtol=0.0, args=()):
     yr = fun(right, *args)
     if yr == 0:
         return right
-    if not yl * yr < 0:
+    if not np.sign(yl) * np.sign(yr) < 0:
         raise ValueError(
             "In bisect, 'fun(left, *args)' must have and opposite sign to 'fun(right, *args)'."
         )
-- 
2.43.0


From e379261ed0d48457a0bbd2fcf94f4cf7e10870c4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:16 +0000
Subject: [PATCH 15/23] fix: the first stepper of multistep solvers does not go
 beyond t_bound

---
 nbkode/multistep/core.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/nbkode/multistep/core.py b/nbkode/multistep/core.py
index 46ff8e6..e67cb52 100644
--- a/nbkode/multistep/core.py
+++ b/nbkode/multistep/core.py
@@ -53,13 +53,17 @@ class Multistep(Solver, abstract=True):
 
         if first_stepper_cls.FIXED_STEP:
             # For fixed step solver we do N steps with the step size.
-            solver = first_stepper_cls(self.rhs, self.t, self.y, h=self.h)
+            solver = first_stepper_cls(
+                self.rhs, self.t, self.y, h=self.h, t_bound=self.t_bound
+            )
             for _ in range(self.ORDER - 1):
                 solver.step()
                 self.cache.push(solver.t, solver.y, solver.f)
         else:
             # For variable step solver we run N times until h, 2h, 3h .. (ORDER - 1)h
-            solver = first_stepper_cls(self.rhs, self.t, self.y)
+            solver = first_stepper_cls(
+                self.rhs, self.t, self.y, t_bound=self.t_bound
+            )
             ts, ys = solver.run(self.t + np.arange(1, self.ORDER) * self.h)
             for t, y in zip(ts, ys):
                 self.cache.push(t, y, self.rhs(t, y))
-- 
2.43.0


From 0a599c204555dba03c91ed21d85dba7775d2ca8e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:16 +0000
Subject: [PATCH 16/23] fix: the step of the jacobian vanished for large
 arguments

---
 nbkode/nbcompat/zeros.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbkode/nbcompat/zeros.py b/nbkode/nbcompat/zeros.py
index 7cdc7a3..2605e22 100644
--- a/nbkode/nbcompat/zeros.py
+++ b/nbkode/nbcompat/zeros.py
@@ -439,12 +439,12 @@ def j_newton(
 
 @numba.njit()
 def jacobian(func, x, args=()):
-    eps = 1e-10
     J = np.zeros((len(x), len(x)), dtype=np.float64)
 
     for i in range(len(x)):
         x1 = x.copy()
         x2 = x.copy()
+        eps = 1e-10 * max(1.0, abs(x[i]))
 
         x1[i] += eps
         x2[i] -= eps
-- 
2.43.0


From 3a358e99a765b204902c01740aefdb11094f1a45 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:56 +0000
Subject: [PATCH 17/23] fix: newton reported convergence when the secant values
 are equal

---
 nbkode/nbcompat/zeros.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbkode/nbcompat/zeros.py b/nbkode/nbcompat/zeros.py
index 2605e22..91b1807 100644
--- a/nbkode/nbcompat/zeros.py
+++ b/nbkode/nbcompat/zeros.py
@@ -366,7 +366,7 @@ def _newton(
                     # warnings.warn(msg, RuntimeWarning)
                 p = (p1 + p0) / 2.0
                 return (
-                    _results_select(full_output, (p, funcalls, itr + 1, _ECONVERGED)),
+                    _results_select(full_output, (p, funcalls, itr + 1, _ECONVERR)),
                     my_flag,
                 )
             else:
-- 
2.43.0


From 8e25de53b32aa179ea991435aa812fdebc6382f0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:52 +0000
Subject: [PATCH 18/23] fix: adaptive pairs without the FSAL property raised
 TypeError on every step

---
 nbkode/runge_kutta/core.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/nbkode/runge_kutta/core.py b/nbkode/runge_kutta/core.py
index ae8ba47..9dc1006 100644
--- a/nbkode/runge_kutta/core.py
+++ b/nbkode/runge_kutta/core.py
@@ -110,10 +110,7 @@ class AdaptiveRungeKutta(VariableStep, RungeKutta, abstract=True):
         step_update = cls._step_update
 
         @numba.njit
-        def _step(t_bound, rhs, cache, h, K, options):
-            if cache.t + h > t_bound:
-                return False
-
+        def _step(rhs, cache, h, K, options, *args):
             while True:
                 t, y = fixed_step(rhs, cache, h, K)
                 error = step_error(h, K, E)
@@ -122,8 +119,6 @@ class AdaptiveRungeKutta(VariableStep, RungeKutta, abstract=True):
                     cache.push(t, y, rhs(t, y))
                     break
 
-            return True
-
         return _step
 
     @property
-- 
2.43.0


From 448b124bedb74c390802cdf548ba8b3e6243869d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:27 +0000
Subject: [PATCH 19/23] fix: run with no timepoints raised IndexError

---
 nbkode/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index 243f554..50643df 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -411,13 +411,14 @@ class Solver(ABC, metaclass=MetaSolver):
             ndx = np.argsort(t)
             t = t[ndx]
 
-        if t[0] < self.cache.ts[0]:
+        if t.size > 0 and t[0] < self.cache.ts[0]:
             raise ValueError(
                 f"Cannot interpolate at t={t[0]} as it is smaller "
                 f"than the current smallest value in history ({self.cache.ts[0]})"
             )
 
-        self._check_time(np.max(t))
+        if t.size > 0:
+            self._check_time(np.max(t))
 
         to_interpolate = t <= self.t
         is_to_interpolate = np.any(to_interpolate)
-- 
2.43.0


From b16b386f607392b7d46107344899ea593e2cda2d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:09 +0000
Subject: [PATCH 20/23] fix: later changes of the caller's params changed the
 solution (interpreted mode)

---
 nbkode/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index 50643df..b6be87d 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -116,7 +116,7 @@ class Solver(ABC, metaclass=MetaSolver):
         self.t_bound = t_bound
 
         if params is not None:
-            params = np.ascontiguousarray(params)
+            params = np.array(params, order="C", ndmin=1)
 
         self.user_rhs = rhs
 
-- 
2.43.0


From b4e4ab41357793e7c8e1cf9f2d00d60f729955fc Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:24 +0000
Subject: [PATCH 21/23] fix: get_solvers listed the solvers of a repeated group
 twice

---
 nbkode/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index b6be87d..86fada2 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -806,7 +806,7 @@ def get_solvers(
         except KeyError:
             m = tuple(Solver.SOLVERS_BY_GROUP.keys())
             raise KeyError(f"Group {group} not found. Valid values: {m}")
-    return tuple(out)
+    return tuple(dict.fromkeys(out))
 
 
 def get_groups():
-- 
2.43.0


From 23cc777de678b138d48eb838a88aa6d96ddbb622 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:24 +0000
Subject: [PATCH 22/23] fix: multistep solvers with a numpy coefficient were
 missed by the implicit filter

---
 nbkode/multistep/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbkode/multistep/core.py b/nbkode/multistep/core.py
index e67cb52..681403f 100644
--- a/nbkode/multistep/core.py
+++ b/nbkode/multistep/core.py
@@ -28,7 +28,7 @@ class Multistep(Solver, abstract=True):
 
     @classproperty
     def IMPLICIT(cls):
-        return cls.Bn != 0
+        return bool(cls.Bn != 0)
 
     @classproperty
     def LEN_HISTORY(cls):
-- 
2.43.0


From 4a838df230d96eed4b27d3e8a2f2645805b45449 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:06 +0000
Subject: [PATCH 23/23] fix: a solver class refused for a taken alias stayed
 registered under its other names

---
 nbkode/core.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index 86fada2..cb4c169 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -158,13 +158,17 @@ class Solver(ABC, metaclass=MetaSolver):
                     f"LEN_HISTORY cannot be smaller than 1"
                 )
 
+            # Registered only if none of the names is taken.
+            solvers = cls.SOLVERS.copy()
             for name_or_alias in (cls.__name__,) + cls.ALIASES:
-                if name_or_alias in cls.SOLVERS:
+                if name_or_alias in solvers:
                     raise Exception(
                         f"Duplicate name/alias {cls.__name__} in {cls} "
-                        f"collides with {cls.SOLVERS[name_or_alias]}"
+                        f"collides with {solvers[name_or_alias]}"
                     )
-                cls.SOLVERS[name_or_alias] = cls
+                solvers[name_or_alias] = cls
+            cls.SOLVERS.update(solvers)
+
             if cls.GROUP not in cls.SOLVERS_BY_GROUP:
                 cls.SOLVERS_BY_GROUP[cls.GROUP] = []
             cls.SOLVERS_BY_GROUP[cls.GROUP].append(cls)
-- 
2.43.0

