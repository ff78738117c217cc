"""Definitions of the planted bugs: id, property, edits, what they need, what they break, demonstration.

mkseeds.py turns them into /verif/seeded/<id>/.  No check reads this or /verif/seeded.
"""
HEAD = '''import os, sys
os.environ.setdefault("NBKODE_NONUMBA", "1")
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
import warnings
warnings.simplefilter("ignore")
import numpy as np
import nbkode


def need(ok, what):
    if not ok:
        print("FAILED:", what)
        sys.exit(1)


'''
JIT = HEAD.replace('os.environ.setdefault("NBKODE_NONUMBA", "1")', 'os.environ.pop("NBKODE_NONUMBA", None)\nos.environ["NUMBA_OPT"] = "0"')

S = []


def seed(id, prop, edits, needs, breaks, demo, head=HEAD):
    S.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=head + demo.lstrip("\n")))


seed("S01", "C01", [("core.py", """        self._check_time(np.max(t))

        to_inter""", """        t_last = np.max(t)
        self._check_time(t_last)

        if not self.FIXED_STEP and self.t < t_last < self.t + self.h:
            # No need to step over the last timepoint.
            self.h[()] = t_last - self.t

        to_inter""")],
     "a variable step solver, run() to a time within the next step, after other steps",
     "run() shortens the pending step to the requested time, so the accepted points depend on how the solver was driven",
     '''
f = lambda t, y: np.array([y[1], -y[0] + np.sin(t)])
a = nbkode.RungeKutta45(f, 0.0, [1.0, 0.5])
b = nbkode.RungeKutta45(f, 0.0, [1.0, 0.5])
a.skip(n=3)
b.skip(n=3)
b.run(b.t + 0.3 * float(b.h))
a.skip(n=5)
b.skip(n=4)
need(a.t == b.t and np.array_equal(a.y, b.y), "points depend on run: %r %r" % (a.t, b.t))
''')

seed("S02", "C02", [("core.py", """            ts, ys, scon = self._nsteps(n, upto_t, self._step, *self._step_args)
            return ts, ys

    def skip""", """            upto_t = min(upto_t, self.t + n * self.h)
            ts, ys, scon = self._nsteps(n, upto_t, self._step, *self._step_args)
            return ts, ys

    def skip""")],
     "step with both n and upto_t, with n > 1, on a variable step solver whose step grows, or where rounding of n*h differs from n additions",
     "step(n, upto_t) stops before n steps although none goes beyond upto_t",
     '''
s = nbkode.RungeKutta23(lambda t, y: -0.1 * y, 0.0, [1.0], first_step=1e-3)
t, y = s.step(n=4, upto_t=1e6)
need(len(t) == 4, "made %d steps instead of 4" % len(t))
''')

seed("S03", "C03", [("core.py", """                if cache.t + h > t_bound:
                    return False""", """                # Do not miss the last step due to rounding.
                if cache.t + h > t_bound + 1e-9 * h:
                    return False""")],
     "a fixed step solver and a t_bound (or upto_t) that the accumulated time passes only by rounding",
     "the solver goes beyond t_bound (by rounding of the accumulated time)",
     '''
s = nbkode.ForwardEuler(lambda t, y: -y, 0.0, [1.0], h=0.1, t_bound=0.3)
try:
    s.skip(n=3)
except RuntimeError:
    pass
need(s.t <= s.t_bound, "t=%r is beyond t_bound" % s.t)
''')

seed("S04", "C04", [("core.py", "is_t_sorted = t.size == 1 or np.all(t[:-1] <= t[1:])", "is_t_sorted = t.size == 1 or t[0] <= t[-1]")],
     "unsorted request whose first time is not after the last one, spanning several steps",
     "run() interpolates times that come after a later one as if the solver were still there",
     '''
s = nbkode.RungeKutta4(lambda t, y: -y, 0.0, [1.0], h=0.1)
ts = [0.15, 1.05, 0.35, 0.55]
t, y = s.run(ts)
need(np.array_equal(t, ts), "times")
need(np.allclose(y[:, 0], np.exp(-t), atol=1e-4), "states %r" % y[:, 0])
''')

seed("S05", "C05", [("nbcompat/zeros.py", "        y = y + delta\n", "        y += delta\n")],
     "an implicit multistep method on a system (more than one variable)",
     "the root finder overwrites the newest state of the history, which is its starting point",
     '''
f = lambda t, y: np.array([y[1], -y[0]])
s = nbkode.BDF2(f, 0.0, [1.0, 0.0], h=0.125, first_stepper_cls=None)
before = s.y.copy()
s.step()
need(np.array_equal(s.cache.ys[-2], before), "history %r, was at %r" % (s.cache.ys[-2], before))
''')

seed("S06", "C06", [("runge_kutta/explicit.py", "        self.C_EXTRA = C[n_stages + 1 :]", "        self.C_EXTRA = C[n_stages + 1 :][::-1].copy()")],
     "DOP853, interpolation inside a step, right-hand side that depends on time",
     "the extra stages of the dense output are evaluated at wrong times",
     '''
s = nbkode.DOP853(lambda t, y: np.array([np.cos(t)]), 0.0, [0.0], first_step=1.0, rtol=1e-2, atol=1e-2)
s.step()
h = s.t
for x in (0.2, 0.5, 0.8):
    need(abs(s.interpolate(x * h)[0] - np.sin(x * h)) < 1e-6, "dense output off at %r" % x)
''')

seed("S07", "C07", [("event_handler.py", """        for ndx, event in enumerate(events):
            try:
                is_terminal = event.terminal
            except AttributeError:
                is_terminal = False

            try:
                direction = int(np.sign(event.direction))
            except AttributeError:
                direction = 0
""", """        is_terminal, direction = False, 0
        for ndx, event in enumerate(events):
            if hasattr(event, "terminal"):
                is_terminal = event.terminal

            if hasattr(event, "direction"):
                direction = int(np.sign(event.direction))
""")],
     "several event functions, one with attributes followed by one without",
     "an event function without attributes takes the direction (and terminal) of the one listed before it",
     '''
f = lambda t, y: np.array([y[1], -y[0]])
def up(t, y):
    return y[0]
up.direction = 1
def both(t, y):
    return y[1]
s = nbkode.RungeKutta4(f, 0.0, [1.0, 0.1], h=0.05)
_, _, te, _ = s.run_events([7.0], [up, both])
need(len(te[0]) == 1 and len(te[1]) == 3, "events %r" % te)
''')

seed("S08", "C08", [("nbcompat/zeros.py", "def bisect(fun, left, right, tol=1.48e-8, maxiter=50, rtol=0.0, args=()):", "def bisect(fun, left, right, tol=1.48e-8, maxiter=24, rtol=0.0, args=()):")],
     "an event inside a long step of a steep event function",
     "events are located only to 2**-24 of the step",
     '''
s = nbkode.RungeKutta4(lambda t, y: np.array([1.0]), 0.0, [0.0], h=16.0)
_, _, te, ye = s.run_events([40.0], [lambda t, y: y[0] - 17.3])
need(len(te[0]) == 1 and abs(te[0][0] - 17.3) < 1e-9, "event at %r" % te)
''')

seed("S09", "C09", [("event_handler.py", "            if event.evaluate(interpolate, rhs, cache, *args):\n", "            if not terminate and event.evaluate(interpolate, rhs, cache, *args):\n")],
     "two terminal events in the same step, the earlier one listed later",
     "the integration ends at the first listed terminal event instead of the earliest",
     '''
def late(t, y):
    return y[0] - 0.8
late.terminal = True
def early(t, y):
    return y[0] - 0.6
early.terminal = True
s = nbkode.RungeKutta4(lambda t, y: np.array([1.0]), 0.0, [0.0], h=0.5)
t, y, te, ye = s.run_events([0.55, 0.7, 3.0], [late, early])
need(abs(t[-1] - 0.6) < 1e-9 and len(t) == 2, "ends at %r" % t)
''')

seed("S10", "C10", [("runge_kutta/explicit.py", "    C = np.array([0, 1, 2, 3]) / 3", "    C = np.array([0, 1, 1, 3]) / 3")],
     "RungeKutta3_8 with a right-hand side that depends on time",
     "the third stage is evaluated at t + h/3 instead of t + 2h/3",
     '''
s = nbkode.RungeKutta3_8(lambda t, y: np.array([t**2]), 0.0, [0.0], h=1.0)
s.step()
need(abs(s.y[0] - 1 / 3) < 1e-12, "state %r" % s.y)
''')

seed("S11", "C11", [("nbcompat/zeros.py", "            return y, NewtonEnum.NOT_CONVERGED", "            break")],
     "an implicit step on a system whose equation has no solution",
     "newton_hd gives up without saying so, and the step records a state that does not solve the equation",
     '''
f = lambda t, y: np.array([y[0] ** 2 + 1.0, 0.0 * y[1]])
s = nbkode.BackwardEuler(f, 0.0, [0.3, 1.0], h=1.0)
try:
    s.step()
except Exception:
    sys.exit(0)
need(abs(s.y[0] - 0.3 - (s.y[0] ** 2 + 1.0)) < 1e-6, "recorded %r, not a solution" % s.y)
''')

seed("S12", "C12", [("runge_kutta/core.py", "np.maximum(np.abs(y), np.abs(y_prev))", "np.abs(y_prev)")],
     "a growing solution (|y new| > |y old|) near the tolerance",
     "the error is compared with a scale that ignores the new state, so the accepted steps are not the standard ones",
     '''
s = nbkode.RungeKutta45(lambda t, y: 2 * y, 0.0, [1e-3], rtol=1e-3, atol=1e-9, first_step=0.1)
from scipy.integrate import RK45
r = RK45(lambda t, y: 2 * y, 0.0, [1e-3], np.inf, rtol=1e-3, atol=1e-9, first_step=0.1)
for _ in range(10):
    s.step()
    r.step()
    need(abs(s.t - r.t) < 1e-9 * s.t, "t=%r, the standard controller gives %r" % (s.t, r.t))
''')

seed("S13", "C13", [("multistep/core.py", "                self.cache.push(t, y, self.rhs(t, y))", "                self.cache.push(t, y, self.rhs(self.t, y))")],
     "a multistep method with a variable step first stepper and a right-hand side that depends on time",
     "the derivatives of the start-up points are taken at the previous time",
     '''
f = lambda t, y: np.array([np.cos(t) - y[0]])
s = nbkode.AdamsBashforth4(f, 0.0, [1.0], h=0.1)
for t, y, d in zip(s.cache.ts, s.cache.ys, s.cache.fs):
    need(np.allclose(d, f(t, y), atol=1e-12), "derivative at %r" % t)
''')

seed("S14", "C14", [("runge_kutta/explicit.py", """    error_estimator_order = 4
    E = np.array(
        [-71 / 57600, 0, 71 / 16695, -71 / 1920, 17253 / 339200, -22 / 525, 1 / 40]
    )

    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self._interpolator = RkInterpolator(self.cache, self.P, self.K)
""", """    error_estimator_order = 4
    E = np.array(
        [-71 / 57600, 0, 71 / 16695, -71 / 1920, 17253 / 339200, -22 / 525, 1 / 40]
    )

    # Work arrays by shape.
    _WORK = {}

    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self.K = K = self._WORK.setdefault(self.K.shape, self.K)
        self._interpolator = RkInterpolator(self.cache, self.P, K)
""")],
     "two RungeKutta45 solvers of the same dimension, interleaved, one interpolating after the other stepped",
     "solvers of the same dimension share their stages, so stepping one alters the dense output of the other",
     '''
a = nbkode.RungeKutta45(lambda t, y: -y, 0.0, [1.0], first_step=0.5)
b = nbkode.RungeKutta45(lambda t, y: 5 * y, 0.0, [7.0], first_step=0.25)
a.step()
b.step()
x = a.interpolate(0.5 * a.t)
c = nbkode.RungeKutta45(lambda t, y: -y, 0.0, [1.0], first_step=0.5)
c.step()
need(np.allclose(x, c.interpolate(0.5 * c.t), rtol=1e-12), "interpolates %r" % x)
''')

seed("S15", "C15", [("core.py", "            params = np.ascontiguousarray(params)", "            params = np.ascontiguousarray(params, dtype=np.float32)")],
     "parameters that single precision cannot represent",
     "a parameter passed as params is not the one the caller gave",
     '''
a = nbkode.RungeKutta4(lambda t, y, p: -p[0] * y, 0.0, [1.0], params=(0.1,), h=0.5)
b = nbkode.RungeKutta4(lambda t, y: -0.1 * y, 0.0, [1.0], h=0.5)
a.skip(n=10)
b.skip(n=10)
need(np.allclose(a.y, b.y, rtol=1e-13, atol=0), "%r %r" % (a.y, b.y))
''')

seed("S16", "C16", [("core.py", "                if name_or_alias in cls.SOLVERS:\n", "                if name_or_alias in list(cls.SOLVERS):\n")],
     "a solver class whose name or alias differs from a registered one only in letter case",
     "the definition is not refused and replaces the registered solver",
     '''
from nbkode.multistep.adams_bashforth import AdamsBashforth2
was = nbkode.get_solver("forwardeuler")
try:
    class forwardEuler(AdamsBashforth2):
        pass
except Exception:
    pass
need(nbkode.get_solver("ForwardEuler") is was, "replaced")
''')

seed("S17", "C17", [("core.py", "                self.error_estimator_order,\n                self.options.rtol", "                getattr(self, \"order\", self.error_estimator_order),\n                self.options.rtol")],
     "DOP853 without first_step",
     "the automatic first step of DOP853 is computed for order 8 instead of that of its error estimate, 7",
     '''
from scipy.integrate import DOP853
f = lambda t, y: np.array([y[1], -y[0]])
for y0 in ([1.0, 0.0], [10.0, 3.0]):
    a = nbkode.DOP853(f, 0.0, y0)
    b = DOP853(f, 0.0, y0, np.inf)
    need(abs(a.h - b.h_abs) < 1e-9 * b.h_abs, "first step %r %r" % (a.h, b.h_abs))
''')

seed("S18", "C18", [("util.py", "        del self._store[key.lower()]", "        self._store.pop(key.lower(), None)")],
     "deletion of a key that is not there",
     "deleting a missing key does nothing instead of raising KeyError",
     '''
from nbkode.util import CaseInsensitiveDict
d = CaseInsensitiveDict(a=1)
try:
    del d["b"]
except KeyError:
    sys.exit(0)
need(False, "no KeyError")
''')

seed("S19", "C19", [("nbcompat/zeros.py", "                if np.abs(adj) < 1:", "                if adj < 1:")],
     "Halley's method where the correction is below -1",
     "the Halley step is damped although the correction is not close to one: another iteration than specified",
     '''
from nbkode.nbcompat import zeros
from scipy import optimize
f = lambda x: x**3 - 2 * x + 2
fp = lambda x: 3 * x**2 - 2
fpp = lambda x: 6 * x
worst = 0
for x0 in np.linspace(-3, 3, 301):
    for n in (1, 2, 3):
        try:
            a = zeros._newton(f, x0, fp, (), 1e-10, n, fpp, None, 0.0, True)[0][1][0]
        except Exception:
            continue
        b = optimize.newton(f, x0, fp, fprime2=fpp, tol=1e-10, maxiter=n, full_output=True, disp=False)[0]
        need(abs(a - b) <= 1e-9 * (1 + abs(b)), "from %r: %r instead of %r" % (x0, a, b))
''')

seed("S20", "C20", [("nbcompat/zeros.py", "        if np.sign(ym) == np.sign(yl):", "        if ym * yl > 0:")],
     "a function with very small values (the product underflows)",
     "bisect moves the wrong end of the bracket and returns a point without a root",
     '''
from nbkode.nbcompat import zeros
r = zeros.bisect(lambda x: 1e-200 * (x - 0.7), 0.0, 1.0, tol=0.0)
need(abs(r - 0.7) < 1e-9, "root %r" % r)
''')

seed("S21", "C21", [("runge_kutta/core.py", """            t, y = fixed_step(rhs, cache, h, K)
            cache.push(t, y, rhs(t, y))
""", """            t, y = fixed_step(rhs, cache, h, K)
            cache.push(t, y, cache.f)
            cache.fs[-1] = rhs(t, y)
""")],
     "a right-hand side that raises when evaluated at the end of the step of a fixed step Runge-Kutta method, and the solver used afterwards",
     "the failed step is recorded, with the derivative of the point before it",
     '''
class Oops(Exception):
    pass
n, at = 0, None
def f(t, y):
    global n
    n += 1
    if n == at:
        raise Oops
    return -y
s = nbkode.RungeKutta4(f, 0.0, [1.0], h=0.1)
s.step()
t = s.t
at = n + 4
try:
    s.step()
except Oops:
    pass
need(s.t == t and np.allclose(s.f, -s.y), "at %r, f=%r, y=%r" % (s.t, s.f, s.y))
''')

seed("S22", "C03", [("core.py", "        if t > self.t_bound:\n", "        if t >= self.t_bound:\n")],
     "a request for exactly t_bound",
     "a request that does not lie beyond t_bound is refused",
     '''
s = nbkode.RungeKutta4(lambda t, y: -y, 0.0, [1.0], h=0.25, t_bound=1.0)
t, y = s.run([0.5, 1.0])
need(len(t) == 2, "times %r" % t)
''')

seed("S23", "C04", [("core.py", """        y_out = np.empty((t_eval.size, cache.y.size))

        for ndx, ti in enumerate(t_eval):
            while cache.t < ti:""", """        y_out = np.empty((t_eval.size, cache.y.size))

        for ndx, ti in enumerate(t_eval):
            while cache.t <= ti:""")],
     "a requested time that is exactly a point of the solver",
     "run() advances one step further than needed, and stops short of a point that t_bound allows",
     '''
s = nbkode.RungeKutta4(lambda t, y: -y, 0.0, [1.0], h=0.25)
s.run([0.25, 0.5])
need(s.t == 0.5, "at %r" % s.t)
''')

seed("S24", "C07", [("event_handler.py", "        up = (self.last_value <= 0.0) & (value >= 0.0)\n        down = (self.last_value >= 0.0) & (value <= 0.0)\n",
                     "        up = (self.last_value <= 0.0) & (value > 0.0)\n        down = (self.last_value >= 0.0) & (value < 0.0)\n")],
     "an event function that is exactly zero at the last point of the run",
     "an event at the end of a step is only reported if another step is made",
     '''
s = nbkode.RungeKutta4(lambda t, y: np.array([1.0]), 0.0, [0.0], h=0.5)
_, _, te, _ = s.run_events([1.0], [lambda t, y: y[0] - 1.0])
need(len(te[0]) == 1, "events %r" % te)
''')

seed("S25", "C11", [("multistep/core.py", """                    y_new = newton_hd(
                        implicit_root,
                        cache.y,
                        args=(rhs, t_new, h * Bn, K),
                    )

                return t_new, y_new

        else:""", """                    y_new = newton_hd(
                        implicit_root,
                        cache.y,
                        args=(rhs, cache.t, h * Bn, K),
                    )

                return t_new, y_new

        else:""")],
     "a one-step implicit method (backward Euler, ...) on a system that depends on time",
     "the implicit equation is solved with the right-hand side at the old time",
     '''
s = nbkode.BackwardEuler(lambda t, y: np.array([t, -y[0]]), 0.0, [0.0, 0.0], h=0.5)
s.step()
need(abs(s.y[0] - 0.25) < 1e-7, "state %r" % s.y)
''')

seed("S26", "C06", [("core.py", "((1 - 2 * T) * dy + dt * ((T - 1) * f0 + T * f1))", "((1 - 2 * T) * dy + dt * ((T - 1) * f0 + T * cache.f))")],
     "interpolation in an older step of the history of a multistep method",
     "the slope at the end of the step is replaced by the newest one",
     '''
s = nbkode.AdamsBashforth4(lambda t, y: np.array([3 * t**2]), 0.0, [0.0], h=0.5)
s.skip(n=4)
t = s.cache.ts[0] + 0.3
need(abs(s.interpolate(t)[0] - t**3) < 1e-9, "interpolates %r, not %r" % (s.interpolate(t), t**3))
''')

seed("S27", "C15", [("core.py", "            rhs = numba.njit(rhs)\n", "            rhs = numba.njit(error_model=\"numpy\")(rhs)\n")],
     "compiled mode, a right-hand side that was not compiled beforehand and divides by zero",
     "the division by zero is not reported in compiled mode",
     '''
def f(t, y):
    return y * (1.0 / (t - 0.5))

try:
    s = nbkode.ForwardEuler(f, 0.0, np.array([1.0]), h=0.25)
    s.skip(n=4)
except ZeroDivisionError:
    sys.exit(0)
need(False, "no ZeroDivisionError, state %r" % s.y)
''', JIT)

seed("S28", "C20", [("nbcompat/zeros.py", "        distance = np.linalg.norm(value, ord=2)\n        iteration", "        distance = np.linalg.norm(value, ord=np.inf)\n        iteration")],
     "a system whose residuals are each within tolerance but not their Euclidean norm",
     "newton_hd returns a point where the norm of the function is above the tolerance",
     '''
from nbkode.nbcompat import zeros
n = 50
f = lambda y: y**3
tol = 1e-3
r = zeros.newton_hd(f, np.full(n, 1.0), atol=tol)
need(np.linalg.norm(f(r)) <= tol, "norm %r" % np.linalg.norm(f(r)))
''')

seed("S29", "C03", [("core.py", "            if self._nskip(n, self.t_bound, self._step, *self._step_args):\n", "            if self._nskip(n, np.inf, self._step, *self._step_args):\n")],
     "skip(n=...) on a solver with a t_bound that the steps would pass",
     "skip(n) ignores t_bound",
     '''
s = nbkode.RungeKutta4(lambda t, y: -y, 0.0, [1.0], h=0.25, t_bound=1.0)
s.skip(n=2)
try:
    s.skip(n=5)
except RuntimeError:
    pass
need(s.t <= 1.0, "at %r" % s.t)
''')

seed("S30", "C12", [("runge_kutta/core.py", "        return 1 / (cls.error_estimator_order + 1)", "        return 1 / (getattr(cls, \"order\", cls.error_estimator_order) + 1)")],
     "DOP853",
     "the controller of DOP853 uses the order of the method instead of that of the error estimate",
     '''
from scipy.integrate import DOP853
f = lambda t, y: np.array([y[1], -y[0] * (1 + 0.5 * np.sin(3 * t))])
a = nbkode.DOP853(f, 0.0, [1.0, 0.0], first_step=0.5, rtol=1e-6, atol=1e-9)
b = DOP853(f, 0.0, [1.0, 0.0], np.inf, first_step=0.5, rtol=1e-6, atol=1e-9)
for _ in range(8):
    a.step()
    b.step()
    need(abs(a.t - b.t) < 1e-6 * b.t, "%r %r" % (a.t, b.t))
''')
