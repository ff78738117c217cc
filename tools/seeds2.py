from seeds import HEAD

S = []


def seed(id, prop, edits, needs, breaks, demo, head=HEAD):
    S.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=head + demo.lstrip("\n")))


seed("S31", "C22", [("multistep/core.py", """            deltaA = cls.LEN_HISTORY - A.size
            deltaB = cls.LEN_HISTORY - B.size

            @numba.njit
            def _fixed_step(rhs, cache, h):
                t_new = cache.t + h
                y_new =""", """            deltaA = deltaB = cls.LEN_HISTORY - A.size

            @numba.njit
            def _fixed_step(rhs, cache, h):
                t_new = cache.t + h
                y_new =""")],
     "an explicit multistep method, defined by a user, with fewer weights of derivatives than of states, or the reverse",
     "the weights of the derivatives meet the wrong points of the history (or none)",
     '''
from nbkode.multistep.core import ExplicitMultistep


class Leapfrog(ExplicitMultistep):
    A = np.array([-1.0, 0.0])
    B = np.array([2.0])


s = Leapfrog(lambda t, y: np.array([2 * t]), 0.0, [0.0], h=0.25)
try:
    s.skip(n=3)
except Exception as e:
    need(False, repr(e))
need(abs(s.y[0] - s.t ** 2) < 1e-12, "state %r at %r" % (s.y, s.t))
''')

seed("S32", "C22", [("runge_kutta/core.py", """                if step_update(error_norm, h, options, error_exponent):
                    cache.push(t, y, rhs(t, y))""", """                if step_update(error_norm, h, options, error_exponent):
                    cache.push(t, y, K[-1])""")],
     "an adaptive Runge-Kutta method, defined by a user, whose last stage is not the derivative at the new point",
     "the recorded derivative (and the first stage of the next step) is the last stage",
     '''
from nbkode.runge_kutta.core import AdaptiveRungeKutta
from nbkode.runge_kutta.explicit import ERK


class HeunEuler(AdaptiveRungeKutta, ERK):
    A = np.array([[0.0, 0.0], [1.0, 0.0]])
    B = np.array([0.5, 0.5])
    C = np.array([0.0, 1.0])
    B2 = np.array([1.0, 0.0])
    error_estimator_order = 1


s = HeunEuler(lambda t, y: -y, 0.0, [1.0], first_step=0.1, rtol=1e-2, atol=1e-2)
s.step()
need(s.f[0] == -s.y[0], "derivative %r at state %r" % (s.f, s.y))
''')

seed("S33", "C17", [("core.py", """                self.options.rtol,
                self.options.atol,
            )""", """                self.options.atol,
                self.options.rtol,
            )""")],
     "a variable step solver without first_step, with tolerances that differ",
     "the automatic first step is chosen for exchanged tolerances",
     '''
from scipy.integrate import RK45
f = lambda t, y: np.array([y[1], -100 * y[0]])
a = nbkode.RungeKutta45(f, 0.0, [1000.0, 0.0], rtol=1e-3, atol=1e-9)
b = RK45(f, 0.0, [1000.0, 0.0], 1e6, rtol=1e-3, atol=1e-9)
need(abs(float(a.h) / b.h_abs - 1) < 1e-6, "first step %r instead of %r" % (float(a.h), b.h_abs))
''')

seed("S34", "C05", [("multistep/core.py", """            t, y = fixed_step(rhs, cache, h)
            cache.push(t, y, rhs(t, y))""", """            t, y = fixed_step(rhs, cache, h)
            if np.all(y == cache.y):
                # Nothing moves, no need to evaluate it again.
                cache.push(t, y, cache.f)
            else:
                cache.push(t, y, rhs(t, y))""")],
     "a right-hand side that depends on time and is zero for one step, with a multistep method",
     "the derivative recorded with a point is the one of the previous point, and the solution stops for ever",
     '''
s = nbkode.ForwardEuler(lambda t, y: np.array([min(t, 1.0)]), 0.0, [0.0], h=0.25)
s.step()
need(s.f[0] == 0.25, "derivative %r at t=%r" % (s.f, s.t))
''')

seed("S35", "C19", [("nbcompat/zeros.py", "            p1 += eps if p1 >= 0 else -eps", "            p1 += eps")],
     "the secant method from the start -1 (the two starting points coincide)",
     "newton returns its starting point as a root",
     '''
from nbkode.nbcompat.zeros import newton
try:
    x = newton(lambda x: x * x - 2, -1.0)
except RuntimeError:
    sys.exit(0)
need(abs(x * x - 2) < 1e-6, "root %r" % x)
''')

seed("S36", "C18", [("util.py", "        self._store[key.lower()] = (key, value)", "        self._store[key.lower()] = (self._store.get(key.lower(), (key,))[0], value)")],
     "a key that is set again in another letter case",
     "the dictionary remembers the first spelling of the key instead of the last one",
     '''
from nbkode.util import CaseInsensitiveDict
d = CaseInsensitiveDict()
d["Accept"] = 1
d["aCCEPT"] = 2
need(list(d.items()) == [("aCCEPT", 2)], "items %r" % list(d.items()))
''')

seed("S37", "C16", [("core.py", "        if issubclass(solver, RungeKutta) is not runge_kutta:", "        if (solver.GROUP == RungeKutta.GROUP) is not runge_kutta:")],
     "a Runge-Kutta solver defined with a group of its own, and the runge_kutta filter",
     "the solver is not found among the Runge-Kutta ones",
     '''
from nbkode.runge_kutta.explicit import ERK


class Ralston(ERK):
    GROUP = "Mine"
    A = np.array([[0.0, 0.0], [2 / 3, 0.0]])
    B = np.array([0.25, 0.75])
    C = np.array([0.0, 2 / 3])


need(Ralston in nbkode.get_solvers(runge_kutta=True), "not among the Runge-Kutta solvers")
''')

seed("S38", "C14", [("runge_kutta/explicit.py", """        if t_eval == self.cache.ts[-2]:
            return self.cache.ys[-2].copy()
        if not self.is_before(t_eval):
            self.update()

        t_old = self.cache.ts[-2]
        y_old = self.cache.ys[-2]
        t = self.cache.ts[-1]
        h = t - t_old

        x = (t_eval - t_old) / h

        y = np.zeros_like(y_old)""", """        if t_eval == self.cache.ts[-2]:
            return self.cache.ys[-2].copy()
        if not self.is_before(t_eval):
            self.update()

        t_old = self.cache.ts[-2]
        y_old = self.cache.ys[-2]
        t = self.cache.ts[-1]
        h = t - t_old

        x = (t_eval - t_old) / h

        y = self.y_eval
        y[:] = 0"""), ("runge_kutta/explicit.py", """        self.K = K
        self.K_extended = np.empty(""", """        self.K = K
        self.y_eval = np.zeros_like(cache.y)
        self.K_extended = np.empty("""), ("runge_kutta/explicit.py", """            ("K_extended", numba.types.float64[:, ::1]),""", """            ("K_extended", numba.types.float64[:, ::1]),
            ("y_eval", numba.types.float64[::1]),""")],
     "DOP853, a result of interpolate (or of an event) that is kept over another interpolation",
     "interpolate returns the same array again and again, so that earlier results change",
     '''
s = nbkode.DOP853(lambda t, y: -y, 0.0, [1.0], first_step=0.5, rtol=1e-2)
s.step()
a = s.interpolate(0.1)
was = a.copy()
s.interpolate(0.3)
need(np.array_equal(a, was), "the result changed from %r to %r" % (was, a))
''')

seed("S39", "C02", [("core.py", """            self._check_time(upto_t)
            self._skip(upto_t, self._step, *self._step_args)""", """            self._check_time(upto_t)
            if self.FIXED_STEP:
                n = int((upto_t - self.t) / self.h)
                self._nskip(n, upto_t, self._step, *self._step_args)
            else:
                self._skip(upto_t, self._step, *self._step_args)""")],
     "a fixed step solver, skip(upto_t) with an upto_t that is reached but whose quotient by the step rounds down",
     "skip(upto_t) stops a step short",
     '''
s = nbkode.RungeKutta4(lambda t, y: -y, 0.0, [1.0], h=0.1)
r = nbkode.RungeKutta4(lambda t, y: -y, 0.0, [1.0], h=0.1)
for n in range(1, 200):
    r.step()
    s = nbkode.RungeKutta4(lambda t, y: -y, 0.0, [1.0], h=0.1)
    s.skip(upto_t=r.t)
    need(s.t == r.t, "at %r instead of %r" % (s.t, r.t))
''')

seed("S40", "C10", [("multistep/adams_bashforth.py", "B = np.array([251, -1274, 2616, -2774, 1901]) / 720", "B = np.array([251, -1264, 2586, -2744, 1891]) / 720")],
     "AdamsBashforth5 on a problem whose derivatives of order four or more matter",
     "the weights are those of a method of order 3 instead of 5",
     '''
s = nbkode.AdamsBashforth5(lambda t, y: np.array([5 * t ** 4]), 0.0, [0.0], h=0.25)
t0, y0 = s.t, s.y[0]
s.step()
need(abs((s.y[0] - y0) - (s.t ** 5 - t0 ** 5)) < 1e-10, "increment %r instead of %r" % (s.y[0] - y0, s.t ** 5 - t0 ** 5))
''')

seed("S41", "C13", [("multistep/core.py", "            solver = first_stepper_cls(self.rhs, self.t, self.y)", "            solver = first_stepper_cls(self.rhs, self.t, self.y, t_bound=self.t_bound)")],
     "a multistep method with a variable first stepper and a t_bound shortly after the start-up",
     "the first stepper stops before the start-up is complete, and the method goes on from a history that is not uniform",
     '''
s = nbkode.AdamsBashforth4(lambda t, y: -y, 0.0, [1.0], h=0.25, t_bound=1.0)
need(np.allclose(s.cache.ts, [0, 0.25, 0.5, 0.75]), "history %r" % s.cache.ts)
''')

seed("S42", "C12", [("runge_kutta/core.py", "np.maximum(np.abs(y), np.abs(y_prev))", "np.maximum(np.abs(y), y_prev)")],
     "a variable step method on a solution that is negative and shrinks, where the step fails or nearly so",
     "the error is compared with a scale that ignores the old state when it is negative",
     '''
from scipy.integrate import RK45
f = lambda t, y: -50 * y
a = nbkode.RungeKutta45(f, 0.0, [-1.0], first_step=0.01, rtol=1e-3, atol=1e-9)
b = RK45(f, 0.0, [-1.0], 1e6, first_step=0.01, rtol=1e-3, atol=1e-9)
for _ in range(5):
    a.step()
    b.step()
    need(abs(a.t / b.t - 1) < 1e-9, "at %r instead of %r" % (a.t, b.t))
''')

seed("S43", "C08", [("event_handler.py", """                self.t.append(root)
                self.y.append(interpolate(root, rhs, cache, *args))""", """                self.t.append(root)
                if root == t:
                    self.y.append(y)
                else:
                    self.y.append(interpolate(root, rhs, cache, *args))""")],
     "an event exactly at the end of a step, followed by further steps",
     "the state reported with the event is the newest one of the solver",
     '''
s = nbkode.ForwardEuler(lambda t, y: np.array([1.0]), 0.0, [0.0], h=0.25)
t, y, te, ye = s.run_events([1.0, 2.0], [lambda t, y: y[0] - 1.0])
need(te[0] == [1.0], "events at %r" % te)
need(ye[0][0][0] == 1.0, "state %r at the event" % ye[0][0])
''')

seed("S44", "C11", [("nbcompat/zeros.py", """    p, funcalls, itr, flag = r
    if my_flag is not NewtonEnum.OK:
        raise RuntimeError
    return p""", """    p, funcalls, itr, flag = r
    if my_flag is NewtonEnum.NOT_CONVERGED:
        raise RuntimeError
    return p""")],
     "an implicit method whose equation has no solution because the unknown cancels out (h times the derivative of the right-hand side is one)",
     "the step records a state that does not solve the equation",
     '''
s = nbkode.BackwardEuler(lambda t, y: 4.0 * y + 1.0, 0.0, [1.0], h=0.25)
try:
    s.step()
except RuntimeError:
    sys.exit(0)
need(abs(s.y[0] - 0.25 * (4 * s.y[0] + 1) - 1.0) < 1e-6, "state %r" % s.y)
''')

seed("S45", "C07", [("event_handler.py", """            if not (self.t and self.t[-1] == root):""", """            if not (self.t and abs(self.t[-1] - root) <= 1e-3 * (t - self.last_t)):""")],
     "two events of a function within a thousandth of a step (short steps after a long one: the crossing near the end, and back near the start of the next)",
     "the second of two close events is left out",
     '''
s = nbkode.ForwardEuler(lambda t, y: np.array([1.0]), 0.0, [0.0], h=1.0)
g = lambda t, y: 1.0 if t < 0.9999 else (-1.0 if t < 1.0001 else 1.0)
t, y, te, ye = s.run_events([3.0], [g])
need(len(te[0]) == 2, "events %r" % te)
''')

seed("S46", "C09", [("event_handler.py", """                is_terminal = event.terminal
""", """                is_terminal = event.terminal and not (evs and evs[-1].is_terminal)
""")],
     "two terminal event functions listed one after the other, of which the second occurs first",
     "only the first of several terminal events ends the integration",
     '''
def g(t, y):
    return y[0] - 3.0


def k(t, y):
    return y[0] - 1.1


g.terminal = k.terminal = True
s = nbkode.ForwardEuler(lambda t, y: np.array([1.0]), 0.0, [0.0], h=0.25)
t, y, te, ye = s.run_events([0.5, 1.0, 2.0, 4.0], [g, k])
need(abs(t[-1] - 1.1) < 1e-9, "ends at %r" % t)
''')

seed("S47", "C21", [("runge_kutta/core.py", """            t, y = fixed_step(rhs, cache, h, K)
            cache.push(t, y, rhs(t, y))""", """            t, y = fixed_step(rhs, cache, h, K)
            cache.push(t, y, y)
            cache.f[:] = rhs(t, y)""")],
     "a fixed step Runge-Kutta method whose right-hand side raises at the new point, after which the solver is used again",
     "the failed step is recorded with a derivative that is none",
     '''
def f(t, y):
    if calls[0] == 0:
        raise ZeroDivisionError
    calls[0] -= 1
    return -y


calls = [1000]
s = nbkode.RungeKutta4(f, 0.0, [1.0], h=0.25)
s.skip(n=3)
before = s.t, s.y.copy(), s.f.copy()
for k in range(8):
    calls[0] = k
    try:
        s.step()
        break
    except ZeroDivisionError:
        pass
    need(s.t == before[0] and np.array_equal(s.f, before[2]), "at %r with derivative %r" % (s.t, s.f))
''')

seed("S48", "C14", [("core.py", """        t = np.atleast_1d(t).astype(np.float64)
""", """        t = np.atleast_1d(np.asarray(t, dtype=np.float64))
"""), ("core.py", """            ndx = np.argsort(t)
            t = t[ndx]
""", """            ndx = np.argsort(t)
            t.sort()
""")],
     "run with an unsorted float array that the caller goes on using",
     "run sorts the caller's array of times",
     '''
s = nbkode.RungeKutta4(lambda t, y: -y, 0.0, [1.0], h=0.1)
ts = np.array([0.15, 1.05, 0.35])
was = ts.copy()
s.run(ts)
need(np.array_equal(ts, was), "the times are now %r" % ts)
''')

seed("S49", "C03", [("core.py", """            ts, ys, scon = self._run_eval(
                self.t_bound,""", """            ts, ys, scon = self._run_eval(
                max(self.t_bound, self.t + self.h) if t_to_run.size and t_to_run[-1] == self.t_bound else self.t_bound,""")],
     "run to exactly t_bound when the next step does not fit",
     "run makes one step beyond t_bound",
     '''
s = nbkode.RungeKutta4(lambda t, y: -y, 0.0, [1.0], h=0.25, t_bound=1.1)
s.skip(n=4)
s.run([1.1])
need(s.t <= 1.1, "at %r" % s.t)
''')

