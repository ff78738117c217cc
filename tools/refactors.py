#!/usr/bin/env python3
"""refactors.py [NAME...]: edits that keep the behaviour; every check has to stay quiet on them."""
import os, shutil, subprocess, sys

R = {}


def ref(name, *edits):
    R[name] = edits


ref("core_calls",
    ("core.py", '''        t = np.atleast_1d(t).astype(np.float64)

        is_t_sorted = t.size == 1 or np.all(t[:-1] <= t[1:])

        if not is_t_sorted:
            ndx = np.argsort(t)
            t = t[ndx]

        if t[0] < self.cache.ts[0]:
            raise ValueError(
                f"Cannot interpolate at t={t[0]} as it is smaller "
                f"than the current smallest value in history ({self.cache.ts[0]})"
            )

        self._check_time(np.max(t))
''', '''        t = np.array(t, dtype=np.float64, ndmin=1)

        self._check_time(t.max())

        oldest = self.cache.ts[0]
        if t.min() < oldest:
            raise ValueError(f"Time {t.min()} is older than the history ({oldest})")

        is_t_sorted = not np.any(np.diff(t) < 0)
        if not is_t_sorted:
            ndx = np.argsort(t, kind="stable")
            t = t[ndx]
'''),
    ("core.py", '''        if upto_t is not None and upto_t < self.t:
            return np.asarray([]), np.asarray([])

        if n is None and upto_t is None:
            # No parameters, make one step.
            if self._step(self.t_bound, *self._step_args):
                return np.atleast_1d(self.t), np.copy(self.y)
            raise RuntimeError("Integrator reached t_bound.")
        elif upto_t is None:
            # Only n is given, make n steps. If t_bound is reached, raise an exception.
            ts, ys, scon = self._nsteps(n, self.t_bound, self._step, *self._step_args)
            if scon:
                raise RuntimeError("Integrator reached t_bound.")
            return ts, ys
        elif n is None:
            # Only upto_t is given, move until that value.
            # t_bound will not be reached a it due to validation in _check_time
            self._check_time(upto_t)
            ts, ys, scon = self._steps(upto_t, self._step, *self._step_args)
            return ts, ys
        else:
            # Both parameters are given, move until either condition is reached.
            # t_bound will not be reached a it due to validation in _check_time
            self._check_time(upto_t)
            ts, ys, scon = self._nsteps(n, upto_t, self._step, *self._step_args)
            return ts, ys
''', '''        if upto_t is None:
            if n is None:
                if not self._step(self.t_bound, *self._step_args):
                    raise RuntimeError("Integrator reached t_bound.")
                return np.atleast_1d(self.t), np.array(self.y)
            result = self._nsteps(n, self.t_bound, self._step, *self._step_args)
            if result[2]:
                raise RuntimeError("Integrator reached t_bound.")
            return result[0], result[1]

        if upto_t < self.t:
            return np.empty(0), np.empty(0)
        self._check_time(upto_t)
        if n is None:
            result = self._steps(upto_t, self._step, *self._step_args)
        else:
            result = self._nsteps(n, upto_t, self._step, *self._step_args)
        return result[0], result[1]
'''),
    ("core.py", '''        for ndx in range(n_steps):
            if not step(t_end, rhs, cache, *args):
                return t_out[:ndx], y_out[:ndx], True

            t_out[ndx] = cache.t
            y_out[ndx] = cache.y

        return t_out, y_out, False
''', '''        done = 0
        while done < n_steps and step(t_end, rhs, cache, *args):
            y_out[done] = cache.y
            t_out[done] = cache.t
            done += 1

        return t_out[:done], y_out[:done], done < n_steps
'''),
    ("core.py", '''        for _ in range(n_steps):
            if not step(t_end, rhs, cache, *args):
                return True
        return False
''', '''        left = n_steps
        while left > 0:
            if not step(t_end, rhs, cache, *args):
                break
            left -= 1
        return left > 0
'''),
    ("core.py", '''                if cache.t + h > t_bound:
                    return False
                else:
                    step(rhs, cache, h, *args)
                    return True
''', '''                fits = cache.t + h <= t_bound
                if fits:
                    step(rhs, cache, h, *args)
                return fits
'''))

ref("core_interp",
    ("core.py", '''        n = cache.ts.size - 1
        while n > 0 and cache.ts[n] > t_eval:
            n -= 1

        t0, y0 = cache.ts[n], cache.ys[n]
        if t_eval == t0:
            return np.copy(y0)

        dt, dy = cache.ts[n + 1] - t0, cache.ys[n + 1] - y0
        f0, f1 = cache.fs[n], cache.fs[n + 1]

        T = (t_eval - t0) / dt
        return (
            y0
            + T * dy
            + T * (T - 1) * ((1 - 2 * T) * dy + dt * ((T - 1) * f0 + T * f1))
        )
''', '''        n = 0
        for k in range(cache.ts.size):
            if cache.ts[k] <= t_eval:
                n = k

        t0 = cache.ts[n]
        if t_eval == t0:
            return cache.ys[n].copy()

        dt = cache.ts[n + 1] - t0
        T = (t_eval - t0) / dt
        h00 = (1 + 2 * T) * (1 - T) ** 2
        h10 = T * (1 - T) ** 2
        h01 = T * T * (3 - 2 * T)
        h11 = T * T * (T - 1)
        return (
            h00 * cache.ys[n]
            + h01 * cache.ys[n + 1]
            + dt * (h10 * cache.fs[n] + h11 * cache.fs[n + 1])
        )
'''),
    ("core.py", '''        for ndx, ti in enumerate(t_eval):
            while cache.t < ti:
                if not step(t_bound, rhs, cache, *args):
                    return t_eval[:ndx], y_out[:ndx], True
            y_out[ndx] = interpolate(ti, rhs, cache, *args)

        return t_eval, y_out, False
''', '''        ndx = 0
        while ndx < t_eval.size:
            if cache.t >= t_eval[ndx]:
                y_out[ndx] = interpolate(t_eval[ndx], rhs, cache, *args)
                ndx += 1
            elif not step(t_bound, rhs, cache, *args):
                break

        return t_eval[:ndx], y_out[:ndx], ndx < t_eval.size
'''),
    ("core.py", '''        if not (self.cache.ts[0] <= t <= self.cache.t):
            raise ValueError(
                f"Time {t} to interpolate outside range ([{self.cache.ts[0]}, {self.cache.t}])"
            )
''', '''        first, last = self.cache.ts[0], self.cache.ts[-1]
        if t < first or t > last or t != t:
            raise ValueError(f"Cannot interpolate at {t}: outside of [{first}, {last}]")
'''))

ref("buffer",
    ("buffer.py", '''        self.ts[:-1] = self.ts[1:]
        self.ts[-1] = t

        self.ys[:-1] = self.ys[1:]
        self.ys[-1] = y

        self.fs[:-1] = self.fs[1:]
        self.fs[-1] = f
''' if False else '''        self.ts[:-1] = self.ts[1:]
        self.ts[-1] = t

        self.ys[:-1] = self.ys[1:]
        self.ys[-1] = y

        self.fs[:-1] = self.fs[1:]
        self.fs[-1] = f''', '''        last = self.ts.size - 1
        for k in range(last):
            self.fs[k] = self.fs[k + 1]
            self.ys[k] = self.ys[k + 1]
            self.ts[k] = self.ts[k + 1]
        self.fs[last] = f
        self.ys[last] = y
        self.ts[last] = t'''))

ref("events",
    ("event_handler.py", '''        up = (self.last_value <= 0.0) & (value >= 0.0)
        down = (self.last_value >= 0.0) & (value <= 0.0)
        either = up | down

        trigger = (
            up & (self.direction > 0)
            | down & (self.direction < 0)
            | either & (self.direction == 0)
        )

        if trigger:
            if value == 0:
                root = t
            else:
''', '''        if self.direction > 0:
            trigger = self.last_value <= 0.0 and value >= 0.0
        elif self.direction < 0:
            trigger = self.last_value >= 0.0 and value <= 0.0
        else:
            trigger = (self.last_value <= 0.0 and value >= 0.0) or (
                self.last_value >= 0.0 and value <= 0.0
            )

        if trigger:
            root = t
            if value != 0:
'''),
    ("event_handler.py", '''        terminate = False
        min_t = np.inf
        for ndx, event in enumerate(self.events):
            if event.evaluate(interpolate, rhs, cache, *args):
                terminate = True
                t, y = event.last_event
                if t < min_t:
                    min_t = t
                    self.last_event = t, y

        if terminate:
            # The integration ends at the first terminal event,
            # anything found later within this step does not happen.
            for event in self.events:
                if event.t and event.t[-1] > min_t:
                    event.t.pop()
                    event.y.pop()

        return terminate
''', '''        first = np.inf
        for event in self.events:
            ends = event.evaluate(interpolate, rhs, cache, *args)
            if ends and event.t[-1] < first:
                first = event.t[-1]
                self.last_event = event.t[-1], event.y[-1]

        if first == np.inf:
            return False

        for event in self.events:
            if len(event.t) > 0:
                if event.t[-1] > first:
                    event.y.pop()
                    event.t.pop()

        return True
'''),
    ("core.py", '''                    while ndx < t_eval.size and t_eval[ndx] < t_last:
                        t_out[ndx] = t_eval[ndx]
                        y_out[ndx] = interpolate(t_eval[ndx], rhs, cache, *args)
                        ndx += 1
''', '''                    while ndx < t_eval.size:
                        tn = t_eval[ndx]
                        if tn >= t_last:
                            break
                        y_out[ndx] = interpolate(tn, rhs, cache, *args)
                        t_out[ndx] = tn
                        ndx += 1
'''))

ref("zeros",
    ("nbcompat/zeros.py", '''    for _ in range(maxiter):
        mid = (left + right) / 2
        ym = fun(mid, *args)
        if isclose(ym, 0, rtol=rtol, atol=tol):
            break
        if np.sign(ym) == np.sign(yl):
            left, yl = mid, ym
        else:
            right, yr = mid, ym

    return mid
''', '''    rising = yl < 0
    count = 0
    while count < maxiter:
        mid = left + (right - left) / 2
        ym = fun(mid, *args)
        if abs(ym) <= tol:
            return mid
        if (ym < 0) == rising:
            left = mid
        else:
            right = mid
        count += 1

    return mid
'''),
    ("nbcompat/zeros.py", '''        x1 = x.copy()
        x2 = x.copy()

        x1[i] += eps
        x2[i] -= eps

        f1 = func(x1, *args)
        f2 = func(x2, *args)

        J[:, i] = (f1 - f2) / (2 * eps)
''', '''        xi = x.copy()
        xi[i] = x[i] + eps
        above = func(xi, *args).copy()
        xi[i] = x[i] - eps
        below = func(xi, *args)

        J[:, i] = (above - below) / (2 * eps)
'''),
    ("nbcompat/zeros.py", '''    value = func(y, *args)
    distance = np.linalg.norm(value, ord=2)  # l2 norm of vector
    iteration_counter = 0

    while not isclose(distance, 0, rtol=rtol, atol=atol):
        delta = np.linalg.solve(jacobian(func, y, args), -value)
        y = y + delta
        value = func(y, *args)
        distance = np.linalg.norm(value, ord=2)
        iteration_counter += 1

        if iteration_counter > maxiter:
            return y, NewtonEnum.NOT_CONVERGED

    return y, NewtonEnum.OK
''', '''    value = func(y, *args)
    for _ in range(maxiter + 1):
        if np.sqrt(np.sum(value * value)) <= atol:
            return y, NewtonEnum.OK
        y = y - np.linalg.solve(jacobian(func, y, args), value)
        value = func(y, *args)

    return y, NewtonEnum.NOT_CONVERGED
'''),
    ("nbcompat/zeros.py", '''                if np.abs(q1) > np.abs(q0):
                    p = (-q0 / q1 * p1 + p0) / (1 - q0 / q1)
                else:
                    p = (-q1 / q0 * p0 + p1) / (1 - q1 / q0)
''', '''                p = p1 - q1 * (p1 - p0) / (q1 - q0)
'''))

ref("multistep",
    ("multistep/core.py", '''                t_new = cache.t + h
                y_new = h * B @ cache.fs[deltaB:] - A @ cache.ys[deltaA:]
                return t_new, y_new
''', '''                y_new = np.zeros(cache.y.size)
                for k in range(B.size):
                    y_new += h * B[k] * cache.fs[deltaB + k]
                for k in range(A.size):
                    y_new -= A[k] * cache.ys[deltaA + k]
                return cache.t + h, y_new
'''),
    ("multistep/core.py", '''                t_new = cache.t + h
                y_new = h * B @ cache.fs - A @ cache.ys
                return t_new, y_new
''', '''                y_new = np.zeros(cache.y.size)
                for k in range(B.size):
                    y_new += B[k] * cache.fs[k]
                y_new *= h
                for k in range(A.size):
                    y_new -= A[k] * cache.ys[k]
                return cache.t + h, y_new
'''),
    ("multistep/core.py", '''            return y - h_Bn * rhs(t, y) - K
''', '''            return y - (h_Bn * rhs(t, y) + K)
'''),
    ("multistep/core.py", '''            while len(ts) < self.ORDER - 1:
                solver.step()
                ts.append(solver.t)
                ys.append(solver.y.copy())
                fs.append(solver.f.copy())
            for t, y, f in zip(ts[: self.ORDER - 1], ys, fs):
                self.cache.push(t, y, f)
''', '''            for _ in range(self.ORDER - 1 - len(ts)):
                solver.skip()
                ts.append(solver.t)
                ys.append(np.array(solver.y))
                fs.append(np.array(solver.f))
            for k in range(self.ORDER - 1):
                self.cache.push(ts[k], ys[k], fs[k])
'''))

ref("rk",
    ("runge_kutta/core.py", '''        scale = options.atol + options.rtol * np.maximum(np.abs(y), np.abs(y_prev))
        error_norm = np.sqrt(np.mean((error / scale) ** 2))
        return error_norm
''', '''        size = np.maximum(np.abs(y_prev), np.abs(y))
        scaled = error / (options.rtol * size + options.atol)
        return np.sqrt(np.sum(scaled * scaled) / scaled.size)
'''),
    ("runge_kutta/core.py", '''        if error_norm == 0:
            h *= options.max_factor
        else:
            factor = options.safety_factor / error_norm**error_exponent
            h *= min(options.max_factor, max(options.min_factor, factor))

        if h > options.max_step:
            h[()] = options.max_step

        if error_norm < 1:
            if h < options.min_step:
                h[()] = options.min_step
            return True

        if not h >= options.min_step:
            h[()] = rejected_h
            raise RuntimeError("Required step size is smaller than min_step.")

        return False
''', '''        factor = options.max_factor
        if error_norm != 0:
            factor = options.safety_factor * error_norm ** (-error_exponent)
            if not factor > options.min_factor:
                factor = options.min_factor
            if factor > options.max_factor:
                factor = options.max_factor
        new_h = min(rejected_h * factor, options.max_step)

        accepted = error_norm < 1
        if not accepted and not new_h >= options.min_step:
            raise RuntimeError("Required step size is smaller than min_step.")

        h[()] = max(new_h, options.min_step) if accepted else new_h
        return accepted
'''),
    ("runge_kutta/explicit.py", '''            K[0] = cache.f
            for s, c in enumerate(C[1:], 1):
                dy = A[s, :s] @ K[:s]
                K[s] = rhs(t + h * c, y + h * dy)

            t = t + h
            y = y + h * B @ K
            return t, y
''', '''            K[0] = cache.f
            for s in range(1, C.size):
                dy = np.zeros(y.size)
                for j in range(s):
                    dy += (h * A[s, j]) * K[j]
                K[s] = rhs(t + C[s] * h, y + dy)

            y_new = y.copy()
            for j in range(B.size):
                y_new += (h * B[j]) * K[j]
            return t + h, y_new
'''))

ref("init",
    ("core.py", '''        t0 = float(t0)
        y0 = np.array(y0, dtype=float, ndmin=1)
        self.cache = AlignedBuffer(self.LEN_HISTORY, t0, y0, self.rhs(t0, y0))
''', '''        start = float(t0)
        state = np.atleast_1d(np.array(y0, dtype=float))
        slope = self.rhs(start, state)
        self.cache = AlignedBuffer(self.LEN_HISTORY, start, state, slope)
'''),
    ("core.py", '''        self.h = np.array(min(h, self.options.max_step), dtype=float)
''', '''        if h > self.options.max_step:
            h = self.options.max_step
        self.h = np.array(h, dtype=float)
'''),
    ("util.py", '''        return CaseInsensitiveDict(self._store.values())
''', '''        new = CaseInsensitiveDict()
        for key, value in self._store.values():
            new[key] = value
        return new
'''),
    ("util.py", '''        return dict(self.lower_items()) == dict(other.lower_items())
''', '''        mine, theirs = dict(self.lower_items()), dict(other.lower_items())
        return len(mine) == len(theirs) and all(k in theirs and theirs[k] == v for k, v in mine.items())
'''),
    ("core.py", '''            # Nothing is registered unless the class is complete.
            if cls.GROUP not in cls.SOLVERS_BY_GROUP:
                cls.SOLVERS_BY_GROUP[cls.GROUP] = []
            cls.SOLVERS_BY_GROUP[cls.GROUP].append(cls)
            for name_or_alias in (cls.__name__,) + cls.ALIASES:
                cls.SOLVERS[name_or_alias] = cls
''', '''            group = cls.GROUP
            cls.SOLVERS_BY_GROUP.setdefault(group, []).append(cls)
            cls.SOLVERS.update({name: cls for name in (cls.__name__,) + cls.ALIASES})
'''))


def main():
    names = sys.argv[1:] or list(R)
    checks = (os.environ.get("CHECKS") or " ".join("C%02d" % i for i in range(1, 22))).split()
    for name in names:
        wt = "/tmp/ref_" + name
        shutil.rmtree(wt, ignore_errors=True)
        shutil.copytree("/repo", wt, ignore=shutil.ignore_patterns(".git", "docs"))
        for f, a, b in R[name]:
            p = wt + "/nbkode/" + f
            x = open(p).read()
            if x.count(a) != 1:
                print(name, f, "matches", x.count(a), a[:60])
                sys.exit(1)
            open(p, "w").write(x.replace(a, b))
        env = dict(os.environ, VERIF_REPO=wt, VERIF_EVIDENCE=wt + "/ev", PYTHONDONTWRITEBYTECODE="1")
        for c in checks:
            r = subprocess.run(["python3", "/verif/harness/check.py", c], env=env, capture_output=True, text=True)
            if r.returncode:
                print(name, c, "rc", r.returncode, [x for x in r.stdout.splitlines() if x.startswith("  ")][:4] or (r.stdout + r.stderr)[-400:], flush=True)
        print(name, "done", flush=True)
        if not os.environ.get("KEEP"):
            shutil.rmtree(wt)


main()
