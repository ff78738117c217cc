"""Driver for C15: the same calls in pure Python and compiled mode, with every form of right-hand side."""
import random

import numpy as np

from driver import Hang, hx, limit, numba, NO_NUMBA, solver_class
from isodriver import flat, observe

FORMS = ["bound", "bound-compiled", "params", "params-compiled"]


def functions(p, q, fault=None):
    M, c, d, qq, e = (np.array(p[k]) for k in ("M", "c", "d", "q", "e"))
    q0, q1 = float(q[0]), float(sum(q[1:]))

    if fault:
        # a right-hand side with a hole: it raises, or divides by zero, from (at) some time on
        kind, at = fault

        if kind == "raise":

            def bound(t, y):
                if t >= at:
                    raise ValueError("outside the domain")
                return ((M * y).sum(axis=1) + c + d * t + qq * y * y + e * t * y) * q0 + q1

            def params(t, y, r):
                if t >= at:
                    raise ValueError("outside the domain")
                return ((M * y).sum(axis=1) + c + d * t + qq * y * y + e * t * y) * r[0] + r[1:].sum()

        else:

            def bound(t, y):
                return ((M * y).sum(axis=1) + c + d * t + qq * y * y + e * t * y) * q0 + q1 + 0.001 / (at - t)

            def params(t, y, r):
                return ((M * y).sum(axis=1) + c + d * t + qq * y * y + e * t * y) * r[0] + r[1:].sum() + 0.001 / (at - t)

        return bound, params

    def bound(t, y):
        return ((M * y).sum(axis=1) + c + d * t + qq * y * y + e * t * y) * q0 + q1

    def params(t, y, r):
        return ((M * y).sum(axis=1) + c + d * t + qq * y * y + e * t * y) * r[0] + r[1:].sum()

    return bound, params


_events = {}


def event_function(a, b, c, direction, terminal, compiled):
    a = np.array(a)

    def g(t, y):
        v = b * t + c
        for i in range(a.size):
            v += a[i] * y[i]
        return v

    if compiled and not NO_NUMBA:
        g = numba.njit(g)
    if direction is not None:
        g.direction = direction
    if terminal is not None:
        g.terminal = terminal
    return g


def call(s, op, compiled):
    kw = {k: op[k] for k in ("n", "upto_t") if k in op}
    try:
        if op["op"] == "step":
            r = list(s.step(**kw))
        elif op["op"] == "skip":
            s.skip(**kw)
            r = []
        elif op["op"] == "run":
            r = list(s.run(op["ts"] if op.get("form") == "list" else np.array(op["ts"])))
        elif op["op"] == "interpolate":
            r = [s.interpolate(op["at"])]
        else:
            gs = []
            for x in op["events"]:
                if repr((x, compiled)) not in _events:
                    _events[repr((x, compiled))] = event_function(*x, compiled)
                gs.append(_events[repr((x, compiled))])
            t, y, te, ye = s.run_events(np.array(op["ts"]), gs if len(gs) > 1 or op.get("form") == "list" else gs[0])
            r = [t, y] + [np.array([float(x) for x in l]) for l in te] + [np.array([list(x) for x in l]) for l in ye]
        return "ok", r
    except Hang:
        return "hang", []
    except Exception as e:
        return type(e).__name__, []


def job_modes(job, out):
    for unit in job["units"]:
        p, q, form = unit["p"], unit["q"], unit["form"]
        bound, params = functions(p, q, unit.get("fault"))
        f = params if "params" in form else bound
        if "compiled" in form and not NO_NUMBA:
            f = numba.njit(f)
        for i, ses in enumerate(unit["sessions"]):
            kw = dict(ses.get("opts") or {})
            if ses.get("h") is not None:
                kw["h"] = ses["h"]
            if ses.get("tb") is not None:
                kw["t_bound"] = ses["tb"]
            if "fs" in ses:
                kw["first_stepper_cls"] = ses["fs"]
            args = [f, ses["t0"], np.array(ses["y0"])]
            if "params" in form:
                args.append(np.array(q) if ses["pform"] == "array" else tuple(q) if ses["pform"] == "tuple" else list(q))
            ev = []
            out.note(dict(id=unit["id"], cfg=unit["cls"], op="new"))
            try:
                s = solver_class(unit["cls"])(*args, **kw)
                ev.append(dict(op="new", kind="ok", ret=[], obs=observe(s)))
            except Exception as e:
                s = None
                ev.append(dict(op="new", kind=type(e).__name__, ret=[], obs=[]))
            for op in ses["ops"] if s is not None else []:
                out.note(dict(id=unit["id"], cfg=unit["cls"], op=op))
                if NO_NUMBA:
                    with limit():
                        kind, r = call(s, op, "compiled" in form)
                else:
                    kind, r = call(s, op, "compiled" in form)
                ev.append(dict(op=op["op"], kind=kind, ret=[flat(x) for x in r], obs=observe(s)))
                if kind == "hang":
                    break
            out.session(dict(id="%s.%d" % (unit["id"], i), form=("pure " if NO_NUMBA else "numba ") + form, events=ev))


def register(jobs):
    jobs["modes"] = job_modes
