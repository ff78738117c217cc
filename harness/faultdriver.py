"""Driver for C21: the right-hand side, or an event function, fails at a chosen evaluation."""
import random

import numpy as np

from driver import (INF, Hang, apply, event, history, hv, hx, json, limit, make, make_rhs, observe, py_rhs,
                    record_dense, record_grid)


class Fault(Exception):
    pass


KINDS = [Fault, ValueError, RuntimeError, ZeroDivisionError, StopIteration, KeyError, IndexError, FloatingPointError, KeyboardInterrupt]


class Switch:
    """Counts evaluations; raises once, at the chosen one."""

    def __init__(self):
        self.left = 0
        self.kind = Fault
        self.disarm()

    def arm(self, k, kind):
        self.left, self.kind, self.raised, self.tau = k, kind, False, None

    def disarm(self):
        self.left, self.raised, self.tau = 0, False, None

    def tick(self, t):
        if self.left > 0:
            self.left -= 1
            if self.left == 0:
                self.raised, self.tau = True, float(t)
                raise self.kind("injected")


def wrapped(p, sw):
    f = py_rhs(p)

    def rhs(t, y):
        sw.tick(t)
        return f(t, y)

    return rhs


class Session:
    def __init__(self, out, cfg, sid, points):
        self.out, self.cfg, self.sid = out, cfg, sid
        self.sw, self.esw = Switch(), Switch()
        self.grids, self.taus, self.makers = [], [], []
        self.points = points

    def base(self, grid):
        self.grids.append(grid)
        self.taus.append([])
        self.makers.append(None)

    def build(self):
        self.events = []
        try:
            self.s = make(self.cfg, rhs=wrapped(self.cfg["p"], self.sw))
        except Exception as e:
            self.built = type(e).__name__
            return False
        self.built = "ok"
        self.add(dict(op="new"), "ok", [], [], False, None)
        return True

    def add(self, op, kind, t, y, raised, tau, fault=""):
        e = event(self.s, op, kind, t, y)
        e.update(g=len(self.grids), raised=raised, tau="nan" if tau is None else hx(tau), fault=fault)
        self.events.append(e)
        self.taus[-1] += [float(x) for x in op.get("ts", [])]

    def call(self, op, k=0, kind=Fault, where="rhs"):
        sw = self.esw if where == "event" else self.sw
        self.sw.disarm(), self.esw.disarm()
        if k:
            sw.arm(k, kind)
        got, t, y = self.apply(op)
        raised, tau = sw.raised, sw.tau
        self.sw.disarm(), self.esw.disarm()
        self.add({**op, "op": "run"} if op["op"] == "run_events" else op, got, t, y, raised, tau, where if raised else "")
        if raised and self.cfg["grid"] == "adaptive":
            self.rebase()
        return raised, got

    def apply(self, op):
        if op["op"] != "run_events":
            try:
                return apply(self.s, op)
            except KeyboardInterrupt:
                return "KeyboardInterrupt", [], []
        esw, a = self.esw, op["fn"]

        def g(t, y):
            esw.tick(t)
            return y[0] - a

        try:
            with limit():
                t, y, te, ye = self.s.run_events(np.array(op["ts"]), [g])
        except Hang:
            return "hang", [], []
        except BaseException as e:
            return type(e).__name__, [], []
        return "ok", np.array(t), np.array(y)

    def rebase(self):
        """Where a variable step method goes on from: a new solver there, with its step size."""
        old = self.grids[-1]
        t = float(self.s.t)
        ts = [float.fromhex(x) for x in old["t"]]
        i = old["L"] - 1 + int(np.argmin(np.abs(np.array(ts[old["L"] - 1:]) - t)))
        y, h = np.array(self.s.y), float(self.s.h)
        cfg = dict(self.cfg, t0=t, opts=dict(self.cfg.get("opts") or {}, first_step=h))
        cfg["p"] = dict(self.cfg["p"], y0=y.tolist())
        try:
            g, _ = record_grid(cfg, max(2, self.points - i + 4))
        except (Exception, Hang):
            return
        L = g["L"]
        n = {k: old[k][: i + 1] + g[k][L:] for k in ("t", "y", "f", "h")}
        n["h"][i] = hx(h)
        n["L"], n["end"] = old["L"], g["end"]
        self.grids.append(n)
        self.taus.append([])
        self.makers.append((cfg, t))

    def finish(self):
        dense = []
        end = lambda g: float.fromhex(g["t"][-1])
        for j, g in enumerate(self.grids):
            d = {}
            taus = sorted(set(self.taus[j]))
            try:
                # the part that every earlier grid shares, then the newer ones
                d.update(record_dense(self.cfg, taus, end(g)))
                for m in self.makers[1: j + 1]:
                    cfg, t = m
                    d.update({k: v for k, v in record_dense(cfg, [x for x in taus if x > t], end(g)).items()})
            except (Exception, Hang):
                pass
            dense.append(d)
        self.out.session(dict(id=self.sid, cfg=self.cfg, built=self.built, grids=self.grids, dense=dense, events=self.events))


def job_fault(job, out):
    rng = random.Random(job["seed"])
    for ci, cfg in enumerate(job["configs"]):
        grid, ts = record_grid(cfg, job["points"])
        L = grid["L"]
        ts = [float(x) for x in ts]
        last = len(ts) - 1
        if last < L + 6 and not grid["end"]:
            continue
        inside = lambda i, f=0.5: ts[i] + f * (ts[i + 1] - ts[i])

        def ops(pos):
            """One of each call from grid index pos."""
            fn = float.fromhex(grid["y"][min(pos + 1, last)][0])
            return [dict(op="step"), dict(op="step", n=3), dict(op="skip", n=2), dict(op="skip", upto=inside(pos + 2)),
                    dict(op="step", upto=inside(pos + 2)),
                    dict(op="run", ts=[inside(pos + 1, 0.25), inside(pos, 0.5), inside(pos + 2, 0.75)]),
                    dict(op="run_events", ts=[inside(pos, 0.25), inside(pos + 2, 0.75)], fn=fn),
                    dict(op="interpolate", ts=[inside(pos - 1, 0.375)])]

        if grid["end"]:
            natural(out, cfg, grid, ts, rng, "%s/natural/%d" % (cfg["cls"], ci))
            continue
        for oi in range(8):
            warm = rng.choice([0, 0, 1, 2])
            if oi == 7 and warm == 0:
                warm = 1
            op = ops(L - 1 + warm)[oi]
            for where in ("rhs", "event") if op["op"] == "run_events" else ("rhs",):
                k = 0
                while k < job["max_k"]:
                    k += 1 if k < job["all_k"] else rng.choice([1, 3, 7])
                    s = Session(out, cfg, "%s/%s/%s/%d.%d" % (cfg["cls"], op["op"], where, ci, k), job["points"])
                    s.base(grid)
                    if not s.build():
                        s.finish()
                        break
                    if warm:
                        s.call(dict(op="skip", n=warm))
                    raised, got = s.call(op, k, rng.choice(KINDS), where)
                    if not raised:
                        if k == 1:
                            s.finish()
                        break
                    follow(s, op, rng)
                    s.finish()
        for w in range(job["random"]):
            chaos(out, cfg, grid, ts, rng, job, "%s/random/%d.%d" % (cfg["cls"], ci, w))


def follow(s, op, rng):
    """After a failure: ask about the past, do it again, and go on."""
    h = history(s.s)[0]
    a, b = float(h[-2]), float(h[-1])
    past = [a + f * (b - a) for f in (0.25, 0.5, 1.0)] if b > a else [b]
    for x in rng.sample(past, min(2, len(past))):
        s.call(dict(op="interpolate", ts=[x]))
    if rng.random() < 0.5:
        s.call(dict(op="run", ts=[past[0], b]))
    if rng.random() < 0.3:  # again, at another evaluation
        s.call(op, rng.randrange(1, 6), rng.choice(KINDS))
    # a target in the past is a no-op for step and skip, and may have left the history for run
    s.call(op)
    s.call(dict(op="step"))
    h = history(s.s)[0]
    s.call(dict(op="run", ts=[float(h[-1]) + 0.5 * float(s.s.h), float(h[-1])]))


def natural(out, cfg, grid, ts, rng, sid):
    """The trajectory ends by itself: no step can be made from its last point."""
    L, last = grid["L"], len(ts) - 1
    for j, ops in enumerate([
        [dict(op="skip", n=last - L + 1), dict(op="step"), dict(op="interpolate", ts=[ts[-1]]), dict(op="skip"), dict(op="run", ts=[ts[-1]])],
        [dict(op="step", n=last - L + 2), dict(op="step", n=2), dict(op="run", ts=[ts[-1], ts[-1] + 0.5 * (float(cfg.get("h") or 0.1))])],
        [dict(op="run", ts=[ts[-1] + 100.0]), dict(op="skip"), dict(op="interpolate", ts=[0.5 * ts[-2] + 0.5 * ts[-1]])],
        [dict(op="skip", upto=ts[-1] + 100.0), dict(op="step", upto=ts[-1] + 100.0), dict(op="run", ts=[ts[-1]])],
        [dict(op="run_events", ts=[ts[-1] + 100.0], fn=1e9), dict(op="step"), dict(op="interpolate", ts=[ts[-2]])],
    ]):
        s = Session(out, cfg, "%s.%d" % (sid, j), len(ts))
        s.base(grid)
        if s.build():
            for op in ops:
                s.call(op)
        s.finish()


def chaos(out, cfg, grid, ts, rng, job, sid):
    """Random calls, several of which fail."""
    s = Session(out, cfg, sid, job["points"])
    s.base(grid)
    if s.build():
        for _ in range(job["random_ops"]):
            g = s.grids[-1]
            tt = [float.fromhex(x) for x in g["t"]]
            i = g["L"] - 1 + int(np.argmin(np.abs(np.array(tt[g["L"] - 1:]) - float(s.s.t))))
            if i + 5 >= len(tt):
                break
            ins = lambda j: tt[j] + rng.choice([0.25, 0.5, 0.75]) * (tt[j + 1] - tt[j])
            op = rng.choice([dict(op="step"), dict(op="step", n=rng.randrange(0, 4)), dict(op="skip", n=rng.randrange(1, 4)),
                             dict(op="skip", upto=ins(i + rng.randrange(0, 3))), dict(op="step", upto=ins(i + rng.randrange(0, 3))),
                             dict(op="run", ts=[ins(i + rng.randrange(0, 3)) for _ in range(3)]),
                             dict(op="run_events", ts=[ins(i), ins(i + rng.randrange(0, 3))], fn=float.fromhex(g["y"][i + 1][0])),
                             dict(op="interpolate", ts=[ins(i - 1)])])
            if rng.random() < 0.5:
                s.call(op, rng.randrange(1, 25), rng.choice(KINDS), rng.choice(["rhs", "event"]) if op["op"] == "run_events" else "rhs")
            else:
                s.call(op)
    s.finish()


def register(jobs):
    jobs["fault"] = job_fault
