"""Conformance driver: runs the real solvers and records what they do.

usage: driver.py JOB.json OUT.ndjson   (repo's python; NBKODE_NONUMBA decides the mode)

It only drives and records: what should have happened is said by the specification, which
checks the recorded sessions (one JSON object per line).
"""
import json
import os
import random
import signal
import sys
import traceback
import warnings

sys.dont_write_bytecode = True
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
sys.path.insert(1, os.path.dirname(os.path.abspath(__file__)))
warnings.simplefilter("ignore")

import numpy as np  # noqa: E402

import nbkode  # noqa: E402
from nbkode.nbcompat import NO_NUMBA, numba  # noqa: E402
from problems import ADAPTIVE  # noqa: E402

INF = float("inf")
BIG = 1e12


class Hang(BaseException):
    pass


CALL_LIMIT = float(os.environ.get("VERIF_CALL_LIMIT", "20"))
HANGS = []  # calls that did not return
OUT = []


def _alarm(_, frame):
    HANGS.append(traceback.format_stack(frame)[-6:])
    if len(HANGS) >= 4 and OUT:  # it is settled: no need to wait for the rest
        gone(HANGS[-1])
        os._exit(0)
    raise Hang


def gone(stack):
    OUT[0].f.write(json.dumps(dict(meta=True, unexpected="does not return", call=stack[0].strip().split("\n")[-1].strip(), trace="".join(stack)[-3000:])) + "\n")
    OUT[0].f.flush()


signal.signal(signal.SIGALRM, _alarm)


def hx(x):
    x = float(x)
    if x != x:
        return "nan"
    if x in (INF, -INF):
        return "inf" if x > 0 else "-inf"
    return x.hex()


def hv(v):
    return [hx(x) for x in np.ravel(v)]


def hm(m):
    return [hv(r) for r in m]


# ---------------------------------------------------------------- right-hand sides

_rhs_cache = {}


def py_rhs(p):
    """f(t, y) = M y + c + d t + q y*y + e t y"""
    M, c, d, q, e = (np.array(p[k]) for k in ("M", "c", "d", "q", "e"))

    def rhs(t, y):
        return (M * y).sum(axis=1) + c + d * t + q * y * y + e * t * y

    return rhs


def make_rhs(p):
    p = {k: v for k, v in p.items() if k != "name"}
    key = json.dumps(p, sort_keys=True)
    if key not in _rhs_cache:
        f = py_rhs(p)
        _rhs_cache[key] = f if NO_NUMBA else numba.njit(f)
    return _rhs_cache[key]


def solver_class(name):
    return getattr(nbkode, name) if hasattr(nbkode, name) else nbkode.get_solver(name)


_forms = random.Random(1)


def number(x, count=False):
    """The same number as any of the types a caller may have it in (compiled code would be compiled for each)."""
    if not NO_NUMBA or _forms.random() < 0.5:
        return x
    if count:
        return _forms.choice([np.int64, np.int32, int])(x)
    c = [np.float64, float]
    if float(x).is_integer() and abs(x) < 2**31:
        c += [int, np.int64]
    return _forms.choice(c)(x)


def make(cfg, tb=None, rhs=None):
    p = cfg["p"]
    kw = {k: number(v) for k, v in (cfg.get("opts") or {}).items()}
    if cfg.get("h") is not None:
        kw["h"] = number(cfg["h"])
    if "fs" in cfg:
        kw["first_stepper_cls"] = cfg["fs"]
    if tb is not None:
        kw["t_bound"] = number(tb)
    return solver_class(cfg["cls"])(rhs or make_rhs(p), cfg["t0"], np.array(p["y0"]), **kw)


# ---------------------------------------------------------------- observation


def history(s):
    c = getattr(s, "cache", None)
    if c is None or not hasattr(c, "ts"):
        return None
    return np.array(c.ts), np.array(c.ys), np.array(c.fs)


def observe(s):
    h = history(s)
    o = dict(t=hx(s.t), y=hv(s.y), f=hv(s.f), h=hx(s.h))
    o["ht"], o["hy"], o["hf"] = (hv(h[0]), hm(h[1]), hm(h[2])) if h else ([], [], [])
    return o


def record_grid(cfg, n, until=None):
    """The points that single steps reach, from a solver of its own."""
    s = make(cfg)
    ht, hy, hf = history(s)
    L = len(ht)
    g = dict(L=L, t=hv(ht), y=hm(hy), f=hm(hf), h=[hx(s.h)] * L, end="")
    ts = list(ht)
    with limit():
        for _ in range(n):
            if until is not None and s.t > until:
                break
            try:
                s.step()
            except Exception as e:
                g["end"] = type(e).__name__
                break
            if not np.all(np.isfinite(s.y)) or np.max(np.abs(s.y)) > BIG * (1 + np.max(np.abs(hy))):
                g["end"] = "grows"  # beyond what can be compared
                break
            g["t"].append(hx(s.t))
            g["y"].append(hv(s.y))
            g["f"].append(hv(s.f))
            g["h"].append(hx(s.h))
            ts.append(float(s.t))
    return g, np.array(ts, dtype=float)


def record_dense(cfg, taus, end):
    """Interpolated states at taus, from a solver of its own: {hex time: state}."""
    s = make(cfg)
    out = {}
    old = history(s)[0][0]
    with limit():
        for tau in sorted(set(taus)):
            if tau < old or tau > end:
                continue
            while s.t < tau:
                s.step()
            if history(s)[0][0] <= tau <= s.t:
                out[hx(tau)] = hv(s.interpolate(tau))
    return out


class limit:
    """Turns a call that does not return (in pure Python) into an exception."""

    def __enter__(self):
        signal.setitimer(signal.ITIMER_REAL, CALL_LIMIT if not HANGS else CALL_LIMIT / 2)

    def __exit__(self, *_):
        signal.setitimer(signal.ITIMER_REAL, 0)


def given(ts, form):
    """The requested times in one of the forms a caller may use."""
    if form == "scalar" and len(ts) == 1:
        return ts[0]
    if form == "0d" and len(ts) == 1:
        return np.array(ts[0])
    if form == "tuple":
        return tuple(ts)
    if form == "array":
        return np.array(ts)
    if form == "f32" and all(float(np.float32(x)) == x for x in ts):
        return np.array(ts, dtype=np.float32)
    if form == "int" and all(float(x).is_integer() for x in ts):
        return np.array([int(x) for x in ts]) if len(ts) > 1 else int(ts[0])
    if form == "view":
        return np.repeat(np.array(ts), 2)[::2]
    return list(ts)


FORMS = ["list", "tuple", "array", "array", "scalar", "0d", "f32", "int", "view"]


def apply(s, op):
    """Perform one call; returns (kind, returned times, returned states)."""
    kw = {}
    if op.get("n", -1) != -1:
        kw["n"] = number(op["n"], count=True)
    if op.get("upto") is not None:
        kw["upto_t"] = number(op["upto"])
    try:
        with limit():
            if op["op"] == "step":
                t, y = s.step(**kw)
            elif op["op"] == "skip":
                r = s.skip(**kw)
                return ("ok" if r is None else "returned"), [], []
            elif op["op"] == "run":
                t, y = s.run(given(op["ts"], op.get("form")))
            elif op["op"] == "interpolate":
                y = s.interpolate(op["ts"][0])
                return "ok", np.array([op["ts"][0]]), np.array([y])
    except Hang:
        return "hang", [], []
    except Exception as e:
        return type(e).__name__, [], []
    t, y = np.asarray(t), np.asarray(y)
    if op["op"] == "step" and not kw and y.ndim == 1:
        y = y.reshape(1, -1)  # step() gives the state itself
    return "ok", np.array(t), np.array(y)


def event(s, op, kind, t, y):
    o = observe(s)
    o.update(
        op=op["op"], n=op.get("n", -1), upto="none" if op.get("upto") is None else hx(op["upto"]),
        ts=[hx(x) for x in op.get("ts", [])], kind=kind,
        rt=[hx(x) for x in np.ravel(t)], ry=hm(y) if len(y) else [], edge=bool(op.get("edge")), ends="rel" in op,
    )
    return o


class Out:
    def __init__(self, path):
        self.f = open(path, "w")
        self.side = path + ".now"
        OUT[:] = [self]

    def session(self, s):
        if "cfg" in s:
            p = s["cfg"]["p"]
            s["p"] = {k: hm(v) if k == "M" else hv(v) for k, v in p.items()}
            s["cfg"] = json.dumps({k: v for k, v in s["cfg"].items() if k != "p"})
        self.f.write(json.dumps(s) + "\n")
        self.f.flush()

    def note(self, what):
        """Which call is being made: read by the parent if it never returns."""
        if not NO_NUMBA:
            with open(self.side, "w") as f:
                json.dump(what, f)


# ---------------------------------------------------------------- C01..C05: the interface


def concrete(L, ts, tb_abs, unit=1.0):
    """Map the model's abstract times to times on the real grid ts (point L-1 is the start).

    Fractions within a step are kept.  Unless the grid is exact (dyadic), a target on a
    point is moved off it by a small part of the step."""

    def f(x, exact):
        x = float(x)
        if x == INF:
            return INF
        i = int(np.floor(x))
        fr = x - i
        j = L - 1 + i
        if j < 0:
            return float(ts[0] - 0.5 * unit)
        if j + 1 >= len(ts):
            j = len(ts) - 2
        a, b = float(ts[j]), float(ts[j + 1])
        if b == a:  # before the start, and the history is a repeated point
            a, b = float(ts[L - 1]) - (1.0 - i) * unit, float(ts[L - 1])
            return a + fr * (b - a) if x < 0 else b
        if fr == 0 and not exact:
            fr = 1 / 512.0
        return a + fr * (b - a)

    return f


def relative(s, r):
    """A time next to an end of the recorded history: (end, direction)."""
    end, way = r
    x = float(history(s)[0][0] if end == "oldest" else s.t)
    return x if way == 0 else float(np.nextafter(x, way * INF))


def run_session(out, cfg, grid, ts, tb, ops, sid, note=None):
    """A fresh solver through a list of calls."""
    sess = dict(id=sid, cfg=cfg, tb=hx(tb), grid=grid, events=[])
    try:
        s = make(cfg, tb=None if tb == INF else tb)
    except Exception as e:
        sess["built"] = type(e).__name__
        sess["dense"] = {}
        out.session(sess)
        return
    sess["built"] = "ok"
    sess["events"].append(event(s, dict(op="new"), "ok", [], []))
    taus = []
    for op in ops:
        if "rel" in op:
            op = dict(op, ts=[relative(s, r) for r in op["rel"]])
        out.note(dict(id=sid, cfg=cfg, op=op))
        kind, t, y = apply(s, op)
        sess["events"].append(event(s, op, kind, t, y))
        taus += op.get("ts", [])
        if kind == "hang":
            break
    try:
        sess["dense"] = record_dense(cfg, [float(x) for x in taus], float(ts[-1]))
    except (Exception, Hang) as e:
        sess["dense"] = {"error": [type(e).__name__]}
    out.session(sess)


def walk(trans, pos0, rng, n_ops, covered):
    """A path through the model's transitions that prefers those not covered yet."""
    pos, res, idle = pos0, [], 0
    while len(res) < n_ops:
        cand = trans.get(pos, [])
        fresh = [k for k in cand if k[0] not in covered]
        if not cand:
            break
        still = [k for k in fresh if k[1] == pos]
        move = [k for k in fresh if k[1] != pos]
        if still and idle < 3:
            k, idle = rng.choice(still), idle + 1
        elif move:
            small = [k for k in move if k[1] <= pos + 1] or move
            k, idle = rng.choice(small if rng.random() < 0.8 else move), 0
        else:
            k, idle = rng.choice([x for x in cand if x[1] > pos] or cand), 0
        covered.add(k[0])
        res.append(k)
        pos = k[1]
    return res


def job_api(job, out):
    rng = random.Random(job["seed"])
    trans = {}
    for gname, tb, lst in job["transitions"]:
        d = {}
        for k in lst:
            d.setdefault(k[1], []).append((k[0], k[2], k[3]))
        trans[gname, tb] = d
    starts = dict(fixed=2, multi=3, fill=3, adaptive=2)
    covered = set()
    for ci, cfg in enumerate(job["configs"]):
        gname = cfg["grid"]
        try:
            grid, ts = record_grid(cfg, job.get("points", 9))
        except Hang:
            out.session(dict(id="%s#grid" % cfg["cls"], cfg=cfg, tb="inf", built="hang", grid=dict(L=2, t=[], y=[], f=[], h=[], end="hang"), events=[], dense={}))
            continue
        L = grid["L"]
        if grid["end"] == "grows" and len(ts) < L + 7:
            continue
        if len(ts) < L + 7:
            out.session(dict(id="%s#grid" % cfg["cls"], cfg=cfg, tb="inf", built="ok", grid=grid, events=[], dense={}, short=True))
            continue
        exact = cfg.get("exact", False)
        for tb_abs in job["bounds"]:
            conc = concrete(L, ts, tb_abs, cfg.get("unit", 1.0))
            tb = conc(frac(tb_abs), exact)
            tr = trans.get((gname, tb_abs), {})
            for w in range(job["walks"]):
                path = walk(tr, starts[gname], rng, job["ops"], covered)
                ops = []
                for key, _, call in path:
                    op = dict(op=call["op"], n=call["n"])
                    if call["upto"] != "none":
                        op["upto"] = tb if call["upto"] == tb_abs else conc(frac(call["upto"]), exact)
                    if call["ts"]:
                        op["ts"] = [tb if x == tb_abs else conc(frac(x), exact) for x in call["ts"]]
                    ops.append(op)
                if ops:
                    run_session(out, cfg, grid, ts, tb, ops, "%s/%s/tb=%s/%d.%d" % (cfg["cls"], gname, tb_abs, ci, w))
        for w in range(job.get("random", 0)):
            random_session(out, cfg, rng, job, "%s/random/%d.%d" % (cfg["cls"], ci, w))
        if ci < job.get("long", 2) and len(cfg["p"]["y0"]) <= 3:
            long_session(out, cfg, rng, "%s/long/%d" % (cfg["cls"], ci), rng.choice([400, 700, 700, 1500]))
        edge_sessions(out, cfg, rng, job.get("edges", 4), "%s/edge/%d" % (cfg["cls"], ci))
    out.session(dict(meta=True, covered=sorted(covered)))


def frac(x):
    if "/" in x:
        a, b = x.split("/")
        return int(a) / int(b)
    return float(x)


def random_session(out, cfg, rng, job, sid):
    """A longer history: many points, random calls."""
    n = rng.choice(job.get("lengths", [30, 60]))
    grid, ts = record_grid(cfg, n + 12)
    L = grid["L"]
    if len(ts) < L + 12:
        return
    last = len(ts) - 12
    r = rng.random()
    if r < 0.4:
        tb = INF
    else:
        j = rng.randrange(L - 1, last)
        a, b = ts[j], ts[j + 1]
        tb = float(a + rng.choice([1 / 64.0, 0.5, 63 / 64.0]) * (b - a))
        if cfg.get("exact") and rng.random() < 0.5:
            tb = float(b)

    def target(lo, hi):
        j = rng.randrange(max(0, lo), max(lo + 1, hi))
        a, b = ts[j], ts[j + 1]
        if b == a:
            return float(a)
        f = rng.choice([1 / 64.0, 0.25, 0.5, 0.75, 63 / 64.0])
        if cfg.get("exact") and rng.random() < 0.4:
            f = 0.0
        return float(a + f * (b - a))

    s = make(cfg, tb=None if tb == INF else tb)
    sess = dict(id=sid, cfg=cfg, tb=hx(tb), grid=grid, events=[event(s, dict(op="new"), "ok", [], [])], built="ok")
    taus = []
    for _ in range(job.get("random_ops", 25)):
        # where the solver really is decides which calls make sense; the outcome is the model's
        pos = int(np.argmin(np.abs(ts[L - 1:] - float(s.t)))) + L - 1
        ahead = min(last, pos + rng.choice([1, 2, 3, 5, 10]))
        kind = rng.choice(["step", "skip", "run", "run", "interpolate"])
        if kind in ("step", "skip"):
            op = dict(op=kind, n=-1)
            room = last - pos
            m = rng.random()
            if m < 0.2:
                if room < 1:
                    break
            elif m < 0.5:
                op["n"] = rng.randrange(0, max(1, min(room, 7)))
            elif m < 0.75:
                op["upto"] = target(pos - 1, ahead + 1)
            else:
                op["n"] = rng.randrange(0, 6)
                op["upto"] = target(pos, ahead + 1)
        elif kind == "run":
            k = rng.choice([1, 1, 2, 3, 6, 12, 40])
            lo = pos if rng.random() < 0.6 else pos - L + 1
            tt = [target(lo, ahead + 1) for _ in range(k)]
            if rng.random() < 0.5:
                tt.sort()
            if rng.random() < 0.2:
                tt.append(tt[0])
            if rng.random() < 0.05:
                tt.append(float(ts[max(0, pos - L + 1)]) - 0.01 * cfg.get("unit", 1.0))
            if cfg.get("exact") and rng.random() < 0.15:
                whole = [x for x in range(int(np.ceil(ts[pos - 1])), int(np.ceil(ts[ahead]))) if ts[pos - 1] <= x <= ts[ahead]]
                if whole:
                    tt = [float(x) for x in whole[:3]]
            op = dict(op="run", ts=tt, form=rng.choice(FORMS))
        else:
            op = dict(op="interpolate", ts=[target(pos - L, pos + 1)])
        if tb != INF and rng.random() < 0.03:
            op = dict(op="run", ts=[float(s.t), tb + 0.25 * cfg.get("unit", 1.0)])
        if op.get("n", -1) > last - pos or (op["op"] in ("step", "skip") and op.get("upto") is None and pos >= last):
            break
        k, t, y = apply(s, op)
        sess["events"].append(event(s, op, k, t, y))
        taus += op.get("ts", [])
        if k == "hang" or pos >= last:
            break
    try:
        sess["dense"] = record_dense(cfg, taus, float(ts[-1]))
    except (Exception, Hang) as e:
        sess["dense"] = {"error": [type(e).__name__]}
    out.session(sess)


def long_session(out, cfg, rng, sid, n):
    """Many steps and many requested times at once."""
    grid, ts = record_grid(cfg, n + 12)
    L = grid["L"]
    if len(ts) < L + n or grid["end"]:
        return
    ops, at = [], L - 1
    for _ in range(12):
        left = n - (at - L + 1)
        if left < 40:
            break
        k = rng.choice([rng.randrange(20, 80), rng.randrange(100, 400)] + [rng.randrange(800, 1300)] * (n > 1000))
        k = min(k, left - 8)
        mid = lambda j: float(ts[j] + 0.375 * (ts[j + 1] - ts[j]))
        kind = rng.choice(["step", "skip", "run", "run"])
        if kind == "run":
            m = rng.choice([3, 50, 300])
            tt = [mid(rng.randrange(at, at + k)) for _ in range(m)] + [mid(at + k - 1)]
            r = rng.random()
            if r < 0.5:
                tt.sort()
            elif r < 0.75:
                tt.sort(reverse=True)
            ops.append(dict(op="run", ts=tt, form="array"))
        else:
            r = rng.random()
            if r < 0.4:
                ops.append(dict(op=kind, n=k))
            elif r < 0.7:
                ops.append(dict(op=kind, n=-1, upto=mid(at + k)))
            else:
                ops.append(dict(op=kind, n=k + 3, upto=mid(at + k)))
        at += k
    run_session(out, cfg, grid, ts, INF, ops, sid)


def edge_sessions(out, cfg, rng, count, sid):
    """Limits that differ from a point, or from the exact multiple of the step, only by rounding."""
    grid, ts = record_grid(cfg, 24)
    L = grid["L"]
    if len(ts) < L + 20:
        return
    for w in range(count):
        def near(lo, hi):
            j = rng.randrange(lo, hi)
            x = float(ts[j])
            r = rng.random()
            if r < 0.45:
                return float(np.nextafter(x, -INF))
            if r < 0.6:
                return x
            if r < 0.75:
                return float(np.nextafter(x, INF))
            if cfg.get("h") is not None:
                return float("%.9g" % (cfg["t0"] + (j - L + 1) * cfg["h"]))
            return float(np.nextafter(np.nextafter(x, -INF), -INF))

        bounded = w % 2 == 0
        # (from time to time the bound is where the solver starts)
        tb = (float(ts[L - 1]) if rng.random() < 0.15 else near(L + 1, L + 16)) if bounded else INF
        ops, at = [], L - 1
        for _ in range(rng.choice([1, 2, 3])):
            top = near(min(at + 1, len(ts) - 6), min(at + 5, len(ts) - 4))
            kind = rng.choice(["step", "skip", "step", "skip", "run"])
            if bounded:
                op = dict(op=kind, n=-1)
                if kind == "run":
                    op["ts"] = [min(top, tb), tb] if rng.random() < 0.5 else [tb]
                elif rng.random() < 0.5:
                    op["n"] = rng.randrange(1, 20)
                else:
                    op["upto"] = tb
            elif kind == "run":
                op = dict(op=kind, ts=[top])
            else:
                op = dict(op=kind, n=rng.choice([-1, -1, 3, 8]), upto=top)
            at = min(at + 2, len(ts) - 8)
            ops.append(dict(op, edge=bounded or op["op"] != "run"))
            if bounded and rng.random() < 0.5:   # just beyond the bound
                over = float(np.nextafter(tb, INF))
                op = dict(op=kind, n=rng.choice([-1, 2]) if kind != "run" else -1, edge=True)
                if kind == "run":
                    op["ts"] = [over]
                else:
                    op["upto"] = over
                ops.append(op)
        run_session(out, cfg, grid, ts, tb, ops, "%s.%d" % (sid, w))
    # exactly on a point, or next to it, again and again
    far, fts = record_grid(cfg, 64)
    if len(fts) >= L + 60:
        ops, at = [], L - 1
        while at < L + 45 and len(ops) < 22:
            at += rng.choice([1, 1, 2, 3, 6, 7])
            x = float(fts[at])
            x = rng.choice([x, x, x, float(np.nextafter(x, INF)), float(np.nextafter(x, -INF))])
            kind = rng.choice(["step", "skip", "skip", "run"])
            ops.append(dict(op="run", ts=[min(x, float(fts[at]))]) if kind == "run" else dict(op=kind, n=rng.choice([-1, -1, 8]), upto=x, edge=True))
        run_session(out, cfg, far, fts, INF, ops, "%s.exact" % sid)
    ops = []
    for _ in range(8):
        if len(ops) < 12:
            ops.append(dict(op="skip", n=rng.choice([1, 1, 2])))
        for _ in range(2):
            end = rng.choice(["oldest", "now"])
            if rng.random() < 0.5:
                ops.append(dict(op="interpolate", rel=[(end, rng.choice([-1, 0, 1]))]))
            else:
                # (a request just past the current point needs another step)
                way = rng.choice([-1, 0, 1]) if end == "oldest" else rng.choice([-1, 0])
                rel = [(end, way)] + ([("now", 0)] if rng.random() < 0.3 else [])
                ops.append(dict(op="run", rel=rel))
    run_session(out, cfg, grid, ts, INF, ops[:22], "%s.ends" % sid)


JOBS = {"api": job_api}


def main():
    job = json.load(open(sys.argv[1]))
    out = Out(sys.argv[2])
    try:
        for name in job.get("modules", []):
            __import__(name).register(JOBS)
        JOBS[job["kind"]](job, out)
    except Exception as e:
        traceback.print_exc()
        own = os.path.join(os.path.realpath(os.environ.get("VERIF_REPO", "/repo")), "nbkode") + os.sep
        frames = traceback.extract_tb(e.__traceback__)
        # raised here because of what the code under test returned (wrong shapes, None, ...)?
        odd = isinstance(e, (ValueError, TypeError, IndexError))
        if not odd and not any(os.path.realpath(f.filename).startswith(own) for f in frames):
            sys.exit(3)
        # raised by the code under test in a call that has to work
        where = next(f for f in reversed(frames) if not os.path.realpath(f.filename).startswith(own))
        out.f.write(json.dumps(dict(meta=True, unexpected="%s: %s" % (type(e).__name__, e), call=where.line,
                                    trace=traceback.format_exc()[-3000:])) + "\n")
        out.f.flush()
    except Hang:
        traceback.print_exc()
        out.f.write(json.dumps(dict(meta=True, unexpected="does not return", call="", trace=traceback.format_exc()[-3000:])) + "\n")
        out.f.flush()
    sys.exit(0)


if __name__ == "__main__":
    sys.modules["driver"] = sys.modules["__main__"]
    main()
