"""Driver job for run_events (EventsTrace.tla)."""
import random

import numpy as np

from driver import (INF, Hang, apply, event, history, hm, hv, hx, json, limit, make, observe, record_dense, record_grid)


def lin(a, b, c, scale=1.0):
    # plain sums: the same bits wherever the state is stored
    def g(t, y):
        return scale * (sum(u * v for u, v in zip(a, y)) + b * t + c)

    return g


def quad(a, c, scale=1.0):
    def g(t, y):
        v = sum(u * v for u, v in zip(a, y))
        return scale * (v * v - c)

    return g


def pwl(ts, vs):
    ts, vs = np.array(ts), np.array(vs)

    def g(t, y):
        return np.interp(t, ts, vs)

    return g


def moved(ts, vs, rng):
    """The same values at the same points, but the changes of sign at other places of the steps, close to their ends too."""
    ots, ovs = [ts[0]], [vs[0]]
    near = rng.choice([1e-2, 1e-4, 1e-7, 1e-9])
    for i in range(1, len(ts)):
        a, b, h = ts[i - 1], ts[i], ts[i] - ts[i - 1]
        w = h * rng.choice([near, near, 0.25])
        if vs[i - 1] * vs[i] < 0 and w > 64 * np.spacing(max(abs(a), abs(b))):
            c = a + w if rng.random() < 0.5 else b - w
            ots += [c - w / 2, c + w / 2]
            ovs += [vs[i - 1], vs[i]]
        ots.append(b)
        ovs.append(vs[i])
    return ots, ovs


DIRS = {1: [1, 1.0, 2.5, np.int64(1)], -1: [-1, -1.0, -0.25], 0: [0, 0.0, None]}


def dress(g, dir_, term, rng):
    d = rng.choice(DIRS[dir_])
    if d is not None:
        g.direction = d
    if term or rng.random() < 0.5:
        g.terminal = rng.choice([True, 1]) if term else False
    return g


class Probe:
    """A solver of its own, driven by single steps, asked about its solution."""

    def __init__(self, cfg):
        self.s = make(cfg)
        self.cfg = cfg

    def at(self, tau):
        if tau < history(self.s)[0][0]:
            self.s = make(self.cfg)
        while self.s.t < tau:
            self.s.step()
        return np.array(self.s.interpolate(tau))


def contained(gs, container):
    return gs[0] if container == "single" else {"tuple": tuple, "iter": iter}.get(container, list)(gs)


def call(s, cfg, ts_grid, gs, evs, descr, req, container, res):
    """One run_events call, with measurements on a reference solver."""
    op = dict(op="run_events", ts=req)
    arg = np.array(req) if container != "list" else list(req)
    try:
        with limit():
            t, y, te, ye = s.run_events(arg if len(req) > 1 else req[0], evs)
        kind = "ok"
    except Hang:
        kind = "hang"
    except Exception as e:
        kind = type(e).__name__
    if kind != "ok":
        t, y, te, ye = [], [], [[] for _ in gs], [[] for _ in gs]
    e = event(s, op, kind, t, y)
    e["fns"] = descr
    e["et"] = [hv(x) for x in te]
    e["ey"] = [hm(x) if len(x) else [] for x in ye]
    e["probe"] = [[] for _ in te]
    e["atend"], e["single"] = [], []
    return e, list(np.ravel(t)) + [float(x) for lst in te for x in lst], te


def measure(e, te, gs, cfg, ts_grid):
    """Values of the event functions on the reference solution around what was reported."""
    pr = Probe(cfg)
    ts = [float(x) for x in ts_grid]
    flat = sorted((float(x), j, n) for j, lst in enumerate(te) for n, x in enumerate(lst))
    e["probe"] = [[None] * len(lst) for lst in te]
    for x, j, n in flat:
        if not (ts[0] <= x <= ts[-1]) or j >= len(gs):
            e["probe"][j][n] = ["nan"] * 3
            continue
        i = next((i for i in range(1, len(ts)) if ts[i] >= x and ts[i] > ts[i - 1]), None)
        if i is None:
            e["probe"][j][n] = ["nan"] * 3
            continue
        d = 4 * ((ts[i] - ts[i - 1]) * 2.0**-49 + np.spacing(max(abs(ts[i]), abs(ts[i - 1]))))
        v = []
        for tau in (max(ts[i - 1], x - d), x, min(ts[i], x + d)):
            v.append(hx(gs[j](tau, pr.at(tau))))
        e["probe"][j][n] = v
    if e["rt"] and any(f["term"] for f in e["fns"]):
        T = float.fromhex(e["rt"][-1])
        if ts[0] <= T <= ts[-1]:
            yT = Probe(cfg).at(T)
            i = next((i for i in range(1, len(ts)) if ts[i] >= T and ts[i] > ts[i - 1]), 1)
            pr = Probe(cfg)
            pts = [ts[i - 1] + (ts[i] - ts[i - 1]) * k / 32.0 for k in range(33)]
            ys = [pr.at(tau) for tau in pts]
            for g in gs:
                e["atend"].append(hx(g(T, yT)))
                sg = [np.sign(g(tau, y)) for tau, y in zip(pts, ys)]
                sg = [x for x in sg if x != 0]
                e["single"].append(bool(sum(a != b for a, b in zip(sg, sg[1:])) <= 1))
    if not e["atend"]:
        e["atend"] = ["nan"] * len(gs)
        e["single"] = [False] * len(gs)


def functions(rng, job, trans, ts, ys, L, start, cfg):
    """Event functions and their description; start: the point the calls begin at."""
    n, p = len(ts), cfg["p"]
    kind = rng.random()
    gs, ds = [], []
    keys = []
    if kind < job["pwl"]:
        # values at the points, along the model's transitions
        flags = rng.choice(list(trans))
        dirs, terms = json.loads(flags)
        tr = trans[flags]
        vals = [[], []]
        cur = rng.choice(list(tr))
        path = [json.loads(cur)]
        while len(path) < n - start:
            nxt = tr.get(json.dumps(path[-1]))
            fresh = [x for x in nxt if (flags, json.dumps(path[-1]), json.dumps(x)) not in job["seen"]]
            x = rng.choice(fresh or nxt)
            keys.append((flags, json.dumps(path[-1]), json.dumps(x)))
            path.append(x)
        tk = [float(x) for x in ts[start:]]
        for j in range(2):
            vs = [float(v[j]) for v in path]
            knots_t, knots_v = [tk[0] - cfg.get("unit", 1.0)] + tk, [vs[0]] + vs
            sc = rng.choice([1.0, 1.0, 2.0**-30, 2.0**20, 2.0**-600, 2.0**600])
            if rng.random() < 0.4:
                knots_t, knots_v = moved(knots_t, knots_v, rng)
            g = dress(pwl(knots_t, [sc * v for v in knots_v]), dirs[j], terms[j], rng)
            gs.append(g)
            ds.append(dict(dir=dirs[j], term=terms[j], scale=hx(2 * sc), exact=True))
        if rng.random() < 0.3:
            i = rng.randrange(2)
            gs.append(gs[i])
            ds.append(dict(ds[i]))
        if rng.random() < 0.5:
            gs.reverse(), ds.reverse()
            keys = []
        if rng.random() < 0.15:
            gs, ds, keys = gs[:1], ds[:1], []
    else:
        big = float(np.max(np.abs(ys)))
        lo = start
        for _ in range(rng.choice([1, 2, 2, 3, 4, 4, 9])):
            dim = len(p["y0"])
            a = [0.0] * dim
            if rng.random() < 0.6:
                a[rng.randrange(dim)] = rng.choice([1.0, -1.0, 2.0])
            else:
                a = [rng.choice([-1.0, 0.5, 1.0, 0.0]) for _ in range(dim)]
            b = rng.choice([0.0, 0.0, 0.0, 1.0, -0.5]) * big / cfg.get("unit", 1.0)
            sc = rng.choice([1.0, 1.0, 1e-6, 1e-9, 1e6, -1.0, 2.0**-600, 2.0**400])
            i = rng.randrange(lo, n - 1)
            r = rng.random()
            if r < 0.15:    # within rounding of a point
                y, t = ys[i], ts[i]
                c = -(np.array(a) @ y + b * t)
                c += rng.choice([-3, -2, -1, 0, 1, 2, 3, 20]) * np.spacing(abs(c) + abs(y[0]))
            else:
                fr = rng.choice([0.25, 0.5, 0.9, 0.01])
                y, t = ys[i] + fr * (ys[i + 1] - ys[i]), ts[i] + fr * (ts[i + 1] - ts[i])
                c = -(np.array(a) @ y + b * t)
            d, term = rng.choice([-1, 0, 0, 1]), rng.random() < job.get("p_term", 0.3)
            scale = abs(sc) * (sum(abs(x) for x in a) * big + abs(b) * max(abs(ts[0]), abs(ts[-1])) + abs(c))
            if rng.random() < 0.15:
                g = quad(a, (np.array(a) @ y) ** 2, sc)
                scale = abs(sc) * 2 * (sum(abs(x) for x in a) * big) ** 2
            else:
                g = lin(a, float(b), float(c), sc)
            gs.append(dress(g, d, term, rng))
            ds.append(dict(dir=d, term=bool(term), scale=hx(scale), exact=False))
    for g, d in zip(gs, ds):
        d["gv"] = [hx(g(float(t), np.array(y))) for t, y in zip(ts, ys)]
    return gs, ds, keys


def job_events(job, out):
    rng = random.Random(job["seed"])
    trans = {}
    for flags, fr, to in job["transitions"]:
        trans.setdefault(flags, {}).setdefault(fr, []).append(json.loads(to))
    job["seen"] = set()
    for ci, cfg in enumerate(job["configs"]):
        try:
            grid, ts = record_grid(cfg, job.get("points", 12))
        except (Exception, Hang) as e:
            out.session(dict(id="%s#grid" % cfg["cls"], cfg=cfg, tb="inf", built=type(e).__name__,
                             grid=dict(L=2, t=[], y=[], f=[], h=[], end="hang"), events=[], dense={}))
            continue
        L = grid["L"]
        if len(ts) < L + 7:
            continue
        ys = np.array([[float.fromhex(x) for x in r] for r in grid["y"]])
        for w in range(job["walks"]):
            one(out, cfg, grid, ts, ys, L, rng, job, trans, "%s/%d.%d" % (cfg["cls"], ci, w))
    out.session(dict(meta=True, covered=[list(x) for x in sorted(job["seen"])]))


def one(out, cfg, grid, ts, ys, L, rng, job, trans, sid):
    last = len(ts) - 2
    tb = INF
    if rng.random() < 0.2:
        i = rng.randrange(L, last)
        tb = float(ts[i] + rng.choice([1 / 64.0, 0.5, 63 / 64.0]) * (ts[i + 1] - ts[i]))
    sess = dict(id=sid, cfg=cfg, tb=hx(tb), grid=grid, events=[], built="ok")
    try:
        s = make(cfg, tb=None if tb == INF else tb)
    except Exception as e:
        sess.update(built=type(e).__name__, dense={})
        out.session(sess)
        return
    sess["events"].append(event(s, dict(op="new"), "ok", [], []))
    taus, kept = [], None
    for _ in range(job["calls"]):
        pos = int(np.argmin(np.abs(ts[L - 1:] - float(s.t)))) + L - 1
        if pos >= last:
            break
        if rng.random() < 0.2:
            op = dict(op="skip", n=1)
            k, t, y = apply(s, op)
            sess["events"].append(event(s, op, k, t, y))
            continue
        to = min(last, pos + rng.choice([1, 2, 3, 6, 10]))
        top = min(float(ts[to]), tb)
        hist0 = float(history(s)[0][0])
        req = []
        for _ in range(rng.choice([1, 1, 2, 4, 8, 8, 30])):
            i = rng.randrange(pos, to)
            if rng.random() < 0.15:
                i = rng.randrange(max(0, pos - L + 1), to)
            x = float(ts[i] + rng.choice([1 / 64.0, 0.25, 0.5, 0.75, 1.0]) * (ts[i + 1] - ts[i]))
            req.append(max(hist0, min(x, top)))
        r = rng.random()
        if r < 0.7:
            req.append(top)
        if rng.random() < 0.75:
            req.sort()
        if rng.random() < 0.03:
            req.append(hist0 - cfg.get("unit", 1.0) if rng.random() < 0.5 or tb == INF else tb + cfg.get("unit", 1.0))
        if kept and rng.random() < 0.3:
            # the functions of an earlier call, as they are, or in another order, or with other attributes
            (gs, ds, container, evs), keys = kept, []
            if container == "iter":
                evs = contained(gs, container)
            r = rng.random()
            if r < 0.5:
                gs, ds = list(gs), [dict(d) for d in ds]
                if r < 0.25:
                    gs.reverse(), ds.reverse()
                else:
                    for g, d in zip(gs, ds):
                        dir_, term = rng.choice([-1, 0, 1]), rng.random() < 0.3
                        for g2, d2 in zip(gs, ds):   # (the same function may be listed twice)
                            if g2 is g:
                                g.direction, g.terminal = dir_, term
                                d2["dir"], d2["term"] = dir_, term
                evs = contained(gs, container)
        else:
            gs, ds, keys = functions(rng, job, trans, ts, ys, L, pos, cfg)
            container = rng.choice(["list", "tuple", "array", "single"] if len(gs) == 1 else ["list", "tuple", "array", "iter"])
            evs = contained(gs, container)
        kept = gs, ds, container, evs
        if rng.random() < job.get("p_meet", 0.0):
            # ask for the very times of the events
            try:
                with limit():
                    te = copy.deepcopy(s).run_events(np.sort(req), contained(gs, container))[2]
                req += rng.sample([float(x) for l in te for x in l if x < top], rng.choice([1, 1, 2]))
                if rng.random() < 0.75:
                    req.sort()
            except (Exception, Hang):
                pass
        out.note(dict(id=sid, cfg=cfg, op=dict(op="run_events", ts=[hx(x) for x in req])))
        e, tt, te = call(s, cfg, ts, gs, evs, ds, req, container, sess)
        if keys:
            now = int(np.argmin(np.abs(ts[L - 1:] - float(s.t)))) + L - 1
            job["seen"].update(keys[: now - pos])
        try:
            with limit():
                measure(e, te, gs, cfg, ts)
        except (Exception, Hang) as ex:
            sess["events"].append(e)
            sess["dense"] = {"error": [type(ex).__name__]}
            break
        sess["events"].append(e)
        taus += tt + req
        if e["kind"] == "hang":
            break
    else:
        pass
    if "dense" not in sess:
        try:
            sess["dense"] = record_dense(cfg, [float(x) for x in taus], float(ts[-1]))
        except (Exception, Hang) as ex:
            sess["dense"] = {"error": [type(ex).__name__]}
    out.session(sess)


def register(jobs):
    jobs["events"] = job_events
