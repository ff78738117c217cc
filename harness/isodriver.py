"""Driver for C14: interleaved solvers, and a caller that overwrites the arrays it holds."""
import random

import numpy as np

from driver import INF, Hang, history, hx, limit, py_rhs, solver_class
from eventdriver import lin
from regdriver import in_child


def flat(x):
    return [hx(v) for v in np.ravel(np.asarray(x, dtype=float))]


def make_y0(form, values):
    """The initial state, as the caller holds it."""
    if form == "float":
        return np.array(values)
    if form == "int":
        return np.array([int(v) for v in values])
    if form == "float32":
        return np.array(values, dtype=np.float32)
    if form == "strided":
        big = np.full(2 * len(values), 7.0)
        big[::2] = values
        return big[::2]
    if form == "readonly":
        a = np.array(values)
        a.flags.writeable = False
        return a
    if form == "list":
        return list(values)
    if form == "tuple":
        return tuple(values)
    raise AssertionError(form)


def rhs_of(c):
    """The right-hand sides come in shapes that invite sharing."""
    p = c["p"]
    f = py_rhs(p)
    form = c["rhs"]
    if form == "plain":
        return f
    if form == "buffer":  # always the same array
        buf = np.zeros(len(p["y0"]))

        def g(t, y):
            buf[:] = f(t, y)
            return buf

        return g
    if form == "same":  # the very state it was given
        return lambda t, y: y
    if form == "params":
        def g(t, y, q):
            return f(t, y) * q[0] + q[1]

        return g
    raise AssertionError(form)


def build(c, world):
    kw = dict(c.get("opts") or {})
    if c.get("h") is not None:
        kw["h"] = world["h"][c["harr"]] if c.get("harr") else c["h"]
    if "fs" in c:
        kw["first_stepper_cls"] = c["fs"]
    if c.get("tb") is not None:
        kw["t_bound"] = c["tb"]
    args = [world["rhs"][c["rkey"]], c["t0"], world["y0"][c["ykey"]]]
    if c["rhs"] == "params":
        args.append(world["params"][c["pkey"]])
    return solver_class(c["cls"])(*args, **kw)


def observe(s):
    if s is None:
        return []
    h = history(s)
    o = [flat(s.t), flat(s.y), flat(s.f), flat(s.h)]
    if h:
        o += [flat(h[0]), flat(h[1]), flat(h[2])]
    return o


def call(s, op, world):
    """(kind, list of returned arrays)"""
    kw = {k: op[k] for k in ("n", "upto_t") if k in op}
    try:
        with limit():
            if op["op"] == "step":
                t, y = s.step(**kw)
                r = [t, y]
            elif op["op"] == "skip":
                s.skip(**kw)
                r = []
            elif op["op"] == "run":
                r = list(s.run(world["times"][op["ts"]]))
            elif op["op"] == "interpolate":
                h = history(s)[0]
                w = op["at"]
                x = h[-1] if w == "now" else h[0] if w == "first" else h[-2] if w == "point" else h[-2] + 0.375 * (h[-1] - h[-2])
                r = [s.interpolate(float(x))]
            elif op["op"] == "events":
                t, y, te, ye = s.run_events(world["times"][op["ts"]], world["events"][op["ev"]])
                r = [t, y] + [a for l in ye for a in l] + [l for l in te if isinstance(l, np.ndarray)]
                r.append(np.array([float(x) for l in te for x in l]))
        return "ok", r
    except Hang:
        return "hang", []
    except Exception as e:
        return type(e).__name__, []


def new_world(plan):
    w = dict(y0={}, params={}, times={}, rhs={}, events={}, h={})
    for k, (form, v) in plan["y0"].items():
        w["y0"][k] = make_y0(form, v)
    for k, v in plan["params"].items():
        w["params"][k] = np.array(v)
    for k, v in plan["h"].items():
        w["h"][k] = np.array(v)
    for k, (form, v) in plan["times"].items():
        w["times"][k] = np.array(v) if form == "array" else list(v)
    for c in plan["solvers"]:
        if c["rkey"] not in w["rhs"]:
            w["rhs"][c["rkey"]] = rhs_of(c)
    for k, fs in plan["events"].items():
        gs = []
        for a, b, cc, d in fs:
            g = lin(a, b, cc)
            g.direction = d
            gs.append(g)
        w["events"][k] = gs
    return w


def alone(plan, i):
    w = new_world(plan)
    c = plan["solvers"][i]
    res = []
    try:
        s = build(c, w)
        res.append(dict(kind="ok", ret=[], obs=observe(s)))
    except Exception as e:
        return [dict(kind=type(e).__name__, ret=[], obs=[])]
    for e in plan["events_list"]:
        if e["op"] not in ("new", "scribble") and e["s"] == i:
            kind, r = call(s, e, w)
            res.append(dict(kind=kind, ret=[flat(x) for x in r], obs=observe(s)))
    return res


def together(plan):
    w = new_world(plan)
    held = [w[k][x] for k in ("y0", "params", "times", "h") for x in sorted(w[k])]
    names = [k for k in ("y0", "params", "times", "h") for x in sorted(w[k])]
    keys = [x for k in ("y0", "params", "times", "h") for x in sorted(w[k])]
    used = set()
    scribblable = [i for i, k in enumerate(names) if k in ("y0", "times", "h")]
    passed = [flat(a) for a in held]
    solvers = [None] * len(plan["solvers"])
    rng = random.Random(plan["seed"])
    ev = []
    for e in plan["events_list"]:
        e = dict(e)
        op = e["op"]
        if op == "scribble":
            ok = [i for i in scribblable if isinstance(held[i], np.ndarray) and held[i].flags.writeable and held[i].size
                  and (i >= len(passed) or e["args"] and (names[i] != "times" or keys[i] in used))]
            if not ok:
                continue
            ret = [i for i in ok if i >= len(passed)]
            i = rng.choice(ret[-6:] if ret and rng.random() < 0.8 else ok)
            held[i][...] = rng.choice([1000.0, -77.0, 0.0])
            r = dict(op=op, a=i + 1, content=flat(held[i]), s=0, ret=[], kind="ok")
        elif op == "new":
            try:
                solvers[e["s"]] = build(plan["solvers"][e["s"]], w)
                r = dict(op=op, s=e["s"] + 1, kind="ok", ret=[])
            except Exception as x:
                r = dict(op=op, s=e["s"] + 1, kind=type(x).__name__, ret=[])
        else:
            if solvers[e["s"]] is None:
                continue
            kind, out = call(solvers[e["s"]], e, w)
            used.add(e.get("ts"))
            r = dict(op=op, s=e["s"] + 1, kind=kind, ret=[flat(x) for x in out])
            for x in out:
                held.append(x)
                names.append("returned by " + op)
                scribblable.append(len(held) - 1)
        r["obs"] = [observe(s) for s in solvers]
        r["held"] = [flat(a) for a in held]
        ev.append(r)
        if r["kind"] == "hang":
            break
    return dict(events=ev, names=names, passed=passed)


def plan_session(rng, cfgs, nops):
    """Several solvers, and what happens to them."""
    dims = sorted({len(c["p"]["y0"]) for c in cfgs})
    dim = rng.choice(dims)
    pool = [c for c in cfgs if len(c["p"]["y0"]) == dim]
    n = rng.choice([2, 2, 3])
    base = dict(rng.choice(pool))
    solvers = []
    plan = dict(seed=rng.random(), y0={}, params={}, times={}, events={}, h={}, solvers=solvers)
    for i in range(n):
        c = dict(base) if rng.random() < 0.6 else dict(rng.choice(pool))
        form = rng.choice(["plain", "plain", "buffer", "same", "params"])
        share = i > 0 and rng.random() < 0.5
        if share:
            o = rng.choice(solvers)
            c["p"], c["rhs"], c["rkey"], c["ykey"], c["pkey"] = o["p"], o["rhs"], o["rkey"], o["ykey"], o["pkey"]
            if c["rhs"] == "params" and rng.random() < 0.5:
                c["pkey"] = "p%d" % i
                plan["params"][c["pkey"]] = [rng.choice([0.25, 1.5]), rng.choice([0.125, -0.25])]
        else:
            c["rhs"], c["rkey"], c["ykey"], c["pkey"] = form, "r%d" % i, "y%d" % i, "p%d" % i
            y0 = c["p"]["y0"]
            yf = rng.choice(["float", "float", "strided", "readonly", "list", "tuple", "int", "float32"])
            plan["y0"][c["ykey"]] = (yf, y0)
            if form == "params":
                plan["params"][c["pkey"]] = [rng.choice([0.5, 1.0, 0.75]), rng.choice([0.0, 0.25])]
        if c.get("h") is not None and rng.random() < 0.3:
            c["harr"] = "h%d" % i
            plan["h"][c["harr"]] = c["h"]
        solvers.append(c)
    built, clock = [], {}
    ev = []
    todo = list(range(n))
    for _ in range(nops):
        if todo and (not built or rng.random() < 0.3):
            i = todo.pop(0)
            built.append(i)
            clock[i] = solvers[i]["t0"]
            ev.append(dict(op="new", s=i))
            continue
        if rng.random() < 0.3:
            # arrays the constructor was given may be reused only after all solvers sharing them exist
            ev.append(dict(op="scribble", args=not todo))
            continue
        i = rng.choice(built)
        c = solvers[i]
        h = c.get("h") or 0.2
        op = rng.choice(["step", "step", "skip", "run", "run", "interpolate", "interpolate", "events"])
        e = dict(op=op, s=i)
        if op in ("step", "skip"):
            r = rng.random()
            if r < 0.5:
                e["n"] = rng.choice([1, 1, 2, 3])
                clock[i] += 3 * h
            elif r < 0.7:
                clock[i] += rng.choice([0.5, 2.5]) * h
                e["upto_t"] = clock[i]
        elif op in ("run", "events"):
            k = "t%d" % len(plan["times"])
            tt = []
            for _ in range(rng.choice([1, 2, 3, 4])):
                tt.append(clock[i] + rng.choice([0.5, 1.25, 2.0, 3.5, 8.0]) * h)
            clock[i] = max(tt)
            if rng.random() < 0.3:
                tt.sort()
            plan["times"][k] = (rng.choice(["array", "array", "list"]), tt)
            e["ts"] = k
            if op == "events":
                if plan["events"] and rng.random() < 0.5:
                    e["ev"] = rng.choice(sorted(plan["events"]))
                else:
                    e["ev"] = "e%d" % len(plan["events"])
                    fs = []
                    for _ in range(rng.choice([1, 2])):
                        a = [rng.choice([1.0, -1.0, 0.0]) for _ in range(dim)]
                        fs.append((a, rng.choice([0.0, 1.0]), -rng.choice([0.25, 0.5, 1.0, 2.0]), rng.choice([0, 1, -1])))
                    plan["events"][e["ev"]] = fs
        else:
            e["at"] = rng.choice(["now", "first", "point", "between", "between"])
        ev.append(e)
    plan["events_list"] = ev
    return plan


def job_iso(job, out):
    rng = random.Random(job["seed"])
    for w in range(job["sessions"]):
        plan = plan_session(rng, job["configs"], job["ops"])
        n = len(plan["solvers"])
        al = [in_child(lambda: alone(plan, i)) for i in range(n)]
        tg = in_child(lambda: together(plan))
        big = 1e-30
        for a in al:
            for r in a:
                for o in r["obs"][1:2] + r["ret"]:
                    for x in o:
                        v = abs(float.fromhex(x)) if x not in ("inf", "-inf", "nan") else 0
                        big = max(big, v)
        names = "+".join(c["cls"] for c in plan["solvers"])
        out.session(dict(id="%s/%d.%d" % (names, job["seed"], w), alone=al, scale=hx(big), **tg,
                         plan=repr(plan)))


def register(jobs):
    jobs["iso"] = job_iso
