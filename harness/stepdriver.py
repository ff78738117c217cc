"""Driver jobs for single steps, construction and interpolation (StepTrace.tla)."""
import random
import types

import numpy as np

import nbkode
from driver import (Hang, apply, event, history, hm, hv, hx, json, limit, make, make_rhs, observe, py_rhs, solver_class)
from problems import ADAPTIVE, MULTISTEP, ORDER

INF = float("inf")
DEFAULTS = dict(atol=1e-6, rtol=1e-3, min_step=1e-15, max_step=INF, min_factor=0.2, max_factor=10.0, safety_factor=0.9)


def opts_of(cfg):
    o = dict(DEFAULTS)
    o.update({k: v for k, v in (cfg.get("opts") or {}).items() if k in DEFAULTS})
    return {k: hx(v) for k, v in o.items()}


def base(cfg, sid):
    adaptive = cfg["cls"] in ADAPTIVE or "first_step" in (cfg.get("opts") or {})
    h = (cfg.get("opts") or {}).get("first_step") if adaptive else cfg.get("h")
    return dict(id=sid, cfg=cfg, cls=cfg["cls"], opts=opts_of(cfg), hgiven="none" if h is None else hx(h),
                t0=hx(cfg["t0"]), y0=hv(cfg["p"]["y0"]), built="ok", benign=bool(cfg.get("benign")), events=[])


def new(s):
    return event(s, dict(op="new"), "ok", [], [])


NOTHING = dict(op="new", n=-1, upto="none", ts=[], kind="none", rt=[], ry=[], t="nan", y=[], f=[], h="nan", ht=[], hy=[], hf=[])


def session(out, cfg, sid, rng, n_ops, p_int, focus):
    sess = base(cfg, sid)
    try:
        with limit():
            s = make(cfg)
    except (Exception, Hang) as e:
        sess["built"] = type(e).__name__
        sess["events"].append(NOTHING)
        out.session(sess)
        return
    sess["events"].append(new(s))
    last = None
    for _ in range(n_ops):
        if rng.random() < p_int:
            ht = history(s)[0]
            r = rng.random()
            if last is not None and r < 0.2:
                tau = last
            elif r < 0.3:
                tau = float(rng.choice(list(ht)))
            elif r < 0.34:   # next to the ends
                tau = rng.choice([float(np.nextafter(ht[0], -INF)), float(np.nextafter(ht[-1], INF)), float(np.nextafter(ht[0], INF)), float(np.nextafter(ht[-1], -INF))])
            elif r < 0.4:
                span = float(ht[-1] - ht[0]) or 1.0
                tau = rng.choice([float(ht[0]) - span * rng.choice([1e-6, 0.5]), float(ht[-1]) + span * rng.choice([1e-6, 0.5])])
            else:
                i = len(ht) - 2 if rng.random() < 0.5 else rng.randrange(len(ht) - 1)
                a, b = float(ht[i]), float(ht[i + 1])
                tau = a + rng.choice([1e-3, 0.125, 0.25, 0.5, 0.7, 0.875, 0.999, rng.random()]) * (b - a)
            last = tau
            op = dict(op="interpolate", ts=[tau])
        else:
            op = dict(op="step")
            if focus == "C06" and rng.random() < 0.4:
                op = dict(op="skip", n=rng.choice([1, 2, 3]))
        out.note(dict(id=sid, cfg=cfg, op=op))
        kind, t, y = apply(s, op)
        e = event(s, op, kind, t, y)
        sess["events"].append(e)
        if kind != "ok" and op["op"] != "interpolate":
            break
        if not np.all(np.isfinite(s.y)) or np.max(np.abs(s.y)) > 1e100:
            sess["events"].pop()
            break
    out.session(sess)


def job_steps(job, out):
    rng = random.Random(job["seed"])
    for i, cfg in enumerate(job["configs"]):
        session(out, cfg, "%s/%d" % (cfg["cls"], i), rng, job["ops"], job["p_int"], job["focus"])


# ---------------------------------------------------------------- C13


def start_points(cfg):
    """What the first stepper produces, from a stepper of its own."""
    p = cfg["p"]
    k = 1 if cfg["fs"] is None else ORDER13[cfg["cls"]]
    t0, h, y0 = cfg["t0"], cfg["h"], np.array(p["y0"])
    t, y = [t0], [y0]
    if k > 1:
        name = "RungeKutta45" if cfg["fs"] == "auto" else cfg["fs"]
        st = solver_class(name)(make_rhs(p), t0, y0, **({} if name in ADAPTIVE else dict(h=h)))
        if name in ADAPTIVE:
            tt, yy = st.run([t0 + i * h for i in range(1, k)])
            t, y = t + list(tt), y + list(yy)
        else:
            ht, hy, _ = history(st)  # a multistep stepper has started itself
            for a, b in zip(ht, hy):
                if a > t0:
                    t.append(float(a))
                    y.append(b)
            while len(t) < k:
                a, b = st.step()
                t.append(float(np.ravel(a)[0]))
                y.append(np.array(b))
            t, y = t[:k], y[:k]
    return dict(t=hv(t), y=hm(y))


ORDER13 = {}
for _n in MULTISTEP:
    ORDER13[_n] = 1 if _n in ("AdamsMoulton1", "AdamsMoulton2") else ORDER[_n]


def job_start(job, out):
    rng = random.Random(job["seed"])
    for i, cfg in enumerate(job["configs"]):
        sid = "%s/%s/%s/%d" % (cfg["cls"], cfg["fs"], "class" if cfg["by_class"] else "name", i)
        sess = base(cfg, sid)
        c = dict(cfg)
        tb, end, n = INF, INF, ORDER13[cfg["cls"]] - 1 if cfg["fs"] is not None else 0
        if cfg["fs"] == "auto" and rng.random() < 0.5:
            del c["fs"]
        elif cfg["by_class"] and cfg["fs"] not in (None, "auto"):
            c["fs"] = solver_class(cfg["fs"])
        try:
            with limit():
                sess["start"] = start_points(cfg)
                if cfg.get("tb") is not None and n > 0:
                    # relative to the last point of the start-up, in steps, or next to it, to the bit
                    end = float(make(c).t)
                    w = cfg["tb"]
                    tb = {"at": end, "under": np.nextafter(end, -INF), "over": np.nextafter(end, INF), "due": cfg["t0"] + n * cfg["h"]}[w] if isinstance(w, str) else end + w * cfg["h"]
                    tb = float(tb)
                sess["end"], sess["tb"] = hx(end), hx(tb)
                s = make(c, tb=None if tb == INF else tb)
        except (Exception, Hang) as e:
            sess["built"] = type(e).__name__
            sess.setdefault("start", dict(t=[], y=[]))
            sess.update(end=hx(end), tb=hx(tb))
            sess["events"].append(NOTHING)
            out.session(sess)
            continue
        sess["events"].append(new(s))
        for _ in range(job["ops"]):
            kind, t, y = apply(s, dict(op="step"))
            sess["events"].append(event(s, dict(op="step"), kind, t, y))
            if kind != "ok":
                break
        out.session(sess)


# ---------------------------------------------------------------- C17


def like(y0, how):
    a = np.array(y0)
    return {
        "list": lambda: list(y0), "tuple": lambda: tuple(y0), "array": lambda: a,
        "f32": lambda: a.astype(np.float32), "int": lambda: [int(x) for x in y0],
        "intarray": lambda: np.array([int(x) for x in y0]), "strided": lambda: np.repeat(a, 2)[::2],
        "readonly": lambda: ro(a), "scalar": lambda: y0[0], "npscalar": lambda: np.float64(y0[0]),
        "zerodim": lambda: np.array(y0[0]), "intscalar": lambda: int(y0[0]), "fortran": lambda: np.asfortranarray(a),
        "bigendian": lambda: a.astype(">f8"),
    }[how]()


def ro(a):
    a = a.copy()
    a.setflags(write=False)
    return a


def time_like(t0, how):
    return {"float": lambda: float(t0), "int": lambda: int(t0), "npint": lambda: np.int64(t0), "f32": lambda: np.float32(t0),
            "zerodim": lambda: np.array(t0)}[how]()


def job_new(job, out):
    from nbkode.nbcompat import NO_NUMBA
    for i, cfg in enumerate(job["configs"]):
        sid = "%s/y0=%s/t0=%s/%d" % (cfg["cls"], cfg["y0_like"], cfg["t0_like"], i)
        sess = base(cfg, sid)
        p = cfg["p"]
        y0 = p["y0"]
        if "int" in cfg["y0_like"]:
            y0 = [float(int(x)) for x in y0]
        if cfg["y0_like"] == "f32":
            y0 = [float(np.float32(x)) for x in y0]
        sess["y0"] = hv(y0)
        t0 = cfg["t0"]
        if "int" in cfg["t0_like"]:
            t0 = float(int(t0))
        sess["t0"] = hx(float(np.float32(t0)) if cfg["t0_like"] == "f32" else t0)
        kw = dict(cfg.get("opts") or {})
        if cfg.get("h") is not None:
            kw["h"] = cfg["h"]
        if "fs" in cfg:
            kw["first_stepper_cls"] = cfg["fs"]
        if cfg.get("pos"):
            kw["t_bound"] = sess_tb = t0 + 1000.0 * cfg.get("unit", 1.0)
        sane = [True]
        f = py_rhs(p)

        def rhs(t, y, f=f, sane=sane):
            if not (np.isfinite(t) and np.all(np.isfinite(y))):
                sane[0] = False
            return f(t, y)

        junk = np.full((13, len(y0)), np.nan)  # memory that was used before
        del junk
        try:
            with limit():
                s = solver_class(cfg["cls"])(rhs if NO_NUMBA else make_rhs(p), time_like(t0, cfg["t0_like"]), like(y0, cfg["y0_like"]), **kw)
            sess["shape"] = list(np.shape(s.y))
            # a multistep method that started itself is where its start-up ended (C13)
            sess["started"] = cfg["cls"] in MULTISTEP and ORDER13[cfg["cls"]] > 1 and cfg.get("fs", "auto") is not None
            sess["events"].append(new(s))
        except (Exception, Hang) as e:
            sess["built"] = type(e).__name__
            sess["events"].append(NOTHING)
        sess["sane"] = sane[0]
        out.session(sess)
    for i, (cfg, refused) in enumerate(job.get("refusals", [])):
        sess = base(cfg, "%s/refuse/%s/%d" % (cfg["cls"], json.dumps(cfg.get("opts")), i))
        sess["refused"] = refused
        sess["sane"] = True
        try:
            s = make(cfg)
            sess["events"].append(new(s))
        except (Exception, Hang) as e:
            sess["built"] = type(e).__name__
            sess["events"].append(NOTHING)
        out.session(sess)


# ---------------------------------------------------------------- C22


def families():
    """The base classes that methods are defined from, as the package's own methods use them."""
    def find(cls, name):
        return next(c for c in getattr(nbkode, cls).__mro__ if c.__name__ == name)

    erk, fsal = find("Runge2", "ERK"), find("RungeKutta23", "FSAL")
    return dict(rk=(erk,), fsal=(fsal,), adaptive=(find("RungeKutta23", "AdaptiveRungeKutta"), erk),
                ams=(find("AdamsBashforth2", "ExplicitMultistep"),), ims=(find("BDF2", "ImplicitMultistep"),))


def define(name, m):
    ns = {k: np.array(m[k]) for k in ("A", "B", "C", "B2", "E") if k in m}
    if "Bn" in m and (m["Bn"] or m["kind"] == "ims"):
        # a number of its own, or out of an array of coefficients
        ns["Bn"] = m["Bn"] if m["id"] % 2 else np.array([m["Bn"]])[0]
    if "q" in m:
        ns["error_estimator_order"] = m["q"] if m["id"] % 2 else np.array([m["q"]])[0]
    if "len" in m:
        ns["LEN_HISTORY"] = m["len"]
    if m.get("group"):
        ns["GROUP"] = m["group"]
    return types.new_class(name, families()[m["kind"]], {}, lambda d: d.update(ns))


def numbers(m):
    """The coefficients as the specification reads them."""
    r = {k: v for k, v in m.items() if k in ("kind", "q", "len")}
    for k in ("A", "B", "C", "B2", "E"):
        if k in m:
            r[k] = hm(m[k]) if k == "A" and isinstance(m[k][0], list) else hv(m[k])
    if "E" in r and m["kind"] == "adaptive":
        r["E"].append("0")  # nothing of the derivative at the new point
    if "Bn" in m:
        r["Bn"] = hx(m["Bn"])
    return r


def job_define(job, out):
    rng = random.Random(job["seed"])
    for i, cfg in enumerate(job["configs"]):
        m = cfg.pop("method")
        m["id"] = rng.randrange(1000)
        name = cfg["cls"] = "Own_%s_%d_%d" % (m["kind"], job["seed"], i)
        more = dict(method=numbers(m), refused=bool(m.get("refused")), defined=True, facts={})
        sid = "%s/%s" % (m["kind"], json.dumps({k: len(m[k]) for k in ("A", "B") if k in m}))

        def session_with(built=None):
            sess = base(cfg, sid)
            sess.update(more)
            if built:
                sess["built"] = built
                sess["events"].append(NOTHING)
                out.session(sess)
            return sess

        try:
            cls = define(name, m)
        except Exception as e:
            more["defined"] = False
            session_with(type(e).__name__)
            continue
        fixed, rk, implicit = m["kind"] not in ("adaptive", "fsal"), m["kind"] not in ("ams", "ims"), m["kind"] == "ims"
        kind = dict(implicit=implicit, fixed_step=fixed, runge_kutta=rk, multistep=not rk)
        try:
            more["facts"] = dict(
                implicit=bool(cls.IMPLICIT), fixed=bool(cls.FIXED_STEP),
                found=nbkode.get_solver(name.upper()) is cls and cls in nbkode.get_solvers(cls.GROUP, **kind)
                and all(cls not in nbkode.get_solvers(**{k: not v}) for k, v in kind.items()))
        except (KeyError, ValueError) as e:
            session_with("not found")
            continue
        if m.get("refused"):
            session_with("accepted")
            continue
        if m.get("exact"):
            more["exact"] = True
        session(Wrap(out, more), cfg, sid, rng, job["ops"], job["p_int"], "")


class Wrap:
    """Adds what is known of the method to a session."""

    def __init__(self, out, more):
        self.out, self.more, self.note = out, more, out.note

    def session(self, sess):
        sess.update(self.more)
        if sess.pop("exact", False):
            sess["opts"]["exact"] = True
        self.out.session(sess)


def register(jobs):
    jobs["define"] = job_define
    jobs.update(steps=job_steps, start=job_start, new=job_new)
