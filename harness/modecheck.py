"""C15: pure Python and compiled mode agree (ModesTrace.tla)."""
import copy
import random

from common import *  # noqa
from engine import Recording, record, validate
import problems as P


def session(rng, name, p, deep, pool):
    """One solver's life, with absolute times."""
    t0 = rng.choice([0.0, 0.0, 1.5, -2.0])
    dim = len(p["y0"])
    ses = dict(t0=t0, y0=[rng.randrange(-16, 17) / 8 + 0.0625 for _ in range(dim)], pform=rng.choice(["array", "array", "list", "tuple"]))
    if name in P.ADAPTIVE:
        o = {}
        if rng.random() < 0.5:
            o["rtol"], o["atol"] = 1e-5, 1e-8
        if rng.random() < 0.3:
            o["first_step"] = 0.1
        if rng.random() < 0.3:
            o["max_step"] = 0.3
        ses["opts"] = o
        h = 0.2
    else:
        h = ses["h"] = rng.choice([0.125, 0.0625, 0.1, 0.05])
        if name in P.MULTISTEP and rng.random() < 0.5:
            ses["fs"] = rng.choice([None, "RungeKutta4", "auto"])
    lead = t0 + (P.ORDER.get(name, 1) - 1) * h
    if rng.random() < 0.5:
        ses["tb"] = lead + rng.choice([3.3, 8.7, 20.4]) * h
    clock, ops = lead, []
    for _ in range(rng.choice([6, 9]) if not deep else 14):
        op = rng.choice(["step", "skip", "run", "run", "interpolate", "events", "events"])
        d = dict(op=op)
        if op in ("step", "skip"):
            r = rng.random()
            if r < 0.5:
                d["n"] = rng.choice([0, 1, 2, 4])
                clock += d["n"] * h
            elif r < 0.75:
                clock += 2.4 * h
                d["upto_t"] = clock
                if rng.random() < 0.5:
                    d["n"] = rng.choice([1, 5])
            else:
                clock += h
        elif op == "interpolate":
            d["at"] = clock - rng.choice([0.3, 0.05, 2.3, -4.1]) * h
        else:
            tt = [clock + rng.choice([0.55, 1.3, 2.15, 3.85, -0.35]) * h for _ in range(rng.choice([1, 2, 4]))]
            if rng.random() < 0.6:
                tt.sort()
            clock = max(tt)
            d["ts"], d["form"] = tt, rng.choice(["array", "list"])
            if op == "events":
                d["events"] = rng.sample(pool, rng.choice([1, 2]))
        ops.append(d)
    ses["ops"] = ops
    return ses


def clock_session(rng, name):
    """Event functions of time alone."""
    t0 = rng.choice([0.0, -0.7])
    o = dict(t0=t0, y0=[1.0], pform="array")
    if name in P.ADAPTIVE:
        o["opts"] = dict(first_step=0.1, max_step=0.1)
    else:
        o["h"] = 0.1
        if name in P.MULTISTEP:
            o["fs"] = None
    ev = lambda tau, b, d, term=None, size=1.0: ([0.0], b * size, -b * size * (t0 + tau), d, term)
    all_ways = [(b, d) for b in (1.0, -1.0) for d in (1, -1, 0, None)]
    rng.shuffle(all_ways)
    fs = [ev(rng.choice([0.25, 0.37, 0.3 + 1e-9, 0.2 + 1e-12]), b, d) for b, d in all_ways]
    fs += [ev(0.45, 1.0, None, size=1e-60), ev(0.3 + 1e-9, -1.0, -1)]
    o["ops"] = [dict(op="events", ts=[t0 + 0.15, t0 + 0.52], form="list", events=fs),
                dict(op="events", ts=[t0 + 0.9], form="list", events=[ev(0.75, -1.0, -1, True), ev(0.7 + 1e-9, 1.0, 0), ev(0.76, 1.0, 1)]),
                dict(op="events", ts=[t0 + 0.95, t0 + 1.6], form="list", events=[ev(1.25, 1.0, -1, True), ev(1.45, 1.0, rng.choice([1, None]), True), ev(1.42, -1.0, -1, rng.choice([None, True]))])]
    return o


def run(prop):
    rng = random.Random(SEED * 77)
    deep = TIER == "thorough"
    units = []
    forms = ["bound", "bound-compiled", "params", "params-compiled"]
    order = list(P.ALL)
    rng.shuffle(order)
    for i, name in enumerate(order):
        pick = forms if deep else [forms[(i + SEED) % 4]]
        for dim in ((1, 2) if deep else (rng.choice([1, 2, 2]),)):
            p = P.random_problem(rng, dim)
            q = [rng.choice([0.5, 1.0, 0.7, 1 / 3]), rng.choice([0.1, 0.25, -0.123])]
            q += [rng.choice([0.01, -0.02, 1 / 70]) for _ in range(rng.choice([0, 0, 3, 20]))]
            # made to cross zero about where the states are
            pool = [([rng.choice([0.0, 1.0, -1.0]) for _ in range(dim)], rng.choice([0.0, 0.5, 1.0]),
                     rng.choice([-1.0, -0.5, 0.0, 0.25, 0.75]), rng.choice([None, 0, 1, -1]), rng.choice([None, False, False, True]))
                    for _ in range(4 if deep else 2)]
            # (everything is compiled anew for each solver, unless its right-hand side was compiled beforehand)
            ss = [session(rng, name, p, deep, pool) for _ in range(6 if deep else 4)]
            units.append((name, p, q, ss, pick, "%s/%d" % (name, dim)))
    # Events at known times: every direction, next to a point, of tiny functions, terminal or not.
    for name in rng.sample([n for n in P.ALL if n not in P.IMPLICIT], 4 if deep else 2):
        units.append((name, P.random_problem(rng, 1), [0.7, 0.1], [clock_session(rng, name) for _ in range(2)], ["bound-compiled"], name + "/clock"))
    # Right-hand sides with a hole.  (A division by zero is not an error for NumPy: compiled forms only.)
    holes = []
    for kind in ("raise", "zerodiv"):
        names = rng.sample([n for n in P.FIXED if n not in P.IMPLICIT], 3 if deep else 1) + rng.sample(P.IMPLICIT, 2 if deep else 1)
        if kind == "raise":
            names += rng.sample(["RungeKutta23", "RungeKutta45"], 1)
        for name in names:
            p = P.random_problem(rng, 1 if kind == "raise" else 2)
            ses = []
            for at in (0.625, 1.0):
                o = dict(t0=0.0, y0=[rng.randrange(-16, 17) / 8 + 0.0625 for _ in p["y0"]], pform="array")
                if name not in P.ADAPTIVE:
                    o["h"] = 0.125
                    if name in P.MULTISTEP:
                        o["fs"] = None
                o["ops"] = [dict(op="skip", n=2), dict(op="run", ts=[0.3, 0.5], form="array"), dict(op="step", n=12),
                            dict(op="step"), dict(op="run", ts=[0.5, 2.0], form="array"), dict(op="interpolate", at=0.55)]
                ses.append(o)
            for n, o in enumerate(ses):
                holes.append(dict(cls=name, p=p, q=[0.7, 0.1], sessions=[o], fault=[kind, (0.625, 1.0)[n]],
                                  id="%s/%d/%s%d" % (name, len(p["y0"]), kind, n)))
                if not deep:
                    break
    jobs = []
    for j in range(NPROC):
        part = units[j::NPROC]
        slow = [dict(cls=n, p=p, q=q, form=f, sessions=s if f == "bound-compiled" else s[: 2 if deep else 1], id=i) for n, p, q, s, fs, i in part for f in fs]
        fast = [dict(cls=n, p=p, q=q, form=f, sessions=s, id=i) for n, p, q, s, fs, i in part for f in ("bound", "params")]
        for u in holes[j::NPROC]:
            slow += [dict(u, form=f) for f in (forms if deep else rng.choice([("bound", "bound-compiled"), ("bound", "params-compiled")]))]
            if u["fault"][0] == "raise":
                fast += [dict(u, form=f) for f in ("bound", "params")]
        jobs.append(dict(kind="modes", modules=["modedriver"], units=fast, pure=True))
        jobs.append(dict(kind="modes", modules=["modedriver"], units=slow, pure=False))
    jobs.sort(key=lambda j: j["pure"])
    rec = record(jobs, timeout=800)
    runs = {}
    for s in rec.sessions:
        runs.setdefault(s["id"], []).append(dict(form=s["form"], events=s["events"]))
    merged = Recording()
    merged.jobs = rec.jobs
    for i, rs in sorted(runs.items()):
        rs.sort(key=lambda r: (not r["form"].startswith("pure"), r["form"]))
        if len(rs) < 2 or rs[0]["form"] not in ("pure bound", "numba bound"):
            continue
        big = max([abs(float.fromhex(x)) for e in rs[0]["events"] for o in e["obs"][1:2] for x in o if x not in ("nan", "inf", "-inf")] + [1e-30])
        tol = "1e-6" if i.split("/")[0] in P.IMPLICIT + P.ADAPTIVE else "1e-9"
        merged.sessions.append(dict(id=i, runs=rs, scale=big.hex(), tol=tol))
    forms = {}
    for s in merged.sessions:
        for r in s["runs"]:
            forms[r["form"]] = forms.get(r["form"], 0) + 1
    res = validate("ModesTrace", merged, prop)
    res.events = sum(len(r["events"]) for s in merged.sessions for r in s["runs"])
    return dict(mc=[], res=res, extra=dict(forms=forms))
