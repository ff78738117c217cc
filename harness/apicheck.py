"""C01-C05 (and the state part of C06): the solver interface, specified in Solver.tla."""
import json
import random

from common import *  # noqa
from engine import model_check, record, validate
import problems as P

BOUNDS = ["inf", "0", "1/2", "1", "5/2", "4"]


def transitions(npoints=5):
    """All transitions of the interface model (also model-checks it)."""
    r = model_check("MCSolver", consts={"NPoints": npoints, "Emitting": "TRUE"}, workers=4)
    tr = {}
    for line in r.printed("TRANS "):
        x = json.loads(line)
        key = json.dumps([x["grid"], x["tb"], x["from"], x["call"]], sort_keys=True)
        tr.setdefault((x["grid"], x["tb"]), []).append([key, x["from"], x["to"], x["call"]])
    return r, [[g, tb, lst] for (g, tb), lst in sorted(tr.items())]


def configs(rng, names, count, units=P.UNITS):
    """Configurations: solver, problem, start time, step, options."""
    res = []
    for name in names:
        for _ in range(count):
            n = rng.choice([1, 1, 2, 2, 3, 5])
            p = rng.choice(list(P.FIXED_PROBLEMS.values())) if rng.random() < 0.5 else P.random_problem(rng, n)
            cfg = dict(cls=name, p=p, t0=rng.choice([0.0, 0.0, 1.0, -2.5, 10.0, -0.75]))
            if name in P.ADAPTIVE:
                cfg["grid"] = "adaptive"
                o = {}
                if rng.random() < 0.5:
                    o["rtol"], o["atol"] = rng.choice([(1e-5, 1e-8), (1e-8, 1e-10), (1e-2, 1e-3)])
                if rng.random() < 0.4:
                    o["first_step"] = rng.choice([2.0, 0.5, 1e-3])
                if rng.random() < 0.3:
                    o["max_step"] = rng.choice([0.25, 0.75])
                cfg["opts"] = o
                cfg["exact"] = False
            else:
                exact = rng.random() < 0.7
                cfg["h"] = rng.choice([0.125, 0.0625, 0.03125]) if exact else rng.choice([0.1, 0.03, 0.007])
                cfg["exact"] = exact
                if name in P.MULTISTEP:
                    fs = rng.choice(["auto", None, "RungeKutta4", "DOP853"])
                    cfg["fs"] = fs
                    cfg["grid"] = "fill" if fs is None or P.ORDER[name] == 1 else "multi"
                    if cfg["t0"] not in (0.0, 1.0, -2.5, 10.0) and not exact:
                        cfg["t0"] = 0.0
                else:
                    cfg["grid"] = "fixed"
            s = rng.choice(units)
            # (variable step methods: the default tolerances are those of states of size 1)
            k = rng.choice([1.0, 1.0, 2.0**-20, 2.0**20]) if name not in P.ADAPTIVE and len(units) > 1 else 1.0
            res.append(P.rescale(cfg, s, k) if s * k != 1 else cfg)
    return res


def run(prop):
    rng = random.Random(SEED)
    deep = TIER == "thorough"
    mc, trans = transitions(8 if deep else 5)
    cfgs = configs(rng, P.ALL, 6 if deep else 2)
    rng.shuffle(cfgs)
    jobs = []
    for i in range(NPROC):
        part = cfgs[i::NPROC]
        jobs.append(dict(kind="api", seed=SEED * 1000 + i, configs=part, transitions=trans, bounds=BOUNDS,
                         walks=4 if deep else 1, ops=14, points=10 if deep else 9,
                         random=6 if deep else 2, random_ops=40 if deep else 25,
                         lengths=[30, 60, 200] if deep else [30, 60]))
    rec = record(jobs, pure=True)
    tot = sum(len(t[2]) for t in trans)
    res = validate("SolverTrace", rec, prop)
    return dict(mc=[mc], res=res, extra=dict(model_transitions=tot, model_transitions_driven=len(rec.covered)))
