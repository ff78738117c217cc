"""C14: isolation (Isolation.tla, IsoTrace.tla)."""
import random

from common import *  # noqa
from engine import model_check, record, validate
import apicheck
import problems as P


def run(prop):
    rng = random.Random(SEED * 57)
    deep = TIER == "thorough"
    mc = [model_check("Isolation", consts=dict(MaxSteps=3 if deep else 2, MaxHeld=6 if deep else 4), workers=8)]
    cfgs = apicheck.configs(rng, P.ALL, 10 if deep else 4, [1.0])
    for c in cfgs:
        c["p"] = P.random_problem(rng, rng.choice([1, 2])) if len(c["p"]["y0"]) > 2 else c["p"]
        c.pop("grid"), c.pop("exact")
    rng.shuffle(cfgs)
    jobs = [dict(kind="iso", modules=["isodriver"], seed=SEED * 1000 + i, configs=cfgs[i::NPROC],
                 sessions=200 if deep else 60, ops=40 if deep else 25) for i in range(NPROC)]
    rec = record(jobs, pure=True)
    return dict(mc=mc, res=validate("IsoTrace", rec, prop))
