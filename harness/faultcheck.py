"""C21: failures, specified in Solver.tla and Fault.tla."""
import random

from common import *  # noqa
from engine import model_check, record, validate
import apicheck
import problems as P
import stepcheck


def failing(rng, name):
    """Problems whose trajectory cannot be continued at some point."""
    if name in P.ADAPTIVE:
        # grows until no step above min_step is accurate enough
        p = P.problem([[1.0]], q=[1.0], y0=[rng.choice([1.0, 0.5])])
        return dict(cls=name, p=p, t0=0.0, grid="adaptive", opts=dict(min_step=rng.choice([0.05, 0.01]), rtol=1e-8, atol=1e-10, first_step=0.06))
    p = P.problem([[rng.choice([0.5, 1.0])]], c=[1.0], q=[rng.choice([1.0, 2.0])], y0=[0.25])
    return dict(cls=name, p=p, t0=rng.choice([0.0, 1.0]), h=0.125, fs=None, grid="fill", exact=True)


def run(prop):
    rng = random.Random(SEED * 97)
    deep = TIER == "thorough"
    mc = [model_check("Fault")]
    cfgs = apicheck.configs(rng, P.ALL + P.ADAPTIVE * 2, 3 if deep else 1)
    cfgs += [failing(rng, n) for n in P.IMPLICIT + P.ADAPTIVE for _ in range(3 if deep else 1)]
    rng.shuffle(cfgs)
    jobs = [dict(kind="fault", modules=["faultdriver"], seed=SEED * 1000 + i, configs=cfgs[i::NPROC], points=16,
                 max_k=200 if deep else 60, all_k=200 if deep else 16, random=12 if deep else 3, random_ops=12) for i in range(NPROC)]
    rec = record(jobs, pure=True)
    return dict(mc=mc, res=validate("FaultTrace", rec, prop))
