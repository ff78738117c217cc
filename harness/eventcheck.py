"""C07, C08, C09: events, specified in Events.tla."""
import random

from common import *  # noqa
from engine import model_check, record, validate
import apicheck
import problems as P


def run(prop):
    rng = random.Random(SEED * 31 + int(prop[1:]))
    deep = TIER == "thorough"
    mc = [model_check("MCEvents", consts=dict(NSteps=4 if deep else 2), workers=8)]
    em = model_check("MCEvents", consts=dict(NSteps=1, Emitting="TRUE"), workers=2)
    trans = set()
    for line in em.printed("TRANS "):
        x = json.loads(line)
        trans.add((json.dumps([x["dirs"], x["terms"]]), json.dumps(x["from"]), json.dumps(x["to"])))
    trans = sorted(trans)
    cfgs = apicheck.configs(rng, P.ALL, 8 if deep else 3)
    rng.shuffle(cfgs)
    jobs = []
    for i in range(NPROC):
        jobs.append(dict(kind="events", modules=["eventdriver"], seed=SEED * 1000 + i, configs=cfgs[i::NPROC],
                         transitions=trans, walks=12 if deep else 3, calls=6, points=14,
                         pwl=dict(C07=0.65, C08=0.25, C09=0.6)[prop], p_meet=dict(C07=0.05, C08=0.1, C09=0.25)[prop], p_term=dict(C07=0.15, C08=0.2, C09=0.6)[prop]))
    rec = record(jobs, pure=True)
    res = validate("EventsTrace", rec, prop)
    return dict(mc=mc + [em], res=res, extra=dict(model_transitions=len(trans), model_transitions_driven=len(rec.covered)))
