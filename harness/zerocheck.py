"""C19, C20: the root finders (Zeros.tla)."""
import random

from common import *  # noqa
from engine import model_check, record, validate


def run(prop):
    deep = TIER == "thorough"
    rng = random.Random(SEED * 19)
    mc = model_check("MCZeros", consts=dict(Degree=3 if deep else 2, Size=8 if deep else 6), workers=8)
    em = model_check("MCZeros", consts=dict(Degree=2, Size=6, Emitting="TRUE"), workers=1)
    inputs = [json.loads(x) for x in em.printed("TRANS ")]
    scal = [x for x in inputs if x["m"] != "bisect"]
    bis = [x for x in inputs if x["m"] == "bisect"]
    rng.shuffle(scal), rng.shuffle(bis)
    if prop == "C19":
        use = scal if deep else scal[:4800]
        nums = dict(random=1500 if deep else 250, bisect=0, hd=0)
        few = dict(random=400 if deep else 60, bisect=0, hd=0)
        some = scal[:400]
    else:
        use = bis if deep else bis[:4000]
        nums = dict(random=0, bisect=1500 if deep else 250, hd=1000 if deep else 150)
        few = dict(random=0, bisect=200, hd=200)
        some = bis[:400]
    k = NPROC - 1
    jobs = [dict(kind="zeros", modules=["zerodriver"], seed=SEED * 1000 + i, inputs=use[i::k], compiled_only=False, pure=True, **nums) for i in range(k)]
    jobs.append(dict(kind="zeros", modules=["zerodriver"], seed=SEED * 1000 + k, inputs=some, compiled_only=True, pure=False, **few))
    rec = record(jobs)
    return dict(mc=[mc, em], res=validate("ZerosTrace", rec, prop), extra=dict(model_inputs=len(scal if prop == "C19" else bis), model_inputs_driven=len(use)))
