"""C16: the registry of solvers (Registry.tla).  C18: the case-insensitive dictionary (CIDict.tla)."""
import random

from common import *  # noqa
from engine import model_check, record, validate


def builtin():
    """The names and aliases in the specification."""
    s = open(os.path.join(SPEC, "Registry.tla")).read()
    s = s[s.index("Builtin == <<"):s.index("Range(s)")]
    names = re.findall(r'(?:AB|AM|BDF|RKF|RKV|K)\("([^"]+)", "([^"]+)"\)', s)
    groups = ("Adams-Bashforth", "Adams-Moulton", "BDF", "Runge-Kutta")
    res = [a for a, _ in names if a not in groups]
    return [x for i, x in enumerate(res) if x not in res[:i]]


def run_registry(prop):
    deep = TIER == "thorough"
    mc = model_check("MCRegistry", consts=dict(MaxDefined=3 if deep else 2), workers=8)
    names = builtin()
    jobs = [dict(kind="registry", modules=["regdriver"], seed=SEED * 1000 + i, builtin=names, filters=i == 0,
                 sessions=60 if deep else 12, ops=25) for i in range(NPROC)]
    rec = record(jobs, pure=True)
    return dict(mc=[mc], res=validate("RegistryTrace", rec, prop), extra=dict(names=len(names)))


def run_dict(prop):
    deep = TIER == "thorough"
    mc = model_check("MCDict", consts=dict(Emitting="FALSE"), workers=4)
    em = model_check("MCDict", consts=dict(Emitting="TRUE"), workers=1)
    trans, seen = [], set()
    for line in em.printed("TRANS "):
        if line not in seen:
            seen.add(line)
            trans.append(json.loads(line))
    rng = random.Random(SEED)
    rng.shuffle(trans)
    jobs = [dict(kind="dict", modules=["regdriver"], seed=SEED * 1000 + i, transitions=trans[i::NPROC],
                 sessions=120 if deep else 25, ops=60 if deep else 40) for i in range(NPROC)]
    rec = record(jobs, pure=True)
    return dict(mc=[mc, em], res=validate("DictTrace", rec, prop),
                extra=dict(model_transitions=len(seen), model_transitions_driven=len(rec.covered)))


def run(prop):
    return run_registry(prop) if prop == "C16" else run_dict(prop)
