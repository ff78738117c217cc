"""C06, C10, C11, C12, C13, C17: the formulas and the controller, specified in Steps.tla."""
import math
import random

from common import *  # noqa
from engine import Recording, model_check, record, validate
import problems as P

EXPLICIT = [n for n in P.ALL if n not in P.IMPLICIT]
T0S = [0.0, 0.0, 1.0, -2.5, 10.0, -0.75, 100.0, 0.1, 1 / 3.0]
HS = [0.125, 0.0625, 0.1, 0.03, 0.007, 0.25, 0.5, 1.0]


def some_problem(rng, dims=(1, 1, 2, 3, 5, 8)):
    if rng.random() < 0.3:
        return rng.choice(list(P.FIXED_PROBLEMS.values()))
    p = P.random_problem(rng, rng.choice(dims))
    r = rng.random()
    if r < 0.15:   # large or small states
        s = rng.choice([1e4, 1e-4, 1e-8])
        for k in ("c", "d", "y0"):
            p[k] = [x * s for x in p[k]]
        p["q"] = [x / s for x in p["q"]]
    elif r < 0.22:  # starts at zero
        p["y0"] = [0.0] * len(p["y0"])
    return p


def linear(rng, n):
    p = P.random_problem(rng, n)
    p["q"] = [0.0] * n
    p["e"] = [0.0] * n
    return p


def first_steppers(rng):
    return rng.choice(["auto", None, "RungeKutta4", "DOP853", "RungeKutta45", "Heun3", "RungeKutta23"])


def fixed_cfg(rng, name, p=None, h=None):
    cfg = dict(cls=name, p=p or some_problem(rng), t0=rng.choice(T0S), h=h or rng.choice(HS))
    if name in P.MULTISTEP:
        cfg["fs"] = first_steppers(rng)
    return cfg


def adaptive_cfg(rng, name, reject=0.5):
    """Variable step configurations; `reject`: how often the first step is far too large."""
    n = rng.choice([1, 1, 2, 3, 5])
    kind = rng.random()
    o = {}
    if kind < 0.35:
        p = linear(rng, n)
        lam = rng.choice([1, 4, 20, 60])
        for i in range(n):
            p["M"][i][i] -= lam
    elif kind < 0.42:
        p = P.problem([[0.0] * n for _ in range(n)], c=[rng.choice([0.0, 1.0])] * n, y0=[rng.choice([0.0, 2.0])] * n)
    elif kind < 0.55:
        p = P.problem([[0.0] * n for _ in range(n)], e=[rng.choice([-1.0, 0.5])] * n, y0=[1.0 + i for i in range(n)])
    else:
        p = some_problem(rng, dims=(1, 2, 3, 5))
    if rng.random() < 0.6:
        o["rtol"], o["atol"] = rng.choice([(1e-5, 1e-8), (1e-8, 1e-10), (1e-2, 1e-3), (1e-6, 1e-2), (1e-2, 1e-9), (1e-11, 1e-12)])
    if rng.random() < reject:
        o["first_step"] = rng.choice([0.5, 2.0, 1.0, 8.0])
    elif rng.random() < 0.4:
        o["first_step"] = rng.choice([1e-3, 1e-5, 0.01])
    if rng.random() < 0.3:
        o["max_step"] = rng.choice([0.05, 0.25, 0.75])
    if rng.random() < 0.3:
        o["min_factor"] = rng.choice([0.5, 0.1, 0.05, 0.7])
    if rng.random() < 0.3:
        o["max_factor"] = rng.choice([1.5, 3.0, 5.0, 20.0])
    if rng.random() < 0.3:
        o["safety_factor"] = rng.choice([0.5, 0.8, 0.95])
    if rng.random() < 0.25:
        o["min_step"] = min(rng.choice([1e-3, 1e-2, 0.1, 0.3, 1e-8]), o.get("max_step", 1.0))
    return dict(cls=name, p=p, t0=rng.choice(T0S), opts=o)


def implicit_cfg(rng, name):
    r = rng.random()
    n = rng.choice([1, 1, 1, 2, 2, 3, 5])
    h = rng.choice([0.125, 0.1, 0.03, 0.25, 0.5])
    if r < 0.06:     # the unknown cancels out: no solution, or all
        h = rng.choice([0.125, 0.25, 0.5, 0.1])
        p = P.problem([[1 / (h * P.BN[name])]], c=[rng.choice([0.0, 1.0, -2.0])], y0=[rng.choice([1.0, 0.5, 0.0, 3.0])])
        cfg = fixed_cfg(rng, name, p, h)
        cfg["fs"] = rng.choice([None, None, "RungeKutta4"])
    elif r < 0.35:
        p = linear(rng, n)
        k = rng.choice([1.0, 1.0, 1e3, 2.0**17, 2.0**20, 1e-6])
        for key in ("c", "d", "y0"):
            p[key] = [x * k for x in p[key]]
        cfg = fixed_cfg(rng, name, p, h)
        cfg["benign"] = True
    elif r < 0.6:
        cfg = fixed_cfg(rng, name, None, h)
    elif r < 0.75:   # stiff: what implicit methods are for
        p = linear(rng, n)
        for i in range(n):
            p["M"][i][i] -= rng.choice([10.0, 100.0, 1000.0])
        cfg = fixed_cfg(rng, name, p, h)
        cfg["fs"] = None
    else:            # strongly nonlinear: the equation may have no solution near
        p = P.random_problem(rng, n)
        p["q"] = [rng.choice([-4.0, -1.0, 0.5, 1.0, 2.0]) for _ in range(n)]
        p["y0"] = [rng.choice([-1.0, 0.25, 0.5, 1.0, 2.0]) for _ in range(n)]
        cfg = fixed_cfg(rng, name, p, rng.choice([0.0625, 0.25, 0.5, 1.0]))
        cfg["fs"] = rng.choice([None, "auto"])
    return cfg


def y0_like(rng, n, integral):
    kinds = ["list", "tuple", "array", "strided", "readonly", "fortran", "bigendian", "f32"]
    if integral:
        kinds += ["int", "intarray"]
        if n == 1:
            kinds += ["intscalar"]
    if n == 1:
        kinds += ["scalar", "npscalar", "zerodim"]
    return rng.choice(kinds)


def new_cfgs(rng, count):
    res, ref = [], []
    for name in P.ALL:
        for i in range(count):
            if name in P.ADAPTIVE:
                cfg = adaptive_cfg(rng, name, reject=0.2)
                if rng.random() < 0.5:
                    cfg["opts"].pop("first_step", None)
                cfg["opts"].pop("min_step", None)
            else:
                cfg = fixed_cfg(rng, name)
                if "fs" in cfg and rng.random() < 0.6:
                    cfg["fs"] = None
                elif "fs" in cfg:   # it must be able to start itself
                    cfg["p"], cfg["h"] = linear(rng, rng.choice([1, 1, 2, 3])), min(cfg["h"], 0.25)
                if rng.random() < 0.1 and cfg["p"]["y0"] and len(cfg["p"]["y0"]) == 1 and cfg.get("fs", 1) is None:
                    cfg["h"] = None
            p = dict(cfg["p"])
            integral = rng.random() < 0.3
            if integral:
                p["y0"] = [float(rng.randrange(-3, 4)) for _ in p["y0"]]
            cfg["p"] = p
            cfg["y0_like"] = y0_like(rng, len(p["y0"]), integral)
            cfg["t0_like"] = rng.choice(["float", "float", "float", "int", "npint", "f32", "zerodim"])
            if "int" in cfg["t0_like"]:
                cfg["t0"] = float(int(cfg["t0"]))
            cfg["pos"] = rng.random() < 0.3
            res.append(cfg)
    for name in P.ADAPTIVE:
        for o, bad in [(dict(atol=-1e-6), True), (dict(max_step=0.0), True), (dict(max_step=-1.0), True),
                       (dict(atol=0.0, rtol=1e-6), False), (dict(max_step=0.5, first_step=2.0), False)]:
            ref.append((dict(cls=name, p=P.FIXED_PROBLEMS["osc"], t0=0.0, opts=o), bad))
    return res, ref


def start_cfgs(rng, count):
    res = []
    names = [n for n in P.MULTISTEP]
    for name in names:
        fss = ["auto", None, "RungeKutta4", "RungeKutta3_8", "DOP853", "RungeKutta45", "RungeKutta23", "ForwardEuler", "BDF2", "AdamsBashforth5", "AdamsMoulton4", "Runge2"]
        for fs in fss if count > 1 else rng.sample(fss[2:], 3) + fss[:2]:
            for by_class in ([False, True] if fs not in ("auto", None) else [False]):
                for _ in range(count):
                    # mild problems: the steppers must get over the start-up themselves
                    p = linear(rng, rng.choice([1, 2, 3])) if rng.random() < 0.5 else rng.choice(list(P.FIXED_PROBLEMS.values()))
                    res.append(dict(cls=name, p=p, t0=rng.choice(T0S), h=rng.choice([0.125, 0.1, 0.03, 0.0625, 0.007]), fs=fs, by_class=by_class, tb=rng.choice([None, None, 0.5, -0.5, 0.02, -0.02, 30.0, "at", "under", "over", "due"])))
    return res


def dyadic(rng, n, one=None):
    """n coefficients, of sum `one` if given."""
    k = rng.choice([8.0, 8.0, 16.0, 7.0, 10.0])
    v = [rng.randrange(-12, 13) / k if rng.random() < 0.85 else 0.0 for _ in range(n)]
    if one is not None:
        v[rng.randrange(n)] += one - sum(v)
    return v


def family_cfg(rng, shape):
    """A method of that shape, and a problem for it."""
    kind = shape["kind"]
    m = dict(kind=kind)
    p = linear(rng, rng.choice([1, 1, 2, 3])) if kind == "ims" or rng.random() < 0.5 else some_problem(rng, dims=(1, 2, 3))
    cfg = dict(p=p, t0=rng.choice(T0S), benign=True)
    if "s" in shape:
        s = shape["s"]
        A = [dyadic(rng, i) + [0.0] * (s - i) for i in range(s)]
        C = [0.0] + [sum(r) if rng.random() < 0.8 else rng.choice([0.5, 1.0, 0.25]) for r in A[1:]]
        m.update(A=A, B=dyadic(rng, s, 1.0), C=C)
        if kind == "rk":
            cfg["h"] = rng.choice(HS[:6])
            if s > 1 and rng.random() < 0.1:
                i = rng.randrange(s)
                A[i][rng.randrange(i, s)] = 0.5
                m["refused"] = True
        else:
            n = s + (kind == "fsal")
            m["q"] = rng.choice([1, 2, 3, 4])
            if rng.random() < 0.7:
                m["B2"] = dyadic(rng, n, 1.0)
            else:
                m["E"] = dyadic(rng, n, 0.0)
            cfg["opts"] = adaptive_cfg(rng, "RungeKutta45", 0.3)["opts"]
            cfg["opts"].update(first_step=rng.choice([0.5, 0.1, 0.01]), rtol=rng.choice([1e-2, 1e-3]), atol=rng.choice([1e-2, 1e-3, 0.1]))
            if rng.random() < 0.2 and not m.get("E"):
                m["B2"] = m["B"] + [0.0] * (kind == "fsal")   # no error at all
    else:
        m.update(A=dyadic(rng, shape["a"], -1.0), B=dyadic(rng, shape["b"]), Bn=rng.choice([0.25, 0.5, 1.0, 1 / 3.0]) if kind == "ims" else 0.0)
        if shape["len"]:
            m["len"] = shape["len"]
        cfg["h"] = rng.choice([0.125, 0.1, 0.0625, 0.03])
        cfg["fs"] = rng.choice([None, "auto", "RungeKutta4"]) if kind == "ams" else rng.choice(["auto", None])
    if rng.random() < 0.2:
        m["group"] = rng.choice(["Mine", "Runge-Kutta", "euler"])
    cfg["method"] = m
    return cfg


def exact_cfg(rng):
    """An embedded method and a problem without any rounding, whose first attempt is at a limit."""
    from fractions import Fraction as Fr

    d8 = lambda lo, hi: rng.randrange(lo, hi) / 8.0
    d, h, t0 = rng.choice([1.0, -2.0, 0.5, 3.0]), rng.choice([0.5, 0.25, 0.125]), rng.choice([0.0, 1.0, -0.5, 8.0])
    kind = rng.choice(["adaptive", "fsal"])
    w = rng.choice([0.5, 0.25, -0.5, 1.0])
    if kind == "adaptive":
        c = rng.choice([1.0, 0.5])
        m = dict(kind=kind, A=[[0.0, 0.0], [c, 0.0]], B=[1 - w, w], C=[0.0, c], B2=[1.0, 0.0])
        err = abs(Fr(w) * Fr(c) * Fr(d) * Fr(h) * Fr(h))
    else:
        m = dict(kind=kind, A=[[0.0]], B=[1.0], C=[0.0], B2=[1 - w, w])
        err = abs(Fr(w) * Fr(d) * Fr(h) * Fr(h))
    m.update(q=1, exact=True)
    # the mean over the components is one as well
    dim, part = rng.choice([(1, 1), (1, 1), (2, 2), (4, 1), (3, 3)])
    y0 = [d8(-16, 17) for _ in range(dim)]
    ds = [d] * part + [0.0] * (dim - part)
    rtol = 0.0
    if dim == 1 and rng.random() < 0.5:
        k2 = Fr(d) * (Fr(t0) + (Fr(c) * Fr(w) * Fr(h) if kind == "adaptive" else 0))
        top = max(abs(Fr(y0[0])), abs(Fr(y0[0]) + Fr(h) * k2))
        r = err / 4 / max(top, 1)
        rtol = 2.0 ** -next(i for i in range(60) if Fr(1, 2**i) <= r)
        err -= Fr(rtol) * top
    # (one component of four at twice the tolerance: the mean of the squares is one)
    atol = float(err / 2 if dim == 4 else err)
    how = rng.random()
    if how < 0.25:
        atol = math.nextafter(atol, math.inf) if rtol == 0.0 and dim == 1 else atol * (1 + 2.0**-40)
    elif how < 0.4:
        atol = atol * (1 - 2.0**-40)
    sf = rng.choice([0.5, 0.5, 0.25])
    opts = dict(first_step=h, atol=float(atol), rtol=rtol, safety_factor=sf, max_factor=rng.choice([2.0, 8.0, 10.0]), min_factor=rng.choice([0.125, sf]))
    r = rng.random()
    if r < 0.2:
        opts["min_step"] = h * sf
    elif r < 0.35:
        opts["min_step"] = math.nextafter(h * sf, 1.0)
    elif r < 0.5:
        opts["max_step"] = h
    p = dict(M=[[0.0] * dim for _ in range(dim)], c=[0.0] * dim, d=ds, q=[0.0] * dim, e=[0.0] * dim, y0=y0)
    return dict(p=p, t0=t0, benign=True, opts=opts, method=m)


def run_families():
    rng = random.Random(SEED * 7919 + 22)
    deep = TIER == "thorough"
    mc = model_check("MCFamilies", workers=1)
    shapes = [json.loads(x) for x in mc.printed("SHAPE ")]
    cfgs = [family_cfg(rng, x) for x in shapes for _ in range(12 if deep else 3 if "s" in x else 1)]
    cfgs = [P.rescale(c, rng.choice(P.UNITS)) for c in cfgs]
    cfgs += [exact_cfg(rng) for _ in range(800 if deep else 160)]
    rng.shuffle(cfgs)
    jobs = [dict(modules=["stepdriver"], kind="define", seed=SEED * 100 + i, configs=cfgs[i::NPROC], ops=16 if deep else 8, p_int=0.25) for i in range(NPROC)]
    rec = record(jobs, pure=True)
    res = validate("StepTrace", rec, "C22")
    return [mc], res, dict(shapes=len(shapes))


def run(prop):
    if prop == "C22":
        mc, res, extra = run_families()
        return dict(mc=mc, res=res, extra=dict(extra, transitions_decided=decided(res)))
    rng = random.Random(SEED * 7919 + int(prop[1:]))
    deep = TIER == "thorough"
    mc = [model_check("MCMethods", workers=4)] if prop in ("C06", "C10", "C11", "C12") else []
    common = dict(modules=["stepdriver"], focus=prop)
    cfgs, ref = [], []
    if prop == "C06":
        cfgs = [fixed_cfg(rng, n) if n not in P.ADAPTIVE else adaptive_cfg(rng, n, 0.2)
                for n in P.ALL + P.ADAPTIVE * 4 for _ in range(12 if deep else 2)]
        kind, par = "steps", dict(ops=24 if not deep else 60, p_int=0.7)
    elif prop == "C10":
        cfgs = [fixed_cfg(rng, n) if n not in P.ADAPTIVE else adaptive_cfg(rng, n, 0.2) for n in EXPLICIT for _ in range(40 if deep else 8)]
        kind, par = "steps", dict(ops=8 if not deep else 16, p_int=0.05)
    elif prop == "C11":
        cfgs = [implicit_cfg(rng, n) for n in P.IMPLICIT for _ in range(80 if deep else 14)]
        kind, par = "steps", dict(ops=8 if not deep else 20, p_int=0.05)
    elif prop == "C12":
        cfgs = [adaptive_cfg(rng, n) for n in P.ADAPTIVE for _ in range(400 if deep else 60)]
        kind, par = "steps", dict(ops=6 if not deep else 12, p_int=0.1)
    elif prop == "C13":
        cfgs = (start_cfgs(rng, 4) if deep else sum((start_cfgs(rng, 1) for _ in range(5)), []))
        kind, par = "start", dict(ops=2)
    elif prop == "C17":
        cfgs, ref = new_cfgs(rng, 60 if deep else 10)
        kind, par = "new", {}
    cfgs = [P.rescale(c, rng.choice(P.UNITS)) for c in cfgs]
    rng.shuffle(cfgs)
    jobs = [dict(common, kind=kind, seed=SEED * 100 + i, configs=cfgs[i::NPROC], refusals=ref[i::NPROC], **par) for i in range(NPROC)]
    if prop == "C12":
        # limits met exactly, by methods of the same families without rounding
        ex = [exact_cfg(rng) for _ in range(800 if deep else 160)]
        jobs += [dict(modules=["stepdriver"], kind="define", seed=SEED * 100 + 50 + i, configs=ex[i::NPROC], ops=4, p_int=0.0) for i in range(NPROC)]
    rec = record(jobs, pure=True)
    res = validate("StepTrace", rec, prop)
    return dict(mc=mc, res=res, extra=dict(transitions_decided=decided(res)))


def decided(res):
    tot = {}
    for x in res.notes:
        for k, v in json.loads(x).items():
            tot[k] = tot.get(k, 0) + v
    if not tot.get("decided") and not res.verdicts:
        raise MachineryError("nothing was decided")
    return tot
