"""Problems and solver configurations the conformance driver runs.

A problem is data: f(t, y) = M y + c + d t + q y*y + e t y  (componentwise), so that the
specification can evaluate the same right-hand side in exact arithmetic.
"""
import random

FIXED = (
    ["AdamsBashforth%d" % k for k in range(1, 6)]
    + ["AdamsMoulton%d" % k for k in range(1, 6)]
    + ["BDF%d" % k for k in range(1, 7)]
    + ["ForwardEuler", "BackwardEuler"]
    + ["Runge2", "Runge3", "Heun3", "RungeKutta4", "RungeKutta3_8"]
)
ADAPTIVE = ["RungeKutta23", "RungeKutta45", "DOP853"]
ALL = FIXED + ADAPTIVE
IMPLICIT = [n for n in ALL if n.startswith(("AdamsM", "BDF", "Backward"))]
MULTISTEP = [n for n in ALL if n.startswith(("Adams", "BDF", "ForwardEuler", "Backward"))]
EXPLICIT_RK = ["Runge2", "Runge3", "Heun3", "RungeKutta4", "RungeKutta3_8"]
ORDER = {}
# weight of the new derivative
BN = dict(BackwardEuler=1.0, AdamsMoulton1=1.0, AdamsMoulton2=0.5, AdamsMoulton3=5 / 12, AdamsMoulton4=9 / 24, AdamsMoulton5=251 / 720,
          BDF1=1.0, BDF2=2 / 3, BDF3=6 / 11, BDF4=12 / 25, BDF5=60 / 137, BDF6=60 / 147)
for _n in MULTISTEP:
    if _n.startswith("AdamsM"):
        ORDER[_n] = max(1, int(_n[-1]) - 1)
    elif _n in ("ForwardEuler", "BackwardEuler"):
        ORDER[_n] = 1
    else:
        ORDER[_n] = int(_n[-1])


def zeros(n):
    return [0.0] * n


def problem(M, c=None, d=None, q=None, e=None, y0=None):
    n = len(M)
    return dict(
        M=[[float(x) for x in r] for r in M],
        c=[float(x) for x in (c or zeros(n))],
        d=[float(x) for x in (d or zeros(n))],
        q=[float(x) for x in (q or zeros(n))],
        e=[float(x) for x in (e or zeros(n))],
        y0=[float(x) for x in (y0 or [1.0] * n)],
    )


FIXED_PROBLEMS = {
    "decay": problem([[-0.5]], y0=[2.0]),
    "forced1": problem([[-0.75]], c=[0.25], d=[0.5], y0=[-1.0]),
    "logistic": problem([[1.0]], q=[-0.5], y0=[0.25]),
    "osc": problem([[0, 1], [-1, -0.25]], d=[0, 0.5], y0=[1.0, 0.0]),
    "nonlin2": problem([[-0.5, 0.25], [0.5, -1]], c=[0.5, 0.0], q=[-0.125, 0.25], y0=[0.5, 0.75]),
    "tvar2": problem([[0, 0.5], [-0.5, 0]], e=[-0.125, 0.0625], y0=[1.0, -2.0]),
    "chain3": problem([[-1, 0.5, 0], [0.25, -0.5, 0.25], [0, 0.5, -1]], c=[0, 0, 1], y0=[3.0, 0.0, -1.0]),
}


def random_problem(rng, n):
    """Random problem with dyadic coefficients and spectrum of moderate size."""
    r = lambda s: rng.randrange(-16, 17) / 16.0 * s
    M = [[r(1.0 / n) for _ in range(n)] for _ in range(n)]
    for i in range(n):
        M[i][i] -= 0.5
    return problem(
        M,
        c=[r(1.0) for _ in range(n)],
        d=[r(0.25) for _ in range(n)] if rng.random() < 0.6 else None,
        q=[r(0.125) for _ in range(n)] if rng.random() < 0.5 else None,
        e=[r(0.0625) for _ in range(n)] if rng.random() < 0.4 else None,
        y0=[r(2.0) + 0.125 for _ in range(n)],
    )


def rescale(cfg, s, k=1.0):
    """The same configuration with time in units of 1/s and states in units of 1/k (powers of two: nothing is rounded)."""
    p = cfg["p"]
    q = {
        "M": [[a / s for a in r] for r in p["M"]],
        "c": [a * k / s for a in p["c"]],
        "d": [a * k / s / s for a in p["d"]],
        "q": [a / s / k for a in p["q"]],
        "e": [a / s / s for a in p["e"]],
        "y0": [a * k for a in p["y0"]],
    }
    new = dict(cfg, p=q, t0=cfg["t0"] * s, unit=s)
    if cfg.get("h") is not None:
        new["h"] = cfg["h"] * s
    if cfg.get("opts"):
        o = dict(cfg["opts"])
        for name in ("first_step", "max_step", "min_step"):
            if name in o:
                o[name] = o[name] * s
        if k != 1 and "atol" in o:
            o["atol"] = o["atol"] * k
        new["opts"] = o
    return new


UNITS = [1.0, 1.0, 1.0, 2.0**-30, 2.0**-20, 2.0**20]
