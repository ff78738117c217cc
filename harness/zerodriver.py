"""Driver for the root finders (C19, C20).  Functions record where they are evaluated in a buffer."""
import random
import warnings

import numpy as np

from driver import Hang, hm, hv, hx, limit, numba, NO_NUMBA
from nbkode.nbcompat import zeros


def wrap(f):
    return f if NO_NUMBA else numba.njit(f)


def _poly(x, c, buf):
    n = int(buf[0]) + 1
    buf[0] = n
    if n < buf.size:
        buf[n] = x
    v = 0.0
    for i in range(c.size - 1, -1, -1):
        v = v * x + c[i]
    return v


def _dpoly(x, c, buf):
    v = 0.0
    for i in range(c.size - 1, 0, -1):
        v = v * x + i * c[i]
    return v


def _d2poly(x, c, buf):
    v = 0.0
    for i in range(c.size - 1, 1, -1):
        v = v * x + i * (i - 1) * c[i]
    return v


def _roots(x, k, c, buf):
    n = int(buf[0]) + 1
    buf[0] = n
    if n < buf.size:
        buf[n] = x
    v = k
    for i in range(c.size):
        v = v * (x - c[i])
    return v


def _line(x, xs, vs, buf):
    n = int(buf[0]) + 1
    buf[0] = n
    if n < buf.size:
        buf[n] = x
    return np.interp(x, xs, vs)


def _system(y, M, c, q):
    return (M * y).sum(axis=1) + c + q * y * y


poly, dpoly, d2poly, roots_f, line_f, system = map(wrap, (_poly, _dpoly, _d2poly, _roots, _line, _system))


def evaluated(buf):
    return [hx(x) for x in buf[1: int(buf[0]) + 1]]


def undefault(kw, **default):
    """Leave out what is what it is by default."""
    return {k: v for k, v in kw.items() if k not in default or v != default[k]}


def scalar(job_fn, m, c, x0, x1, tol, rtol, maxiter, disp, full, form=float):
    """One call of newton or j_newton."""
    c = np.array(c, dtype=float)
    buf = np.zeros(400)
    # python functions for newton, compiled ones for j_newton
    f, d, d2 = (_poly, _dpoly, _d2poly) if job_fn == "newton" else (poly, dpoly, d2poly)
    kw = dict(args=(c, buf), tol=tol, rtol=rtol, maxiter=maxiter)
    if NO_NUMBA:
        kw = undefault(kw, tol=1.48e-8, rtol=0.0, maxiter=50)
    if m != "secant":
        kw["fprime"] = d
    if m == "halley":
        kw["fprime2"] = d2
    if m == "secant" and x1 is not None:
        kw["x1"] = x1
    r = dict(fn=job_fn, m=m, c=[hx(v) for v in c], x0=hx(x0), x1="" if x1 is None else hx(x1), tol=hx(tol), rtol=hx(rtol),
             maxiterN=maxiter, disp=bool(disp), p="nan", conv="", it="", warned=False)
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        try:
            with limit():
                if job_fn == "newton":
                    o = zeros.newton(f, form(x0), disp=disp, full_output=full, **kw)
                    if full:
                        r["conv"], r["it"] = str(bool(o[1].converged)), str(int(o[1].iterations))
                        same = o[0] == o[1].root or (o[0] != o[0] and o[1].root != o[1].root)
                        o = o[0] if same else float("nan")
                    o = np.ravel(o)[0] if np.size(o) == 1 else float("nan")
                else:
                    o = zeros.j_newton(f, x0, **kw)
            r["kind"], r["p"] = "ok", hx(o)
        except Hang:
            r["kind"] = "hang"
        except Exception as e:
            r["kind"] = type(e).__name__
        r["warned"] = any(issubclass(w.category, RuntimeWarning) and "encountered" not in str(w.message) for w in ws)
    r["xs"] = evaluated(buf)
    return r


FORMS = [float, float, np.float64, lambda x: np.array(x), lambda x: np.array([x]), lambda x: int(x) if x == int(x) and abs(x) < 1e9 else x]


def elements(emit, rng):
    """One call of newton for an array of starting points, each an element of its own."""
    m = rng.choice(["newton", "halley", "secant"])
    deg = rng.choice([1, 2, 2, 3, 4])
    c = np.array([rng.choice([-4, -3, -2, -1.5, -1, -0.5, 0, 0.25, 1, 2, 3]) for _ in range(deg)] + [rng.choice([1.0, -2.0, 0.5])])
    if rng.random() < 0.15:
        a, deg = rng.choice([-1.5, 0.5, 1.0, 2.0]), rng.choice([2, 3])
        c = np.array([float(v) for v in np.poly([a] * deg)[::-1]])
    size = rng.choice([2, 2, 3, 5, 12])
    near = rng.random() < 0.5
    real = [x.real for x in np.roots(c[::-1]) if abs(x.imag) < 1e-9]
    x0 = [rng.choice(real) + rng.choice([0.5, -0.25, 0.125]) if near and real else rng.choice([-8.0, -2.0, -1.0, -0.5, 0.0, 0.25, 1.0, 3.0, 10.0, rng.uniform(-3, 3)]) for _ in range(size)]
    kw = dict(tol=rng.choice([1.48e-8, 1.48e-8, 1e-3, 1e-12, 0.5]), maxiter=rng.choice([1, 2, 3, 5, 10, 50, 50, 50, 100]), disp=rng.random() < 0.5)
    if rng.random() < 0.06:
        kw[rng.choice(["tol", "maxiter"])] = rng.choice([0, -1])
    tol, maxiter, full = kw["tol"], kw["maxiter"], rng.random() < 0.6
    kw = undefault(kw, tol=1.48e-8, maxiter=50, disp=True)
    xs = []

    def f(x, c):
        xs.append(np.array(x))
        return np.polyval(c[::-1], x)

    if m != "secant":
        kw["fprime"] = lambda x, c: np.polyval(np.polyder(c[::-1]), x) + 0.0 * x
    if m == "halley":
        kw["fprime2"] = lambda x, c: np.polyval(np.polyder(c[::-1], 2), x) + 0.0 * x
    start = list(x0) if rng.random() < 0.3 else np.array(x0).reshape((-1, 2) if size % 2 == 0 and rng.random() < 0.3 else -1)
    shape = np.shape(start)
    r = dict(fn="elements", m=m, c=hv(c), x1="", tol=hx(tol), rtol=hx(0.0), maxiterN=maxiter, disp=True, it="", warned=False)
    p, conv = np.full(size, np.nan), [""] * size
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        try:
            with limit():
                o = zeros.newton(f, start, args=(c,), full_output=full, **kw)
                if full:
                    conv = [str(bool(v)) for v in np.ravel(o.converged)]
                    o = o.root
                if np.shape(o) != shape:
                    raise TypeError("shape %s" % (np.shape(o),))
                p = np.ravel(o)
            r["kind"] = "ok"
        except Hang:
            r["kind"] = "hang"
        except Exception as e:
            r["kind"] = type(e).__name__
        r["warned"] = any(issubclass(w.category, RuntimeWarning) and "encountered" not in str(w.message) for w in ws)
    if list(np.ravel(start)) != x0:
        r["kind"] = "modifies its starting points"
    for k in range(size):
        emit(dict(r, x0=hx(x0[k]), p=hx(p[k]), conv=conv[k], xs=[hx(np.ravel(x)[k]) for x in xs]), "random")


def order(r, c):
    """Whether the values at the two starts were swapped (a tie of rounding otherwise)."""
    if r["m"] == "secant" and len(r["xs"]) >= 2:
        b = np.zeros(4)
        q = [_poly(float.fromhex(x), np.array(c, dtype=float), b) for x in r["xs"][:2] if x not in ("nan", "inf", "-inf")]
        if len(q) == 2:
            r["swap"] = bool(abs(q[1]) < abs(q[0]))


def job_zeros(job, out):
    rng = random.Random(job["seed"])
    n = 0

    def emit(r, what):
        nonlocal n
        n += 1
        out.session(dict(r, id="%s/%s/%d.%d" % (r["fn"], what, job["seed"], n)))

    for t in job["inputs"]:
        if t["m"] == "bisect":
            xs = [float(i) for i in range(len(t["sg"]))]
            bisect(emit, "model", dict(kind="line", xs=xs, vs=[float(v) for v in t["sg"]]), float(t["l"]), float(t["r"]), 1.48e-8, 50)
        else:
            fr = lambda s: float(s.split("/")[0]) / float((s + "/1").split("/")[1])
            c = [float(v) for v in t["c"]]
            x1 = fr(t["x1"]) if t["x1"] and rng.random() < 0.7 else None
            if not job["compiled_only"]:
                disp, full = rng.random() < 0.5, rng.random() < 0.7
                r = scalar("newton", t["m"], c, fr(t["x"]), x1, 1e-6, 0.0, t["maxiter"], disp, full)
                order(r, c)
                emit(r, "model")
            r = scalar("j_newton", t["m"], c, fr(t["x"]), x1, 1e-6, 0.0, t["maxiter"], True, False)
            order(r, c)
            emit(r, "model")
    for _ in range(job["random"]):
        m = rng.choice(["newton", "halley", "secant", "secant"])
        deg = rng.choice([1, 2, 2, 3, 4])
        c = [rng.choice([-4, -3, -2, -1.5, -1, -0.5, 0, 0.25, 1, 2, 3]) for _ in range(deg)] + [rng.choice([1.0, -2.0, 0.5])]
        if rng.random() < 0.15:
            # a multiple root: slow
            a, deg = rng.choice([-1.5, 0.5, 1.0, 2.0]), rng.choice([2, 3, 4])
            c = [float(v) for v in np.poly([a] * deg)[::-1]]
        x0 = rng.choice([-8.0, -2.0, -1.0, -1.0, -0.5, 0.0, 0.25, 1.0, 3.0, 10.0, 100.0, -1e4, 1e6, 1e-5, rng.uniform(-3, 3), rng.uniform(-3, 3)])
        x1 = rng.choice([None, None, x0 + 1.0, -x0, 5.0]) if m == "secant" else None
        tol, rtol = rng.choice([1.48e-8, 1.48e-8, 1e-3, 1e-12, 0.5]), rng.choice([0.0, 0.0, 1e-3, 1e-9, 0.5, 0.1])
        mx = rng.choice([1, 2, 3, 5, 10, 50, 50, 50, 100])
        if rng.random() < 0.04:
            tol = rng.choice([0.0, -1e-3])
        if rng.random() < 0.04:
            mx = rng.choice([0, -2])
        fn = rng.choice(["newton", "newton", "j_newton"]) if not job["compiled_only"] else "j_newton"
        if fn == "j_newton":
            mx, tol = max(mx, 1), abs(tol) or 1e-3
        r = scalar(fn, m, c, x0, x1, tol, rtol, mx, rng.random() < 0.5, rng.random() < 0.5, rng.choice(FORMS))
        order(r, c)
        emit(r, "random")
    for _ in range(job["random"] // 4 if not job["compiled_only"] else 0):
        elements(emit, rng)
    for _ in range(job["bisect"]):
        if rng.random() < 0.5:
            rs = [rng.randrange(-32, 33) / 8.0 for _ in range(rng.choice([1, 1, 2, 3]))]
            g = dict(kind="roots", k=rng.choice([1.0, -1.0, 1e-6, 1e6, -1e-12, 1e-200, -1e200]), roots=rs)
        else:
            xs = [-4.0 + i for i in range(9)]
            sc = rng.choice([1.0, 1e-5, 1e5, 1e-180])
            g = dict(kind="line", xs=xs, vs=[sc * rng.choice([-2, -1, -0.5, 0, 0.5, 1, 3]) for _ in xs])
        l = rng.randrange(-40, 40) / 8.0 + rng.choice([0.0, 0.0, 0.01])
        r = l + rng.choice([0.125, 0.5, 1.0, 3.0, 8.0, 0.0, -1.0, 2.7])
        bisect(emit, "random", g, l, r, rng.choice([1.48e-8, 0.0, 1e-3, 1e-12]), rng.choice([50, 50, 60, 10, 3, 1]))
    for _ in range(job["hd"]):
        hd(emit, rng)


def bisect(emit, what, g, l, r, tol, mx):
    buf = np.zeros(400)
    rec = dict(fn="bisect", m="", l=hx(l), r=hx(r), tol=hx(tol), maxiterN=mx, p="nan",
               g={k: hv(v) if isinstance(v, list) else hx(v) if k == "k" else v for k, v in g.items()})
    kw = dict(tol=tol, maxiter=mx)
    if NO_NUMBA:
        kw = undefault(kw, tol=1.48e-8, maxiter=50)
    try:
        with limit():
            if g["kind"] == "roots":
                x = zeros.bisect(roots_f, l, r, args=(float(g["k"]), np.array(g["roots"]), buf), **kw)
            else:
                x = zeros.bisect(line_f, l, r, args=(np.array(g["xs"]), np.array(g["vs"]), buf), **kw)
        rec["kind"], rec["p"] = "ok", hx(x)
    except Hang:
        rec["kind"] = "hang"
    except Exception as e:
        rec["kind"] = type(e).__name__
    rec["xs"] = evaluated(buf)
    emit(rec, what)


def hd(emit, rng):
    n = rng.choice([1, 2, 2, 3, 5])
    easy = rng.random() < 0.5
    q = np.zeros(n)
    if easy:
        M = np.array([[rng.randrange(-8, 9) / 16.0 / n for _ in range(n)] for _ in range(n)]) + np.diag([rng.choice([2.0, -1.5, 1.0]) for _ in range(n)])
    else:
        M = np.array([[rng.randrange(-16, 17) / 8.0 for _ in range(n)] for _ in range(n)])
        q = np.array([rng.choice([0.0, 0.5, -0.25, 1.0]) for _ in range(n)])
        if rng.random() < 0.15:
            M[0] = 0.0  # singular
            q[0] = 0.0
    c = np.array([rng.randrange(-16, 17) / 8.0 for _ in range(n)])
    y0 = np.array([rng.randrange(-24, 25) / 8.0 for _ in range(n)])
    if easy:
        k = rng.choice([1.0, 1.0, 1e3, 1e5, 1e6, 1e-6])
        c, y0 = c * k, y0 * k * rng.choice([1.0, 4.0])
    tol = rng.choice([1.48e-8, 1e-6, 1e-3])
    if rng.random() < 0.2:
        # double roots: each iteration halves the distance
        easy, q, b = True, np.array([rng.choice([1.0, -0.5, 2.0]) for _ in range(n)]), np.array([rng.randrange(-8, 9) / 8.0 for _ in range(n)])
        M, c, y0 = np.diag(-2 * b * q), q * b * b, b + np.array([rng.choice([3.0, -2.5, 1.7, 0.3]) for _ in range(n)])
        tol = rng.choice([1.48e-8, 1.48e-8, 1e-6])
    mx = rng.choice([50, 50, 20]) if easy else rng.choice([50, 10, 2, 0])
    rec = dict(fn="newton_hd", m="", tol=hx(tol), maxiterN=mx, easy=easy, xs=[], y=[],
               prob=dict(M=hm(M), c=hv(c), d=hv(np.zeros(n)), q=hv(q), e=hv(np.zeros(n))))
    start = y0.copy()
    try:
        with limit():
            kw = dict(atol=tol, maxiter=mx)
            if NO_NUMBA:
                kw = undefault(kw, atol=1.48e-8, maxiter=50)
            y = zeros.newton_hd(system, y0, args=(M, c, q), **kw)
        rec["kind"], rec["y"] = "ok", hv(y)
    except Hang:
        rec["kind"] = "hang"
    except Exception as e:
        rec["kind"] = type(e).__name__
    rec["same"] = bool(np.array_equal(start, y0))
    emit(rec, "random")


def register(jobs):
    jobs["zeros"] = job_zeros
