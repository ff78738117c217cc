"""Driver for the solver registry (C16) and CaseInsensitiveDict (C18)."""
import collections
import json
import os
import random
import re
import sys
import types

import nbkode

INTERNAL = ("rk", "multi")


def in_child(f):
    """Run f() in a forked process, so that the classes it defines are gone afterwards."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            with os.fdopen(w, "w") as h:
                h.write(json.dumps(f()))
            os._exit(0)
        except BaseException:
            import traceback

            traceback.print_exc()
            os._exit(1)
    os.close(w)
    with os.fdopen(r) as h:
        data = h.read()
    _, status = os.waitpid(pid, 0)
    if status:
        raise RuntimeError("a registry session died")
    return json.loads(data)


def K(s):
    return dict(s=str(s), low=str(s).lower())


def attempt(f):
    try:
        return f()
    except Exception as e:
        return type(e).__name__


def observe_registry():
    sep = "\x1f"
    fmt = "{name}" + sep + "{cls.__name__}"
    names = attempt(lambda: [dict(low=a.lower(), cls=b) for a, b in (x.split(sep) for x in nbkode.list_solvers(fmt, fmt))])
    groups = attempt(lambda: [str(g) for g in nbkode.get_groups()])
    members = []
    if isinstance(groups, list):
        for g in groups:
            m = attempt(lambda: [c.__name__ for c in nbkode.get_solvers(g)])
            members.append(dict(low=g.lower(), cls=m if isinstance(m, list) else [m]))
    solvers = attempt(lambda: [c.__name__ for c in nbkode.get_solvers()])
    plain = attempt(lambda: [str(x) for x in nbkode.list_solvers(include_alias=False)])
    listing = attempt(lambda: [str(x) for x in nbkode.list_solvers()])
    names_of = attempt(lambda: [str(x) for x in dir(nbkode)])
    try:
        nbkode.get_solver("there is no such solver")
        refusal = "nothing"
    except Exception as e:
        refusal = str(e)
    words = lambda s: sorted({w.lower() for w in re.findall(r"[^\s(),:'\"]+", s)})
    return dict(
        plain=plain if isinstance(plain, list) else [plain],
        listing=sorted({w for x in (listing if isinstance(listing, list) else []) for w in words(x)}),
        dir=names_of if isinstance(names_of, list) else [names_of],
        refusal=words(refusal),
        names=names if isinstance(names, list) else [dict(low=names, cls=names)],
        groups=groups if isinstance(groups, list) else [groups],
        members=members,
        solvers=solvers if isinstance(solvers, list) else [solvers],
    )


PARENTS = dict(
    Runge2=dict(group="Runge-Kutta", implicit=False, fixed=True, rk=True, multi=False),
    DOP853=dict(group="Runge-Kutta", implicit=False, fixed=False, rk=True, multi=False),
    BDF2=dict(group="BDF", implicit=True, fixed=True, rk=False, multi=True),
    AdamsBashforth3=dict(group="Adams-Bashforth", implicit=False, fixed=True, rk=False, multi=True),
    AdamsMoulton3=dict(group="Adams-Moulton", implicit=True, fixed=True, rk=False, multi=True),
    BackwardEuler=dict(group="Euler", implicit=True, fixed=True, rk=False, multi=True),
)
BAD_HISTORY = [1, 0, -1, 2.5, "3", None]


def define(c, parent, bad, history):
    """Define a class; c says what it should be."""
    ns = dict(__module__="scratch")
    base = nbkode.get_solver(parent)
    if len(c["names"]) > 1:
        ns["ALIASES"] = tuple(n["s"] for n in c["names"][1:])
    elif base.ALIASES:
        ns["ALIASES"] = ()
    if c["group"]["s"] == "None":
        ns["GROUP"] = None
    elif c["group"]["s"] != PARENTS[parent]["group"]:
        ns["GROUP"] = c["group"]["s"]
    kw = {}
    if bad == "history":
        ns["LEN_HISTORY"] = history
    elif bad == "incomplete":
        base = base.__mro__[1]  # the family: has no coefficients
    if bad == "abstract":
        kw["abstract"] = True
    type(base)(c["cls"], (base,), ns, **kw)
    return "ok"


def random_case(rng, s):
    return rng.choice([s, s.upper(), s.lower(), "".join(rng.choice([x.upper(), x.lower()]) for x in s)])


def registry_session(rng, builtin, nops):
    ev = [dict(op="start", obs=observe_registry())]
    known = list(builtin)
    groups = ["Euler", "Runge-Kutta", "BDF", "Adams-Bashforth", "Adams-Moulton"]
    made = 0
    for _ in range(nops):
        op = rng.choice(["define", "get_solver", "get_solver", "attribute", "get_solvers", "get_solvers"])
        if op == "define":
            parent = rng.choice(sorted(PARENTS))
            info = PARENTS[parent]
            made += 1
            fresh = "Scratch%d" % made
            cls = random_case(rng, rng.choice(known)) if rng.random() < 0.2 else fresh
            al = []
            for i in range(rng.choice([0, 0, 1, 2, 3])):
                al.append(random_case(rng, rng.choice(known)) if rng.random() < 0.15 else "Alias%d_%d" % (made, i))
            if al and rng.random() < 0.1:
                al.append(random_case(rng, cls))
            r = rng.random()
            g = info["group"] if r < 0.4 else random_case(rng, rng.choice(groups)) if r < 0.7 else "Group%d" % made if r < 0.93 else "None"
            bad = rng.choice(["", "", "", "", "history", "incomplete", "abstract"])
            if bad == "history" and info["multi"]:
                bad = "incomplete"
            if bad == "incomplete" and parent == "BackwardEuler":
                bad = ""
            c = dict(cls=cls, names=[K(cls)] + [K(a) for a in al], group=K(g), **{k: info[k] for k in ("implicit", "fixed", "rk", "multi")})
            e = dict(op="abstract" if bad == "abstract" else "define", c=c, valid=bad == "" and g != "None", parent=parent, bad=bad)
            history = rng.choice(BAD_HISTORY)
            e["r"] = attempt(lambda: define(c, parent, bad, history))
            e["obs"] = observe_registry()
            if e["r"] == "ok" and bad != "abstract":
                known += [cls] + al
                groups.append(g)
            elif rng.random() < 0.5:
                known += [fresh] + al
        elif op == "get_solver":
            k = random_case(rng, rng.choice(known)) if rng.random() < 0.85 else rng.choice(["", "nothing", "Runge", "BDF", "Runge2 ", "get_solver"])
            e = dict(op=op, k=K(k), r=attempt(lambda: nbkode.get_solver(k).__name__))
        elif op == "attribute":
            k = rng.choice(known) if rng.random() < 0.85 else "NoSolverHasThisName"
            if k.lower() in ("euler", "bdf", "core"):
                continue
            e = dict(op=op, k=K(k), r=attempt(lambda: getattr(nbkode, k).__name__))
        else:
            gs = []
            if rng.random() < 0.6:
                for g in rng.sample(groups, min(len(groups), rng.choice([1, 1, 2, 3]))):
                    if g.lower() not in [x.lower() for x in gs]:
                        gs.append(random_case(rng, g))
                if rng.random() < 0.15:
                    gs.insert(rng.randrange(len(gs) + 1), rng.choice(["Nothing", "", "Multistep"]))
            f = {k: rng.choice(["True", "False", "None", "None"]) for k in ("implicit", "fixed", "rk", "multi")}
            kw = {n: dict(True_=True, False_=False)[f[k] + "_"]
                  for k, n in (("implicit", "implicit"), ("fixed", "fixed_step"), ("rk", "runge_kutta"), ("multi", "multistep")) if f[k] != "None"}
            e = dict(op=op, groups=[K(g) for g in gs], f=f)
            r = attempt(lambda: [c.__name__ for c in nbkode.get_solvers(*gs, **kw)])
            e["kind"], e["cls"] = ("ok", r) if isinstance(r, list) else (r, [])
        ev.append(e)
    return ev


def filters_session(builtin):
    """Every combination of filters, for all solvers and for each group."""
    ev = [dict(op="start", obs=observe_registry())]
    for k in builtin:
        for s in (k, k.lower(), k.upper()):
            ev.append(dict(op="get_solver", k=K(s), r=attempt(lambda: nbkode.get_solver(s).__name__)))
        if k.lower() not in ("euler", "bdf"):
            ev.append(dict(op="attribute", k=K(k), r=attempt(lambda: getattr(nbkode, k).__name__)))
    val = dict(True_=True, False_=False)
    for gs in ([], ["Euler"], ["Runge-Kutta"], ["BDF"], ["Adams-Bashforth"], ["Adams-Moulton"], ["euler", "BDF"]):
        for i in ("True", "False", "None"):
            for fx in ("True", "False", "None"):
                for rk in ("True", "False", "None"):
                    for m in ("True", "False", "None"):
                        kw = {n: val[v + "_"] for n, v in (("implicit", i), ("fixed_step", fx), ("runge_kutta", rk), ("multistep", m)) if v != "None"}
                        r = attempt(lambda: [c.__name__ for c in nbkode.get_solvers(*gs, **kw)])
                        ev.append(dict(op="get_solvers", groups=[K(g) for g in gs], f=dict(implicit=i, fixed=fx, rk=rk, multi=m),
                                       kind="ok" if isinstance(r, list) else r, cls=r if isinstance(r, list) else []))
    return ev


def job_registry(job, out):
    rng = random.Random(job["seed"])
    if job.get("filters"):
        out.session(dict(id="registry/filters", events=in_child(lambda: filters_session(job["builtin"]))))
    for i in range(job["sessions"]):
        seed = rng.random()
        out.session(dict(id="registry/%d.%d" % (job["seed"], i),
                         events=in_child(lambda: registry_session(random.Random(seed), job["builtin"], job["ops"]))))


# ---------------------------------------------------------------- the dictionary


def observe_dict(d, universe):
    def tolist(f):
        r = attempt(f)
        return r if isinstance(r, list) else [r]

    def items(f):
        r = attempt(f)
        return r if isinstance(r, list) else [[r, r]]

    return dict(
        len=str(attempt(lambda: len(d))),
        iter=tolist(lambda: list(d)),
        keys=tolist(lambda: list(d.keys())),
        values=tolist(lambda: list(d.values())),
        items=items(lambda: [list(x) for x in d.items()]),
        lower=items(lambda: [list(x) for x in d.lower_items()]),
        has=[str(attempt(lambda: u["s"] in d)) for u in universe],
        get=[attempt(lambda: d[u["s"]]) for u in universe],
    )


def apply_dict(ds, o):
    from nbkode.util import CaseInsensitiveDict

    op, k, v = o["op"], o["k"]["s"], o["v"]
    d = ds[o["d"] - 1]
    items = [(x["k"]["s"], x["v"]) for x in o["items"]]
    form = o.get("form", "pairs")
    data = items
    if form == "dict":
        data = dict(items)
    elif form == "cid":
        data = CaseInsensitiveDict(items)
    elif form == "ordered":
        data = collections.OrderedDict(items)
    elif form == "proxy":
        data = types.MappingProxyType(dict(items))
    elif form == "user":
        data = collections.UserDict(items)
    elif form == "chain":
        data = collections.ChainMap(dict(items[1:]), dict(items[:1]))
    elif form == "iterator":
        data = iter(items)
    if op == "new":
        ds.append(CaseInsensitiveDict(**dict(items)) if form == "kwargs" else CaseInsensitiveDict(data))
        return "ok"
    if op == "copy":
        ds.append(d.copy())
        return "ok"
    if op == "eqdict":
        a, b = d == ds[o["other"] - 1], ds[o["other"] - 1] == d
        na = d != ds[o["other"] - 1]
        return str(a) if a == b and na == (not a) else "asymmetric"
    if op == "updatedict":
        d.update(ds[o["other"] - 1])
        return "ok"
    if op == "set":
        d[k] = v
        return "ok"
    if op == "del":
        del d[k]
        return "ok"
    if op == "get":
        return d[k]
    if op == "getdefault":
        return d.get(k, v)
    if op == "has":
        return str(k in d)
    if op == "pop":
        return d.pop(k)
    if op == "popdefault":
        return d.pop(k, v)
    if op == "popitem":
        a, b = d.popitem()
        return a + "=" + b
    if op == "setdefault":
        return d.setdefault(k, v)
    if op == "update":
        if form == "kwargs":
            d.update(**dict(items))
        else:
            d.update(data)
        return "ok"
    if op == "clear":
        d.clear()
        return "ok"
    if op == "eq":
        # (a sequence of pairs is not a mapping)
        other = dict(items) if form in ("pairs", "iterator", "kwargs") else data
        a, na = d == other, d != other
        if form in ("cid", "pairs", "dict", "ordered", "proxy") and (other == d) != a:
            return "asymmetric"
        return str(a) if na == (not a) else "neither equal nor different"
    if op == "eqnone":
        for other in (None, 0, "", items, [], tuple(items), set()):
            if d == other or not d != other or other == d:
                return "True"
        return "False"
    if op == "len":
        return str(len(d))
    raise AssertionError(op)


def unique_low(items):
    """Drop items whose keys differ only in case (documented as undefined when given at once)."""
    seen, res = set(), []
    for x in items:
        if x["k"]["low"] not in seen:
            seen.add(x["k"]["low"])
            res.append(x)
    return res


def dict_session(out, sid, universe, ops):
    from nbkode.util import CaseInsensitiveDict

    ds = [CaseInsensitiveDict()]
    ev = []
    for o in ops:
        o = dict(dict(d=1, other=1, k=dict(s="", low=""), v="", items=[]), **o)
        if o.get("like") and not isinstance(attempt(lambda: list(ds[o["d"] - 1].items())), str):
            # compared with something much like itself
            rng = random.Random(o["like"])
            its = [dict(k=K(random_case(rng, a)), v=b) for a, b in ds[o["d"] - 1].items()]
            rng.shuffle(its)
            w = rng.random()
            if its and w < 0.2:
                its.pop()
            elif its and w < 0.4:
                its[0]["v"] += "1"
            elif w < 0.5:
                its.append(dict(k=K("another"), v="1"))
            o["items"] = unique_low(its)
        o["r"] = attempt(lambda: apply_dict(ds, o))
        o["obs"] = [observe_dict(d, universe) for d in ds]
        ev.append(o)
    out.session(dict(id=sid, universe=universe, events=ev))


WORDS = ["a", "Ab", "abC", "runge2", "Content-Type", "x_1", "É", "Straße", "ΑΣ", "", "BDF", "bdf6", "zz"]


def job_dict(job, out):
    rng = random.Random(job["seed"])
    covered = []
    uni = [K(s) for s in ("a", "A", "b", "B", "Cc", "cC")]
    for i, t in enumerate(job["transitions"]):
        ops = [dict(op="set", k=dict(s=e["s"], low=e["low"]), v=e["v"]) for e in t["from"]]
        ops.append(t["op"])
        dict_session(out, "dict/model/%d.%d" % (job["seed"], i), uni, ops)
        covered.append(t)
    names = ["set", "set", "set", "del", "get", "getdefault", "has", "pop", "popdefault", "setdefault", "update", "eq", "eq", "eqnone", "len",
             "copy", "new", "eqdict", "updatedict", "popitem", "clear"]
    for i in range(job["sessions"]):
        words = rng.sample(WORDS, rng.choice([3, 5, 9]))
        uni = []
        for w in words:
            for s in {w, random_case(rng, w), random_case(rng, w)}:
                uni.append(K(s))
        n, ops = 1, []
        for _ in range(job["ops"]):
            op = rng.choice(names)
            if op == "clear" and rng.random() < 0.7:
                op = "set"
            if op in ("copy", "new") and n >= 5:
                op = "set"
            o = dict(op=op, d=rng.randrange(n) + 1, other=rng.randrange(n) + 1, k=rng.choice(uni), v=rng.choice("123456"))
            if op in ("update", "new", "eq"):
                o["items"] = unique_low([dict(k=rng.choice(uni), v=rng.choice("123")) for _ in range(rng.choice([0, 1, 2, 4]))])
                o["form"] = rng.choice(["pairs", "dict", "cid", "ordered", "proxy", "user", "chain", "iterator"])
                if op == "eq" and rng.random() < 0.7:
                    o["like"] = rng.random()
                if op != "eq" and all(x["k"]["s"].isidentifier() and x["k"]["s"] not in ("self", "data", "other") for x in o["items"]):
                    o["form"] = "kwargs"
            if op in ("copy", "new"):
                n += 1
            ops.append(o)
        dict_session(out, "dict/random/%d.%d" % (job["seed"], i), uni, ops)
    out.session(dict(meta=True, covered=covered))


def register(jobs):
    jobs["registry"] = job_registry
    jobs["dict"] = job_dict
