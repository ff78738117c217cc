#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
API = ("TLA+ interface model (Solver.tla) checked exhaustively by TLC; traces of the real solvers validated against it by TLC",
       "MCSolver is explored exhaustively for small grids and its transitions are replayed into the real code; real solvers (all of them, pure Python mode) are driven along those transitions and along random histories, and every recorded event is checked against the model in exact arithmetic. The reference grid comes from single steps of the code itself (C10-C13 decide those). Trusted: driver, TLC, the arithmetic override.")
STEP = ("TLA+ specification of the methods in exact arithmetic (Methods.tla, Steps.tla; order conditions proved by TLC); recorded steps validated against it by TLC",
        "MCMethods lets TLC check every order condition of every published coefficient table exactly; recorded steps, interpolations and constructions of the real solvers are compared with what the specification computes, with a rounding bound. Sampled problems, steps and options; the comparison itself is exact. Trusted: driver, TLC, the arithmetic override.")
EVT = ("TLA+ model of event tracking (Events.tla) checked by TLC over all small sign patterns; all its behaviours replayed into the real solvers and the recordings validated by TLC",
       "MCEvents is explored exhaustively (sign patterns, directions, terminal flags, requested times); its patterns are driven through real solvers and every recorded call is checked by TLC. Trusted: driver, TLC, the arithmetic override.")
TECH = {c: API for c in ("C01", "C02", "C03", "C04", "C05")}
TECH.update({c: STEP for c in ("C06", "C10", "C11", "C12", "C13", "C17")})
TECH["C22"] = ("TLA+ model of the families of methods (MCFamilies.tla) checked by TLC; every shape instantiated with random coefficients as a new class, its recorded steps validated by TLC against Steps.tla in exact arithmetic",
               "All shapes up to 6 stages, 4 weights and history length 6; random coefficients, problems and options. Trusted: driver, TLC, the arithmetic override.")
TECH.update({c: EVT for c in ("C07", "C08", "C09")})
TECH["C14"] = ("TLA+ model of array sharing between caller and solvers (Isolation.tla) checked by TLC; recorded histories of interleaved solvers with writes to every shared array validated by TLC (IsoTrace.tla)",
               "TLC shows that copying on the way in and out is sufficient and that each copy is necessary; recorded histories with aliasing writes are compared with an undisturbed run of the same calls.")
TECH["C15"] = ("refinement between recorded behaviours: the same histories run in four modes (pure, compiled, precompiled, params) are matched step by step by TLC (ModesTrace.tla)",
               "Sampled solvers and histories (compiling costs seconds per solver); the quick tier compiles a selection, the thorough tier more of them.")
TECH["C16"] = ("TLA+ model of the registry (Registry.tla) checked by TLC; its definition histories replayed into the real registry and the recordings validated by TLC",
               "MCRegistry is explored exhaustively for small alphabets; every emitted history is replayed in a process of its own; the real classes are judged by what they do (implicit, fixed step, multistep, Runge-Kutta).")
TECH["C18"] = ("TLA+ model of a case-insensitive dictionary (CIDict.tla) checked by TLC; all its transitions and random histories replayed into the real class and validated by TLC",
               "Exhaustive for small key sets, random beyond.")
TECH["C19"] = TECH["C20"] = ("TLA+ specification of the iterations in exact arithmetic (Zeros.tla) checked by TLC; its inputs replayed into the real root finders and the recorded evaluation points validated by TLC (ZerosTrace.tla)",
               "MCZeros is explored exhaustively for small polynomials, starts and limits, all of which are replayed; random polynomials, scales and systems on top. Where rounding may decide either way, both outcomes are accepted.")
TECH["C21"] = ("TLA+ interface model with failing steps (Solver.tla); recorded histories with a failure injected at chosen evaluations validated by TLC",
               "Failures are injected at every evaluation of short histories (each k in turn), for every solver.")


def main():
    props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
    import sys
    sys.path.insert(0, os.path.join(V, "harness"))
    from check import MODULES
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in MODULES:
            t, note = TECH[i]
            checks.append(dict(property=i, quick_cmd="python3 harness/check.py %s" % i,
                               thorough_cmd="VERIF_TIER=thorough python3 harness/check.py %s" % i,
                               evidence_file="evidence/%s.json" % i, technique=t, level="model_checking", level_note=note))
        else:
            na.append(dict(property=i, reason=NA.get(i, "specification under construction")))
    m = dict(version=1, setup_cmd="python3 harness/setup.py", checks=checks, not_applicable=na,
             notes="TLA+ / TLC. No hooks in /repo: the public API shows the abstract state. See DESIGN.md.")
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)


NA = {}
if __name__ == "__main__":
    main()
