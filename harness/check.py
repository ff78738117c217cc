#!/usr/bin/env python3
"""check.py PROPERTY: decide one property; exit 0, or 1 with a VIOLATION line."""
import importlib
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, __file__.rsplit("/", 1)[0])
from common import *  # noqa

MODULES = dict(C01="apicheck", C02="apicheck", C03="apicheck", C04="apicheck", C05="apicheck",
               C06="stepcheck", C10="stepcheck", C11="stepcheck", C12="stepcheck", C13="stepcheck", C17="stepcheck",
               C07="eventcheck", C08="eventcheck", C09="eventcheck",
               C14="isocheck", C15="modecheck", C16="regcheck", C18="regcheck",
               C19="zerocheck", C20="zerocheck", C21="faultcheck", C22="stepcheck")


def main():
    prop = sys.argv[1]
    t = time.time()
    build_java()
    mod = importlib.import_module(MODULES[prop])
    r = mod.run(prop)
    vs, extra = r["res"], r.get("extra", {})
    known = json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"]
    rep = os.path.join(EVIDENCE, "replay")
    os.makedirs(rep, exist_ok=True)
    for f in glob.glob(os.path.join(rep, prop + "_*.json")):
        os.remove(f)
    n, seen, listed = 0, set(), {}
    for sess, ev, clause in vs.verdicts:
        kf = next((x for x in known if x["property"] == prop and matches(x["match"], sess, ev, clause)), None)
        if kf:
            listed.setdefault(kf["what"], 0)
            listed[kf["what"]] += 1
            continue
        n += 1
        key = (clause, (json.loads(sess.get("cfg") or "{}") or {}).get("cls") if isinstance(sess.get("cfg"), str) else None)
        if key in seen or len(seen) >= 12:
            continue
        seen.add(key)
        path = os.path.join(rep, "%s_%d.json" % (prop, len(seen)))
        json.dump(dict(property=prop, clause=clause, event=ev, session=sess), open(path, "w"), indent=1)
        print("  %s: %s, event %s: %s" % (prop, sess.get("id"), ev, clause))
        if len(seen) == 1:
            first = path
    for w, c in listed.items():
        print("KNOWN-FINDING: property=%s %s (%d times)" % (prop, w, c))
    cov = dict(
        states=sum(m.states for m in r.get("mc", [])) + vs.states,
        transitions=sum(m.transitions for m in r.get("mc", [])) + vs.transitions,
        traces_validated_against_impl=vs.sessions,
        events_validated=vs.events,
        models=[dict(module=m.module, states=m.states, transitions=m.transitions) for m in r.get("mc", [])],
        samples=vs.samples or [dict(id=s.get("id"), cfg=s.get("cfg")) for s in r.get("sample", [])],
        **extra,
    )
    wall = time.time() - t
    write_evidence(prop, "model_checking", cov, wall, n)
    print("%s: %d sessions, %d events, %d violations, %.1f s" % (prop, vs.sessions, vs.events, n, wall))
    if n:
        print("VIOLATION property=%s replay=%s" % (prop, first))
        sys.exit(1)


def matches(m, sess, ev, clause):
    if "clause" in m and m["clause"] != clause:
        return False
    if "id" in m and not str(sess.get("id", "")).startswith(m["id"]):
        return False
    return True


if __name__ == "__main__":
    try:
        main()
    except MachineryError as e:
        print("ERROR of the check:", e)
        sys.exit(2)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
