#!/usr/bin/env python3
"""mkseeds.py [ID...]: builds each planted bug of seeds.py in a scratch copy, confirms it, writes /verif/seeded/<id>."""
import glob, importlib, json, os, re, shutil, subprocess, sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
mods = ["seeds", "seeds2", "seeds3"]
S = []
for m in mods:
    if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), m + ".py")):
        S += importlib.import_module(m).S
want = sys.argv[1:]
OUT = "/verif/seeded"
slot = os.environ.get("SLOT", "0")
WT = "/tmp/seedwt" + slot


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if os.path.exists("/opt/vp/BASELINE.json") else set()


def suite():
    script = open("/opt/vp/test.sh").read().replace("cd /repo ", "cd %s " % WT).replace("REPORTS=/opt/vp/reports", "REPORTS=/tmp/reports" + slot)
    script = script.replace("-n 8", "-n %s" % os.environ.get("N", "8"))
    open("/tmp/test%s.sh" % slot, "w").write(script)
    sh("bash /tmp/test%s.sh /tmp/out%s.json" % (slot, slot))
    r = json.load(open("/tmp/out%s.json" % slot))
    return r


for s in S:
    if want and s["id"] not in want:
        continue
    shutil.rmtree(WT, ignore_errors=True)
    sh("cp -a /repo %s" % WT)
    sh("git checkout -q -- .", cwd=WT)
    ok = True
    for file, old, new in s["edits"]:
        p = os.path.join(WT, "nbkode", file)
        x = open(p).read()
        n = x.count(old)
        if n != 1:
            print(s["id"], "edit matches", n, "times"); ok = False; break
        open(p, "w").write(x.replace(old, new))
    if not ok:
        continue
    diff = sh("git diff", cwd=WT).stdout
    d = os.path.join(OUT, s["id"])
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.py", "w").write(s["demo"])
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    a = sh("bash %s/demo.sh" % d, cwd="/repo")
    b = sh("bash %s/demo.sh" % d, cwd=WT)
    print(s["id"], s["prop"], "demo clean", a.returncode, "patched", b.returncode, (a.stdout + a.stderr)[-300:] if a.returncode else "", b.stdout.strip()[-120:], b.stderr.strip()[-200:] if b.returncode != 1 or "Traceback" in b.stderr else "", flush=True)
    good = a.returncode == 0 and b.returncode != 0
    if good and not os.environ.get("NOSUITE"):
        r = suite()
        passed = set(r.get("passed", []))
        failed = r.get("failed", [])
        good = len(passed) >= 83 and not failed
        print("   suite:", len(passed), "passed", failed[:5] if isinstance(failed, list) else failed, flush=True)
    if not good:
        shutil.rmtree(d)
        print("   dropped", s["id"], flush=True)
    shutil.rmtree(WT, ignore_errors=True)
