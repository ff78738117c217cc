#!/usr/bin/env python3
"""trybug.py FILE [ID...]: quick checks against the edits listed in FILE (B = [(id, props, [(file, old, new)])])."""
import os, re, runpy, shutil, subprocess, sys, time

B = runpy.run_path(sys.argv[1])["B"]
for id, props, edits in B:
    if sys.argv[2:] and id not in sys.argv[2:]:
        continue
    wt = "/tmp/try_" + id
    shutil.rmtree(wt, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", wt], check=True)
    bad = False
    for f, a, b in edits:
        p = os.path.join(wt, "nbkode", f)
        s = open(p).read()
        if s.count(a) != 1:
            print(id, "edit matches", s.count(a), "times:", a[:60], flush=True)
            bad = True
            break
        open(p, "w").write(s.replace(a, b))
    if not bad:
        for prop in props.split():
            t = time.time()
            r = subprocess.run(["timeout", "900", "python3", "/verif/harness/check.py", prop], capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=wt, VERIF_EVIDENCE="/tmp/ev_" + id))
            m = re.search(r"^  .*", r.stdout, re.M)
            print(id, prop, "rc=%d" % r.returncode, "%ds" % (time.time() - t), m.group(0).strip()[:140] if m else r.stdout[-200:] if r.returncode == 2 else "MISSED", flush=True)
    shutil.rmtree(wt, ignore_errors=True)
    shutil.rmtree("/tmp/ev_" + id, ignore_errors=True)
