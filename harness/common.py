"""Paths, TLC runs, evidence.  Runs under the system python3; the driver runs under the repo's venv."""
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
EVIDENCE = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
VENV_PY = "/opt/venv/bin/python"
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
NPROC = 8


class MachineryError(Exception):
    """The check itself is broken: exit 2."""


def build_java():
    """Compile the arithmetic override (a fraction of a second); each check makes sure it is there."""
    out = os.path.join(VERIF, "build", "classes")
    cls, src = os.path.join(out, "Rat.class"), os.path.join(VERIF, "java", "Rat.java")
    if os.path.exists(cls) and os.path.getmtime(cls) >= os.path.getmtime(src):
        return out
    os.makedirs(out, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="ratc")
    r = subprocess.run(["javac", "-nowarn", "-cp", TLA, "-d", tmp, src], capture_output=True, text=True)
    if r.returncode:
        raise MachineryError("javac: " + r.stderr)
    for f in os.listdir(tmp):
        shutil.move(os.path.join(tmp, f), os.path.join(out, f))
    shutil.rmtree(tmp)
    os.utime(cls)
    return out


class TLCResult:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        self.transitions = int(m.group(1).replace(",", "")) if m else 0
        self.states = int(m.group(2).replace(",", "")) if m else 0
        self.ok = rc == 0 and "No error has been found" in out
        self.invariant = (re.search(r"(?:Invariant|property|Property) (\S+) (?:is|was) violated", out) or [None, None])[1]

    def printed(self, tag):
        """Payloads of PrintT(tag \\o ...) lines (strings)."""
        res = []
        for line in self.out.splitlines():
            line = line.strip()
            if line.startswith('"' + tag):
                res.append(json.loads(line)[len(tag):])
        return res


def tlc(module, cfg=None, env=None, workers=1, timeout=800, mem="2g", args=()):
    """Run TLC on spec/<module>.tla in a scratch directory."""
    classes = build_java()
    work = tempfile.mkdtemp(prefix="tlc_")
    try:
        for f in glob.glob(SPEC + "/*.tla") + glob.glob(SPEC + "/*.cfg"):
            shutil.copy(f, work)
        cmd = [
            "java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss16m",
            "-cp", TLA + ":" + classes, "tlc2.TLC",
            "-workers", str(workers), "-metadir", os.path.join(work, "md"), "-noGenerateSpecTE",
            "-config", (cfg or module) + ".cfg", *args, module + ".tla",
        ]
        t = time.time()
        try:
            r = subprocess.run(cmd, cwd=work, env={**os.environ, **(env or {})}, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError(f"TLC on {module} did not finish in {timeout} s")
        return TLCResult(r.stdout + r.stderr, r.returncode, time.time() - t)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def pmap(f, xs, n=NPROC):
    with ThreadPoolExecutor(n) as ex:
        return list(ex.map(f, xs))


def write_evidence(prop, level, coverage, wall, violations, assumptions=()):
    os.makedirs(EVIDENCE, exist_ok=True)
    d = dict(property=prop, tier=TIER, seed=SEED, level=level, coverage=coverage, wall_s=round(wall, 2),
             violations=violations, assumptions=list(assumptions))
    with open(os.path.join(EVIDENCE, prop + ".json"), "w") as f:
        json.dump(d, f, indent=1)
