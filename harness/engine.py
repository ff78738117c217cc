"""Runs models, the driver, and trace validation."""
from common import *  # noqa

DRIVER = os.path.join(VERIF, "harness", "driver.py")


def model_check(module, consts=None, cfg=None, workers=4, timeout=800, env=None, args=()):
    """Exhaustive check of a design model.  The models do not depend on /repo: a failure here is ours."""
    base = open(os.path.join(SPEC, (cfg or module) + ".cfg")).read()
    for k, v in (consts or {}).items():
        base, n = re.subn(r"(?m)^(\s*%s\s*=\s*).*$" % k, lambda m: m.group(1) + str(v), base)
        assert n == 1, k
    classes = build_java()
    work = tempfile.mkdtemp(prefix="mc_")
    try:
        for f in glob.glob(SPEC + "/*.tla"):
            shutil.copy(f, work)
        open(os.path.join(work, "M.cfg"), "w").write(base)
        t = time.time()
        r = subprocess.run(
            ["java", "-XX:+UseParallelGC", "-Xmx4g", "-Xss16m", "-cp", TLA + ":" + classes, "tlc2.TLC", "-workers", str(workers),
             "-metadir", os.path.join(work, "md"), "-noGenerateSpecTE", *args, "-config", "M.cfg", module + ".tla"],
            cwd=work, env={**os.environ, **(env or {})}, capture_output=True, text=True, timeout=timeout)
        res = TLCResult(r.stdout + r.stderr, r.returncode, time.time() - t)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    res.module = module
    if not res.ok:
        raise MachineryError("model checking of %s failed:\n%s" % (module, tail(res.out)))
    return res


def tail(s, n=60):
    keep = [x for x in s.splitlines() if not x.startswith(("Parsing", "Semantic", "Linting", "Loading", '"TRANS'))]
    return "\n".join(keep[-n:])


class Recording:
    def __init__(self):
        self.sessions = []
        self.covered = set()
        self.jobs = []
        self.unexpected = []
        self.wall = 0


def record(jobs, pure=True, timeout=420, nproc=NPROC):
    """Run driver jobs in parallel.  Each job may say pure: False to run compiled."""
    t = time.time()
    work = tempfile.mkdtemp(prefix="drv_")
    rec = Recording()

    def one(ij):
        i, job = ij
        jf, of = os.path.join(work, "job%d.json" % i), os.path.join(work, "out%d.ndjson" % i)
        json.dump(job, open(jf, "w"))
        env = {k: v for k, v in os.environ.items() if k not in ("NBKODE_NONUMBA", "PYTHONPATH")}
        env.update(PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", NUMBA_OPT="0",
                   PYTHONHASHSEED="0", VERIF_REPO=REPO, MPLBACKEND="Agg")
        if job.get("pure", pure):
            env["NBKODE_NONUMBA"] = "1"
        p = subprocess.Popen([VENV_PY, "-W", "ignore", DRIVER, jf, of], env=env, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, text=True, start_new_session=True)
        try:
            so, se = p.communicate(timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            so, se = p.communicate()
            rc = "timeout"
        lines = open(of).read().splitlines() if os.path.exists(of) else []
        sess = []
        for ln in lines:
            try:
                sess.append(json.loads(ln))
            except ValueError:
                pass
        now = None
        if os.path.exists(of + ".now") and rc != 0:
            try:
                now = json.load(open(of + ".now"))
            except ValueError:
                pass
        return rc, sess, now, se

    try:
        for (rc, sess, now, se), job in zip(pmap(one, list(enumerate(jobs)), nproc), jobs):
            for s in sess:
                if s.get("meta"):
                    if "unexpected" in s:
                        rec.unexpected.append(s)
                    rec.covered.update(json.dumps(x) for x in s.get("covered", []))
                else:
                    rec.sessions.append(s)
            if rc != 0:
                if rc == "timeout" and now is None:
                    now = dict(id="%s job" % job["kind"], cfg=None, op=None)
                if rc == 3 or now is None:
                    raise MachineryError("driver failed (%s):\n%s" % (rc, se[-3000:]))
                # the process died or never came back from a call into the code under test
                rec.jobs.append(dict(died=str(rc), at=now, stderr=se[-800:]))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    rec.wall = time.time() - t
    return rec


class Validation:
    def __init__(self):
        self.sessions = self.events = self.states = self.transitions = 0
        self.verdicts = []   # (session, event, clause)
        self.samples = []
        self.wall = 0


def validate(module, rec, prop, nproc=NPROC, timeout=800, chunk=None, notes=False):
    """Check the recorded sessions against a trace specification."""
    t = time.time()
    v = Validation()
    sessions = rec.sessions
    v.sessions = len(sessions)
    v.events = sum(len(s.get("events", s.get("xs", []))) for s in sessions)
    pick = sessions[:: max(1, len(sessions) // 5)][:5]
    v.samples = [{k: (x if len(json.dumps(x)) < 1500 else json.dumps(x)[:1500] + "...") for k, x in s.items()} for s in pick]
    if not sessions and not rec.jobs and not rec.unexpected:
        raise MachineryError("nothing was recorded")
    order = sorted(range(len(sessions)), key=lambda i: -len(json.dumps(sessions[i])))
    parts = [p for p in (order[i::nproc] for i in range(nproc)) if p]
    work = tempfile.mkdtemp(prefix="val_")

    def one(ip):
        i, idx = ip
        f = os.path.join(work, "t%d.ndjson" % i)
        with open(f, "w") as fh:
            for j in idx:
                fh.write(json.dumps({**sessions[j], "id": str(j)}) + "\n")
        r = tlc(module, env=dict(TRACE=f, PROP=prop), timeout=timeout)
        return r, idx

    def several(ip):
        """A record that the specification cannot even evaluate (wrong shapes, ...) is refused by itself."""
        i, idx = ip
        res = []
        for _ in range(4):
            r, _ = one((i, idx))
            ok = r.ok and r.printed("DONE ") == [str(len(idx))]
            at = re.findall(r"(?m)^(?:/\\ )?sn = (\d+)", r.out)
            if ok or not at or "Parsing or semantic" in r.out or not 1 <= int(at[-1]) <= len(idx):
                return res + [(r, idx, None)]
            k = int(at[-1])
            msg = [x for x in r.out.splitlines() if x.strip() and not x.startswith(("Warning", "TLC2", "Running", "@!@"))]
            err = next((j for j, x in enumerate(msg) if x.startswith("Error")), 0)
            res.append((r, idx[:k], (idx[k - 1], " ".join(msg[err:err + 4])[:400])))
            idx = idx[k:]
            if not idx:
                return res
        return res

    try:
        for r, idx, odd in [x for y in pmap(several, list(enumerate(parts)), nproc) for x in y]:
            done = r.printed("DONE ")
            if odd:
                v.verdicts.append((sessions[odd[0]], 0, "the record cannot be interpreted: " + odd[1]))
            elif not r.ok or done != [str(len(idx))]:
                raise MachineryError("trace validation with %s failed:\n%s" % (module, tail(r.out)))
            v.states += r.states
            v.transitions += r.transitions
            for x in r.printed("VERDICT "):
                x = json.loads(x)
                v.verdicts.append((sessions[int(x["id"])], x["event"], x["clause"]))
            v.notes = getattr(v, "notes", []) + r.printed("NOTE ")
    finally:
        shutil.rmtree(work, ignore_errors=True)
    for d in rec.unexpected:
        v.verdicts.append((dict(id=d["call"], cfg=None, trace=d["trace"], events=[]), 0, "a call that has to work fails: " + d["unexpected"]))
    for d in rec.jobs:
        v.verdicts.append((dict(id=d["at"].get("id"), cfg=json.dumps(d["at"].get("cfg")), events=[]), 0,
                           "the process did not survive the call (%s): %s" % (d["died"], json.dumps(d["at"].get("op")))))
    v.wall = time.time() - t
    return v
