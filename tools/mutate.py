#!/usr/bin/env python3
"""mutate.py FILE COUNT SEED [WORKERS]: random small changes of one source file, and which check notices each.

Mutants are judged by the quick checks, in a scratch copy of /repo.  Survivors are printed with their diff.
"""
import ast, copy, json, os, random, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

CHECKS = {
    "core.py": "C01 C02 C03 C04 C05 C06 C07 C17 C13 C16 C14 C21 C09 C12",
    "buffer.py": "C05 C01 C14 C06",
    "event_handler.py": "C07 C08 C09 C14 C21",
    "multistep/core.py": "C11 C10 C13 C05 C06 C16 C17 C21 C01 C03",
    "multistep/adams_bashforth.py": "C10 C13 C16",
    "multistep/adams_moulton.py": "C11 C13 C16",
    "multistep/bdf.py": "C11 C13 C16",
    "euler.py": "C10 C11 C16",
    "runge_kutta/core.py": "C12 C06 C10 C17 C21 C16 C13 C05 C01 C03",
    "runge_kutta/explicit.py": "C10 C12 C06 C16 C17",
    "nbcompat/zeros.py": "C19 C20 C11 C08",
    "nbcompat/common.py": "C19 C20 C18 C11 C12",
    "util.py": "C18 C16",
    "__init__.py": "C16",
}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
CMP2 = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd}


def sites(tree):
    """(description, function that mutates the node in place) for each possible change."""
    res = []
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(id(n.body[0])), doc.add(id(n.body[0].value))
    for i, n in enumerate(ast.walk(tree)):
        if id(n) in doc:
            continue
        if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            res.append((i, "cmp")), 
            if type(n.ops[0]) in CMP2:
                res.append((i, "cmp2"))
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            res.append((i, "bin"))
            res.append((i, "left"))
        if isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            res.append((i, "aug"))
        if isinstance(n, ast.BoolOp):
            res.append((i, "bool"))
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            res.append((i, "inc")), res.append((i, "dec"))
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            res.append((i, "flip"))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            res.append((i, "unary"))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "abs", "sign"):
            res.append((i, "nocall"))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("max", "min", "abs", "float", "int", "bool", "list", "tuple", "sorted"):
            res.append((i, "fun"))
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            res.append((i, "slice"))
        if hasattr(n, "body") and isinstance(n.body, list) and not isinstance(n, ast.Module):
            for j, st in enumerate(n.body):
                if isinstance(st, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.Break, ast.Continue, ast.Return, ast.If)) and id(st) not in doc:
                    res.append((i, "del%d" % j))
        if isinstance(n, ast.If):
            res.append((i, "iftrue")), res.append((i, "iffalse"))
    return res


def mutate(tree, site):
    i, kind = site
    n = next(x for j, x in enumerate(ast.walk(tree)) if j == i)
    if kind == "cmp":
        n.ops[0] = CMP[type(n.ops[0])]()
    elif kind == "cmp2":
        n.ops[0] = CMP2[type(n.ops[0])]()
    elif kind == "bin":
        n.op = BIN[type(n.op)]()
    elif kind == "left":
        n.op, n.right = ast.Add(), ast.Constant(0)
    elif kind == "aug":
        n.op = BIN[type(n.op)]()
    elif kind == "bool":
        n.op = ast.And() if isinstance(n.op, ast.Or) else ast.Or()
    elif kind == "inc":
        n.value = n.value + 1 if isinstance(n.value, int) else n.value * 1.01 + (n.value == 0) * 1e-3
    elif kind == "dec":
        n.value = n.value - 1 if isinstance(n.value, int) else n.value * 0.5 - (n.value == 0) * 1e-3
    elif kind == "flip":
        n.value = not n.value
    elif kind == "unary":
        n.op = ast.UAdd() if isinstance(n.op, ast.USub) else n.op
        if isinstance(n.op, ast.Not):
            n.operand = ast.Call(ast.Name("bool", ast.Load()), [n.operand], [])
            n.op = ast.Not()
            n.operand = ast.UnaryOp(ast.Not(), n.operand)
    elif kind == "nocall":
        if n.args:
            new = n.args[0]
        else:
            new = n.func.value
        n.func, n.args = ast.Name("_same", ast.Load()), [new]
    elif kind == "fun":
        swap = {"max": "min", "min": "max"}
        n.func.id = swap.get(n.func.id, "_same") if n.func.id in swap else "_same"
    elif kind == "slice":
        n.slice = ast.Slice(ast.BinOp(n.slice.lower, ast.Add(), ast.Constant(1)) if n.slice.lower else ast.Constant(1), n.slice.upper, n.slice.step)
    elif kind.startswith("del"):
        j = int(kind[3:])
        n.body[j] = ast.copy_location(ast.Pass(), n.body[j])
    elif kind == "iftrue":
        n.test = ast.Constant(True)
    elif kind == "iffalse":
        n.test = ast.Constant(False)
    return getattr(n, "lineno", 0)


def main():
    file, count, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    workers = int(sys.argv[4]) if len(sys.argv) > 4 else 2
    src = open("/repo/nbkode/" + file).read()
    base = ast.unparse(ast.parse(src))
    tree = ast.parse(src)
    ss = sites(tree)
    random.Random(seed).shuffle(ss)
    print(len(ss), "sites", flush=True)

    def one(k):
        site = ss[k]
        t = ast.parse(src)
        line = mutate(t, site)
        try:
            new = ast.unparse(ast.fix_missing_locations(t))
        except Exception as e:
            return
        new = new.replace("__future__", "__future__")
        if "_same(" in new:
            new += "\n\ndef _same(x):\n    return x\n"
        if new == base:
            return
        wt = "/tmp/mut_%s_%d_%d" % (file.replace("/", "_"), seed, k)
        shutil.rmtree(wt, ignore_errors=True)
        shutil.copytree("/repo", wt, ignore=shutil.ignore_patterns(".git", "docs", "*.pyc"))
        open(wt + "/nbkode/" + file, "w").write(new)
        import difflib
        d = [x for x in difflib.unified_diff(base.splitlines(), new.splitlines(), lineterm="", n=0) if not x.startswith(("---", "+++"))]
        env = dict(os.environ, VERIF_REPO=wt, VERIF_EVIDENCE=wt + "/ev", PYTHONDONTWRITEBYTECODE="1")
        r = subprocess.run(["/opt/venv/bin/python", "-c", "import nbkode"], cwd=wt, env=dict(env, NBKODE_NONUMBA="1"), capture_output=True)
        verdict = "import"
        if r.returncode == 0:
            verdict = None
            for c in CHECKS[file].split():
                r = subprocess.run(["python3", "/verif/harness/check.py", c], env=env, capture_output=True, text=True)
                if r.returncode != 0:
                    m = [x for x in r.stdout.splitlines() if x.startswith("  ")]
                    verdict = "%s rc=%d %s" % (c, r.returncode, m[0][:110] if m else (r.stdout + r.stderr)[-200:])
                    break
        shutil.rmtree(wt, ignore_errors=True)
        print("%s line %d %s: %s" % (site, line, "KILLED" if verdict else "SURVIVED", verdict), flush=True)
        if not verdict or "rc=1" not in verdict and verdict != "import":
            print("\n".join("      " + x for x in d), flush=True)

    with ThreadPoolExecutor(workers) as ex:
        list(ex.map(one, range(min(count, len(ss)))))


main()
