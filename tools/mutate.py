"""Mutation testing of the checks: python tools/mutate.py OUT.jsonl WORKERS file[:property,property...] ...
Every mutant that passes the project's tests is given to the checks (in scratch copies, never in /repo)."""
import ast
import copy
import json
import multiprocessing as mp
import os
import random
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
CMP = {ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Lt: [ast.LtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.LShift: ast.RShift, ast.RShift: ast.LShift, ast.BitAnd: ast.BitOr,
       ast.BitOr: ast.BitAnd, ast.Mult: ast.Add, ast.Mod: ast.Mult}


def mutants(src):
    """[(line, what, source)]"""
    tree = ast.parse(src)
    nodes = list(ast.walk(tree))
    skip = set()
    for n in nodes:
        if isinstance(n, (ast.AnnAssign, ast.arg)) and n.annotation is not None:
            skip |= {id(x) for x in ast.walk(n.annotation)}
        if isinstance(n, ast.FunctionDef) and n.returns is not None:
            skip |= {id(x) for x in ast.walk(n.returns)}
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant):
            skip |= {id(x) for x in ast.walk(n.body[0])}
    out = []

    def add(n, what, do, undo):
        do()
        try:
            s = ast.unparse(ast.fix_missing_locations(tree))
            compile(s, "m", "exec")
            out.append((getattr(n, "lineno", 0), what, s))
        except Exception:
            pass
        undo()

    def swap(n, field, new, what):
        old = getattr(n, field)
        add(n, what, lambda: setattr(n, field, new), lambda: setattr(n, field, old))

    def swapi(n, lst, i, new, what):
        old = lst[i]

        def do():
            lst[i] = new

        def undo():
            lst[i] = old
        add(n, what, do, undo)

    for n in nodes:
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare):
            for i, o in enumerate(n.ops):
                for new in CMP.get(type(o), []):
                    swapi(n, n.ops, i, new(), f"{type(o).__name__}->{new.__name__}")
        elif isinstance(n, ast.BoolOp):
            swap(n, "op", ast.Or() if isinstance(n.op, ast.And) else ast.And(), "and<->or")
            for i in range(len(n.values)):
                swap(n, "values", n.values[:i] + n.values[i + 1:] if len(n.values) > 2 else [n.values[1 - i]] * 2, f"drop operand {i}")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            swap(n, "op", BIN[type(n.op)](), f"op {type(n.op).__name__}")
        elif isinstance(n, ast.Constant):
            v = n.value
            if type(v) is bool:
                swap(n, "value", not v, f"{v}->{not v}")
            elif type(v) is int:
                swap(n, "value", v + 1, f"{v}->{v + 1}")
                if v > 0:
                    swap(n, "value", v - 1, f"{v}->{v - 1}")
            elif type(v) is str and v:
                swap(n, "value", v + "x", f"{v!r}+x")
            elif type(v) is bytes and v:
                swap(n, "value", v + b"x", f"{v!r}+x")
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            swap(n, "test", ast.UnaryOp(ast.Not(), n.test), "negate test")
            if not isinstance(n, ast.While):
                swap(n, "test", ast.Constant(True), "test->True")
                swap(n, "test", ast.Constant(False), "test->False")
        if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            swap(n, "value", ast.Constant(None), "return None")
        if isinstance(n, ast.Call):
            for i in range(len(n.keywords)):
                swap(n, "keywords", n.keywords[:i] + n.keywords[i + 1:], f"drop keyword {n.keywords[i].arg}")
            for i in range(len(n.args) - 1):
                a = list(n.args)
                a[i], a[i + 1] = a[i + 1], a[i]
                swap(n, "args", a, f"swap args {i},{i + 1}")
            if n.args and not (isinstance(n.func, ast.Name) and n.func.id in ("super", "isinstance", "len")):
                swap(n, "args", n.args[:-1], "drop last arg")
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            for f in ("lower", "upper"):
                if getattr(n.slice, f) is not None:
                    swap(n.slice, f, None, f"slice without {f}")
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self" and isinstance(n.ctx, ast.Load):
            pass
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                for i, s in enumerate(b):
                    if id(s) in skip or isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Pass, ast.AnnAssign)):
                        continue
                    if isinstance(n, (ast.Module, ast.ClassDef)):
                        continue
                    swapi(s, b, i, ast.Pass(), f"delete {type(s).__name__}")
                    if isinstance(s, ast.Assign) and i + 1 < len(b) and isinstance(b[i + 1], ast.Expr):
                        nb = list(b)
                        nb[i], nb[i + 1] = nb[i + 1], nb[i]
                        swap(n, f, nb, f"swap statements {s.lineno}")
                if isinstance(n, (ast.For, ast.While)) and f == "body":
                    swap(n, f, b + [ast.Break()], "break after first")
    base = ast.unparse(ast.parse(src))
    seen, res = {base}, []
    for l, w, s in out:
        if s not in seen:
            seen.add(s)
            res.append((l, w, s))
    return res


def setup(i):
    d = f"/tmp/mt/{i}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copytree("/repo", d + "/repo", ignore=shutil.ignore_patterns(".git", "__pycache__"))
    os.makedirs(d + "/verif")
    for n in ("vp", "check", "known_findings.json", "properties.jsonl"):
        p = os.path.join(V, n)
        (shutil.copytree if os.path.isdir(p) else shutil.copy)(p, d + "/verif/" + n)
    for r, _, fs in os.walk(d + "/verif/vp"):
        for f in fs:
            if f.endswith(".py"):
                p = os.path.join(r, f)
                s = open(p).read().replace('"/repo', f'"{d}/repo').replace("filename[6:]", f"filename[{len(d) + 6}:]")
                open(p, "w").write(s)
    return d


def work(i, q, out, lock):
    d = setup(i)
    env = dict(os.environ, PYTHONPATH=d + "/repo", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", VP_PROCS=os.environ.get("VP_PROCS", "4"))
    while True:
        t = q.get()
        if t is None:
            break
        f, line, what, src, props = t
        p = os.path.join(d, "repo", f)
        orig = open(p).read()
        open(p, "w").write(src)
        rec = {"file": f, "line": line, "what": what}
        try:
            r = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests", "--ignore=tests/interoptests"],
                               cwd=d + "/repo", env=env, capture_output=True, timeout=60)
            if r.returncode != 0:
                rec["result"] = "tests"
            else:
                rec["result"] = "SURVIVED"
                for c in props:
                    r = subprocess.run(["./check", c, "quick"], cwd=d + "/verif", env=env, capture_output=True, text=True, timeout=900)
                    if r.returncode == 1 and f"VIOLATION property={c}" in r.stdout:
                        rec["result"], rec["by"] = "caught", c
                        rec.pop("src", None), rec.pop("out", None)
                        break
                    if r.returncode != 0:
                        rec["result"], rec["by"] = "ERROR", c
                        rec["out"] = r.stdout[-500:] + r.stderr[-500:]
                        rec["src"] = src
                if rec["result"] == "SURVIVED":
                    rec["src"] = src
        except subprocess.TimeoutExpired as e:
            rec["result"] = "timeout " + str(e)[:100]
        open(p, "w").write(orig)
        with lock:
            with open(out, "a") as o:
                o.write(json.dumps(rec) + "\n")


def main():
    out, n = sys.argv[1], int(sys.argv[2])
    q, lock = mp.Queue(), mp.Lock()
    done = set()
    if os.path.exists(out):
        for l in open(out):
            r = json.loads(l)
            done.add((r["file"], r["line"], r["what"]))
    tasks = []
    for a in sys.argv[3:]:
        f, _, ps = a.partition(":")
        f, _, k = f.partition("%")
        ms = mutants(open("/repo/" + f).read())
        if k:
            random.Random(7).shuffle(ms)
            ms = ms[: int(k)]
        tasks += [(f, l, w, s, ps.split(",")) for l, w, s in ms if (f, l, w) not in done]
    print(len(tasks), "mutants")
    for t in tasks:
        q.put(t)
    for _ in range(n):
        q.put(None)
    ws = [mp.Process(target=work, args=(i, q, out, lock)) for i in range(n)]
    for w in ws:
        w.start()
    for w in ws:
        w.join()


if __name__ == "__main__":
    main()
