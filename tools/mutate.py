"""Systematic small changes (mutants) of the library, to find blind spots.

usage: mutate.py list                        count the mutants
       mutate.py run OUT [N] [FILE|NUMBER..] try them with N workers

Every mutant is written into a copy of the package under /tmp and run through
the unit tests; on those the tests pass, the checks of the properties anchored
in the changed file are run, reduced to a tenth of their size, until one
reports a violation. Survivors of both are either equivalent or blind spots.
"""
import ast
import copy
import json
import os
import random
import resource
import shutil
import subprocess
import sys
from multiprocessing import Pool

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
PY = "/opt/venv/bin/python"
CHECKS = {
    "sudoku.py": "C16 C17 C18 C19 C20 C06 C07 C24 C30 C04 C05 C08 C14",
    "coordinates.py": "C20 C21 C22",
    "dlx.py": "C01 C02 C03 C04 C05 C32",
    "solve.py": "C01 C02 C07 C04 C05 C32 C27",
    "analyze.py": "C06 C03 C12 C04 C05 C32",
    "solvers.py": "C09 C10 C07 C11 C12 C33 C08 C05 C04 C32 C30",
    "generate.py": "C13 C14 C15",
    "notation.py": "C21 C22 C23 C05 C30",
    "actions.py": "C23 C30",
    "shell.py": "C24 C25 C26 C29 C30 C27 C28",
    "__main__.py": "C28",
}
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt],
       ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot],
       ast.IsNot: [ast.Is]}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add,
       ast.FloorDiv: ast.Mod, ast.Mod: ast.FloorDiv, ast.BitOr: ast.BitAnd,
       ast.BitAnd: ast.BitOr, ast.Pow: ast.Mult}


def edits(node):
    """(what, function changing the node in place) for one node."""
    out = []

    def setter(**kw):
        def f(n):
            for k, v in kw.items():
                setattr(n, k, v)
        return f
    if isinstance(node, ast.Compare) and len(node.ops) >= 1:
        for i, op in enumerate(node.ops):
            for new in CMP.get(type(op), []):
                def f(n, i=i, new=new):
                    n.ops[i] = new()
                out.append(("%s->%s" % (type(op).__name__, new.__name__), f))
    if isinstance(node, (ast.BinOp, ast.AugAssign)) and \
            type(node.op) in BIN and not (
                isinstance(node, ast.BinOp)
                and isinstance(node.left, ast.Constant)
                and isinstance(node.left.value, str)):
        out.append(("op", setter(op=BIN[type(node.op)]())))
    if isinstance(node, ast.BoolOp):
        out.append(("andor", setter(
            op=ast.Or() if isinstance(node.op, ast.And) else ast.And())))
        for i in range(len(node.values)):
            def f(n, i=i):
                del n.values[i]
                if len(n.values) == 1:
                    n.values *= 2
            out.append(("drop operand %d" % i, f))
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
        def f(n):
            n.operand = ast.UnaryOp(ast.Not(), n.operand)
        out.append(("not", f))
    if isinstance(node, ast.Constant):
        v = node.value
        if isinstance(v, bool):
            out.append(("bool", setter(value=not v)))
        elif isinstance(v, int):
            out.append(("+1", setter(value=v + 1)))
            if v > 0:
                out.append(("-1", setter(value=v - 1)))
        elif isinstance(v, str) and 0 < len(v) < 4:
            out.append(("str", setter(value=v + "~")))
            out.append(("empty str", setter(value="")))
    if isinstance(node, (ast.If, ast.While, ast.IfExp)):
        if not (isinstance(node, ast.While)
                and isinstance(node.test, ast.Constant)):
            for v in (True, False):
                out.append(("test %s" % v, setter(test=ast.Constant(v))))
    if isinstance(node, ast.comprehension) and node.ifs:
        out.append(("no if", setter(ifs=[])))
    if isinstance(node, ast.Call):
        for i in range(len(node.keywords)):
            def f(n, i=i):
                del n.keywords[i]
            out.append(("drop keyword %s" % node.keywords[i].arg, f))
        if len(node.args) >= 2:
            def f(n):
                n.args[0], n.args[1] = n.args[1], n.args[0]
            out.append(("swap arguments", f))
        if isinstance(node.func, ast.Name) and len(node.args) == 1 and \
                node.func.id in ("sorted", "list", "set", "tuple", "reversed",
                                 "frozenset", "str", "int"):
            def f(n):
                n.func = ast.Lambda(
                    ast.arguments([], [ast.arg("x_")], None, [], [], None, []),
                    ast.Name("x_", ast.Load()))
            out.append(("drop %s()" % node.func.id, f))
    if isinstance(node, ast.Slice):
        for k in ("lower", "upper", "step"):
            if getattr(node, k) is not None:
                out.append(("slice " + k, setter(**{k: None})))
    for name in ("body", "orelse", "finalbody", "handlers"):
        block = getattr(node, name, None)
        if not isinstance(block, list):
            continue
        for i, st in enumerate(block):
            if isinstance(st, ast.ExceptHandler):
                if len(block) > 1:
                    def f(n, i=i, name=name):
                        del getattr(n, name)[i]
                    out.append(("delete handler", f))
                continue
            if isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.Import,
                               ast.ImportFrom, ast.If, ast.For, ast.While,
                               ast.Try, ast.With, ast.Pass)):
                continue
            if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                continue
            if isinstance(node, ast.Module):
                continue

            def f(n, i=i, name=name):
                getattr(n, name)[i] = ast.Pass()
            out.append(("delete statement", f))
            if isinstance(st, ast.Break):
                def f(n, i=i, name=name):
                    getattr(n, name)[i] = ast.Continue()
                out.append(("break->continue", f))
            if isinstance(st, ast.Continue):
                def f(n, i=i, name=name):
                    getattr(n, name)[i] = ast.Break()
                out.append(("continue->break", f))
            if isinstance(st, ast.Return) and st.value is not None:
                def f(n, i=i, name=name):
                    getattr(n, name)[i] = ast.Return(ast.Constant(None))
                out.append(("return None", f))
    return out


def mutants(name):
    src = open(os.path.join(REPO, "sudokutools", name)).read()
    tree = ast.parse(src)
    nodes = list(ast.walk(tree))
    seen = {ast.unparse(tree)}
    doc = set()
    for n in nodes:
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            doc.add(id(n.value))
    out = []
    for i, n in enumerate(nodes):
        if id(n) in doc:
            continue
        for what, f in edits(n):
            t = copy.deepcopy(tree)
            m = list(ast.walk(t))[i]
            f(m)
            try:
                text = ast.unparse(ast.fix_missing_locations(t))
                compile(text, name, "exec")
            except Exception:
                continue
            if text in seen:
                continue
            seen.add(text)
            line = getattr(n, "lineno", 0)
            if not line:
                line = getattr(getattr(n, "target", None), "lineno", 0)
            out.append((name, line, what, ast.unparse(n).split("\n")[0][:70],
                        text))
    return out


def limit():
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))


def run(cmd, timeout, **kw):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         stdin=subprocess.DEVNULL, text=True,
                         start_new_session=True, preexec_fn=limit, **kw)
    try:
        out = p.communicate(timeout=timeout)[0]
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return "timeout", ""


def attempt(arg):
    k, (name, line, what, code, text) = arg
    base = BASE + "/w%d" % os.getpid()
    if not os.path.exists(base):
        os.makedirs(base)
        shutil.copytree(BASE + "/v", base + "/verif")
    if os.path.exists(base + "/repo"):
        shutil.rmtree(base + "/repo")
    shutil.copytree(REPO, base + "/repo", ignore=shutil.ignore_patterns(
        ".git", "__pycache__"))
    with open(os.path.join(base, "repo", "sudokutools", name), "w") as f:
        f.write(text)
    env = dict(os.environ, VERIF_REPO=base + "/repo", VERIF_SEED="1",
               VERIF_SCALE=os.environ.get("MUT_SCALE", "0.1"),
               PYTHONDONTWRITEBYTECODE="1")
    d = dict(k=k, file=name, line=line, what=what, code=code, killed=None)
    d["tests"], out = run(
        [PY, "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider",
         "--doctest-modules", "--timeout=20", "sudokutools"], 120,
        cwd=base + "/repo", env=env)
    if d["tests"] != 0:
        return d
    res = d["checks"] = []
    for pid in CHECKS[name].split():
        rc, out = run(["./check", pid, "quick", "--jobs", "1"], 300,
                      cwd=base + "/verif", env=env)
        res.append((pid, rc))
        if rc == 1:
            d["killed"] = pid
            break
    return d


def main():
    only = [int(x) for x in sys.argv[4:] if x.isdigit()]
    files = [x for x in sys.argv[4:] if not x.isdigit()] or list(CHECKS)
    todo = [m for f in files for m in mutants(f)]
    if sys.argv[1] == "list":
        for f in CHECKS:
            print(f, sum(m[0] == f for m in todo))
        return
    global BASE
    BASE = "/tmp/mut%d" % os.getpid()
    os.makedirs(BASE)
    shutil.copytree(HERE, BASE + "/v", ignore=shutil.ignore_patterns(
        ".git", "seeded", "replays", "evidence", "__pycache__"))
    todo = [km for km in enumerate(todo) if not only or km[0] in only]
    random.Random(1).shuffle(todo)
    done = set()
    if not only and os.path.exists(sys.argv[2]):
        done = {json.loads(x)["k"] for x in open(sys.argv[2])}
    todo = [km for km in todo if km[0] not in done]
    with open(sys.argv[2], "a", buffering=1) as f, \
            Pool(int(sys.argv[3])) as pool:
        for d in pool.imap_unordered(attempt, todo):
            f.write(json.dumps(d) + "\n")
    shutil.rmtree(BASE)


if __name__ == "__main__":
    main()
