"""C28 - the same session from a file, standard input and -c."""
import os
import shutil
import subprocess
import sys
import tempfile

from vf import core, oracle, work
from vf.shellkit import DUMP, Model, dump_text, layout, match, typed
from props.c25 import body, note, stack_op
from props.c26 import bad_command

ID = "C28"
LEVEL = "exploration"
FILES = []
RULE = ("one case = a random session of deterministic commands (also loops "
        "and solving), with or without a bad command inside, run by real "
        "processes of python -m sudokutools as a script file, on standard "
        "input and with -c in an empty scratch folder; output, exit status "
        "and error stream are compared with each other and with the model; "
        "files that cannot be read likewise; non-trivial = the session "
        "prints something or fails")
ASSUMPTIONS = ["comments and continued lines only where lines exist (not "
               "in -c)"]
PLAN = {
    "quick": [("session", 110), ("error", 110), ("file", 30)],
    "thorough": [("session", 2500), ("error", 2500), ("file", 390)],
}
REQUIRE = {"processes": 600, "status 0": 250, "status 1": 250,
           "with loops": 15, "unreadable": 12, "solved": 20,
           "from a terminal": 60}
TERMINAL = object()


def run(args, stdin, cwd):
    env = dict(os.environ, PYTHONPATH=core.REPO, PYTHONIOENCODING="utf-8",
               PYTHONDONTWRITEBYTECODE="1", PYTHONUTF8="1")
    env.pop("PYTHONWARNINGS", None)
    argv = [sys.executable, "-W", "ignore", "-m", "sudokutools"] + args
    kw = dict(stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env,
              cwd=cwd, timeout=300)
    if stdin is TERMINAL:
        # started from a terminal, where nobody types
        a, b = os.openpty()
        try:
            p = subprocess.run(argv, stdin=b, **kw)
        finally:
            os.close(a)
            os.close(b)
    else:
        p = subprocess.run(argv, input=stdin, **kw)
    return (p.returncode, p.stdout.decode(errors="replace"),
            p.stderr.decode(errors="replace"))


def build(rng, mon, model):
    """Lines (lists of commands) and the expected output."""
    lines, expected = [], []
    for _ in range(rng.choice([1, 3, 6, 10])):
        x = rng.random()
        if x < 0.15:
            w, h = rng.choice([(2, 2), (3, 3), (2, 3), (3, 2)])
            grid, sol = unique(rng, w, h)
            op = ("decode", ("".join(map(str, sum(grid, []))),),
                  {"box_size": (w, h)})
            model.apply(op)
            lines.append([typed(rng, *op), "solve", "encode"])
            model.s = work.to_sudoku(sol, w, h)
            expected.append("".join(map(str, sum(sol, []))) + "\n")
            mon.count("solved")
            # its candidates are not of interest here
            lines.append(["init_candidates"])
            model.apply(("init_candidates", (), {}))
        elif x < 0.3:
            from vf.shellkit import random_op
            count = rng.randint(1, 4)
            shape, net = [], 0
            for _ in range(rng.randint(1, 4)):
                shape.append(rng.choice([None, None, ("push", (), {}),
                                         ("stack", (), {})]))
            ops = [op or random_op(rng, model, rng.choice([True, False]))
                   for op in shape]
            cmds = ["loop %d" % count] + [typed(rng, *op) for op in ops] + [
                "loop end"]
            for _ in range(count):
                for op in ops:
                    expected.append(model.apply(op))
            if rng.random() < 0.5:
                lines.append(cmds)
            else:
                lines += [[c] for c in cmds]
            mon.count("with loops")
        else:
            ops = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                op = stack_op(rng, model, 0.3)
                ops.append(op)
                expected.append(model.apply(op))
            lines.append([typed(rng, *op) for op in ops])
    lines.append(list(DUMP))
    expected.append(dump_text(model.s))
    return lines, expected


def unique(rng, w, h):
    sol = [list(r) for r in work.solution(rng, w, h)]
    grid = [list(r) for r in work.dig_unique(
        rng, sol, w, h, goal=(w * h) ** 2 // 2)]
    return grid, sol


def ways(rng, lines, cwd):
    """The three invocations: (name, arguments, standard input)."""
    flat = [c for line in lines for c in line]

    def script():
        out = []
        for line in lines:
            out += layout(rng, line)
        if out and rng.random() < 0.3:
            out[-1] = out[-1].rstrip("\r\n")
        if rng.random() < 0.3:
            out.insert(0, "#!/usr/bin/env sudokutools\n")
        return "".join(out).encode()
    name = rng.choice(["script", "a b", "x.sudoku", "ü", "sub/file.txt"])
    path = os.path.join(cwd, name)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(script())
    args = [rng.choice([path, name])]
    if rng.random() < 0.2:
        # documented: ignored, if a file is given
        args += ["-c", "print"]
    inputs = [b"", b"new; print\n", TERMINAL]
    return [("file", args, rng.choice(inputs)),
            ("standard input", [], script()),
            ("-c", ["-c", rng.choice([";", "; ", " ; "]).join(flat)],
             rng.choice(inputs))]


def case(kind, rng, mon):
    cwd = tempfile.mkdtemp(prefix="verif-c28-")
    try:
        scratch(kind, rng, mon, cwd)
    finally:
        shutil.rmtree(cwd, ignore_errors=True)


def scratch(kind, rng, mon, cwd):
    if kind == "file":
        return unreadable(rng, mon, cwd)
    model = Model()
    lines, expected = build(rng, mon, model)
    what = {}
    fails = kind == "error"
    if fails:
        while True:
            cls = rng.choice(["unknown", "malformed", "many", "few",
                              "keyword", "kind", "index", "content",
                              "loop", "position"])
            bad = bad_command(rng, model, cls)
            if "\x00" not in bad and not bad.endswith("\\") and \
                    "#" not in bad and (cls != "position" or model.stack) \
                    and not bad.startswith("-"):
                break
        lines.append(rng.choice([[bad], [bad, "encode"], ["get 0 0", bad]]))
        if len(lines[-1]) > 1 and lines[-1][0] == "get 0 0":
            expected.append(model.apply(("get", (0, 0), {})))
        lines += [["encode"], ["print", "stack"]]
        what["bad"] = bad
    elif rng.random() < 0.3:
        lines.append(["exit"])
    loose = not fails and rng.random() < 0.15
    if loose:
        # an empty command: whatever it means, it means the same everywhere
        i = rng.randrange(len(lines))
        lines[i] = [rng.choice(["stack;;stack", "stack; ;stack", "push;;;pop",
                                "stack;;;encode"])]
        del lines[i + 1:]
        lines += [["encode"], ["stack"]]
        mon.count("empty commands")
    seen = {}
    for name, args, stdin in ways(rng, lines, cwd):
        code, out, err = run(args, stdin, cwd)
        mon.count("processes")
        w = dict(what, way=name, args=args, lines=lines[-12:],
                 status=code, error=err[-600:])
        if stdin is TERMINAL:
            w["input"] = "a terminal"
            mon.count("from a terminal")
        elif stdin:
            w["input"] = stdin.decode()[-1500:]
        if loose:
            seen[name] = out.rstrip("\n"), code
            continue
        if fails:
            mon.check(code == 1, "exit status after an error is not 1", **w)
            mon.check(err.strip(), "no error message", **w)
            mon.check("Traceback" not in err, "an internal error is shown",
                      **w)
        else:
            mon.check(code == 0, "exit status is not 0", **w)
            mon.check(not err, "a message on the error stream", **w)
        mon.count("status %d" % code)
        match(mon, out, expected, w)
        seen[name] = out.rstrip("\n"), code
        mon.evaluated((name, repr(lines)), nontrivial=bool(out) or fails)
    mon.check(len(set(seen.values())) == 1, "the outputs differ",
              outputs=seen, **what)
    mon.sample(lines=lines[:4], status=code, error=err[:100])


def unreadable(rng, mon, cwd):
    how = rng.randrange(4)
    if how == 0:
        path = os.path.join(cwd, rng.choice(["none", "no/file", "x y"]))
    elif how == 1:
        path = cwd
    elif how == 2:
        path = os.path.join(cwd, "dangling")
        os.symlink(os.path.join(cwd, "gone"), path)
    else:
        path = os.path.join(cwd, "loop")
        os.symlink(path, path)
    code, out, err = run([path], b"print\n", cwd)
    mon.count("processes")
    what = dict(path=path, status=code, out=out[:300], error=err[-500:])
    mon.check(code == 1, "exit status for an unreadable file is not 1",
              **what)
    mon.check(err.strip(), "no message for an unreadable file", **what)
    mon.check(not out, "something is executed", **what)
    mon.count("unreadable")
    mon.evaluated(("unreadable", how))
