"""C26 - a bad command is reported and does no damage."""
import re

from vf import work
from vf.shellkit import (DUMP, Line, Model, drive_lines, drive_run, dump_text,
                         layout, lit, random_op, typed)
from props.c24 import answered, what_of
from props.c25 import note, stack_op

ID = "C26"
LEVEL = "exploration"
FILES = ["shell.py"]
RULE = ("bad: sessions in which valid commands (also push, pop and loops) "
        "alternate with commands that are certainly bad, of 13 classes; "
        "after each one an error must have been reported and the dumped "
        "sudoku and the stack be those of the model; fuzz: mutated commands "
        "and random text, of which only those reported as errors are judged "
        "for their effects and all for crashes; script: a script with one "
        "bad command must end with status 1 there; non-trivial = a bad "
        "command was reported")
ASSUMPTIONS = ["arguments that a library function accepts although they make "
               "no sense (set 0 0 'x') are not judged"]
PLAN = {
    "quick": [("bad", 16000), ("fuzz", 32000), ("script", 10000)],
    "thorough": [("bad", 336000), ("fuzz", 672000), ("script", 210000)],
}
CLASSES = ["unknown", "malformed", "deep", "many", "few", "keyword", "kind",
           "index", "position", "stack", "loop", "content",
           "unsolvable"]
REQUIRE = dict({"reported": 6000, "fuzz reported": 6000, "exit status 1": 800,
                "in a loop": 400,
                "followed on the same line": 700, "bad loop run": 200,
                "error in a loop of a script": 500},
               **{"class " + c: 200 for c in CLASSES})
NAMES = ["new", "generate", "generate_from_template", "decode", "get", "set",
         "set_candidates", "get_candidates", "remove_candidates",
         "init_candidates", "encode", "print", "clear", "view", "solve",
         "loop", "stack", "push", "pop", "help", "exit"]
ARITY = {"get": 2, "set": 3, "set_candidates": 3, "get_candidates": 2,
         "remove_candidates": 3, "decode": 1, "loop": 1}
MOST = {"new": 1, "generate": 3, "generate_from_template": 1, "decode": 6,
        "get": 2, "set": 3, "set_candidates": 3, "get_candidates": 2,
        "remove_candidates": 3, "init_candidates": 1, "encode": 3,
        "print": 0, "clear": 0, "view": 4, "solve": 0, "loop": 1, "stack": 0,
        "push": 0, "pop": 1, "help": 2, "exit": 0}


def bad_command(rng, model, cls):
    """A command that must be reported as an error."""
    n = len(model.s.numbers)
    k = len(model.stack)
    r, c, v = rng.randrange(n), rng.randrange(n), rng.randint(1, n)
    if cls == "unknown":
        x = rng.choice(["foo", "News", "PRINT", "setx", "set0", "se", "print!",
                        "end", "0", "'new'", "new()", "set,0,0,1", "=", "=1",
                        "exit()", "quit", "?", "newnew", "é", "-", "_print",
                        "stack_command", "__init__", "sudoku", "shell", "\x00",
                        "\\", "*"])
        return x + rng.choice(["", "", " 0 0", " 0 0 1", " a=1", " push"])
    if cls == "malformed":
        x = rng.choice(["[", "(1,", "1+", "'", "\"abc", "{1:}", "x", "foo",
                        "1..2", "0x", "][", "value=", "a=b", "a=[", "1=2=3",
                        "lambda:1", "f(1)", "@", "$", "1,,2", "'a''b", "\\",
                        "a==1", "not", "{[]}", "{[]:1}", "{{}}",
                        "{1:2}[1]", "*x", "**x", "1if", "\x00", "0777", "1__0",
                        "f'x'", "b'é'", "é", "{[]}", "{**{}}", "[*1]",
                        "x={[]}", "x={{}:1}", "...x", "-'a'", "+[]", "1j*2",
                        "__import__('os')", "open", "range(3)", "(yield)",
                        "None()", "True.x", "\u00b2", "9" * 5000])
        base = rng.choice(["get 0 %s", "set 0 0 %s", "new %s", "decode %s",
                           "%s", "view %s", "pop %s", "init_candidates %s",
                           "generate %s", "help %s", "push %s", "loop %s"])
        name = base.split(" ")[0]
        if name == "%s":
            base, name = rng.choice(NAMES) + " %s", "any"
        return base % x
    if cls == "deep":
        m = rng.choice([50, 150, 250, 1000, 5000, 20000])
        x = rng.choice(["(" * m, "[" * m, "(" * m + "1" + ")" * m,
                        "-" * m + "x", "{" * m + "}" * m, "[" * m + "1",
                        "1" + "+1" * m + "x", "~" * m + "x", "(" * m + "]"])
        if x.startswith("(") and x.endswith(")") and m < 300:
            x += "x"
        return "get 0 " + x
    if cls == "many":
        name = rng.choice([x for x in NAMES])
        args = [rng.randrange(n) for _ in range(
            MOST[name] + rng.choice([1, 1, 2, 5]))]
        if name in ("set_candidates", "remove_candidates"):
            args[2] = [v]
        return typed(rng, name, args)
    if cls == "few":
        name = rng.choice(list(ARITY))
        return typed(rng, name, [rng.randrange(n) for _ in range(
            rng.randrange(ARITY[name]))])
    if cls == "keyword":
        name = rng.choice([x for x in NAMES if x != "help"])
        good = {"get": (r, c), "set": (r, c, v), "get_candidates": (r, c),
                "set_candidates": (r, c, [v]), "decode": ("0" * 81,),
                "remove_candidates": (r, c, [v]), "loop": (2,)}.get(name, ())
        key = rng.choice(["foo", "x", "rows", "SEP", "", "sudoku2", "class",
                          "0", "a-b", "colour"])
        return typed(rng, name, good) + " %s=%d" % (key, v)
    if cls == "kind":
        return rng.choice([
            "set_candidates %d %d 5" % (r, c), "get None 0", "get 'a' 0",
            "set 'a' 0 1", "set 0 None 1", "get 0 [1]", "get (0,1) 0",
            "remove_candidates %d %d 1" % (r, c), "get_candidates 0 'x'",
            "set_candidates 0 None [1]", "set_candidates %d %d [[1]]" % (r, c),
            "decode 5", "decode None", "decode ['0']", "decode [0,0,0,0]",
            "new 3", "new None", "new 'ab'", "new (1,2,3)", "new (2,)",
            "new (2.5,2)", "new box_size=[3]", "new ('a',2)", "encode 1 2",
            "encode row_sep=5", "encode col_sep=None", "view number_sep=7",
            "view candidate_prefix=None", "help 5", "help 'new'", "help None5",
            "help end", "help command=3", "loop 'x'", "loop None", "loop [1]",
            "loop {1}", "pop 'x'", "pop [0]", "get 1.5 0", "get 0 1e3",
            "generate box_size=5", "generate box_size='ab'",
            "generate min_count='x'", "generate min_count=[1]",
            "get 0 push", "set push 0 1", "get end 0", "new print",
            "loop push", "pop push" if k else "pop"])
    if cls == "index":
        i = rng.choice([n, n + 1, 99, 10 ** 9, 10 ** 30])
        a, b = rng.choice([(i, c), (r, i), (i, i)])
        return rng.choice(["get %d %d", "set %d %d 1", "get_candidates %d %d",
                           "set_candidates %d %d [1]",
                           "remove_candidates %d %d [1]"]) % (a, b)
    if cls == "position":
        return rng.choice(["pop %d", "pop position=%d", "pop '%d'"]) % \
            rng.choice([k, k + 1, -1, -2, -k - 1, 1000, 10 ** 30])
    if cls == "stack":
        # the model's stack is empty
        return rng.choice(["pop", "pop 0", "pop -1", "pop 1", "pop 'x'",
                           "pop position=0", "pop None"])
    if cls == "loop":
        return rng.choice(["loop 0", "loop -1", "loop -100", "loop end",
                           "loop '0'", "loop n=0", "loop n=-3", "loop False",
                           "loop end 2", "loop"])
    if cls == "unsolvable":
        # the model's sudoku has no solution
        return "solve"
    # content: well-formed arguments the command has to refuse
    return rng.choice([
        "decode '%s'" % ("0" * rng.choice([2, 3, 5, 80, 82])),
        "decode '%sx'" % ("0" * 80), "decode 'abcd'",
        "decode '0,0,x,0' number_sep=','",
        "decode '%s|%sz'" % ("0" * 81, "1,2," * 3),
        "generate symmetry='foo'", "generate min_count=82",
        "generate box_size=(2,2) min_count=17",
        "generate box_size=(2,2) symmetry=3",
        "generate_from_template tries=0"])


def spoil(rng, model):
    """A command which leaves a sudoku without solution."""
    w, h = rng.choice([(2, 2), (3, 2), (2, 3), (3, 3)])
    n = w * h
    grid = [list(r) for r in work.solution(rng, w, h)]
    if rng.random() < 0.5:
        for _ in range(rng.randrange(n * n // 2)):
            grid[rng.randrange(n)][rng.randrange(n)] = 0
    while True:
        r, c = rng.randrange(n), rng.randrange(n)
        if rng.random() < 0.5:
            # a number twice in a unit
            v = grid[r][(c + 1) % n]
        else:
            v = grid[(r + 1) % n][c]
        if v:
            grid[r][c] = v
            break
    op = ("decode", ("".join(map(str, sum(grid, []))),), {"box_size": (w, h)})
    model.apply(op)
    return Line(typed(rng, *op))


def session(rng, model, mon, log, raw):
    in_loop = False
    recorded = None
    for _ in range(rng.choice([4, 8, 14])):
        # a valid command
        if not in_loop and rng.random() < 0.7:
            op = stack_op(rng, model, 0.4)
            note(mon, model, op)
            want = model.apply(op)
            res = yield Line(typed(rng, *op))
            answered(mon, res, [want], log)
        # perhaps inside of a loop definition
        opened = False
        if rng.random() < 0.12:
            res = yield Line("loop 2")
            answered(mon, res, [""], log)
            opened = True
        classes = [c for c in CLASSES
                   if (c != "stack" or not model.stack)
                   and (c != "position" or model.stack)]
        if opened:
            classes = ["unknown", "malformed", "deep"]
        cls = rng.choice(classes)
        if cls == "unsolvable":
            res = yield spoil(rng, model)
            answered(mon, res, [""], log)
        bad = bad_command(rng, model, cls)
        while raw and bad.endswith("\\"):
            # a continued line, no command
            bad = bad_command(rng, model, cls)
        mon.count("class " + cls)
        if opened:
            mon.count("in a loop")
        if cls != "unsolvable" and rng.random() < 0.05:
            mon.count("with valid commands")
            op = ("set", (0, 0, rng.randint(0, len(model.s.numbers))), {})
            line = Line([typed(rng, *op), bad])
            if not opened:
                model.apply(op)
            else:
                recorded = op
        else:
            line = Line(bad, None if not raw or "\\" in bad or "'" in bad
                        or "\x00" in bad else layout(rng, [bad]))
            recorded = None
        before = len(model.stack)
        # the next command can be on the same line
        follows = None
        if not opened and not (raw and ("\\" in bad or "#" in bad)) \
                and rng.random() < 0.12:
            follows = rng.choice([("get", (0, 0), {}), ("stack", (), {}),
                                  ("encode", (), {"col_sep": "/"})])
            line = Line([x for x in line.commands] + [typed(rng, *follows)])
        res = yield line
        what = what_of(log)
        if follows:
            mon.count("followed on the same line")
            want = model.apply(follows)
            good = (want[0] == "ints" and re.findall("[0-9]+", res.out)
                    == [str(x) for x in want[1]] or res.out.split("\n")[0]
                    == want)
            if isinstance(want, str):
                good = res.out.startswith(want)
            mon.check(good, "the command after a bad one on the same line "
                      "is not executed", command=bad[:300], out=res.out[:300],
                      expected=want, **what)
        mon.check(res.exit is None, "the interactive shell ended at a bad "
                  "command", command=bad[:300], exit=repr(res.exit), **what)
        mon.check(res.err.strip() != "", "a bad command is not reported",
                  command=bad[:300], out=res.out[:300], **what)
        mon.count("reported")
        if opened:
            # the definition goes on; closing it runs the valid commands
            res = yield Line("get 0 0")
            answered(mon, res, [""], log)
            late = rng.random() < 0.5 and not recorded
            if late:
                # only running it shows the error
                b2 = bad_command(rng, model, rng.choice(
                    ["many", "few", "keyword", "index"]))
                if re.match("(loop|exit|pop|stack|push)", b2):
                    b2 = "get 0 0 3"
                res = yield Line(b2)
                answered(mon, res, [""], log)
            res = yield Line("loop end")
            if recorded:
                model.apply(recorded)
            want = model.apply(("get", (0, 0), {}))
            if late:
                mon.check(res.err.strip() and res.exit is None,
                          "an error in a loop is not reported", command=b2,
                          out=res.out, **what_of(log))
                mon.count("bad loop run")
            else:
                answered(mon, res, [want, want], log)
            recorded = None
        # neither the numbers nor the stack changed, the next one works
        cmds = ["encode col_sep='/'", "stack"]
        res = yield Line(cmds)
        what = what_of(log)
        mon.check(not res.err and res.exit is None, "the command after a bad "
                  "one fails", command=bad[:300], err=res.err[:500], **what)
        lines = res.out.split("\n")
        mon.check(lines[0] == model.s.encode(col_sep="/"),
                  "a bad command changes numbers", command=bad[:300],
                  got=lines[0], expected=model.s.encode(col_sep="/"), **what)
        mon.check(re.findall("[0-9]+", lines[1]) == [str(before)],
                  "a bad command changes the stack", command=bad[:300],
                  got=lines[1], expected=before, **what)
        mon.evaluated((bad[:200], cls, opened))
    mon.sample(session=[repr(x)[:300] for x in log[-6:]], last=res.out[:100])
    yield from unload_numbers(rng, model, mon, log)


def unload_numbers(rng, model, mon, log):
    while model.stack:
        model.apply(("pop", (), {}))
        res = yield Line(["pop", "encode col_sep='/'"])
        what = what_of(log)
        mon.check(res.out.split("\n")[0] == model.s.encode(col_sep="/")
                  and not res.err, "the stack was damaged",
                  got=res.out[:300], err=res.err, **what)


# ------------------------------------------------------------ fuzz

SAFE = ["get 0 0", "set 0 0 1", "set_candidates 0 1 [1,2]", "print",
        "remove_candidates 0 1 (1,)", "get_candidates 1 1", "view",
        "init_candidates filled_only=True", "encode row_sep='/'", "push",
        "pop 0", "stack", "help set", "help", "view align_right=False",
        "new (2,2)", "decode '1000000000000002'", "loop 2", "loop end",
        "pop position=0", "set row=0 col=1 value=2", "help help",
        "encode include_candidates=True col_sep='-'"]
TOKENS = ["0", "1", "-1", "9", "'a'", "[", "]", "(", ")", "{", "}", ",", "=",
          "'", '"', "\\", "#", " ", ":", ".", "None", "True", "end", "push",
          "loop", "get", "set", "\t", "é", "\x00", "\x1b", "*", "+", "x",
          "lambda", "\ud800", "\u2028", "j", "e9", "_", "\r", "1e5", "..."]


def mutate(rng, t):
    for _ in range(rng.choice([1, 1, 2, 3])):
        i = rng.randint(0, len(t))
        how = rng.randrange(5)
        if how == 0:
            t = t[:i] + rng.choice(TOKENS) + t[i:]
        elif how == 1:
            t = t[:i] + t[i + 1:]
        elif how == 2:
            t = t[:i] + rng.choice(TOKENS) + t[i + 1:]
        elif how == 3:
            parts = t.split(" ")
            rng.shuffle(parts)
            t = " ".join(parts)
        else:
            t = t + " " + rng.choice(TOKENS)
    return t


def fuzz_line(rng):
    how = rng.random()
    if how < 0.75:
        t = mutate(rng, rng.choice(SAFE))
    elif how < 0.9:
        t = rng.choice(NAMES + ["foo"]) + " " + " ".join(
            "".join(rng.choice(TOKENS) for _ in range(rng.randint(1, 3)))
            for _ in range(rng.randint(0, 4)))
    else:
        t = "".join(chr(rng.choice([rng.randrange(32, 127), rng.randrange(
            1, 300), rng.randrange(0x2000, 0x2100)])) for _ in range(
                rng.randint(1, 25)))
    t = t.replace(";", ",").replace("\n", " ")
    first = t.strip().split(" ")[0]
    # nothing that takes long, ends the shell or needs much memory
    if first in ("generate", "generate_from_template", "solve", "exit",
                 "clear") or (first in ("new", "decode", "loop")
                              and re.search("[0-9][0-9eEjxX_.]|9", t[5:22])):
        return "get 9 9 9"
    return t


def fuzz_session(rng, model, mon, log, raw):
    for cmd in ("decode '1234341221434321'", "set 3 3 0", "push",
                "set 0 0 0"):
        yield Line(cmd)
    from sudokutools.sudoku import Sudoku
    s = Sudoku.decode("1234341221434320")
    model.stack = [s]
    model.s = s.copy()
    model.s[0, 0] = 0
    judged = 0
    for _ in range(14):
        t = fuzz_line(rng)
        if raw and t.split("#")[0].strip().endswith("\\"):
            # a continued line, no command
            t = "\\ foo"
        res = yield Line(t, [t + "\n"] if raw else [t])
        what = what_of(log)
        mon.check(res.exit is None or res.exit == "returned" and
                  t.strip().startswith("exit"),
                  "the interactive shell ended", line=t, exit=repr(res.exit),
                  **what)
        mon.count("fuzz lines")
        if not res.err.strip():
            # accepted: what it did is not known (perhaps a loop was opened)
            mon.count("fuzz accepted")
            mon.evaluated((t, "accepted"), nontrivial=False)
            break
        mon.count("fuzz reported")
        res = yield Line(["encode col_sep='/'", "stack"])
        mon.check(not res.err and res.exit is None, "the command after a bad "
                  "one fails", line=t, err=res.err[:500], **what)
        lines = res.out.split("\n")
        mon.check(lines[0] == model.s.encode(col_sep="/"),
                  "a bad command changes numbers", line=t, got=lines[0],
                  **what)
        mon.check(re.findall("[0-9]+", lines[1]) == ["1"],
                  "a bad command changes the stack", line=t, got=lines[1],
                  **what)
        mon.evaluated((t, "reported"))
        judged += 1
    else:
        yield from unload_numbers(rng, model, mon, log)
    mon.sample(lines=[repr(x)[:200] for x in log[4:12]])


# ------------------------------------------------------------ scripts

def script_session(rng, model, mon, log, raw):
    """Valid lines, a bad one, and lines that must not run."""
    for _ in range(rng.choice([0, 1, 3, 6])):
        op = stack_op(rng, model, 0.3)
        want = model.apply(op)
        res = yield Line(typed(rng, *op))
        answered(mon, res, [want], log)
    classes = [c for c in CLASSES if (c != "stack" or not model.stack)
               and (c != "position" or model.stack)]
    cls = rng.choice(classes)
    if cls == "unsolvable":
        res = yield spoil(rng, model)
        answered(mon, res, [""], log)
    first = 0
    if rng.random() < 0.25:
        cls = rng.choice(["many", "few", "keyword", "index"])
    bad = bad_command(rng, model, cls)
    while bad.endswith("\\"):
        bad = bad_command(rng, model, cls)
    mon.count("class " + cls)
    if cls in ("many", "few", "keyword", "index") and rng.random() < 0.6 \
            and not re.match("(loop|exit|pop|stack|push)", bad):
        # the error comes when the loop runs
        mon.count("error in a loop of a script")
        res = yield Line("loop %d" % rng.choice([1, 2, 3]))
        answered(mon, res, [""], log)
        first = rng.choice([0, 0, 1, 2])
        for t in ["get 0 0"] * first + [bad] + ["get 0 0"] * rng.choice([0, 1, 2]):
            res = yield Line(t)
            answered(mon, res, [""], log)
        bad = "loop end"
    line = [bad] + (["encode"] if rng.random() < 0.5 else [])
    res = yield Line(line)
    what = what_of(log)
    mon.check(isinstance(res.exit, SystemExit), "a script goes on after an "
              "error", command=bad[:300], out=res.out[:300], **what)
    mon.check(res.exit.code == 1, "another exit status than 1",
              status=repr(res.exit.code), command=bad[:300], **what)
    mon.check(res.err.strip() != "", "no error message", command=bad[:300],
              **what)
    mon.check(res.out.count("\n") == first, "commands after an error are executed",
              out=res.out[:300], command=bad[:300], **what)
    mon.count("exit status 1")
    mon.evaluated(("script", bad[:200]))
    mon.sample(session=[repr(x)[:200] for x in log[-4:]],
               error=res.err[:200])


def case(kind, rng, mon):
    model, log = Model(), []
    raw = rng.random() < 0.6
    if kind == "bad":
        s = session(rng, model, mon, log, raw)
    elif kind == "fuzz":
        s = fuzz_session(rng, model, mon, log, raw)
    else:
        s = script_session(rng, model, mon, log, raw)
    if raw:
        drive_run(mon, s, interactive=kind != "script", log=log)
    else:
        drive_lines(mon, s, interactive=kind != "script", log=log)
