"""C29 - help describes every command as it is."""
import inspect
import random
import re
from ast import literal_eval

from vf import work
from vf.lib import text
from vf.shellkit import (DUMP, Line, Model, drive_lines, drive_run, dump_text,
                         layout, lit, random_op, typed)
from props.c24 import answered, what_of
from props.c25 import note, stack_op
from props.c26 import NAMES

ID = "C29"
LEVEL = "exploration"
FILES = ["shell.py"]
RULE = ("one: help for a command, from a random session, is compared with "
        "the signature and documentation of the library function (read with "
        "inspect, not with the shell's own code), and the session goes on as "
        "its model; overview: every command is listed exactly once, as in its "
        "own help; defaults: the listed parameters are given by name with the "
        "listed default values and the command must do the same as without "
        "them, and leaving out a parameter listed without default must be an "
        "error; non-trivial = a help text was compared")
ASSUMPTIONS = ["the arguments the shell supplies itself may be listed or not",
               "texts of the shell's own commands are only required to exist "
               "and to agree between the overview and the single help"]
PLAN = {
    "quick": [("one", 3000), ("overview", 500), ("defaults", 2500)],
    "thorough": [("one", 87000), ("overview", 14500), ("defaults", 72500)],
}
REQUIRE = dict({"overviews": 400, "short help": 300, "in a loop": 200,
                "defaults given": 1500, "left out": 120},
               **{"help " + n: 50 for n in NAMES})
IMPLICIT = ("self", "cls", "sudoku", "shell", "template")
# commands without a function outside of the shell
OWN = {"loop": ["n"], "stack": [], "push": [], "pop": [("position", None)],
       "help": [("command", None), ("verbose", True)], "exit": [],
       "solve": [], "clear": []}


def library(name):
    from sudokutools import generate, solve, sudoku
    s = sudoku.Sudoku
    return {"new": s.__init__, "decode": s.decode,
            "generate": generate.generate,
            "generate_from_template": generate.generate_from_template,
            "get": s.get_number, "set": s.set_number,
            "get_candidates": s.get_candidates,
            "set_candidates": s.set_candidates,
            "remove_candidates": s.remove_candidates,
            "init_candidates": solve.init_candidates, "encode": s.encode,
            "print": s.__str__, "view": sudoku.view}.get(name)


def params(name):
    """The parameters one can give, [name or (name, default)]."""
    fn = library(name)
    if fn is None:
        return OWN[name]
    out = []
    for i, p in enumerate(inspect.signature(fn).parameters.values()):
        if i == 0 and (p.name in ("self", "cls") or name in (
                "generate_from_template", "init_candidates", "view")):
            continue
        out.append(p.name if p.default is p.empty else (p.name, p.default))
    return out


def listed(mon, head, name, what):
    """The parameters and description of a line of help."""
    mon.check(re.match(re.escape(name) + r"[\s:]", head), "help does not "
              "begin with the name of the command", line=head, **what)
    rest = head[len(name):]
    out, first = [], True
    while True:
        rest = rest.lstrip()
        if rest.startswith(":"):
            return out, rest[1:].strip()
        m = re.match(r"[A-Za-z_]\w*", rest)
        mon.check(m, "help lists something else than parameters", line=head,
                  at=rest, **what)
        key, rest = m.group(), rest[m.end():]
        if rest.lstrip().startswith("="):
            rest = rest.lstrip()[1:].lstrip()
            # the shortest text which is a value
            for i in range(1, len(rest) + 1):
                if i < len(rest) and rest[i] not in " :":
                    continue
                try:
                    value = literal_eval(rest[:i])
                    break
                except (SyntaxError, ValueError):
                    pass
            else:
                mon.fail("help lists no usable default value", line=head,
                         parameter=key, **what)
            out.append((key, value))
            rest = rest[i:]
        else:
            out.append(key)
    return out, ""


def judge(mon, head, name, what):
    got, desc = listed(mon, head, name, what)
    want = params(name)
    free = [p for p in got if p not in IMPLICIT]
    explicit = got[len(got) - len(want):] if want else []
    mon.check(explicit == want and all(
        p in IMPLICIT for p in got[:len(got) - len(want)]),
        "help lists other parameters than the command takes", line=head,
        got=free, expected=want, **what)
    for (a, b) in zip(explicit, want):
        mon.check(type(a) is type(b) and (isinstance(a, str) or type(
            a[1]) is type(b[1])), "another default value", got=a, expected=b,
            line=head, **what)
    mon.check(desc, "help has no description", line=head, **what)
    fn = library(name)
    doc = fn and inspect.getdoc(fn)
    if doc:
        mon.check(desc == doc.split("\n")[0].strip(), "help has another "
                  "description than the function", line=head,
                  expected=doc.split("\n")[0], **what)
    return desc


def prepare(rng, model, mon, log):
    for _ in range(rng.choice([0, 1, 3, 6])):
        op = stack_op(rng, model, 0.5)
        note(mon, model, op)
        want = model.apply(op)
        res = yield Line(typed(rng, *op))
        answered(mon, res, [want], log)


def goes_on(rng, model, mon, log):
    """The sudoku and the stack are what they were."""
    while True:
        res = yield Line(DUMP + ["stack"])
        answered(mon, res, [dump_text(model.s),
                            ("ints", [len(model.stack)])], log)
        if not model.stack:
            return
        model.apply(("pop", (), {}))
        res = yield Line("pop")
        answered(mon, res, [""], log)


def help_text(mon, res, log):
    what = what_of(log)
    mon.check(res.exit is None, "help ends the shell", exit=repr(res.exit),
              **what)
    mon.check(not res.err, "help is an error", err=res.err[:500], **what)
    return res.out


def one_session(rng, model, mon, log, raw):
    yield from prepare(rng, model, mon, log)
    name = rng.choice(NAMES)
    mon.count("help " + name)
    verbose = rng.random() < 0.75
    cmd = "help " + name
    if not verbose:
        cmd += rng.choice([" False", " verbose=False"])
        mon.count("short help")
    elif rng.random() < 0.2:
        cmd += rng.choice([" True", " verbose=True"])
    line = Line(cmd, layout(rng, [cmd]) if raw else None)
    if rng.random() < 0.1:
        # recorded, shown when the loop is run
        mon.count("in a loop")
        for x in ("loop 1", cmd):
            res = yield Line(x)
            answered(mon, res, [""], log)
        line = Line("loop end")
    res = yield line
    out = help_text(mon, res, log)
    what = what_of(log)
    head, _, rest = out.partition("\n")
    judge(mon, head, name, what)
    doc = library(name) and inspect.getdoc(library(name))
    if doc:
        have = [x.strip() for x in rest.split("\n") if x.strip()]
        want = [x.strip() for x in doc.split("\n")[1:] if x.strip()]
        if verbose:
            # a prompt may follow
            mon.check(have[:len(want)] == want and len(have) <= len(want) + 1,
                      "help does not show the documentation", got=have,
                      expected=want, command=cmd, **what)
        else:
            mon.check(len(have) <= 1 and "\n" not in rest,
                      "short help is not short", got=rest[:300], command=cmd,
                      **what)
    mon.evaluated((name, verbose, head))
    mon.sample(command=cmd, head=head)
    yield from goes_on(rng, model, mon, log)


def overview_session(rng, model, mon, log, raw):
    yield from prepare(rng, model, mon, log)
    cmd = rng.choice(["help", "help", "help None", "help verbose=False",
                      "help None False"])
    res = yield Line(cmd, layout(rng, [cmd]) if raw else None)
    out = help_text(mon, res, log)
    what = what_of(log)
    heads = {}
    for row in out.split("\n"):
        m = re.match(r"\s*[-*]\s+(.*)$", row)
        if not m:
            continue
        name = re.split(r"[\s:]", m.group(1), maxsplit=1)[0]
        mon.check(name in NAMES, "the overview lists an unknown command",
                  line=row, **what)
        mon.check(name not in heads, "the overview lists a command twice",
                  line=row, **what)
        heads[name] = m.group(1)
        judge(mon, m.group(1), name, what)
    missing = sorted(set(NAMES) - set(heads))
    mon.check(not missing, "the overview misses a command", missing=missing,
              out=out[:2000], **what)
    mon.count("overviews")
    for name in rng.sample(NAMES, 5):
        res = yield Line("help " + name)
        head = help_text(mon, res, log).split("\n")[0]
        mon.check(head.strip() == heads[name].strip(), "the overview differs "
                  "from the help of a command", overview=heads[name],
                  alone=head, **what)
    mon.evaluated((cmd, tuple(sorted(heads))))
    yield from goes_on(rng, model, mon, log)


def defaults_session(rng, model, mon, log, raw):
    """Listed defaults are what happens without them."""
    name = rng.choice([n for n in NAMES if n not in ("exit", "clear")])
    res = yield Line("help " + name)
    head = help_text(mon, res, log).split("\n")[0]
    got, _ = listed(mon, head, name, what_of(log))
    got = [p for p in got if p not in IMPLICIT
           or not isinstance(p, str)]
    w, h = rng.choice([(3, 3), (3, 3), (2, 2), (2, 3)])
    n = w * h
    sol = work.solution(rng, w, h)
    start = work.dig(rng, sol, w, h, rng.uniform(0.1, 0.5))
    if name == "generate_from_template":
        start = [list(r) for r in sol]
        start[0] = [0] * n
    t = "".join(str(v) for row in start for v in row)
    setup = ["decode '%s' box_size=(%d,%d)" % (t, w, h),
             rng.choice(["init_candidates", "set_candidates 0 0 [1,2]"]),
             "push", "new (2,2)", "push", "pop 0"]
    given = {"row": rng.randrange(n), "col": rng.randrange(n),
             "value": [rng.randint(1, n)]
             if "candidates" in name else rng.randint(0, n),
             "s": t, "n": 3}
    plain = {p: given[p] for p in got if isinstance(p, str) and p in given}
    mon.check(len(plain) == sum(isinstance(p, str) for p in got),
              "a parameter without default this check does not know",
              line=head)
    full = dict(plain)
    for p in got:
        if not isinstance(p, str) and rng.random() < 0.7:
            full[p[0]] = p[1]
            mon.count("defaults given")
    left = None
    if plain and rng.random() < 0.3:
        left = rng.choice(sorted(plain))
    seed = rng.getrandbits(64)
    results = []
    for kw in (plain, full):
        cmd = typed(rng, name, (), kw)
        res = yield Line(setup)
        answered(mon, res, [""], log)
        random.seed(seed)
        res = yield Line(cmd)
        out = help_text(mon, res, log)
        if name == "loop":
            res = yield Line(["get 0 0", "loop end"])
            out += help_text(mon, res, log)
        # without the prompt
        out = out.rpartition("\n")[0]
        res = yield Line(DUMP + ["stack"])
        dump = help_text(mon, res, log).rpartition("\n")[0]
        dump, _, depth = dump.rpartition("\n")
        depth = [int(x) for x in re.findall("[0-9]+", depth)]
        results.append((out, dump))
        results.append(depth)
        while depth[0]:
            # the same number of sudokus for the second round
            res = yield Line("pop")
            depth[0] -= not res.err
            mon.check(not res.err, "the stack is damaged", err=res.err,
                      **what_of(log))
    mon.check(results[0] == results[2], "a command does something else with "
              "the default values listed by help", command=cmd, line=head,
              without=results[0], given=results[2], **what_of(log))
    mon.evaluated((cmd, head))
    mon.sample(command=cmd[:200], head=head)
    if left:
        kw = dict(plain)
        del kw[left]
        res = yield Line(typed(rng, name, (), kw))
        mon.check(res.err and res.exit is None, "a parameter listed without "
                  "default can be left out", command=name, parameter=left,
                  **what_of(log))
        mon.count("left out")


def case(kind, rng, mon):
    model, log = Model(), []
    session = {"one": one_session, "overview": overview_session,
               "defaults": defaults_session}[kind]
    raw = kind != "defaults" and rng.random() < 0.6
    inter = kind == "defaults" or rng.random() < 0.5
    s = session(rng, model, mon, log, raw)
    if raw:
        drive_run(mon, s, interactive=inter, log=log)
    else:
        drive_lines(mon, s, interactive=inter, log=log)
