"""C24 - shell commands behave like the library functions."""
from vf import oracle, work
from vf.lib import text
from vf.shellkit import (DUMP, Line, Model, drive_lines, drive_run, dump_text,
                         layout, lit, match, random_op, read_dump, typed)
from props.c14 import IMAGES

ID = "C24"
LEVEL = "exploration"
FILES = ["shell.py"]
RULE = ("one case = one session of 4 to 25 lines of valid random commands, "
        "driven through execute_line, as a script, or as an interactive "
        "shell (comments, blank and continued lines, several commands per "
        "line); after every line the output is compared with what the "
        "library functions give on a model of the current sudoku, and the "
        "state is dumped (encode with candidates, print); results of "
        "generate, templates and solve are judged by an independent oracle; "
        "non-trivial = a line that changes or replaces the sudoku")
ASSUMPTIONS = ["arguments contain no blank, semicolon or #",
               "commands are separated by one blank from their arguments"]
PLAN = {
    "quick": [("lines", 2800), ("script", 2800), ("interactive", 2800)],
    "thorough": [("lines", 53200), ("script", 53200),
                 ("interactive", 53200)],
}
REQUIRE = {"lines": 15000, "commands": 25000, "cmd generate": 150,
           "cmd solve": 400, "cmd generate_from_template": 200,
           "cmd pop": 400, "continued lines": 300, "comments": 300,
           "keyword arguments": 3000, "clear": 50}


def what_of(log):
    return {"session": [repr(x) for x in log[-10:]]}


def step(rng, model, mon, log, raw, make_dump=True):
    """A few deterministic commands and what they must print."""
    ops, expected = [], []
    for _ in range(rng.choice([1, 1, 1, 2, 3, 4])):
        how = rng.random()
        if how < 0.07:
            op = ("push", (), {})
        elif how < 0.14 and model.stack:
            op = rng.choice([("pop", (), {}), ("pop", (rng.randrange(
                len(model.stack)),), {})])
        elif how < 0.17:
            op = ("stack", (), {})
        else:
            op = random_op(rng, model)
        ops.append(op)
        mon.count("commands")
        mon.count("cmd " + op[0])
        mon.count("keyword arguments", bool(op[2]))
        expected.append(model.apply(op))
    commands = [typed(rng, *op) for op in ops]
    if make_dump and rng.random() < 0.6:
        commands += DUMP
        expected.append(dump_text(model.s))
    line = Line(commands, layout(rng, commands) if raw else None)
    if raw:
        mon.count("continued lines", any(
            r.rstrip().endswith("\\") for r in line.raw))
        mon.count("comments", any("#" in r for r in line.raw))
    return line, expected, ops


def answered(mon, res, expected, log):
    what = what_of(log)
    mon.check(res.exit is None, "a valid command ends the shell",
              exit=repr(res.exit), err=res.err[:500], **what)
    mon.check(not res.err, "a valid command is reported as an error",
              err=res.err[:500], **what)
    match(mon, res.out, expected, what)
    mon.count("lines")


def make(rng, model, mon, log):
    """A command that makes a sudoku which only an oracle can judge."""
    name = rng.choice(["generate", "solve", "solve",
                       "generate_from_template"])
    mon.count("cmd " + name)
    if name == "generate":
        w, h = rng.choice([(2, 2), (2, 2), (2, 3), (3, 2), (1, 4), (3, 3)])
        kw = {"box_size": (w, h)}
        if (w, h) == (3, 3) and rng.random() < 0.7:
            kw = {}
        if rng.random() < 0.5:
            kw["min_count"] = rng.randint((w * h) ** 2 // 2, (w * h) ** 2)
        if rng.random() < 0.5:
            kw["symmetry"] = rng.choice(list(IMAGES))
        res = yield Line([typed(rng, name, (), kw)] + DUMP)
        pattern = None
    else:
        w, h = rng.choice([(2, 2), (2, 3), (3, 2), (3, 3), (3, 3), (2, 4)])
        n = w * h
        sol = work.solution(rng, w, h)
        if name == "solve":
            grid = work.dig(rng, sol, w, h, rng.uniform(0, 0.55))
            kw = {}
        else:
            grid = [list(row) for row in sol]
            r = rng.randrange(n)
            for c in rng.sample(range(n), rng.randint(0, n)):
                grid[r][c] = 0
            kw = {"tries": -1}
        pattern = grid
        t = "".join(str(v) for row in grid for v in row)
        res = yield Line(typed(rng, "decode", (t,), {"box_size": (w, h)}))
        answered(mon, res, [""], log)
        res = yield Line([typed(rng, name, (), kw)] + DUMP)
    what = what_of(log)
    mon.check(res.exit is None and not res.err, "a valid command is reported "
              "as an error", exit=repr(res.exit), err=res.err[:500], **what)
    got = read_dump(res.out, w, h)
    mon.check(got is not None, "the command did not replace the sudoku by "
              "one of the right size", out=res.out[:500], box=(w, h), **what)
    grid = work.grid_of(got)
    n = w * h
    if name == "solve":
        mon.check(oracle.is_complete_solution(grid, w, h) and all(
            pattern[r][c] in (0, grid[r][c]) for r in range(n)
            for c in range(n)), "solve gives no solution of the sudoku",
            clues=text(pattern), got=text(grid), **what)
    else:
        sols = oracle.solutions(grid, w, h, 2)
        mon.check(len(sols) == 1, "the generated sudoku has not exactly one "
                  "solution", got=text(grid), **what)
        filled = {(r, c) for r in range(n) for c in range(n) if grid[r][c]}
        if name == "generate":
            mon.check(len(filled) >= kw.get("min_count", 0),
                      "the arguments of generate do not matter",
                      got=text(grid), **what)
            for f in IMAGES[kw.get("symmetry")]:
                mon.check(all(f(n, *rc) in filled for rc in filled),
                          "the arguments of generate do not matter",
                          got=text(grid), **what)
        else:
            mon.check(filled == {(r, c) for r in range(n) for c in range(n)
                                 if pattern[r][c]},
                      "not the pattern of the template", got=text(grid),
                      template=text(pattern), **what)
    model.s = got
    match(mon, res.out, [dump_text(got)], what)
    mon.count("lines")
    mon.evaluated(("make", name, text(grid)))


def session(rng, model, mon, log, raw):
    for _ in range(rng.choice([4, 8, 12, 25])):
        if rng.random() < 0.06:
            yield from make(rng, model, mon, log)
            continue
        if rng.random() < 0.01:
            mon.count("clear")
            res = yield Line("clear")
            mon.check(res.exit is None and not res.err, "clear fails",
                      err=res.err, **what_of(log))
            continue
        before = dump_text(model.s)
        line, expected, ops = step(rng, model, mon, log, raw)
        res = yield line
        answered(mon, res, expected, log)
        mon.evaluated((before, repr(ops)),
                      nontrivial=dump_text(model.s) != before)
    res = yield Line(DUMP)
    answered(mon, res, [dump_text(model.s)], log)
    mon.sample(session=[repr(x) for x in log[:6]], last=res.out[:200])
    # an end of the shell is no error
    if rng.random() < 0.5:
        res = yield Line("exit")
        mon.check(not res.err and res.exit in (None, "returned"),
                  "exit is an error", err=res.err, exit=repr(res.exit),
                  **what_of(log))
        mon.count("exits")


def case(kind, rng, mon):
    model, log = Model(), []
    if kind == "lines":
        drive_lines(mon, session(rng, model, mon, log, False),
                    interactive=rng.random() < 0.5, log=log)
    else:
        status = drive_run(mon, session(rng, model, mon, log, True),
                           interactive=kind == "interactive", log=log)
        mon.check(status is None or getattr(status, "code", 1) in (None, 0),
                  "a session without error ends with an error",
                  status=repr(status), **what_of(log))
