"""C25 - shell stack and loops keep their promises."""
from vf import oracle, work
from vf.lib import text
from vf.shellkit import (DUMP, Line, Model, drive_lines, drive_pair, drive_run,
                         dump_text, layout, match, random_op, typed)
from props.c24 import answered, what_of

ID = "C25"
LEVEL = "exploration"
FILES = ["shell.py"]
RULE = ("stack: sessions of push, pop with and without position and changes "
        "of the current sudoku, the stack at the end unloaded and compared "
        "with a stack model; loop: random loop bodies (changes, prints, push "
        "and pop) of random count, typed over lines or in one, must print "
        "nothing while defined and then exactly what the unrolled commands "
        "give, also if some of them fail each time; pair: two or three such "
        "sessions of as many shells in one process, their lines executed in "
        "a random order, each judged by its own model; readme: loops of generate, encode and solve judged by an "
        "oracle; non-trivial = the stack is not empty or a loop runs twice "
        "or more")
ASSUMPTIONS = ["loops are not nested (the shell refuses that)"]
PLAN = {
    "quick": [("stack", 4800), ("loop", 9000), ("pair", 900),
              ("readme", 750)],
    "thorough": [("stack", 76800), ("loop", 144000), ("pair", 14000),
                 ("readme", 12000)],
}
REQUIRE = {"pushed": 4000, "popped": 3000, "popped in the middle": 700,
           "loops run": 3000, "long loops": 30, "loop commands executed": 20000,
           "deepest stack 5": 100, "push in a loop": 300,
           "pop in a loop": 200, "changed after push": 2000,
           "generated in loops": 300, "failing command in a loop": 500,
           "shell switches": 4000}


def stack_op(rng, model, share=0.5):
    x = rng.random()
    k = len(model.stack)
    if x > share:
        return random_op(rng, model, changing=rng.choice(
            [True, True, True, False, "make"]))
    if x < share * 0.5 or not k:
        return "push", (), {}
    if x < share * 0.6:
        return "stack", (), {}
    if rng.random() < 0.5:
        return "pop", (), {}
    i = rng.randrange(k)
    return rng.choice([("pop", (i,), {}), ("pop", (), {"position": i})])


def note(mon, model, op):
    if op[0] == "push":
        mon.count("pushed")
        mon.count("deepest stack 5", len(model.stack) == 4)
    elif op[0] == "pop":
        mon.count("popped")
        i = op[2].get("position", op[1][0] if op[1] else None)
        mon.count("popped in the middle",
                  i is not None and i < len(model.stack) - 1)
    elif op[0] in ("set", "set_candidates", "remove_candidates",
                   "init_candidates"):
        mon.count("changed after push", bool(model.stack))


def unload(rng, model, mon, log):
    """Empty the stack and compare what comes out."""
    while model.stack:
        i = rng.choice([None, 0, rng.randrange(len(model.stack))])
        op = ("pop", () if i is None else (i,), {})
        note(mon, model, op)
        model.apply(op)
        res = yield Line([typed(rng, *op)] + DUMP)
        answered(mon, res, [dump_text(model.s)], log)
    res = yield Line("stack")
    answered(mon, res, [("ints", [0])], log)


def stack_session(rng, model, mon, log, raw):
    if rng.random() < 0.3:
        res = yield Line("stack")
        answered(mon, res, [("ints", [0])], log)
    for _ in range(rng.choice([6, 12, 25])):
        ops, expected = [], []
        for _ in range(rng.choice([1, 1, 2, 4])):
            op = stack_op(rng, model)
            note(mon, model, op)
            ops.append(op)
            expected.append(model.apply(op))
        commands = [typed(rng, *op) for op in ops]
        if rng.random() < 0.5:
            commands += DUMP
            expected.append(dump_text(model.s))
        res = yield Line(commands, layout(rng, commands) if raw else None)
        answered(mon, res, expected, log)
        mon.evaluated((repr(ops), dump_text(model.s), len(model.stack)),
                      nontrivial=len(model.stack) > 0)
    yield from unload(rng, model, mon, log)
    mon.sample(session=[repr(x) for x in log[:8]])


def body(rng, model, mon):
    """Commands of a loop that are valid each time the loop runs them."""
    out = []
    net = 0
    depth = len(model.stack)
    for _ in range(rng.choice([1, 2, 3, 5, 8])):
        x = rng.random()
        if x < 0.2:
            out.append(("push", (), {}))
            net += 1
        elif x < 0.35 and net > 0:
            out.append(("pop", (), {}))
            net -= 1
        elif x < 0.45 and depth + net > 0 and net >= 0:
            out.append(("pop", (0,), {}))
            net -= 1
        elif x < 0.5:
            out.append(("stack", (), {}))
        else:
            out.append(None)
    return out, net


# refused when they are executed, whatever the current sudoku is
FAILING = ["get 99 0", "get 0 0 0", "get 0", "set 0 99 1", "pop 999",
           "get_candidates 99 99", "decode 5", "new 'ab'", "push 1",
           "help 'nothing'", "encode 1 2 3 4", "remove_candidates 0 0 5",
           "view foo=1"]


def loop_session(rng, model, mon, log, raw, interactive=False):
    for _ in range(rng.choice([1, 2, 3])):
        # one box size during the loops, all numbers are valid then
        op = random_op(rng, model, "make")
        model.apply(op)
        res = yield Line(typed(rng, *op))
        answered(mon, res, [""], log)
        size = model.s.box_size
        model_same = [x for x in model.stack if x.box_size == size]
        while len(model_same) != len(model.stack):
            i = next(i for i, x in enumerate(model.stack)
                     if x.box_size != size)
            model.stack.pop(i)
            res = yield Line(["push", "pop %d" % i, "pop"])
            answered(mon, res, [""], log)
        for _ in range(rng.randint(0, 4)):
            op = stack_op(rng, model, 0.4)
            if op[0] in ("new", "decode"):
                continue
            note(mon, model, op)
            want = model.apply(op)
            res = yield Line(typed(rng, *op))
            answered(mon, res, [want], log)
        count = rng.choice([1, 1, 2, 2, 3, 4, 7])
        shape, net = body(rng, model, mon)
        if len(shape) <= 3 and rng.random() < 0.1:
            count = rng.randint(40, 400)
            mon.count("long loops")
        if net < 0:
            count = min(count, len(model.stack) // -net)
            if count < 1:
                continue
        ops = []
        for x in shape:
            while x is None or x[0] in ("new", "decode"):
                x = random_op(rng, model, rng.choice([True, True, False]))
            ops.append(x)
        # is every pop valid?
        trial = model.clone()
        valid = True
        for _ in range(count):
            for op in ops:
                if op[0] == "pop" and not trial.stack:
                    valid = False
                    break
                trial.apply(op)
            if not valid:
                break
        if not valid:
            continue
        commands = [typed(rng, *op) for op in ops]
        opening = rng.choice(["loop %d", "loop %d", "loop n=%d"]) % count
        failing = interactive and rng.random() < 0.3
        if failing:
            # the others are executed all the same
            mon.count("failing command in a loop")
            for _ in range(rng.choice([1, 1, 2])):
                commands.insert(rng.randint(0, len(commands)),
                                rng.choice(FAILING))
        start = dump_text(model.s)
        expected = []
        for _ in range(count):
            for op in ops:
                note(mon, model, op)
                expected.append(model.apply(op))
        if rng.random() < 0.35:
            # everything in one line
            line = [opening] + commands + ["loop end"]
            res = yield Line(line, layout(rng, line) if raw else None)
            ran(mon, res, expected, log, failing)
        else:
            res = yield Line(opening)
            answered(mon, res, [""], log)
            i = 0
            while i < len(commands):
                k = rng.choice([1, 1, 1, 2, 3])
                part = commands[i:i + k]
                i += k
                res = yield Line(part, layout(rng, part) if raw else None)
                # nothing runs, nothing is printed
                answered(mon, res, [""], log)
            res = yield Line("loop end")
            ran(mon, res, expected, log, failing)
        mon.count("loops run")
        mon.count("loop commands executed", count * len(ops))
        mon.count("push in a loop", any(o[0] == "push" for o in ops))
        mon.count("pop in a loop", any(o[0] == "pop" for o in ops))
        res = yield Line(DUMP)
        answered(mon, res, [dump_text(model.s)], log)
        mon.evaluated((start, repr(ops), count), nontrivial=count > 1)
    mon.sample(session=[repr(x) for x in log[:8]])
    yield from unload(rng, model, mon, log)


def ran(mon, res, expected, log, failing):
    if not failing:
        return answered(mon, res, expected, log)
    what = what_of(log)
    mon.check(res.err.strip() and res.exit is None, "an error in a loop is "
              "not reported", err=res.err, exit=repr(res.exit), **what)
    match(mon, res.out, expected, what)
    mon.count("lines")


def readme_session(rng, model, mon, log):
    """The loops of the README, with small sudokus."""
    size = rng.choice([(2, 2), (2, 2), (2, 3), (3, 2)])
    w, h = size
    count = rng.randint(1, 4)
    push = rng.random() < 0.6
    make = typed(rng, "generate", (), {"box_size": size})
    enc = "encode"
    lines = ["loop %d" % count, make, enc] + (
        ["push"] if push else ["solve", enc]) + ["loop end"]
    outs = []
    res = yield Line(lines)
    first = res
    mon.check(not res.err and res.exit is None, "the loop fails",
              err=res.err, **what_of(log))
    outs = res.out.split("\n")
    puzzles, solved = [], []
    if push:
        puzzles = outs[:count]
        res = yield Line("stack")
        answered(mon, res, [("ints", [count])], log)
        res = yield Line(["loop %d" % count, "pop 0", "solve", enc,
                          "loop end"])
        mon.check(not res.err and res.exit is None, "the loop fails",
                  err=res.err, **what_of(log))
        solved = res.out.split("\n")[:count]
    else:
        puzzles, solved = outs[0:2 * count:2], outs[1:2 * count:2]
    n = w * h
    mon.check(len(puzzles) == count and len(solved) == count,
              "not one line for each time", out=first.out, **what_of(log))
    mon.check(count < 3 or n < 6 or len(set(puzzles)) > 1,
              "the same sudoku every time", out=first.out, **what_of(log))
    for p, q in zip(puzzles, solved):
        mon.check(len(p) == n * n and len(q) == n * n and p.isdigit()
                  and q.isdigit(), "no sudokus are printed",
                  out=first.out, **what_of(log))
        grid = [[int(x) for x in p[i * n:i * n + n]] for i in range(n)]
        sols = oracle.solutions(grid, w, h, 2)
        mon.check(len(sols) == 1 and "".join(
            str(v) for row in sols[0] for v in row) == q,
            "a solution does not belong to its sudoku", puzzle=p, got=q,
            **what_of(log))
        mon.count("generated in loops")
    mon.count("loops run")
    mon.evaluated((tuple(puzzles), push), nontrivial=count > 1)


def case(kind, rng, mon):
    raw = rng.random() < 0.6 and kind != "pair"
    interactive = rng.random() < 0.5 or kind == "pair"
    if kind == "pair":
        sessions, logs = [], []
        for _ in range(rng.choice([2, 2, 3])):
            logs.append([])
            s = stack_session if rng.random() < 0.6 else loop_session
            sessions.append(s(rng, Model(), mon, logs[-1], raw))
        order = drive_pair(mon, rng, sessions, logs, interactive)
        mon.count("shell switches", sum(
            a != b for a, b in zip(order, order[1:])))
        mon.sample(order="".join(map(str, order))[:80])
        return
    model, log = Model(), []
    if kind == "stack":
        s = stack_session(rng, model, mon, log, raw)
    elif kind == "loop":
        s = loop_session(rng, model, mon, log, raw, interactive)
    else:
        s = readme_session(rng, model, mon, log)
    if raw:
        drive_run(mon, s, interactive=interactive, log=log)
    else:
        drive_lines(mon, s, interactive=interactive, log=log)
