"""C27 - interrupting the interactive shell loses nothing."""
import math

from vf import oracle, work
from vf.interrupt import Injector
from vf.lib import text
from vf.shellkit import (DUMP, Line, Model, drive_run, dump_text, layout,
                         match, random_op, read_dump, typed)
from props.c24 import answered, what_of
from props.c25 import note, stack_op

ID = "C27"
LEVEL = "exploration"
FILES = ["shell.py"]
RULE = ("running: sessions in which KeyboardInterrupt is raised at a random "
        "function start, jump or branch the library executes for a command "
        "(single, several in a line, or a running loop; the number of such "
        "points is counted in advance); prompt: the interrupt arrives while "
        "a line is read, also a continued one; script: both in a "
        "non-interactive shell; signal: a real process on a terminal and "
        "SIGINT. Afterwards the dumped numbers and the stack must be those "
        "before or after one of the commands, and the session goes on "
        "against the model; non-trivial = an interrupt was delivered")
ASSUMPTIONS = ["interrupts are injected where library code or the shell's own "
               "function for a command (loop aside) runs and where input is "
               "read, not between the two in the shell's own loop"]
PLAN = {
    "quick": [("running", 1500), ("prompt", 500), ("script", 600),
              ("signal", 12)],
    "thorough": [("running", 25500), ("prompt", 8500), ("script", 10200),
                 ("signal", 204)],
}
REQUIRE = {"interrupts": 2500, "interrupted loops": 250,
           "interrupted several commands": 250, "at the prompt": 800,
           "continued lines": 200, "interrupted definitions": 200, "exit status 2": 500, "processes": 8,
           "interrupted solve": 60, "interrupted generate": 60,
           "state before": 800, "state after a part": 150,
           "in the shell's own commands": 60, "candidates kept": 800}


def facts(model):
    """What an interrupt must not damage."""
    return (work.grid_of(model.s), tuple(model.s.box_size),
            [(work.grid_of(x), x.box_size) for x in model.stack])


def points(injector, model, ops):
    """How many points the library passes for these commands."""
    m = model.clone()
    injector.arm(0)
    try:
        for op in ops:
            m.apply(op)
    finally:
        injector.disarm()
    return injector.seen


def deterministic(rng, model, mon):
    """Some commands and the states between them."""
    ops = []
    m = model.clone()
    kind = rng.choice(["one", "one", "line", "loop"])
    count = 1
    for _ in range({"one": 1, "line": rng.randint(2, 5),
                    "loop": rng.randint(1, 5)}[kind]):
        if kind == "loop":
            op = rng.choice([("push", (), {}), ("push", (), {})] + [
                random_op(rng, m, rng.choice([True, True, False]))] * 4)
        else:
            op = stack_op(rng, m, 0.35)
        ops.append(op)
        m.apply(op)
    if kind == "loop":
        count = rng.randint(1, 4)
    states, models = [], []
    m = model.clone()
    states.append(facts(m))
    models.append(m.clone())
    for _ in range(count):
        for op in ops:
            m.apply(op)
            states.append(facts(m))
            models.append(m.clone())
    return kind, ops, count, models


def after_interrupt(rng, model, mon, log, injector, models, accept=None,
                    names=()):
    """Find out which state the shell is in; adopt it."""
    cmds = DUMP + ["stack"]
    res = yield Line(cmds)
    what = what_of(log)
    what["point"] = injector.fired
    mon.check(res.exit is None, "the shell ended after an interrupt",
              exit=repr(res.exit), **what)
    mon.check(not res.err, "the command after an interrupt fails",
              err=res.err[:400], **what)
    lines = res.out.split("\n")
    hit = None
    mon.check("|" in lines[0], "the command after an interrupt is not "
              "executed as typed", out=res.out[:500], **what)
    stacked = None
    body = res.out.rsplit("\n", 1)[0]
    import re
    stacked = [int(x) for x in re.findall("[0-9]+", body.split("\n")[-1])]
    nums = lines[0].split("|")[0]
    shown = "\n".join(lines[1:]).rsplit("\n", 2)[0]
    hits = [i for i, m in enumerate(models)
            if m.s.encode(row_sep="/", col_sep="/") == nums and
            shown == str(m.s) and stacked == [len(m.stack)]]
    hit = hits[0] if hits else None
    for i in hits:
        if res.out.startswith(dump_text(models[i].s)):
            # even the candidates are those of this state
            hit = i
            break
    if hit is None and accept is not None and stacked == [len(
            models[0].stack)]:
        got = accept(res.out)
        if got is not None:
            model.s = got
            mon.count("state after")
            return
    mon.check(hit is not None, "after an interrupt the numbers or the stack "
              "are neither as before nor as after a command", out=nums,
              stack=stacked, expected=[[m.s.encode(
                  row_sep="/", col_sep="/"), len(m.stack)] for m in models],
              **what)
    mon.count("state before" if hit == 0 else "state after a part"
              if hit < len(models) - 1 else "state after")
    model.stack = models[hit].stack
    w, h = models[hit].s.box_size
    # candidates may have been changed in part
    model.s = read_dump(res.out, w, h)
    if "init_candidates" not in names:
        for r, c in model.s:
            got = model.s.get_candidates(r, c)
            mon.check(any(m.s.get_candidates(r, c) == got for m in models
                          if m.s.box_size == (w, h)), "after an interrupt "
                      "the candidates of a field are neither as before nor "
                      "as after a command", field=(r, c), got=sorted(got),
                      **what)
        mon.count("candidates kept")
    if len({tuple(map(dump_text, models[i].stack)) for i in hits}) > 1:
        # more than one state is possible: unload the stack
        mon.count("ambiguous states")
        options = [list(models[i].stack) for i in hits]
        while options[0]:
            res = yield Line(["pop"] + DUMP)
            options = [x[:-1] for x in options if res.out.startswith(
                dump_text(x[-1]))]
            mon.check(options, "the stack is neither as before nor as after "
                      "a command", out=res.out, **what)
            model.s = read_dump(res.out, *tops(res.out, models))
        model.stack = []


def tops(out, models):
    """The box size of a dumped sudoku of one of the models."""
    return next(x.box_size for m in models for x in m.stack
                if out.startswith(dump_text(x)))


def running(rng, model, mon, log, injector):
    for _ in range(rng.choice([2, 4, 7])):
        for _ in range(rng.randint(0, 2)):
            op = stack_op(rng, model, 0.4)
            note(mon, model, op)
            want = model.apply(op)
            res = yield Line(typed(rng, *op))
            answered(mon, res, [want], log)
        if rng.random() < 0.2:
            yield from heavy(rng, model, mon, log, injector)
            continue
        kind, ops, count, models = deterministic(rng, model, mon)
        total = points(injector, model, [o for _ in range(count)
                                         for o in ops])
        # points in the commands of the shell itself (about so many)
        total += count * sum({"push": 2, "pop": 4, "stack": 2, "help": 8}.get(
            op[0], 0) for op in ops)
        if not total:
            continue
        at = rng.randint(1, total)
        commands = [typed(rng, *op) for op in ops]
        if kind == "loop":
            res = yield Line("loop %d" % count)
            answered(mon, res, [""], log)
            for c in commands:
                res = yield Line(c)
                answered(mon, res, [""], log)
            commands = ["loop end"]
        line = Line(commands, layout(rng, commands)
                    if rng.random() < 0.4 else None, interrupt=at)
        res = yield line
        fired = injector.fired
        mon.check(res.exit is None, "an interrupt ends the interactive "
                  "shell", exit=repr(res.exit), point=fired, **what_of(log))
        if fired:
            mon.count("interrupts")
            mon.count("interrupted loops", kind == "loop")
            mon.count("interrupted several commands", kind == "line")
            mon.count("interrupted " + ops[0][0], kind == "one")
            mon.count("in the shell's own commands",
                      fired.startswith("shell.py"))
        else:
            mon.count("came too late")
            models = models[-1:]
        yield from after_interrupt(rng, model, mon, log, injector, models,
                                   names=[op[0] for op in ops])
        mon.evaluated((repr(ops), count, kind, fired, dump_text(model.s)),
                      nontrivial=fired is not None)
    mon.sample(session=[repr(x) for x in log[:8]], point=injector.fired)
    # the stack is as it was
    while model.stack:
        model.apply(("pop", (), {}))
        res = yield Line(["pop"] + DUMP)
        answered(mon, res, [dump_text(model.s)], log)


def heavy(rng, model, mon, log, injector):
    """Interrupt solving and generating."""
    name = rng.choice(["solve", "generate", "generate_from_template"])
    w, h = rng.choice([(2, 2), (2, 3), (3, 2), (3, 3)])
    n = w * h
    sol = work.solution(rng, w, h)
    if name == "generate_from_template":
        grid = work.dig(rng, sol, w, h, rng.choice([0.2, 0.5, 1.0]))
    else:
        grid = work.dig(rng, sol, w, h, rng.uniform(0.1, 0.6))
    op = ("decode", ("".join(str(v) for row in grid for v in row),),
          {"box_size": (w, h)})
    want = model.apply(op)
    res = yield Line(typed(rng, *op))
    answered(mon, res, [want], log)
    cmd = name
    if name == "generate":
        cmd = typed(rng, name, (), {"box_size": (w, h)})
    elif name == "generate_from_template":
        cmd = name + " tries=-1"
    at = int(math.exp(rng.uniform(0, math.log(20000))))
    if name == "solve" and rng.random() < 0.5:
        # about when the solution has been found
        from sudokutools import solve
        injector.arm(0)
        try:
            next(iter(solve.bruteforce(model.s.copy())), None)
        finally:
            injector.disarm()
        at = max(1, injector.seen + rng.randint(-n, 2 * n * n))
        mon.count("interrupted when solved")
    if name == "generate_from_template" and (
            sum(r.count(0) for r in grid) == n * n):
        # it would go on for ever
        mon.count("endless commands")
    models = [model.clone()]

    def accept(out):
        got = read_dump(out, w, h)
        if got is None:
            return None
        g = work.grid_of(got)
        if name == "solve":
            ok = oracle.is_complete_solution(g, w, h)
        else:
            ok = len(oracle.solutions(g, w, h, 2)) == 1
        return got if ok else None
    res = yield Line(cmd, interrupt=at)
    fired = injector.fired
    mon.check(res.exit is None, "an interrupt ends the interactive shell",
              exit=repr(res.exit), point=fired, **what_of(log))
    if fired:
        mon.count("interrupts")
        mon.count("interrupted " + name.split("_")[0])
    yield from after_interrupt(rng, model, mon, log, injector, models, accept)
    mon.evaluated((name, text(grid), fired), nontrivial=fired is not None)


def prompt(rng, model, mon, log, injector):
    for _ in range(rng.choice([3, 6])):
        if rng.random() < 0.3:
            yield from defining(rng, model, mon, log)
        if rng.random() < 0.6:
            op = stack_op(rng, model, 0.4)
            note(mon, model, op)
            want = model.apply(op)
            res = yield Line(typed(rng, *op))
            answered(mon, res, [want], log)
        # what is typed before the interrupt never counts
        op = stack_op(rng, model, 0.3)
        t = typed(rng, *op)
        how = rng.randrange(3)
        if how == 0 or "\\" in t:
            raw = [KeyboardInterrupt] * rng.choice([1, 1, 2, 3])
        else:
            mon.count("continued lines")
            if how == 1:
                i = rng.randint(1, len(t))
                raw = [t[:i] + "\\\n", KeyboardInterrupt]
            else:
                i = rng.randint(0, len(t))
                j = rng.randint(i, len(t))
                raw = [t[:i] + " \\\n", t[i:j] + "\\\n", KeyboardInterrupt]
        res = yield Line([], raw + ["\n"] * rng.choice([0, 0, 1])
                         + ["# go on\n"])
        what = what_of(log)
        mon.check(res.exit is None, "an interrupt at the prompt ends the "
                  "shell", exit=repr(res.exit), **what)
        mon.check(not res.err, "an interrupted line is executed",
                  err=res.err[:300], **what)
        mon.count("interrupts")
        mon.count("at the prompt")
        res = yield Line(DUMP)
        answered(mon, res, [dump_text(model.s)], log)
        mon.evaluated((repr(raw), dump_text(model.s)))
    mon.sample(session=[repr(x) for x in log[:8]])
    while model.stack:
        model.apply(("pop", (), {}))
        res = yield Line(["pop"] + DUMP)
        answered(mon, res, [dump_text(model.s)], log)


def defining(rng, model, mon, log):
    """Interrupts at the prompt while a loop is defined: it stays so."""
    count = rng.choice([1, 1, 2, 3])
    res = yield Line("loop %d" % count)
    answered(mon, res, [""], log)
    ops = []
    trial = model.clone()
    for _ in range(rng.choice([1, 2, 4])):
        if rng.random() < 0.6:
            res = yield Line([], [KeyboardInterrupt] * rng.choice([1, 1, 2])
                             + ["# go on\n"])
            what = what_of(log)
            mon.check(res.exit is None and not res.err, "an interrupt at the "
                      "prompt fails", err=res.err[:300], **what)
            mon.count("interrupts")
            mon.count("interrupted definitions")
        op = random_op(rng, trial, rng.choice([True, True, False]))
        trial.apply(op)
        ops.append(op)
        res = yield Line(typed(rng, *op))
        # not executed yet
        answered(mon, res, [""], log)
    res = yield Line("loop end")
    answered(mon, res, [model.apply(op) for _ in range(count) for op in ops],
             log)
    res = yield Line(DUMP)
    answered(mon, res, [dump_text(model.s)], log)
    mon.evaluated((repr(ops), count, dump_text(model.s)))


def script(rng, model, mon, log, injector):
    """A non-interactive shell ends with status 2."""
    for _ in range(rng.randint(0, 3)):
        op = stack_op(rng, model, 0.4)
        want = model.apply(op)
        res = yield Line(typed(rng, *op))
        answered(mon, res, [want], log)
    if rng.random() < 0.3:
        mon.count("at the prompt")
        res = yield Line([], [KeyboardInterrupt])
        fired = True
    else:
        for _ in range(20):
            op = stack_op(rng, model, 0.3)
            total = points(injector, model, [op])
            if total:
                break
        at = rng.randint(1, total)
        res = yield Line(typed(rng, *op), interrupt=at)
        fired = injector.fired
    what = what_of(log)
    if not fired:
        mon.count("came too late")
        return
    mon.count("interrupts")
    mon.check(isinstance(res.exit, SystemExit) and res.exit.code == 2,
              "an interrupted script does not end with status 2",
              status=repr(getattr(res.exit, "code", res.exit)), **what)
    mon.count("exit status 2")
    mon.evaluated((repr(log[-1]), len(log)))


def case(kind, rng, mon):
    if kind == "signal":
        return signal_case(rng, mon)
    model, log = Model(), []
    injector = Injector.get()

    def hook(feed):
        def on_line(line):
            if line is None:
                injector.disarm()
            elif line.interrupt and not feed.pending:
                injector.arm(line.interrupt)
        feed.on_line = on_line
    gen = {"running": running, "prompt": prompt,
           "script": script}[kind](rng, model, mon, log, injector)
    try:
        drive_run(mon, gen, interactive=kind != "script", log=log, hook=hook)
    finally:
        injector.disarm()


# ------------------------------------------------------------ real signals

class Terminal(object):
    """A shell process on a pseudo terminal."""

    def __init__(self, args=()):
        import os
        import pty
        import signal
        import subprocess
        import sys
        from vf.core import REPO
        self.master, slave = pty.openpty()
        import termios
        attr = termios.tcgetattr(slave)
        attr[3] &= ~termios.ECHO
        attr[1] &= ~termios.OPOST
        termios.tcsetattr(slave, termios.TCSANOW, attr)
        env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1")
        # an ignored SIGINT would be inherited
        signal.signal(signal.SIGINT, signal.default_int_handler)

        def setup():
            import fcntl
            import resource
            # the process ends with this one: hangup, or its CPU limit
            os.setsid()
            fcntl.ioctl(0, termios.TIOCSCTTY, 0)
            signal.signal(signal.SIGHUP, signal.SIG_DFL)
            resource.setrlimit(resource.RLIMIT_CPU, (60, 60))
        self.p = subprocess.Popen(
            [sys.executable, "-m", "sudokutools"] + list(args), stdin=slave,
            stdout=slave, stderr=slave, env=env, cwd="/",
            preexec_fn=setup)
        os.close(slave)

    def write(self, t):
        import os
        os.write(self.master, t.encode())

    def read(self, until, seconds):
        import os
        import select
        import time
        end = time.monotonic() + seconds
        out = ""
        while until not in out:
            left = end - time.monotonic()
            if left <= 0:
                return out, False
            if select.select([self.master], [], [], min(left, 0.5))[0]:
                try:
                    data = os.read(self.master, 65536)
                except OSError:
                    return out, False
                if not data:
                    return out, False
                out += data.decode(errors="replace")
        return out, True

    def close(self):
        import os
        try:
            self.p.kill()
        except OSError:
            pass
        self.p.wait()
        os.close(self.master)


def signal_case(rng, mon):
    import signal
    import time
    from vf.core import Skip
    term = Terminal()
    try:
        grid = work.garbage(rng, 3, 3, 0.1)
        t = "".join(str(v) for row in grid for v in row)
        template = "1" + "0" * 80
        marks = ["%04d" % rng.randrange(10000) for _ in range(3)]
        # a marker proves that everything before was executed
        term.write("decode '%s'\npush\ndecode '%s'\nset_candidates 0 0 [%s]\n"
                   "get_candidates 0 0\n" % (t, template, "1" + marks[0]))
        out, ok = term.read("1" + marks[0], 60)
        if not ok:
            raise Skip("the process did not start")
        endless = rng.choice(["generate_from_template tries=-1",
                              "loop 100000000\nset_candidates 0 0 []\n"
                              "init_candidates\nloop end"])
        term.write(endless + "\n")
        time.sleep(rng.uniform(0.3, 0.8))
        back = False
        query = "set_candidates 0 1 [%s]\nget_candidates 0 1\n" % (
            "2" + marks[1])
        for attempt in range(15):
            mon.check(term.p.poll() is None, "the interactive shell ended",
                      status=term.p.returncode, command=endless)
            term.p.send_signal(signal.SIGINT)
            if attempt == 0:
                term.write(query)
            out, back = term.read("2" + marks[1], 2.0)
            if back:
                break
        mon.check(back, "the interrupted shell does not return to its "
                  "prompt", command=endless, out=out[-300:])
        # a further interrupt at the prompt
        time.sleep(0.2)
        term.p.send_signal(signal.SIGINT)
        time.sleep(0.2)
        term.write("encode\npop\nencode\nset_candidates 0 0 [%s]\n"
                   "get_candidates 0 0\n" % ("3" + marks[2]))
        out, ok = term.read("3" + marks[2], 60)
        mon.check(ok, "the shell does not answer after an interrupt at the "
                  "prompt", out=out[-300:], status=term.p.poll())
        import re
        got = re.findall("[0-9]{81}", out)
        mon.check(got == [template, t], "numbers or stack are not as before "
                  "the interrupt", got=got, expected=[template, t],
                  command=endless)
        term.write("exit\n")
        try:
            code = term.p.wait(60)
        except Exception:
            raise Skip("exit took too long")
        mon.check(code == 0, "exit status after exit", code=code)
        mon.count("processes")
        mon.count("interrupts", 2)
        mon.evaluated((t, endless))
    finally:
        term.close()
