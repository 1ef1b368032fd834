"""C34 - calls leave no traces."""
import builtins
import decimal
import gc
import io
import locale
import logging
import os
import random
import signal
import sys
import threading
import tracemalloc
import warnings
from itertools import islice

from vf import work
from vf.lib import text
from vf.shellkit import Streams, drain
from props.c05 import ITERS, SCALARS, build, make_spec, scalar, start

ID = "C34"
LEVEL = "exploration"
FILES = ["sudoku.py", "solve.py", "solvers.py", "analyze.py", "generate.py",
         "notation.py", "coordinates.py"]
RULE = ("silent: one case calls 12 functions on random sudokus (complete, "
        "half-consumed and abandoned enumerations, refused calls, "
        "generation) with an audit hook that records every file, process, "
        "network, input and signal event, stdout and stderr captured, and a "
        "snapshot of the settings of the process before and after; memory: "
        "one function (or a shell session) is called on thousands of "
        "different sudokus, the traced memory may not grow in every one of "
        "three windows after a warm-up; shell: a session with its own output "
        "file must not write elsewhere; non-trivial = the call did work")
ASSUMPTIONS = ["loading modules of the library or of Python itself is not "
               "judged", "a bounded cache is no leak (up to some 3000 entries)",
               "clear acts on the terminal, whatever the output is"]
PLAN = {
    "quick": [("silent", 800), ("memory", 46), ("shell", 300)],
    "thorough": [("silent", 12000), ("memory", 184), ("shell", 6000)],
}
REQUIRE = {"calls judged": 4000, "windows": 60, "generated": 150,
           "abandoned": 300, "refused": 100, "audited events": 1,
           "seeded": 150, "huge": 150,
           "shell lines": 1500}
# per window and call; a remembered sudoku needs more than ten times this
GROWTH = 16

NAMES = [x for x in SCALARS if x not in ("defaults", "is_solved")] + sorted(
    set(ITERS))
PREFIXES = ("open", "os.", "socket.", "subprocess.", "shutil.", "tempfile.",
            "builtins.input", "signal.", "ctypes.", "urllib.", "webbrowser.",
            "fcntl.", "mmap.", "pty.", "syslog.", "glob.", "pathlib.",
            "_thread.start", "sqlite3.", "http.", "ftplib.", "smtplib.",
            "faulthandler", "sys.settrace", "sys.setprofile", "sys.addaudit",
            "winreg.", "setopencodehook", "resource.", "marshal.dumps")
_A = {"on": False, "events": [], "installed": False, "seen": 0}


def hook(event, args):
    if not _A["on"]:
        return
    _A["seen"] += 1
    if not event.startswith(PREFIXES):
        return
    f = sys._getframe(1)
    while f is not None:
        if "importlib" in f.f_code.co_filename \
                or f.f_code.co_filename.endswith("linecache.py"):
            return
        f = f.f_back
    _A["events"].append((event, repr(args)[:200]))


def settings():
    return {
        "recursion limit": sys.getrecursionlimit(),
        "switch interval": sys.getswitchinterval(),
        "threads": sorted(t.ident for t in threading.enumerate()),
        "signal handlers": [repr(signal.getsignal(i))
                            for i in sorted(signal.valid_signals())],
        "timer": signal.getitimer(signal.ITIMER_REAL)[0] > 0,
        "working directory": os.getcwd(),
        "environment": dict(os.environ),
        "warning filters": list(warnings.filters),
        "garbage collector": (gc.isenabled(), gc.get_threshold(),
                              gc.get_debug()),
        "trace": (sys.gettrace(), sys.getprofile()),
        "decimal context": repr(decimal.getcontext()),
        "locale": locale.setlocale(locale.LC_ALL, None),
        "streams": (id(sys.stdin), id(sys.stdout), id(sys.stderr)),
        "hooks": (id(sys.excepthook), id(sys.displayhook),
                  id(threading.excepthook)),
        "path": list(sys.path),
        "builtins": {k: id(v) for k, v in vars(builtins).items()
                     if k != "_"},
        "open files": len(os.listdir("/proc/self/fd")),
        "int digits": sys.get_int_max_str_digits(),
        "logging": [repr(logging.getLogger().handlers),
                    logging.getLogger().level, logging.root.manager.disable],
        "coroutine debug": sys.get_coroutine_origin_tracking_depth(),
    }


IGNORED = (DeprecationWarning, PendingDeprecationWarning, FutureWarning,
           SyntaxWarning, ImportWarning)


def judged(mon, what, fn, draws=False, **witness):
    """Call fn() and look for traces of it."""
    if not _A["installed"]:
        sys.addaudithook(hook)
        _A["installed"] = True
    with Streams() as st, warnings.catch_warnings(record=True) as record:
        warnings.simplefilter("always")
        stdin = sys.stdin
        sys.stdin = io.StringIO("1\n" * 50)
        try:
            dice = random.getstate()
            logging.getLogger().handlers[:] = []
            limit = sys.getrecursionlimit()
            sys.setrecursionlimit(1000)
            before = settings()
            del _A["events"][:]
            _A["seen"] = 0
            _A["on"] = True
            try:
                out = fn()
            finally:
                _A["on"] = False
            mon.count("audited events", _A["seen"])
            events = list(_A["events"])
            after = settings()
            sys.setrecursionlimit(limit)
            moved = random.getstate() != dice
            consumed = sys.stdin.tell()
        finally:
            sys.stdin = stdin
        printed = drain(st.out), drain(st.err)
    mon.count("calls judged")
    mon.check(not any(printed), what + " prints something",
              stdout=printed[0][:300], stderr=printed[1][:300], **witness)
    warned = [w for w in record if not issubclass(w.category, IGNORED)]
    mon.check(not warned, what + " warns", warnings=[
        str(w) for w in warned[:5]], **witness)
    mon.check(not consumed, what + " reads from standard input", **witness)
    mon.check(not events, what + " touches the outside", events=events[:5],
              **witness)
    changed = [k for k in before if before[k] != after[k]]
    mon.check(not changed, what + " changes settings of the process",
              changed={k: (repr(before[k])[:300], repr(after[k])[:300])
                       for k in changed}, **witness)
    mon.check(draws or not moved, what + " changes the state of the random "
              "number generator", **witness)
    return out


def one(rng, mon, name, s):
    """A call of the named function; True, if it did some work."""
    if name in SCALARS:
        return mon.call(name, scalar, name, s)
    it = mon.call(name, start, name, s)
    how = rng.random()
    if how < 0.3:
        got = mon.call(name, lambda: list(islice(it, rng.choice([0, 1, 3]))))
        mon.count("abandoned")
        if rng.random() < 0.5 and hasattr(it, "close"):
            mon.call("close", it.close)
        return got
    return mon.call(name, lambda: list(islice(it, 300)))


def seeded(rng, mon, name, fn):
    """All that is drawn comes from the generator, which a user can seed."""
    seed = rng.getrandbits(32)
    dice = random.getstate()
    seen = []
    for _ in range(2):
        random.seed(seed)
        s = fn()
        seen.append((s and s.encode(",", ","), random.random()))
    random.setstate(dice)
    mon.count("seeded")
    mon.check(seen[0] == seen[1], name + " depends on more than the seed of "
              "the random number generator", seed=seed, got=seen)


def huge(rng, mon):
    """Large sudokus with few numbers: what is quick there."""
    from sudokutools import analyze, solve, solvers
    from sudokutools.sudoku import Sudoku, view
    s = Sudoku(rng.choice([(3, 3), (3, 4), (4, 3), (4, 4), (2, 6), (5, 3)]))
    for rc in rng.sample(list(s), rng.choice([0, 0, 1, 2])):
        s[rc] = rng.randint(1, len(s.numbers))
    if rng.random() < 0.5:
        solve.init_candidates(s)
    name = rng.choice(["dlx", "bruteforce", "guess", "unique", "view", "text",
                       "hints", "conflicts", "equal"])
    mon.count("huge")
    if name in ("dlx", "bruteforce"):
        out = mon.call(name, lambda: list(islice(getattr(solve, name)(s), 2)))
    elif name == "guess":
        out = mon.call(name, lambda: list(solvers.Bruteforce.find(s)))
    elif name == "unique":
        out = [mon.call(name, analyze.is_unique, s)]
    elif name == "view":
        out = mon.call(name, view, s)
    elif name == "text":
        out = mon.call(name, lambda: Sudoku.decode(s.encode(
            ",", ",", True), number_sep=",", box_size=s.box_size))
    elif name == "hints":
        out = mon.call(name, lambda: list(islice(solvers.hints(s), 2)))
    elif name == "conflicts":
        out = mon.call(name, lambda: list(analyze.find_conflicts(s)))
    else:
        out = [mon.call(name, s.copy(True).equals, s, True)]
    return out is not None


def silent(rng, mon):
    from sudokutools import generate
    from sudokutools.sudoku import Sudoku
    for _ in range(12):
        spec = make_spec(rng)
        s = build(spec)
        name = rng.choice(NAMES + ["generate", "generate", "template",
                                   "create", "refused", "refused",
                                   "huge", "huge"])
        wit = {"box": spec[:2], "clues": text(spec[2])}
        if name == "generate":
            kw = {"box_size": rng.choice([(2, 2), (2, 3), (3, 2), (1, 4)]),
                  "min_count": rng.choice([0, 0, 10, 16])}
            if rng.random() < 0.5:
                kw["symmetry"] = rng.choice(["rotate-90", "rotate-180",
                                             "mirror-x", "mirror-y"])
            got = judged(mon, name, lambda: mon.call(
                name, generate.generate, **kw), True, arguments=repr(kw))
            mon.count("generated")
            seeded(rng, mon, name, lambda: generate.generate(**kw))
        elif name == "create":
            size = rng.choice([(2, 2), (2, 3), (3, 3), (1, 5)])
            got = judged(mon, name, lambda: mon.call(
                name, generate.create_solution, size), True, box=size)
            mon.count("generated")
            seeded(rng, mon, name, lambda: generate.create_solution(size))
        elif name == "template":
            t = Sudoku((2, 2))
            tries = rng.choice([0, 1, 3])
            for rc in rng.sample(list(t), rng.randint(0, 16)):
                t[rc] = 1

            def make():
                try:
                    return generate.generate_from_template(t, tries=tries)
                except RuntimeError:
                    return None
            got = judged(mon, name, make, True, template=t.encode())
            mon.count("generated")
            seeded(rng, mon, name, make)
        elif name == "huge":
            got = judged(mon, name, lambda: huge(rng, mon), True)
        elif name == "refused":
            got = judged(mon, "a refused call", lambda: scalar(
                "bad calls", s), True, **wit)
            mon.count("refused")
        else:
            got = judged(mon, name, lambda: one(rng, mon, name, s),
                         name == "bad calls", **wit)
        mon.evaluated((name, spec[0], spec[1], text(spec[2])),
                      nontrivial=bool(got))
    mon.sample(last=name, settings_watched=len(settings()))


# ------------------------------------------------------------ memory

MEMORY = NAMES + ["generate", "create", "template", "shell", "many"]


def small_grid(rng):
    w, h = rng.choice([(2, 2), (2, 2), (2, 2), (2, 3), (3, 2), (1, 4)])
    n = w * h
    grid = work.scramble(rng, work.canonical(w, h), w, h)
    grid = [list(r) for r in grid]
    lo = n // 2 if rng.random() < 0.9 else 3
    for _ in range(rng.randint(lo, n * n * 2 // 3)):
        grid[rng.randrange(n)][rng.randrange(n)] = 0
    if rng.random() < 0.1:
        grid[rng.randrange(n)][rng.randrange(n)] = rng.randint(1, n)
    return w, h, grid


def sprinkle(rng, s):
    """Few candidates in all empty fields: steps of most techniques."""
    n = len(s.numbers)
    some = rng.sample(s.numbers, min(n, 3))
    for row, col in s.empty():
        x = rng.sample(s.numbers, rng.randint(1, 2))
        if rng.random() < 0.4:
            x = some
        s.set_candidates(row, col, x)


def used(rng, mon, name, k):
    """k calls, each on another sudoku, nothing is kept."""
    from sudokutools import generate
    from sudokutools.shell import Shell
    from sudokutools.sudoku import Sudoku
    found = 0
    if name == "shell":
        out = io.StringIO()
        shell = Shell(interactive=True, infile=io.StringIO(""), outfile=out)
    for i in range(k):
        if name == "generate":
            generate.generate(box_size=(2, 2), min_count=rng.randint(0, 16))
            continue
        if name == "create":
            generate.create_solution((2, rng.choice([2, 3])))
            continue
        w, h, grid = small_grid(rng)
        s = work.to_sudoku(grid, w, h)
        if name == "template":
            try:
                generate.generate_from_template(s, tries=1)
            except RuntimeError:
                pass
        elif name == "shell":
            for line in ("decode '%s' box_size=(%d,%d)" % (s.encode(), w, h),
                         "push; init_candidates; view; pop 0; encode",
                         "foo%d; set 0 0 %d; get 9%d 9; print" % (
                             i, i % 4, i),
                         "loop 2; set 0 0 %d; get_candidates 1 0; loop end"
                         % (i % 3)):
                shell.execute_line(line)
            out.seek(0)
            out.truncate()
        elif name == "many":
            u = s.copy()
            u.equals(s, True)
            u != s
            hash(str(u))
            repr(u)
            Sudoku.decode(s.encode(), box_size=(w, h))
        elif name in SCALARS:
            scalar(name, s)
        else:
            if rng.random() < 0.7:
                sprinkle(rng, s)
            x = list(islice(start(name, s), 20))
            if name not in ("iter", "empty", "filled"):
                found += len(x)
            del x
    return found


def memory(rng, mon, k):
    name = mon.index_of(MEMORY)
    if name in ("generate", "create", "template", "solve", "hints", "shell",
                "rate", "score", "coords", "defaults"):
        k //= 4 if name == "generate" else 2

    def window():
        with Streams():
            found = mon.call(name, used, rng, mon, name, k)
        mon.count("results dropped", found)
        gc.collect()
        mon.count("windows")
        return tracemalloc.get_traced_memory()[0]
    window()
    tracemalloc.start()
    try:
        sizes = [window() for _ in range(4)]
    finally:
        tracemalloc.stop()
    grown = [b - a for a, b in zip(sizes, sizes[1:])]
    mon.check(min(grown) < GROWTH * k, "%s: memory is never released" % name,
              calls=k, grown=grown)
    mon.evaluated((name, mon.index))
    mon.sample(function=name, calls=k * 5, traced=sizes)


# ------------------------------------------------------------ shell

def shell(rng, mon):
    """All that a session prints goes to its output file."""
    from sudokutools.shell import Shell
    out = io.StringIO()
    lines = []
    for _ in range(rng.randint(3, 12)):
        lines.append(rng.choice([
            "print", "view", "encode", "new (2,2)", "push", "stack", "pop",
            "init_candidates", "get 0 0", "help", "help view", "help pop",
            "set 0 0 1", "get_candidates 0 0", "decode '1234341221434320'",
            "solve", "encode include_candidates=True", "loop 2; print;"
            "loop end", "generate box_size=(2,2)", "generate_from_template "
            "tries=1", "remove_candidates 0 0 [1]", "set_candidates 0 0 "
            "[1]"]))
    interactive = rng.random() < 0.7
    text_in = io.StringIO("\n".join(lines) + "\n")

    def session():
        sh = Shell(interactive=interactive, infile=text_in, outfile=out)
        stop = sys.stderr = io.StringIO()
        try:
            if rng.random() < 0.5:
                sh.run()
            else:
                for line in lines:
                    sh.execute_line(line)
        except SystemExit:
            pass
        finally:
            sys.stderr = err
        return stop.getvalue()
    # errors belong to the error stream
    with Streams():
        err = sys.stderr

        def run():
            nonlocal err
            err = sys.stderr
            return session()
        judged(mon, "a session with an output file", run, True, lines=lines)
    mon.count("shell lines", len(lines))
    mon.evaluated(tuple(lines), nontrivial=bool(out.getvalue()))
    mon.sample(lines=lines[:6], printed=out.getvalue()[:100])


def case(kind, rng, mon):
    if kind == "silent":
        silent(rng, mon)
    elif kind == "shell":
        shell(rng, mon)
    else:
        memory(rng, mon, 1000)
