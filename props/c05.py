"""C05 - calls do not influence each other."""
import random
import sys
import threading
from collections import Counter
from itertools import islice

from vf import oracle, work
from vf.core import REPO, Skip
from vf.lib import LOGICAL, step_key, technique, text
from vf.zygote import Foreign, Zygote

ID = "C05"
LEVEL = "exploration"
FILES = ["solve.py", "dlx.py", "solvers.py", "analyze.py", "sudoku.py"]
RULE = ("interleave: 2 to 6 enumerations and step searches on equal, shared "
        "and different sudokus are advanced one by one in a random order, "
        "some abandoned; threads: 3 to 6 threads with a tiny switch interval "
        "work on their own sudokus; history: calls after a random history; "
        "family: one function on sudokus that differ in little (boxes, "
        "candidates, a clue, numbers swapped); process: calls in interpreters "
        "with other hash seeds. "
        "Each result is compared with the same call made alone in a fresh "
        "process; non-trivial = the compared result is not empty")
ASSUMPTIONS = ["results of enumerations and searches are compared as "
               "multisets, not by their order",
               "generation is random, so it is part of histories only; what "
               "it returns is judged by C13"]
PLAN = {
    "quick": [("interleave", 300), ("twins", 200), ("threads", 100), ("history", 220),
              ("family", 150), ("process", 60)],
    "thorough": [("interleave", 6000), ("twins", 5000), ("threads", 3000), ("history", 6000),
                 ("family", 4000), ("process", 1500)],
}
REQUIRE = {"switches": 1500, "thread results": 400,
           "threads on the same sudoku": 15, "twins compared": 1500,
           "altered in place": 300, "compared": 1500,
           "relatives compared": 800,
           "compared with another process": 500}

_Z = []


def build(spec):
    """spec: (w, h, grid, cand or None)"""
    w, h, grid, cand = spec
    s = work.to_sudoku(grid, w, h)
    if cand:
        work.set_cands(s, cand)
    return s


LIMIT = 5000      # of results; all specs stay below it


def start(name, s):
    """An iterator over comparable results."""
    from sudokutools import analyze, solve, solvers
    if name in ("dlx", "bruteforce"):
        return (work.grid_of(x) for x in getattr(solve, name)(s))
    if name == "hints":
        return (step_key(x) for x in solvers.hints(s))
    if name == "conflicts":
        return iter(analyze.find_conflicts(s))
    if name in ("empty", "filled"):
        return iter(getattr(s, name)())
    if name == "iter":
        return iter(s)
    return (step_key(x) for x in technique(name).find(s))


def scalar(name, s):
    from sudokutools import analyze, solve, solvers
    from sudokutools import notation
    from sudokutools.sudoku import Sudoku, view
    if name == "solve":
        steps = []
        out = solvers.solve(s, steps.append)
        return (work.grid_of(out), [step_key(x) for x in steps])
    if name == "init":
        t = s.copy()
        solve.init_candidates(t)
        return work.snapshot(t)
    if name == "view":
        return view(s)
    if name == "encode":
        return s.encode("/", ",", True)
    if name == "decode":
        sep = ","
        return work.snapshot(Sudoku.decode(
            s.encode(sep, sep), number_sep=sep, box_size=s.box_size))
    if name in TEXTS:
        return fixed_text(name, s.box_width, s.box_height)
    if name == "texts":
        return [fixed_text(t, s.box_width, s.box_height) for t in TEXTS]
    if name == "notation":
        c = list(s.filled()) or [(0, 0)]
        t = notation.encode(c, s.box_width, s.box_height)
        return t, notation.decode(t, s.box_width, s.box_height)
    if name == "view2":
        return view(s, True, " ", ":", "=")
    if name == "coords":
        from sudokutools import coordinates as co
        return coords_of(co, s)
    if name == "bad calls":
        return bad_calls(s)
    if name == "defaults":
        return defaults()
    if name == "action":
        return actions_on(s)
    if name == "diff":
        t = s.copy()
        for r, c in list(s)[::4]:
            t[r, c] = 0
        return sorted(s.diff(t)), sorted(t.diff(s))
    if name == "calc":
        out = []
        for r, c in s:
            x = solve.calc_candidates(s, r, c)
            out.append(frozenset(x))
            if isinstance(x, set):
                x.clear()
        return out
    if name == "eq":
        t = s.copy()
        return (s == t, t == s, s != t, s == 5, len(list(s.diff(t))))
    if name == "peers":
        return [sorted(s.surrounding_of(r, c, include=False)) for r, c in s]
    return getattr(analyze, name)(s)


def coords_of(co, s):
    """Coordinate functions; the lists handed out are changed afterwards."""
    w, h = s.box_width, s.box_height
    out = []
    for r, c in list(s)[::3]:
        for fn in (co.row_of, co.column_of, co.box_of, co.surrounding_of):
            for include in (True, False):
                x = fn(r, c, w, h, include)
                out.append(sorted(x))
                if isinstance(x, list):
                    del x[:]
        out.append(co.box_at(r, c, w, h))
    for i in range(w * h):
        for fn in (co.the_row, co.the_column, co.the_box):
            out.append(sorted(fn(i, w, h)))
    for i in range(w):
        out.append(sorted(co.the_part(i, w, h)))
    return out


def bad_calls(s):
    """Calls that are refused, and what they leave behind."""
    from sudokutools import coordinates as co
    from sudokutools import generate, notation
    from sudokutools.sudoku import Sudoku
    w, h = s.box_width, s.box_height
    n = w * h
    out = []
    for fn in (lambda: Sudoku.decode("1" * (n * n + 2), box_size=(w, h)),
               lambda: Sudoku.decode("1,2,x", number_sep=","),
               lambda: co.the_row(n, w, h),
               lambda: co.the_box(-1, w, h),
               lambda: notation.decode("r", w, h),
               lambda: notation.decode("r1c%d" % (n + 1), w, h),
               lambda: notation.decode_action("r1c1~1", w, h),
               lambda: generate.generate(min_count=n ** 2 + 1,
                                         box_size=(w, h)),
               lambda: generate.generate(symmetry="x", box_size=(w, h)),
               lambda: s[n, 0],
               lambda: s.set_candidates(0, n, {1})):
        try:
            fn()
            out.append("ok")
        except (ValueError, IndexError) as e:
            out.append(type(e).__name__)
    return out


def defaults():
    """Everything that has one is called with its defaults."""
    import io
    from sudokutools import coordinates as co
    from sudokutools import actions, generate, notation, solve
    from sudokutools.shell import Shell
    from sudokutools.sudoku import Sudoku, view
    s = Sudoku()
    out = [work.snapshot(s), s.encode(), view(s), s.copy() == s]
    t = Sudoku.decode(work.HARD9[0])
    out += [work.snapshot(t), t.encode(), t.encode(include_candidates=True),
            t.equals(t.copy()), work.grid_of(t.copy())]
    solve.init_candidates(t)
    out += [work.snapshot(t), view(t), work.snapshot(t.copy()),
            t.equals(t.copy(), True)]
    u = Sudoku.decode("1234341221434321|12,,3")
    out += [work.snapshot(u)]
    for fn in (co.row_of, co.column_of, co.box_of, co.surrounding_of):
        out.append(sorted(fn(3, 5)))
    out.append(co.box_at(8, 8))
    for fn in (co.the_row, co.the_column, co.the_box, co.the_part):
        out.append(sorted(fn(1)))
    out.append(notation.decode("b5p23"))
    out.append(notation.decode(notation.encode([(0, 0), (8, 8), (3, 4)])))
    a = notation.decode_action("r9c9=9")
    out.append((type(a).__name__, list(a.coordinates)))
    out.append(notation.decode(notation.encode_action(
        actions.SetNumber([(4, 7)], 3)).split("=")[0]))
    g = generate.create_solution()
    out.append((g.box_size, g.count()))
    out.append(generate.generate(81).count())
    text = io.StringIO()
    shell = Shell(interactive=False, infile=io.StringIO(""), outfile=text)
    for line in ("stack", "encode", "print", "new", "encode",
                 "init_candidates", "view", "encode include_candidates=True",
                 "push", "stack", "generate min_count=81", "pop",
                 "encode"):
        shell.execute_line(line)
    out.append(text.getvalue())
    return out


TEXTS = ("r1", "c2", "b1", "b2", "p1", "p2", "b1p2", "r2b2", "c1p1", "r1,2",
         "r1c1,r2c2", "r12", "b3", "r1c1=1", "-1 r2c1", "b2<>2", "p3")


def fixed_text(t, w, h):
    """The same description, whatever the size is."""
    from sudokutools import notation
    try:
        if set(t) & set("=-<"):
            got = notation.decode_action(t, w, h)
            return type(got).__name__, tuple(got.coordinates)
        return tuple(notation.decode(t, w, h))
    except ValueError:
        return "refused"


def actions_on(s):
    from sudokutools import actions, notation
    w, h = s.box_width, s.box_height
    t = s.copy(include_candidates=True)
    cells = list(s.filled())[:5] or [(0, 0)]
    for a in (actions.SetNumber(cells, 1),
              actions.RemoveCandidates(list(s)[::2], {1, 2})):
        x = notation.encode_action(a, w, h)
        notation.decode_action(x, w, h)(t)
    return work.snapshot(t)


ITERS = ["dlx", "dlx", "dlx", "bruteforce", "bruteforce", "hints",
         "conflicts", "empty", "filled", "iter", "CalculateCandidates"] \
    + LOGICAL
SCALARS = ["solve", "init", "view", "view2", "coords", "bad calls", "action",
           "texts", "defaults", "eq", "diff", "calc", "encode", "decode", "notation", "peers",
           "rate", "score", "is_unique", "is_solved"]


def handler(req):
    name, spec = req
    random.seed(1)
    s = build(spec)
    if name in SCALARS or name in TEXTS:
        return scalar(name, s)
    return list(islice(start(name, s), LIMIT))


def alone(name, spec):
    if not _Z:
        _Z.append(Zygote(handler))
    status, res = _Z[0].ask((name, spec))
    return status, res


def make_spec(rng, small=False):
    shapes = work.TINY[1:] + work.SMALL + [(3, 3), (3, 3), (2, 4), (4, 2),
                                           (2, 5), (5, 2), (3, 4), (4, 3)]
    w, h = rng.choice(shapes)
    if rng.random() < 0.5:
        grid, sols = work.puzzle_limited(rng, w, h, 59, lo=0.3, hi=0.7)
        cand = None
    else:
        grid, cand, _ = work.state(rng, w, h, rng.uniform(0.2, 0.6))
        try:
            if len(oracle.solutions(grid, w, h, 60,
                                    max_nodes=20000)) >= 60:
                raise oracle.OracleLimit()
        except oracle.OracleLimit:
            grid, sols = work.puzzle_limited(rng, w, h, 59)
            cand = None
    if 1 < w * h <= 9 and rng.random() < 0.15:
        # conflicts, perhaps fields without candidates
        for _ in range(rng.randint(1, 3)):
            grid = work.add_conflict(rng, grid, w, h)
        cand = None
    return (w, h, [list(r) for r in grid],
            dict(cand) if cand else None)


def relative(rng, spec):
    """Another sudoku that has much in common with a given one."""
    w, h, grid, cand = spec
    n = w * h
    grid = [list(r) for r in grid]
    how = rng.randrange(6)
    if how == 0:
        # the same numbers, other boxes
        w, h = rng.choice([(a, n // a) for a in range(1, n + 1) if n % a == 0])
        cand = None
    elif how == 1:
        # the same numbers, other candidates
        if cand:
            cand = None
        else:
            cand = {rc: frozenset(x) for rc, x in
                    oracle.all_candidates(grid, w, h).items()}
    elif how == 2 and cand:
        # a candidate less
        cand = dict(cand)
        opts = [rc for rc in sorted(cand) if len(cand[rc]) > 1]
        for rc in rng.sample(opts, min(len(opts), 3)):
            cand[rc] = cand[rc] - {rng.choice(sorted(cand[rc]))}
    elif how == 3:
        # one clue more or less
        r, c = rng.randrange(n), rng.randrange(n)
        grid[r][c] = 0 if grid[r][c] else rng.randint(1, n)
        cand = None
    elif how == 4:
        # numbers swapped
        a, b = rng.randint(1, n), rng.randint(1, n)
        swap = {a: b, b: a}
        grid = [[swap.get(v, v) for v in row] for row in grid]
        cand = None
    else:
        # transposed
        grid = [list(x) for x in zip(*grid)]
        w, h = h, w
        cand = None
    try:
        if len(oracle.solutions(grid, w, h, 60, max_nodes=20000)) >= 60:
            return spec
    except oracle.OracleLimit:
        return spec
    return w, h, grid, cand


def altered(rng, spec):
    """A sudoku of the same size with as many clues."""
    w, h, grid, cand = spec
    n = w * h
    grid = [list(r) for r in grid]
    filled = [(r, c) for r in range(n) for c in range(n) if grid[r][c]]
    empty = [(r, c) for r in range(n) for c in range(n) if not grid[r][c]]
    how = rng.randrange(4)
    if n > 4 or how == 0:
        perm = list(range(1, n + 1))
        rng.shuffle(perm)
        grid = [[perm[v - 1] if v else 0 for v in r] for r in grid]
        cand = {rc: frozenset(perm[v - 1] for v in x)
                for rc, x in cand.items()} if cand else None
    elif how == 1 and filled and empty:
        (a, b), (r, c) = rng.choice(filled), rng.choice(empty)
        grid[r][c], grid[a][b], cand = grid[a][b], 0, None
    elif filled:
        r, c = rng.choice(filled)
        grid[r][c], cand = rng.randint(1, n), None
    else:
        return None
    return w, h, grid, cand


def make_specs(rng, k):
    specs = [make_spec(rng)]
    while len(specs) < k:
        specs.append(relative(rng, rng.choice(specs)) if rng.random() < 0.6
                     else make_spec(rng))
    return specs


def family(rng, mon):
    """One function on sudokus that have much in common."""
    specs = [make_spec(rng)]
    for _ in range(rng.randint(3, 7)):
        specs.append(relative(rng, specs[0] if rng.random() < 0.7
                              else rng.choice(specs)))
    if rng.random() < 0.4:
        specs += [make_spec(rng), make_spec(rng)]
    rng.shuffle(specs)
    names = rng.sample(SCALARS, 3) + rng.sample(ITERS, 1)
    for name in names:
        for spec in specs:
            s = build(spec)
            got = mon.call(name, lambda: scalar(name, s) if name in SCALARS
                           else list(islice(start(name, s), LIMIT)))
            mon.count("relatives compared")
            compare(mon, name, spec, got, "after the same call on a relative")
    for name in rng.sample(TEXTS, 3):
        w, h = rng.choice(work.SMALL + work.MEDIUM)
        shapes = [(w, h), (h, w), (w, rng.randint(1, 5)),
                  (rng.randint(1, 5), h), (w * h, 1)]
        rng.shuffle(shapes)
        for w, h in shapes:
            spec = (w, h, work.blank(w * h), None)
            s = build(spec)
            got = mon.call(name, scalar, name, s)
            mon.count("texts compared")
            compare(mon, name, spec, got, "after another size")
    mon.sample(functions=names, sudokus=len(specs))


def norm(name, x):
    if name in SCALARS or name in TEXTS:
        return x
    return Counter(x)


def compare(mon, name, spec, got, where):
    status, want = alone(name, spec)
    if status != "ok":
        mon.fail(name + " alone in a fresh process raised", error=want,
                 clues=text(spec[2]))
    mon.count("compared")
    if norm(name, got) != norm(name, want):
        mon.fail("%s: another result %s than alone in a fresh process"
                 % (name, where), box=spec[:2], clues=text(spec[2]),
                 alone=repr(want)[:600], here=repr(got)[:600])
    mon.evaluated((name, where, spec[0], spec[1], text(spec[2])),
                  nontrivial=bool(got))


_F = {}


def process(rng, mon):
    """The same call in an interpreter with another hash seed."""
    seed = rng.choice([0, 1, 2])
    if seed not in _F:
        _F[seed] = Foreign("props.c05", seed, REPO)
    for _ in range(20):
        spec = make_spec(rng)
        name = rng.choice([x for x in ITERS + SCALARS + list(TEXTS[:4])
                           if x not in LOGICAL or rng.random() < 0.3])
        if rng.random() < 0.3:
            # which solution is found first shows the order of the search
            name = "solve"
        status, got = _F[seed].ask((name, spec))
        if status != "ok":
            mon.fail(name + " in another process raised", error=got,
                     clues=text(spec[2]))
        mon.count("compared with another process")
        compare(mon, name, spec, got, "in a process with another hash seed")
    mon.sample(hashseed=seed, last=name)


def case(kind, rng, mon):
    if not _Z:
        # before anything of the library has run in this worker
        _Z.append(Zygote(handler))
    {"interleave": interleave, "twins": twins, "threads": threads,
     "history": history, "family": family, "process": process}[kind](rng, mon)


def interleave(rng, mon):
    specs = make_specs(rng, rng.randint(1, 4))
    shared = {}
    tasks = []
    for i in range(rng.randint(3, 7)):
        k = rng.randrange(len(specs))
        name = rng.choice(ITERS)
        # the same object, or an equal one
        if rng.random() < 0.5:
            s = shared.setdefault(k, build(specs[k]))
        else:
            s = build(specs[k])
        tasks.append([name, specs[k], mon.call(name, start, name, s), [],
                      True])
    live = list(tasks)
    last = None
    order = []
    while live:
        t = rng.choice(live)
        if t is not last:
            mon.count("switches")
        last = t
        order.append(tasks.index(t))
        burst = rng.choice([1, 1, 1, 1, 1, 2, 5])
        got = mon.call(t[0], lambda: list(islice(t[2], burst)))
        t[3].extend(got)
        if len(got) < burst or len(t[3]) >= LIMIT:
            live.remove(t)
            t[3] = t[3][:LIMIT]
        elif rng.random() < 0.01:
            # abandoned half way
            if hasattr(t[2], "close"):
                t[2].close()
            t[4] = False
            live.remove(t)
            mon.count("abandoned")
    for name, spec, _, got, complete in tasks:
        if complete:
            compare(mon, name, spec, got, "interleaved")
    mon.sample(tasks=[t[0] for t in tasks], advances=len(order),
               order="".join(map(str, order))[:60])
    mon.distinct.add(hash(tuple(order)) & 0xffffffffffffffff)


def twins(rng, mon):
    """One step search on two or three sudokus full of steps, in turns."""
    w, h = rng.choice(work.SMALL + [(3, 3), (3, 3), (2, 4), (4, 2)])
    n = w * h
    for name in rng.sample(LOGICAL + ["hints"], 8):
        specs = []
        for _ in range(rng.randint(1, 2)):
            digits = rng.sample(range(1, n + 1), rng.randint(2, n))
            most = min(rng.choice([2, 2, 3, 4]), len(digits))
            share = rng.choice([0.1, 0.3, 0.6, 1.0])
            grid = [[rng.randint(1, n) if rng.random() < 0.1 else 0
                     for _ in range(n)] for _ in range(n)]
            cand = {(r, c): frozenset(rng.sample(digits, rng.randint(1, most))
                                      if rng.random() < share else ())
                    for r in range(n) for c in range(n)}
            specs.append((w, h, grid, cand))
        tasks = [(spec, mon.call(name, start, name, build(spec)), [])
                 for spec in specs + [rng.choice(specs)
                                      for _ in range(rng.randint(1, 2))]]
        live = list(tasks)
        while live:
            t = rng.choice(live)
            got = mon.call(name, lambda: list(islice(t[1], 1)))
            t[2].extend(got)
            if not got or len(t[2]) >= LIMIT:
                live.remove(t)
            mon.count("turns")
        for spec, _, got in tasks:
            mon.count("twins compared")
            compare(mon, name, spec, got, "in turns with the same search")
    mon.sample(box=(w, h), last=name)


def threads(rng, mon):
    n = rng.randint(3, 6)
    jobs = [[(rng.choice(ITERS + SCALARS * 2), make_spec(rng))
             for _ in range(rng.randint(1, 4))] for _ in range(n)]
    # Several threads may read the same sudoku.
    shared = {}
    if rng.random() < 0.5:
        specs = make_specs(rng, rng.randint(1, 2))
        jobs = [[(a, rng.choice(specs) if rng.random() < 0.8 else b)
                 for a, b in j] for j in jobs]
        shared = {id(x): build(x) for x in specs}
        mon.count("threads on the same sudoku")
    results = [[] for _ in jobs]
    errors = []
    gate = threading.Barrier(n)

    def run(i):
        try:
            gate.wait()
            for name, spec in jobs[i]:
                s = shared.get(id(spec)) or build(spec)
                if name in SCALARS:
                    results[i].append(scalar(name, s))
                else:
                    results[i].append(list(islice(start(name, s), LIMIT)))
        except Exception as e:
            errors.append((i, repr(e)))
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=run, args=(i,), daemon=True)
              for i in range(n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    mon.check(not errors, "a call in a thread raised", errors=errors[:3],
              jobs=[[a for a, _ in j] for j in jobs])
    for i, j in enumerate(jobs):
        for (name, spec), got in zip(j, results[i]):
            mon.count("thread results")
            compare(mon, name, spec, got, "in a thread")
    mon.sample(threads=n, calls=[[a for a, _ in j] for j in jobs])


def history(rng, mon):
    from sudokutools import generate
    specs = make_specs(rng, rng.randint(1, 4))
    objs = [build(s) for s in specs]
    twins = [build(s) for s in specs]
    keep = []
    for _ in range(rng.randint(3, 25)):
        k = rng.randrange(len(specs))
        what = rng.random()
        if what < 0.55:
            name = rng.choice(ITERS)
            it = mon.call(name, start, name, objs[k] if rng.random() < 0.4
                          else build(specs[k]))
            mon.call(name, lambda: list(islice(it, rng.choice([1, 2, 100]))))
            keep.append(it)
        elif what < 0.85:
            name = rng.choice(SCALARS)
            mon.call(name, scalar, name, objs[k] if rng.random() < 0.4
                     else build(specs[k]))
        elif what < 0.95:
            mon.call("generate", generate.generate, rng.choice([0, 10]), None,
                     rng.choice([(2, 2), (2, 3), (3, 2)]))
        else:
            try:
                generate.generate_from_template(build(specs[k]), tries=1)
            except RuntimeError:
                pass
        if rng.random() < 0.15:
            # one object becomes another sudoku of the same size, in place
            same = [i for i in range(len(specs))
                    if specs[i][:2] == specs[k][:2]]
            i = rng.choice(same)
            for r, c in list(objs[k]):
                objs[k][r, c] = twins[i][r, c]
                objs[k].set_candidates(r, c, twins[i].get_candidates(r, c))
            specs[k] = specs[i]
            twins[k] = twins[i]
            mon.count("overwritten in place")
        mon.count("history calls")
    for _ in range(5):
        k = rng.randrange(len(specs))
        name = rng.choice(ITERS + SCALARS)
        s = objs[k]
        got = mon.call(name, lambda: scalar(name, s) if name in SCALARS
                       else list(islice(start(name, s), LIMIT)))
        compare(mon, name, specs[k], got, "after other calls")
        while rng.random() < 0.6:
            # the same object, changed a little
            new = altered(rng, specs[k])
            if new is None:
                break
            specs[k] = new
            for r, c in list(s):
                s[r, c] = new[2][r][c]
                if new[3]:
                    s.set_candidates(r, c, new[3].get((r, c), ()))
                else:
                    s.set_candidates(r, c, ())
            mon.count("altered in place")
            got = mon.call(name, lambda: scalar(name, s) if name in SCALARS
                           else list(islice(start(name, s), LIMIT)))
            compare(mon, name, new, got, "after a change in place")
    mon.sample(sudokus=len(specs), history=mon.counts["history calls"])
