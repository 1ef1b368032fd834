"""C04 - the given sudoku is never changed; results are independent."""
from collections import Counter
from itertools import islice

from vf import oracle, work
from vf.core import Skip
from vf.lib import LOGICAL, solver, technique, text

ID = "C04"
LEVEL = "exploration"
FILES = ["solve.py", "dlx.py", "solvers.py", "analyze.py", "sudoku.py",
         "generate.py"]
RULE = ("reader: every solving, analysing, searching, rating, printing and "
        "comparing function runs on a sudoku with numbers and candidates, its "
        "result consumed fully, partly or not at all, and the sudoku is "
        "compared before, during and after; mutate: solutions handed out, and "
        "the input, are overwritten during an enumeration and the rest is "
        "compared with the independent enumeration; non-trivial = the function "
        "yielded or returned something")
ASSUMPTIONS = ["step searches are lazy by design: the searched sudoku is not "
               "changed by the harness while a search is running"]
PLAN = {
    "quick": [("reader", 3500), ("mutate", 3500), ("results", 2500)],
    "thorough": [("reader", 77000), ("mutate", 77000), ("results", 55000)],
}
REQUIRE = {"reader calls": 8000, "watched sudokus": 300, "mutations": 1500}


def spoil(rng, s):
    """Overwrite a sudoku."""
    n = s.box_width * s.box_height
    for r in range(n):
        for c in range(n):
            if rng.random() < 0.7:
                s[r, c] = rng.randint(0, n)
            if rng.random() < 0.5:
                s.set_candidates(r, c, rng.sample(range(1, n + 1),
                                                  rng.randint(0, n)))


def watched(s, log):
    """A copy of s which notes every write that changes one of its values,
    also if the value is put back later (another thread, or the caller of an
    interrupted function, would see it)."""
    from sudokutools.sudoku import Sudoku

    class Watched(Sudoku):
        me = None

        def noting(self, how, row, col, change):
            # Copies (of whatever kind) aren't the given sudoku.
            if self.me != id(self):
                return change()
            old = self[row, col], set(self.get_candidates(row, col))
            res = change()
            if old != (self[row, col], set(self.get_candidates(row, col))):
                log.append((how, row, col))
            return res

        def __setitem__(self, key, value):
            sup = super(Watched, self)
            return self.noting("[]=", key[0], key[1],
                               lambda: sup.__setitem__(key, value))

        def set_number(self, row, col, value):
            sup = super(Watched, self)
            return self.noting("set_number", row, col,
                               lambda: sup.set_number(row, col, value))

        def set_candidates(self, row, col, value):
            sup = super(Watched, self)
            return self.noting("set_candidates", row, col,
                               lambda: sup.set_candidates(row, col, value))

        def remove_candidates(self, row, col, value):
            sup = super(Watched, self)
            return self.noting("remove_candidates", row, col,
                               lambda: sup.remove_candidates(row, col, value))

    new = Watched(box_size=(s.box_width, s.box_height))
    n = s.box_width * s.box_height
    for r in range(n):
        for c in range(n):
            new[r, c] = s[r, c]
            new.set_candidates(r, c, set(s.get_candidates(r, c)))
    new.me = id(new)
    return new


def readers(rng, w, h):
    """(name, function of the sudoku, lazy?)"""
    from sudokutools import analyze, generate, solve, solvers
    from sudokutools.sudoku import Sudoku, view
    n = w * h
    r, c = rng.randrange(n), rng.randrange(n)
    other = work.to_sudoku(work.garbage(rng, w, h), w, h)
    out = [
        ("dlx", solve.dlx, True),
        ("bruteforce", solve.bruteforce, True),
        ("calc_candidates", lambda s: solve.calc_candidates(s, r, c), False),
        ("is_unique", analyze.is_unique, False),
        ("is_solved", analyze.is_solved, False),
        ("find_conflicts", analyze.find_conflicts, True),
        ("find_conflicts at", lambda s: analyze.find_conflicts(s, (r, c)),
         True),
        ("rate", analyze.rate, False),
        ("score", analyze.score, False),
        ("solve", solvers.solve, False),
        ("hints", solvers.hints, True),
        ("view", view, False),
        ("view plain", lambda s: view(s, include_candidates=False), False),
        ("str", str, False),
        ("encode", lambda s: s.encode(include_candidates=True), False),
        ("encode sep", lambda s: s.encode("\n", " "), False),
        ("copy", lambda s: s.copy(), False),
        ("copy with candidates",
         lambda s: s.copy(include_candidates=True), False),
        ("==", lambda s: s == other, False),
        ("!=", lambda s: other != s, False),
        ("== itself", lambda s: s == s.copy(), False),
        ("diff", lambda s: s.diff(other), True),
        ("diff of another", lambda s: other.diff(s), True),
        ("count", lambda s: s.count(), False),
        ("len", len, False),
        ("empty", lambda s: s.empty(), True),
        ("filled", lambda s: s.filled(), True),
        ("iteration", iter, True),
        ("get_candidates", lambda s: s.get_candidates(r, c), False),
        ("generate_from_template", lambda s: _template(generate, s), False),
    ]
    for name in LOGICAL + ["CalculateCandidates", "Bruteforce"]:
        out.append((name + ".find", technique(name).find, True))
    return out


def _template(generate, s):
    try:
        return generate.generate_from_template(s, tries=1)
    except RuntimeError:
        return None


def case(kind, rng, mon):
    if kind == "reader":
        reader(rng, mon)
    elif kind == "mutate":
        mutate(rng, mon)
    else:
        results(rng, mon)


def reader(rng, mon):
    how = rng.randrange(4)
    w, h = rng.choice(work.TINY + work.SMALL * 2 + [(3, 3), (2, 4), (4, 2)])
    if how == 0:
        # candidates of solved fields too, sound
        grid, cand, _ = work.state(rng, w, h, rng.uniform(0.2, 0.6))
        s = work.state_sudoku(grid, cand, w, h)
    else:
        sol = work.solution(rng, w, h)
        grid = work.dig(rng, sol, w, h, rng.uniform(0, 0.6))
        if how == 1:
            grid = work.add_conflict(rng, grid, w, h)
        s = work.to_sudoku(grid, w, h)
        if how != 2:
            # arbitrary candidates
            for r in range(w * h):
                for c in range(w * h):
                    s.set_candidates(r, c, rng.sample(
                        range(1, w * h + 1), rng.randint(0, w * h)))
    before = work.snapshot(s)
    log = []
    if rng.random() < 0.5:
        s = watched(s, log)
        mon.check(work.snapshot(s) == before, "copied by hand")
        mon.count("watched sudokus")
    todo = readers(rng, w, h)
    rng.shuffle(todo)
    open_iters = []
    for name, fn, lazy in todo:
        res = mon.call(name, fn, s)
        got = 0
        if lazy:
            it = iter(res)
            k = rng.choice([0, 1, 2, 5, 30])
            got = len(mon.call(name, lambda: list(islice(it, k))))
            after = work.snapshot(s)
            mon.check(after == before, name + " changed the sudoku",
                      before=repr(before)[:1500], after=repr(after)[:1500],
                      consumed=got)
            # left open or closed
            if rng.random() < 0.5:
                open_iters.append((name, it))
        after = work.snapshot(s)
        mon.check(after == before, name + " changed the sudoku",
                  before=repr(before)[:1500], after=repr(after)[:1500])
        mon.check(not log, name + " changed the sudoku while it ran",
                  before=repr(before)[:1500], writes=repr(log[:20]))
        mon.count("reader calls")
        mon.evaluated((name, before), nontrivial=bool(got) or res is not None)
    while open_iters:
        name, it = open_iters.pop(rng.randrange(len(open_iters)))
        mon.call(name, lambda: list(islice(it, rng.choice([1, 3, 20]))))
        if hasattr(it, "close") and rng.random() < 0.5:
            mon.call(name + ".close", it.close)
        after = work.snapshot(s)
        mon.check(after == before, name + " changed the sudoku (resumed "
                  "later)", before=repr(before)[:1500],
                  after=repr(after)[:1500])
        mon.check(not log, name + " changed the sudoku while it ran (resumed "
                  "later)", before=repr(before)[:1500],
                  writes=repr(log[:20]))
        mon.count("resumed")
    mon.sample(box=(w, h), clues=text(grid), functions=len(todo))


def mutate(rng, mon):
    w, h = rng.choice(work.TINY[1:] + work.SMALL + [(3, 3), (2, 4), (4, 2)])
    grid, sols = work.puzzle_limited(rng, w, h, 25, lo=0.4, hi=0.75)
    name = rng.choice(["dlx", "bruteforce"])
    s = work.to_sudoku(grid, w, h)
    if rng.random() < 0.5:
        for r, c in list(s):
            s.set_candidates(r, c, rng.sample(
                range(1, w * h + 1), rng.randint(0, w * h)))
    it = solver(name)(s)
    spoil_input = rng.random() < 0.5
    got, kept = [], []
    before = [work.snapshot(s)]

    def run():
        for x in it:
            got.append(work.grid_of(x))
            unchanged()
            if spoil_input:
                spoil(rng, s)
                before[0] = work.snapshot(s)
                mon.count("mutations")
            if rng.random() < 0.6:
                mine = x.copy(include_candidates=True)
                spoil(rng, x)
                mon.count("mutations")
                kept.append((x, work.snapshot(x)))
            else:
                kept.append((x, work.snapshot(x)))
            if len(got) > len(sols) + 2:
                break

    def unchanged():
        mon.check(work.snapshot(s) == before[0], name + " changed the input",
                  clues=text(grid), overwritten=spoil_input,
                  was=repr(before[0])[:800],
                  now=repr(work.snapshot(s))[:800])
    mon.call(name, run)
    unchanged()
    if Counter(got) != Counter(sols):
        mon.fail(name + ": changing a solution or the input changed what "
                 "followed", box=(w, h), clues=text(grid),
                 expected=len(sols), got=[text(g) for g in got[:5]],
                 input_changed=spoil_input)
    for x, snap in kept:
        mon.check(work.snapshot(x) == snap,
                  name + ": a solution changed after it was handed out",
                  was=repr(snap)[:800], now=repr(work.snapshot(x))[:800])
    if kept:
        spoil(rng, kept[0][0])
        mon.check(work.snapshot(s) == before[0],
                  name + ": the input changed with a solution",
                  clues=text(grid))
    mon.evaluated((name, w, h, text(grid), spoil_input), nontrivial=bool(got))
    mon.sample(solver=name, box=(w, h), clues=text(grid), solutions=len(got))


def results(rng, mon):
    """Other results share nothing with their argument."""
    from sudokutools import generate, solve, solvers
    w, h = rng.choice(work.TINY[1:] + work.SMALL + [(3, 3)])
    grid, sols = work.puzzle_limited(rng, w, h, 5, lo=0.2, hi=0.6)
    s = work.to_sudoku(grid, w, h)
    mon.call("init_candidates", solve.init_candidates, s)
    before = work.snapshot(s)
    # step-by-step solving, also of a complete or conflicting sudoku
    for sud in (s, work.to_sudoku(sols[0], w, h),
                work.to_sudoku(work.add_conflict(rng, sols[0], w, h), w, h)):
        b = work.snapshot(sud)
        out = mon.call("solve", solvers.solve, sud)
        mon.check(out is not sud, "solve returned its argument", clues=text(grid))
        spoil(rng, out)
        mon.check(work.snapshot(sud) == b, "solve: the input changed with the "
                  "result", clues=text(b[1]))
        mon.evaluated(("solve", b))
        # while it is being solved, and if the callback gives up
        class GiveUp(Exception):
            pass
        stop = rng.choice([1, 2, 5, 10 ** 9])
        seen = []

        def watch(step):
            seen.append(step)
            mon.check(work.snapshot(sud) == b, "solve: the input changed "
                      "while it was solved", clues=text(b[1]))
            if len(seen) >= stop:
                raise GiveUp()
        try:
            solvers.solve(sud, watch)
        except GiveUp:
            mon.count("abandoned by the callback")
        mon.check(work.snapshot(sud) == b, "solve changed its input",
                  clues=text(b[1]), steps=len(seen))
    # a copy of a template
    full = work.to_sudoku(work.dig(rng, sols[0], w, h, 0.05), w, h)
    b = work.snapshot(full)
    made = _template(generate, full)
    if made is not None:
        mon.check(made is not full, "template returned")
        spoil(rng, made)
    mon.check(work.snapshot(full) == b, "the template changed")
    # sets handed out
    n = w * h
    r, c = rng.randrange(n), rng.randrange(n)
    x = mon.call("calc_candidates", solve.calc_candidates, s, r, c)
    if isinstance(x, set):
        x.clear()
        x.add(99)
    mon.check(work.snapshot(s) == before, "calc_candidates: the sudoku changed "
              "with the result")
    y = mon.call("calc_candidates", solve.calc_candidates, s, r, c)
    mon.check(set(y) == oracle.candidates_of(grid, w, h, r, c),
              "calc_candidates: a result depends on what was done to the "
              "previous one", clues=text(grid), field=(r, c), got=repr(y))
    mon.count("mutations", 4)
    # steps are not changed by applying them elsewhere
    for name in LOGICAL:
        for step in islice(technique(name).find(s), 3):
            other = s.copy(include_candidates=True)
            mon.call(name + ".apply", step.apply, other)
            mon.check(work.snapshot(s) == before, name + ".apply changed "
                      "another sudoku than the given one", clues=text(grid))
            mon.count("steps applied to a copy")
    mon.evaluated((w, h, text(grid)))
