"""C12 - rating and score reflect the easiest sufficient techniques."""
from vf import oracle, work
from vf.core import Skip
from vf.lib import ctext, step_key, text
from vf.oracle import Geo, LEVELS
from vf.states import bank_puzzle

ID = "C12"
LEVEL = "exploration"
FILES = ["analyze.py", "solvers.py"]
RULE = ("one case = one solvable sudoku; rate and score are compared with the "
        "levels of the steps that step-by-step solving reports, and whenever "
        "the reported technique changes an independent implementation checks "
        "that no easier technique applies in that state; both are repeated "
        "with other candidates and on copies; non-trivial = not complete")
ASSUMPTIONS = ["easier = a lower documented difficulty level; within a level "
               "any order is accepted",
               "the trace check needs both box sides to be at least 2"]
PLAN = {
    "quick": [("unique", 420), ("singles", 150), ("multi", 200),
              ("complete", 60), ("hard", 60), ("shape", 80),
              ("bank", 250)],
    "thorough": [("unique", 7000), ("singles", 2500), ("multi", 3200),
                 ("complete", 960), ("hard", 1500), ("shape", 1280),
                 ("bank", 4000)],
}
REQUIRE = {"technique changes": 1500, "rating 0": 30, "rating 1": 100,
           "rating 10": 60, "rating 2-7": 25,
           "level 3": 25, "level 4": 50,
           "level 5": 20, "level 6": 20, "level 7": 10}


def observe(mon, rng, grid, w, h, note):
    from sudokutools import solvers
    from sudokutools.analyze import rate, score
    g = Geo(w, h)
    n = g.n
    s = work.to_sudoku(grid, w, h)
    steps = []
    mon.call("solve", solvers.solve, s, steps.append)
    for name in sorted({type(x).__name__ for x in steps}):
        mon.count("uses " + name)
    for level in sorted({LEVELS.get(type(x).__name__) for x in steps} - {
            None}):
        mon.count("level %d" % level)
    levels = [LEVELS.get(type(x).__name__) for x in steps]
    mon.check(None not in levels, "an unknown technique was used")
    want_rate, want_score = max(levels or [0]), sum(levels)
    r, sc = mon.call("rate", rate, s), mon.call("score", score, s)
    mon.check(r == want_rate, "the rating is not the highest level used",
              box=(w, h), grid=text(grid), rate=r, highest=want_rate)
    mon.check(sc == want_score, "the score is not the sum of the levels used",
              box=(w, h), grid=text(grid), score=sc, sum=want_score)
    empty = sum(row.count(0) for row in grid)
    if not 0 <= sc <= 10 * empty:
        mon.fail("the score is outside of 0 .. 10 * empty fields",
                 known="score-formula-unbounded" if sc == want_score
                 and 10 in levels and sc > 0 else None,
                 box=(w, h), grid=text(grid), score=sc, empty=empty)
    mon.check((r == 0) == (empty == 0), "rating 0 for an incomplete sudoku, "
              "or another for a complete one", grid=text(grid), rate=r)
    if empty:
        simple = oracle.singles_close(grid, w, h)
        mon.check((r == 1) == bool(simple), "rating 1 does not mean that "
                  "singles suffice", box=(w, h), grid=text(grid), rate=r,
                  singles_suffice=bool(simple))
    guessed = any(type(x).__name__ == "Bruteforce" for x in steps)
    mon.check((r == 10) == guessed, "rating 10 does not mean guessing",
              grid=text(grid), rate=r)
    mon.count("rating 2-7" if 2 <= r <= 7 else "rating %d" % r)
    mon.count("rated %d" % r)
    # nothing but the numbers counts
    t = work.to_sudoku(grid, w, h)
    for rc in g.cells:
        t.set_candidates(rc[0], rc[1], rng.sample(
            range(1, n + 1), rng.randint(0, n)))
    order = [("rate", rate, r), ("score", score, sc)] * 2
    rng.shuffle(order)
    for name, fn, want in order:
        got = mon.call(name, fn, t)
        mon.check(got == want, name + " depends on the candidates or on "
                  "earlier calls", box=(w, h), grid=text(grid), got=got,
                  before=want)
        t = t.copy(include_candidates=rng.random() < 0.5)
    # the trace
    if w >= 2 and h >= 2 and n <= 12:
        trace(mon, grid, w, h, g, steps)
    mon.evaluated((w, h, text(grid)), nontrivial=empty > 0)
    mon.sample(box=(w, h), grid=text(grid), rate=r, score=sc, note=note)


def trace(mon, grid, w, h, g, steps):
    num = {(r, c): grid[r][c] for r, c in g.cells}
    cand = {rc: frozenset(x) for rc, x in
            oracle.all_candidates(grid, w, h).items()}
    last = "CalculateCandidates"
    for i, step in enumerate(steps):
        key = step_key(step)
        name = key[0]
        if name == "CalculateCandidates":
            continue
        if name != last and name != "Bruteforce" or \
                (name == "Bruteforce" and last != "Bruteforce"):
            mon.count("technique changes")
            for easier in oracle.ORDER[1:-1]:
                if LEVELS[easier] >= LEVELS[name]:
                    continue
                found = oracle.instances(easier, g, num, cand)
                if found:
                    mon.fail("%s is used while %s applies" % (name, easier),
                             box=(w, h), grid=text(grid), position=i,
                             step=repr(step), easier=repr(sorted(found)[0]),
                             candidates=ctext(cand))
            mon.count("assertions")
        last = name
        as_name = "NakedSingle" if name == "Bruteforce" else name
        num, cand = oracle.apply_instance(g, num, cand, (as_name,) + key[1:])


def case(kind, rng, mon):
    shapes = [(3, 3)] * 4 + [(2, 3), (3, 2), (2, 4), (4, 2), (2, 2)]
    w, h = rng.choice(shapes)
    sol = work.solution(rng, w, h)
    if kind == "unique":
        g = work.dig_unique(rng, sol, w, h, goal=rng.choice(
            [0, 0, 0, rng.randint(0, (w * h) ** 2)]))
        observe(mon, rng, g, w, h, kind)
    elif kind == "singles":
        observe(mon, rng, work.dig(rng, sol, w, h, rng.uniform(0, 0.5)), w, h,
                kind)
    elif kind == "multi":
        observe(mon, rng, work.dig(rng, sol, w, h, rng.uniform(0.5, 1.0)), w,
                h, kind)
    elif kind == "complete":
        w, h = rng.choice(work.TINY + work.SMALL + [(3, 3)])
        sol = work.solution(rng, w, h)
        observe(mon, rng, sol, w, h, kind)
        r, c = rng.randrange(w * h), rng.randrange(w * h)
        one = [list(x) for x in sol]
        one[r][c] = 0
        observe(mon, rng, one, w, h, "one field empty")
    elif kind == "hard":
        grid = work.scramble(rng, work.parse9(rng.choice(work.HARD9)), 3, 3)
        observe(mon, rng, grid, 3, 3, kind)
    elif kind == "bank":
        w, h, grid = bank_puzzle(rng)
        observe(mon, rng, grid, w, h, kind)
    elif kind == "shape":
        w, h = rng.choice(work.TINY + [(1, 5), (5, 1), (2, 5), (5, 2), (3, 4),
                                       (4, 3), (4, 4)])
        sol = work.solution(rng, w, h)
        observe(mon, rng, work.dig(rng, sol, w, h, rng.uniform(0, 0.45)), w,
                h, kind)
