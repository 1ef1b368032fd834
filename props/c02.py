"""C02 - both low-level solvers enumerate exactly the set of solutions."""
from collections import Counter

from vf import oracle, work
from vf.core import Skip
from vf.lib import is_sudoku, solver, text

ID = "C02"
LEVEL = "exploration"
FILES = ["solve.py", "dlx.py"]
RULE = ("one case = one sudoku whose complete set of solutions (0 to 20000) is "
        "known from an independent bitmask search; both solvers are run to "
        "the end and the multiset they yield is compared with that set; "
        "non-trivial = at least one empty field")
ASSUMPTIONS = ["numbers in the input are 1..n",
               "solution sets of up to 20000 grids"]
PLAN = {
    "quick": [("few", 1050), ("tiny", 750), ("many", 60), ("none", 600),
              ("conflict", 600), ("blank", 12), ("rect", 240), ("hard", 60),
              ("large", 60), ("lots", 18), ("lines", 600),
              ("deep", 12)],
    "thorough": [("few", 11550), ("tiny", 9000), ("many", 700), ("none", 6600),
                 ("conflict", 6600), ("blank", 132), ("rect", 2640),
                 ("hard", 660), ("large", 660), ("lots", 200),
                 ("lines", 6600), ("deep", 120)],
}
REQUIRE = {"sets:0": 300, "sets:1": 150, "sets:2-9": 150, "sets:10+": 100,
           "conflict inputs": 200}
BLANK = [(1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (1, 4), (4, 1)]


def observe(mon, grid, w, h, expected, names=("dlx", "bruteforce"),
            note=""):
    k = len(expected)
    mon.count("sets:0" if not k else "sets:1" if k == 1
              else "sets:2-9" if k < 10 else "sets:10+")
    want = Counter(expected)
    for name in names:
        sud = work.dressed(mon.rng, grid, w, h)
        got = mon.collect(name, solver(name)(sud), k + 3)
        for s in got:
            mon.check(is_sudoku(s) and tuple(s.box_size) == (w, h),
                      name + ": yields something else", got=repr(s))
        have = Counter(work.grid_of(s) for s in got)
        if have != want:
            mon.fail(name + ": not exactly the solutions, each once",
                     box=(w, h), clues=text(grid), expected=k,
                     yielded=len(got),
                     missing=[text(x) for x in list(want - have)[:2]],
                     extra=[text(x) for x in list(have - want)[:2]],
                     note=note)
        mon.evaluated((name, w, h, text(grid)),
                      nontrivial=any(0 in r for r in grid))
        mon.count("solutions compared", len(got))
    mon.sample(box=(w, h), clues=text(grid), solutions=k, note=note)


def case(kind, rng, mon):
    if kind == "few":
        w, h = rng.choice(work.SMALL + work.MEDIUM)
        hi = 0.8 if w * h < 8 else 0.66
        grid, sols = work.puzzle_limited(rng, w, h, 60, hi=hi)
        observe(mon, grid, w, h, sols)
    elif kind == "tiny":
        w, h = rng.choice(work.TINY + [(2, 2), (1, 4), (4, 1)])
        grid = work.garbage(rng, w, h, rng.uniform(0, 0.5))
        observe(mon, grid, w, h, oracle.solutions(grid, w, h, 600))
    elif kind == "many":
        w, h = rng.choice([(2, 3), (3, 2), (1, 5), (5, 1), (2, 4), (3, 3)])
        grid, sols = work.puzzle_limited(rng, w, h, 1500, lo=0.5, hi=0.75,
                                         max_nodes=30000)
        observe(mon, grid, w, h, sols)
    elif kind == "none":
        w, h = rng.choice(work.SMALL[:3] + work.MEDIUM)
        sol = work.solution(rng, w, h)
        grid = work.add_clue_unsolvable(rng, sol, w, h)
        if grid is None:
            raise Skip()
        observe(mon, grid, w, h, [], note="no conflict visible")
    elif kind == "conflict":
        w, h = rng.choice(work.SMALL + work.MEDIUM + [(3, 4)])
        sol = work.solution(rng, w, h)
        if rng.random() < 0.35:
            grid = work.dig(rng, work.one_sided(rng, w, h), w, h, rng.choice(
                [0, 0, 0.02, 0.1]))
        else:
            grid = work.add_conflict(
                rng, work.dig(rng, sol, w, h, rng.choice(
                    [0, 0.02, 0.5, rng.uniform(0, 0.95)])), w, h)
        if not oracle.has_conflict(grid, w, h):
            raise Skip()
        mon.count("conflict inputs")
        observe(mon, grid, w, h, [], note="conflict")
    elif kind == "blank":
        # all solutions of the blank grid
        w, h = BLANK[rng.randrange(len(BLANK))]
        grid = work.blank(w * h)
        observe(mon, grid, w, h, oracle.solutions(grid, w, h, 2000),
                note="blank")
    elif kind == "rect":
        w, h = rng.choice([(2, 2), (3, 2), (2, 3), (3, 3), (4, 2), (2, 4)])
        pair = work.rectangle_pair(rng, w, h)
        if pair is None:
            raise Skip()
        grid = pair[0]
        observe(mon, grid, w, h, oracle.solutions(grid, w, h, 9),
                note="solutions differ in four fields")
    elif kind == "hard":
        grid = work.scramble(rng, work.parse9(rng.choice(work.HARD9)), 3, 3)
        # without a clue there are often several solutions
        if rng.random() < 0.5:
            r, c = rng.choice([(r, c) for r in range(9) for c in range(9)
                               if grid[r][c]])
            grid[r][c] = 0
        try:
            sols = oracle.solutions(grid, 3, 3, 400, max_nodes=60000)
        except oracle.OracleLimit:
            raise Skip()
        if len(sols) == 400:
            raise Skip()
        observe(mon, grid, 3, 3, sols, names=["dlx"], note="hard")
    elif kind == "lines":
        w, h = rng.choice(work.SMALL + work.MEDIUM + [(1, 5), (5, 1), (2, 5),
                                                      (5, 2), (3, 4), (4, 3)])
        grid = work.blank_lines(rng, work.solution(rng, w, h), w, h)
        try:
            sols = oracle.solutions(grid, w, h, 300, max_nodes=30000)
        except oracle.OracleLimit:
            raise Skip()
        if len(sols) > 299:
            raise Skip()
        observe(mon, grid, w, h, sols, note="without whole lines or numbers")
    elif kind == "lots":
        # thousands of solutions
        w, h = rng.choice([(2, 3), (3, 2), (1, 5), (5, 1), (2, 4), (4, 2),
                           (3, 3)])
        sol = work.solution(rng, w, h)
        share = rng.uniform(0.6, 0.85)
        for _ in range(12):
            grid = work.dig(rng, sol, w, h, share)
            try:
                sols = oracle.solutions(grid, w, h, 12000, max_nodes=200000)
            except oracle.OracleLimit:
                share *= 0.93
                continue
            if len(sols) > 11999:
                share *= 0.93
            elif len(sols) < 2000:
                share = min(0.95, share * 1.04)
            else:
                break
        else:
            raise Skip()
        observe(mon, grid, w, h, sols, note="thousands of solutions",
                names=["dlx"] if rng.random() < 0.5 else ["bruteforce"])
    elif kind == "deep":
        # more empty fields than Python allows nested calls
        w, h, grid, sol = work.deep(rng)
        observe(mon, grid, w, h, [tuple(map(tuple, sol))],
                note="more than 850 empty fields")
    elif kind == "large":
        w, h = rng.choice(work.LARGE)
        grid, sols = work.puzzle_limited(rng, w, h, 40, lo=0.2, hi=0.45)
        observe(mon, grid, w, h, sols)
