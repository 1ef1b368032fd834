"""C03 - the uniqueness test is exact."""
from vf import oracle, work
from vf.core import Skip
from vf.lib import text

ID = "C03"
LEVEL = "exploration"
FILES = ["analyze.py", "solve.py", "dlx.py"]
RULE = ("one case = one sudoku whose number of solutions (0, 1, 2 or more) is "
        "known from an independent search; is_unique is compared with it; "
        "non-trivial = at least one empty field, or a complete grid with a "
        "conflict")
ASSUMPTIONS = ["numbers in the input are 1..n"]
PLAN = {
    "quick": [("any", 3600), ("minimal", 240), ("none", 1800), ("conflict", 1200),
              ("rect", 1000), ("hard", 240), ("full", 240), ("large", 120),
              ("lines", 2800), ("deep", 12)],
    "thorough": [("any", 79200), ("minimal", 5280), ("none", 39600),
                 ("conflict", 26400), ("rect", 22000), ("hard", 5280),
                 ("full", 5280), ("large", 2640), ("lines", 61600),
                 ("deep", 120)],
}
REQUIRE = {"truth:none": 400, "truth:unique": 300, "truth:two": 150,
           "truth:more": 150, "same digits": 40}


def observe(mon, grid, w, h, note=""):
    try:
        k = oracle.count_solutions(grid, w, h, 3, max_nodes=40000)
    except oracle.OracleLimit:
        mon.count("oracle limit")
        return
    mon.count("truth:" + ("none", "unique", "two", "more")[k])
    answer(mon, grid, w, h, k, note)


def answer(mon, grid, w, h, k, note):
    """is_unique for a sudoku with k solutions (3: 3 or more)."""
    from sudokutools.analyze import is_unique
    sud = work.dressed(mon.rng, grid, w, h)
    got = mon.call("is_unique", is_unique, sud)
    mon.check(bool(got) == (k == 1), "is_unique is wrong", box=(w, h),
              clues=text(grid), answer=got,
              solutions=k if k < 3 else "3 or more", note=note)
    mon.evaluated((w, h, text(grid)),
                  nontrivial=any(0 in r for r in grid) or k == 0)
    mon.sample(box=(w, h), clues=text(grid), solutions=k, answer=bool(got),
               note=note)


def case(kind, rng, mon):
    if kind == "any":
        w, h = rng.choice(work.TINY + work.SMALL + work.MEDIUM)
        sol = work.solution(rng, w, h)
        observe(mon, work.dig(rng, sol, w, h, rng.uniform(0, 1)
                              if w * h < 9 else rng.uniform(0.3, 0.85)), w, h)
    elif kind == "minimal":
        # unique with few clues, then each of some clues removed or altered
        w, h = rng.choice([(2, 2), (2, 3), (3, 2), (3, 3), (2, 4), (4, 2)])
        grid = work.dig_unique(rng, work.solution(rng, w, h), w, h)
        observe(mon, grid, w, h, "minimal")
        filled = [(r, c) for r in range(w * h) for c in range(w * h)
                  if grid[r][c]]
        for r, c in rng.sample(filled, min(6, len(filled))):
            v = grid[r][c]
            grid[r][c] = 0
            observe(mon, grid, w, h, "minimal without a clue")
            opts = sorted(oracle.candidates_of(grid, w, h, r, c) - {v})
            if opts:
                grid[r][c] = rng.choice(opts)
                observe(mon, grid, w, h, "minimal with another clue")
            grid[r][c] = v
    elif kind == "none":
        w, h = rng.choice(work.SMALL[:3] + work.MEDIUM)
        grid = work.add_clue_unsolvable(rng, work.solution(rng, w, h), w, h,
                                        hi=0.75)
        if grid is None:
            raise Skip()
        observe(mon, grid, w, h, "unsolvable without conflict")
    elif kind == "conflict":
        w, h = rng.choice(work.SMALL + work.MEDIUM)
        grid = work.dig(rng, work.solution(rng, w, h), w, h,
                        rng.choice([0, 0.3, 0.6, 0.9]))
        observe(mon, work.add_conflict(rng, grid, w, h), w, h, "conflict")
        observe(mon, work.dig(rng, work.one_sided(rng, w, h), w, h, rng.choice(
            [0, 0, 0.03, 0.1])), w, h, "right in rows, columns or boxes only")
    elif kind == "rect":
        w, h = rng.choice([(2, 2), (3, 2), (2, 3), (3, 3), (4, 2), (2, 4),
                           (3, 4), (4, 3)])
        if w * h > 10 and rng.random() < 0.8:
            mon.count("same digits")
            pair = work.rectangle_together(rng, w, h)
        else:
            pair = work.rectangle_pair(rng, w, h)
        if pair is None:
            raise Skip()
        grid, sol = pair
        observe(mon, grid, w, h, "two solutions, four fields differ")
        r, c = rng.choice([(r, c) for r in range(w * h) for c in range(w * h)
                           if not grid[r][c]])
        grid[r][c] = sol[r][c]
        observe(mon, grid, w, h, "rectangle resolved")
    elif kind == "hard":
        grid = work.scramble(rng, work.parse9(rng.choice(work.HARD9)), 3, 3)
        observe(mon, grid, 3, 3, "hard")
        r, c = rng.choice([(r, c) for r in range(9) for c in range(9)
                           if grid[r][c]])
        v = grid[r][c]
        grid[r][c] = 0
        observe(mon, grid, 3, 3, "hard without a clue")
        opts = sorted(oracle.candidates_of(grid, 3, 3, r, c) - {v})
        if opts:
            grid[r][c] = rng.choice(opts)
            observe(mon, grid, 3, 3, "hard with another clue")
    elif kind == "full":
        w, h = rng.choice(work.TINY + work.SMALL + work.MEDIUM + work.LARGE)
        sol = work.solution(rng, w, h)
        observe(mon, sol, w, h, "complete")
        observe(mon, work.add_conflict(rng, sol, w, h), w, h,
                "complete with a conflict")
        # rows and columns fine, boxes not
        n = w * h
        observe(mon, [[(r + c) % n + 1 for c in range(n)] for r in range(n)],
                w, h, "latin square")
    elif kind == "lines":
        w, h = rng.choice(work.SMALL + work.MEDIUM + [(1, 5), (5, 1), (2, 5),
                                                      (5, 2), (3, 4), (4, 3)])
        grid = work.blank_lines(rng, work.solution(rng, w, h), w, h)
        observe(mon, grid, w, h, "without whole lines or numbers")
    elif kind == "deep":
        # more empty fields than Python allows nested calls
        w, h, grid, sol = work.deep(rng)
        answer(mon, grid, w, h, 1, "more than 850 empty fields")
        # another number than in the only solution
        r, c = rng.choice([(r, c) for r in range(w * h) for c in range(w * h)
                           if not grid[r][c]])
        grid[r][c] = sol[r][c] % (w * h) + 1
        answer(mon, grid, w, h, 0, "a wrong clue among many fields")
    elif kind == "large":
        w, h = rng.choice(work.LARGE)
        sol = work.solution(rng, w, h)
        observe(mon, work.dig(rng, sol, w, h, rng.uniform(0.15, 0.45)), w, h)
