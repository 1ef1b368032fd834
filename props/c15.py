"""C15 - template generation reproduces the pattern, or gives up."""
from vf import oracle, work
from vf.core import Skip
from vf.lib import is_sudoku, text
from props.c13 import judge_generated

ID = "C15"
LEVEL = "exploration"
FILES = ["generate.py"]
RULE = ("one case = one template: a pattern (random, dense, complete, blank, "
        "impossible because two empty lines or numbers can be exchanged) with "
        "arbitrary numbers and candidates and a number of tries; the result, "
        "or the error, is compared with the pattern; non-trivial = a sudoku "
        "was returned, or an error was due")
ASSUMPTIONS = ["a pattern with two empty rows or columns in a band, or fewer "
               "than n - 1 fields, has no unique sudoku"]
PLAN = {
    "quick": [("random", 4500), ("impossible", 1750), ("zero", 750),
              ("unlimited", 600)],
    "thorough": [("random", 148500), ("impossible", 57750), ("zero", 24750),
                 ("unlimited", 19800)],
}
REQUIRE = {"generated": 500, "error due": 400, "many tries in vain": 20}


def impossible(rng, w, h):
    n = w * h
    cells = [[rng.random() < 0.8 for _ in range(n)] for _ in range(n)]
    kinds = ["few"]
    if h >= 2:
        kinds.append("rows")
    if w >= 2:
        kinds.append("cols")
    how = rng.choice(kinds)
    if how == "rows":
        band = rng.randrange(w)
        for i in rng.sample(range(h), 2):
            cells[band * h + i] = [False] * n
    elif how == "cols":
        stack = rng.randrange(h)
        for j in rng.sample(range(w), 2):
            for row in cells:
                row[stack * w + j] = False
    else:
        # two numbers occur nowhere
        cells = [[False] * n for _ in range(n)]
        for _ in range(max(0, n - 2)):
            cells[rng.randrange(n)][rng.randrange(n)] = True
    return cells


def case(kind, rng, mon):
    from sudokutools.generate import generate_from_template
    w, h = rng.choice(work.TINY[1:] + work.SMALL + [(3, 3), (3, 3), (2, 4),
                                                    (4, 2), (2, 5), (3, 4)])
    n = w * h
    tries = rng.choice([1, 2, 5, 20])
    due = False
    if kind == "random":
        share = rng.choice([1, rng.uniform(0.4, 1), rng.uniform(0.6, 1)])
        cells = [[rng.random() < share for _ in range(n)] for _ in range(n)]
    elif kind == "impossible":
        cells = impossible(rng, w, h)
        due = True
        if n >= 8:
            tries = rng.choice([1, 2, 3])
            if n <= 9 and rng.random() < 0.04:
                # as many as by default
                tries = rng.choice([100, 150])
                mon.count("many tries in vain")
        elif n <= 4 and rng.random() < 0.3:
            tries = rng.choice([99, 100, 101, rng.randint(20, 500)])
            mon.count("many tries in vain")
    elif kind == "zero":
        share = rng.choice([0, 0.5, 1, 1])
        cells = [[rng.random() < share for _ in range(n)] for _ in range(n)]
        tries = 0
        due = True
    else:
        # dense enough to be possible for sure: at most one gap per box row
        cells = [[True] * n for _ in range(n)]
        r = rng.randrange(n)
        for c in rng.sample(range(n), rng.randint(0, n)):
            cells[r][c] = False
        tries = rng.choice([-1, -1, -5, 100])
    # the numbers do not matter
    how = rng.randrange(6)
    grid = [[0] * n for _ in range(n)]
    for r in range(n):
        for c in range(n):
            if cells[r][c]:
                grid[r][c] = (1 if how == 0 else rng.randint(1, n) if how < 3
                              else n if how < 5
                              else rng.choice([1, n, n + 1, 99, -1]))
    t = work.to_sudoku(grid, w, h)
    if rng.random() < 0.5:
        for r in range(n):
            for c in range(n):
                t.set_candidates(r, c, rng.sample(range(1, n + 1),
                                                  rng.randint(0, n)))
    before = work.snapshot(t)
    kw = {} if tries == 100 else {"tries": tries}
    got = None
    try:
        got = generate_from_template(t, **kw)
    except Exception as e:
        mon.count("raised " + type(e).__name__)
        mon.check(tries >= 0, "an error with unlimited tries",
                  error=repr(e), pattern=text(grid))
        mon.check(type(e) is RuntimeError or isinstance(e, RuntimeError),
                  "another error than the documented one", error=repr(e),
                  box=(w, h), pattern=text(grid), tries=tries)
        # a complete grid, or one gap, always works
        gaps = sum(row.count(0) for row in grid)
        mon.check(tries == 0 or gaps > 1, "gives up on a pattern that always "
                  "works", pattern=text(grid), tries=tries)
    mon.check(work.snapshot(t) == before, "the template was changed",
              pattern=text(grid))
    if due:
        mon.count("error due")
        mon.check(got is None, "returned something where nothing can be "
                  "found", box=(w, h), pattern=text(grid), tries=tries,
                  got=text(work.grid_of(got)) if got is not None else None)
    if got is not None:
        mon.count("generated")
        out = judge_generated(mon, got, w, h, pattern=text(grid), tries=tries)
        mon.check([[bool(v) for v in row] for row in out] == cells,
                  "another pattern than the template", box=(w, h),
                  pattern=text(grid), got=text(out))
        mon.check(got is not t, "the template itself is returned")
    elif not due:
        mon.count("gave up")
    mon.evaluated((kind, w, h, text(grid), tries),
                  nontrivial=got is not None or due)
    mon.sample(box=(w, h), pattern=text(grid), tries=tries,
               outcome="error" if got is None else text(work.grid_of(got)))
