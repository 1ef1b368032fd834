"""C13 - created and generated sudokus are valid and uniquely solvable."""
from vf import oracle, work
from vf.lib import is_sudoku, text

ID = "C13"
LEVEL = "exploration"
FILES = ["generate.py"]
RULE = ("one case = one call of create_solution or generate with a random box "
        "shape, minimum count and symmetry and a random state of the global "
        "generator; the result is judged by the rules and by an independent "
        "count of its solutions; in series of calls more than half of the "
        "solutions must differ; non-trivial = the result has more than one "
        "field")
ASSUMPTIONS = ["generation of shapes up to 12 numbers with any minimum count, "
               "up to 25 numbers with a large one (cost)"]
SYM = [None, "rotate-90", "rotate-180", "mirror-x", "mirror-y", "mirror-xy"]
PLAN = {
    "quick": [("create", 1062), ("small", 2700), ("nine", 900), ("mid", 180),
              ("big", 90), ("vary", 48)],
    "thorough": [("create", 20178), ("small", 51300), ("nine", 17100),
                 ("mid", 3420), ("big", 1710), ("vary", 900)],
}
REQUIRE = {"created": 300, "generated": 500, "series": 20}
_left = {}


def judge_generated(mon, s, w, h, **how):
    mon.check(is_sudoku(s) and tuple(s.box_size) == (w, h)
              and s.box_width == w and s.box_height == h,
              "generate: another box size than requested", got=repr(s), **how)
    g = oracle.Geo(w, h)
    grid = work.grid_of(s)
    for r, c in g.cells:
        v = grid[r][c]
        mon.check(isinstance(v, int) and 0 <= v <= g.n, "an invalid number",
                  field=(r, c), number=repr(v), grid=text(grid), **how)
    try:
        k = oracle.count_solutions(grid, w, h, 2, max_nodes=100000)
    except oracle.OracleLimit:
        mon.count("oracle limit")
        return grid
    mon.check(k == 1, "a generated sudoku has %s" % (
        "no solution" if not k else "several solutions"), grid=text(grid),
        **how)
    return grid


def params(rng, kind):
    sym = rng.choice(SYM)
    if kind == "small":
        w, h = rng.choice(work.TINY + work.SMALL)
    elif kind == "nine":
        w, h = rng.choice([(3, 3), (3, 3), (2, 4), (4, 2)])
    elif kind == "mid":
        w, h = rng.choice([(2, 5), (5, 2), (2, 4), (4, 2), (3, 4), (4, 3),
                           (1, 7), (8, 1)])
    else:
        w, h = rng.choice([(3, 4), (4, 3), (4, 4), (2, 6), (3, 5), (5, 3),
                           (2, 7), (1, 11), (12, 1), (4, 5)])
    full = (w * h) ** 2
    lo = {"small": 0, "nine": 0, "mid": 0.4, "big": 0.75}[kind]
    if w * h >= 12:
        lo = max(lo, 0.7)
    count = int(round(full * rng.uniform(lo, 1)))
    if lo == 0 and rng.random() < 0.4:
        count = rng.choice([0, 0, 1, -1, full, full - 1])
    return w, h, sym, count


def case(kind, rng, mon):
    from sudokutools.generate import create_solution, generate
    if kind == "create":
        # the search has a heavy tail for larger shapes
        w, h = rng.choice([x for x in work.ALL_SHAPES if x[0] * x[1] <= 18
                           or 1 in x])
        s = mon.call("create_solution", create_solution, box_size=(w, h))
        mon.check(is_sudoku(s) and tuple(s.box_size) == (w, h),
                  "create_solution: another box size", got=repr(s),
                  wanted=(w, h))
        grid = work.grid_of(s)
        mon.check(oracle.is_complete_solution(grid, w, h),
                  "create_solution: not a valid complete grid", box=(w, h),
                  got=text(grid))
        mon.count("created")
        mon.evaluated((w, h, text(grid)), nontrivial=w * h > 1)
        mon.sample(box=(w, h), created=text(grid))
        return
    if kind == "vary":
        w, h = rng.choice([(3, 3), (3, 3), (2, 4), (4, 2)])
        if rng.random() < 0.5:
            what, k = "create_solution", 10
            got = [mon.call(what, create_solution, (w, h)) for _ in range(k)]
        else:
            what, k = "generate", 6
            got = [mon.call(what, generate, box_size=(w, h), min_count=rng
                            .randint(45, 55)) for _ in range(k)]
            got = [oracle.solutions(work.grid_of(s), w, h, 1)[0] for s in got]
        have = set(text(x if what == "generate" else work.grid_of(x))
                   for x in got)
        mon.check(len(have) > k // 2, what + " keeps giving the same sudoku",
                  box=(w, h), calls=k, different=len(have))
        mon.count("series")
        mon.evaluated((what, sorted(have)))
        return
    w, h, sym, count = params(rng, kind)
    kw = dict(min_count=count, symmetry=sym, box_size=(w, h))
    # defaults
    if (w, h) == (3, 3) and rng.random() < 0.3:
        del kw["box_size"]
    if sym is None and rng.random() < 0.3:
        del kw["symmetry"]
    s = mon.call("generate", generate, **kw)
    grid = judge_generated(mon, s, w, h, arguments=repr(kw))
    mon.count("generated")
    mon.evaluated((w, h, text(grid)), nontrivial=w * h > 1)
    mon.sample(arguments=repr(kw), got=text(grid))
