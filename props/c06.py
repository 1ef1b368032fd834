"""C06 - conflict report and solved-check are exact."""
from collections import Counter

from vf import oracle, work
from vf.lib import text

ID = "C06"
LEVEL = "exploration"
FILES = ["analyze.py"]
RULE = ("one case = one grid (random, solution with a fault in a row only, a "
        "column only or a box only, latin square, partial, blank, complete) of "
        "a random box shape; find_conflicts of all and of chosen fields and "
        "is_solved are compared with the definition; non-trivial = there is a "
        "conflict, or the grid is complete")
ASSUMPTIONS = ["no field is requested twice"]
PLAN = {
    "quick": [("garbage", 2700), ("fault", 3600), ("line", 1500), ("clean", 1500),
              ("shape", 708),
              ("vast", 24)],
    "thorough": [("garbage", 67500), ("fault", 90000), ("line", 37500),
                 ("clean", 37500), ("shape", 17700),
                 ("vast", 600)],
}
REQUIRE = {"pairs expected": 20000, "solved": 200, "row only": 50,
           "column only": 50, "box only": 50, "other numbers": 500}


def observe(mon, rng, grid, w, h, note):
    from sudokutools.analyze import find_conflicts, is_solved
    g = oracle.Geo(w, h)
    s = work.dressed(mon.rng, grid, w, h)
    want = Counter(oracle.conflict_pairs(grid, w, h))
    kinds = set()
    for (a, b, v) in want:
        kinds.add((a[0] == b[0], a[1] == b[1],
                   g.box_no[a] == g.box_no[b]))
    for name, k in (("row only", (True, False, False)),
                    ("column only", (False, True, False)),
                    ("box only", (False, False, True))):
        if kinds == {k}:
            mon.count(name)
    limit = 4 * len(want) + 10
    got = mon.collect("find_conflicts", find_conflicts(s), limit)
    same(mon, got, want, grid, w, h, "all fields", note)
    mon.count("pairs expected", len(want))
    for k in (1, rng.randint(1, g.n ** 2)):
        coords = rng.sample(g.cells, min(k, len(g.cells)))
        part = Counter({p: c for p, c in want.items() if p[0] in coords})
        got = mon.collect("find_conflicts", find_conflicts(s, *coords), limit)
        same(mon, got, part, grid, w, h, "fields %s" % coords[:20], note)
    if want:
        # a field that is in conflict
        a = rng.choice(sorted(want))[0]
        part = Counter({p: c for p, c in want.items() if p[0] == a})
        got = mon.collect("find_conflicts", find_conflicts(s, a), limit)
        same(mon, got, part, grid, w, h, "field %s" % (a,), note)
    if rng.random() < 0.2:
        # other numbers, the same conflicts
        k = rng.choice([1, g.n, 100])
        for rc in g.cells:
            if s[rc]:
                s[rc] += k
        mon.count("other numbers")
        got = mon.collect("find_conflicts", find_conflicts(s), limit)
        same(mon, got, Counter({(a, b, v + k): x for (a, b, v), x in
                                want.items()}), grid, w, h,
             "all fields, all numbers raised by %d" % k, note)
    full = all(all(row) for row in grid)
    answer = mon.call("is_solved", is_solved, s)
    mon.check(bool(answer) == (full and not want), "is_solved is wrong",
              box=(w, h), grid=text(grid), answer=answer, note=note)
    if full and not want:
        mon.count("solved")
    mon.evaluated((w, h, text(grid)), nontrivial=bool(want) or full)
    mon.sample(box=(w, h), grid=text(grid), conflicts=len(want),
               solved=bool(answer), note=note)


def same(mon, got, want, grid, w, h, which, note):
    try:
        have = Counter((tuple(a), tuple(b), v) for a, b, v in got)
    except Exception:
        mon.fail("find_conflicts yields something else", got=repr(got[:3]))
    if have != want:
        mon.fail("find_conflicts: not exactly the conflicts of the requested "
                 "fields, each once", box=(w, h), grid=text(grid),
                 requested=which, missing=list((want - have))[:5],
                 extra=list((have - want))[:5], note=note)


def case(kind, rng, mon):
    w, h = rng.choice(work.TINY + work.SMALL + work.MEDIUM * 2
                      + work.LARGE[:2])
    n = w * h
    if kind == "garbage":
        grid = work.garbage(rng, w, h, rng.choice([rng.random(), 0.05, 1.0]))
        if rng.random() < 0.2:
            # one number everywhere, or few of them
            few = rng.sample(range(1, n + 1), rng.choice([1, min(2, n)]))
            grid = [[rng.choice(few) if v else 0 for v in row]
                    for row in grid]
    elif kind == "fault":
        # swap or overwrite in a solution: conflicts of one kind
        grid = [list(r) for r in work.solution(rng, w, h)]
        g = oracle.Geo(w, h)
        r, c = rng.choice(g.cells)
        how = rng.randrange(4)
        box = g.boxes[g.box_no[r, c]]
        if how == 0:
            opts = [x for x in box if x[0] == r and x != (r, c)]
        elif how == 1:
            opts = [x for x in box if x[1] == c and x != (r, c)]
        elif how == 2:
            opts = [x for x in box if x != (r, c)]
        else:
            opts = [x for x in g.cells if x != (r, c)]
        if opts:
            i, j = rng.choice(opts)
            if rng.random() < 0.6:
                grid[r][c], grid[i][j] = grid[i][j], grid[r][c]
            else:
                grid[r][c] = grid[i][j]
        if rng.random() < 0.4:
            grid = work.dig(rng, grid, w, h, rng.uniform(0, 0.9))
    elif kind == "line":
        # exactly two equal numbers in a blank grid, or a latin square
        g = oracle.Geo(w, h)
        if rng.random() < 0.3:
            a, b = rng.sample(range(n), n), rng.sample(range(n), n)
            grid = [[(x + y) % n + 1 for y in b] for x in a]
        else:
            grid = work.blank(n)
            r, c = rng.choice(g.cells)
            v = rng.randint(1, n)
            grid[r][c] = v
            near = sorted(g.peers[r, c]) or [(r, c)]
            boxonly = [x for x in near if x[0] != r and x[1] != c]
            i, j = rng.choice(rng.choice([near, boxonly or near, g.cells]))
            grid[i][j] = rng.choice([v, v, rng.randint(1, n)])
    elif kind in ("shape", "vast"):
        w, h = rng.choice(work.VAST if kind == "vast" else work.ALL_SHAPES)
        n = w * h
        sol = work.scramble(rng, work.canonical(w, h), w, h)
        observe(mon, rng, sol, w, h, "complete")
        grid = work.add_conflict(rng, sol, w, h)
        if n > 16:
            grid = work.dig(rng, grid, w, h, 0.6)
    else:
        grid = work.solution(rng, w, h)
        if rng.random() < 0.6:
            # one empty field only, first, last or any
            i, j = rng.choice([(0, 0), (n - 1, n - 1), (0, n - 1), (n - 1, 0),
                               (rng.randrange(n), rng.randrange(n))])
            grid = [list(r) for r in grid]
            grid[i][j] = 0
    observe(mon, rng, grid, w, h, kind)
