"""C07 - calculated candidates are exactly the numbers the peers leave."""
from vf import oracle, work
from vf.lib import technique, text

ID = "C07"
LEVEL = "exploration"
FILES = ["solve.py", "solvers.py"]
RULE = ("one case = one grid (with or without conflicts) of any box shape up "
        "to 25 numbers with arbitrary earlier candidates; calc_candidates of "
        "every field, init_candidates with and without filled_only, and the "
        "steps that calculate candidates are compared with the definition; "
        "non-trivial = a field is empty")
ASSUMPTIONS = ["numbers are 1..n"]
PLAN = {
    "quick": [("grid", 3600), ("shape", 944), ("steps", 1800),
              ("vast", 32)],
    "thorough": [("grid", 93600), ("shape", 24544), ("steps", 46800),
                 ("vast", 832)],
}
REQUIRE = {"fields": 40000, "empty fields without candidates": 50,
           "steps": 3000}


def make(rng, w, h):
    how = rng.randrange(5)
    if how == 0:
        return work.garbage(rng, w, h)
    sol = work.scramble(rng, work.canonical(w, h), w, h)
    if how == 1:
        return work.add_conflict(rng, work.dig(rng, sol, w, h, rng.random()),
                                 w, h)
    if how == 2:
        # crowded: fields without candidates
        grid = work.dig(rng, sol, w, h, rng.uniform(0, 0.4))
        for row in grid:
            rng.random() < 0.3 and rng.shuffle(row)
        return grid
    return work.dig(rng, sol, w, h, rng.choice([rng.random(), 0.0, 1.0]))


def old_candidates(rng, s, w, h):
    """Arbitrary earlier candidates."""
    share = rng.choice([0, 0, 0.3, 1])
    for r, c in oracle.Geo(w, h).cells:
        if rng.random() < share:
            s.set_candidates(r, c, rng.sample(
                range(1, w * h + 1), rng.randint(0, w * h)))
    return work.cands_of(s)


def case(kind, rng, mon):
    from sudokutools.solve import calc_candidates, init_candidates
    if kind in ("shape", "vast"):
        w, h = rng.choice(work.VAST if kind == "vast" else work.ALL_SHAPES)
    else:
        w, h = rng.choice(work.TINY + work.SMALL + work.MEDIUM * 2
                          + [(3, 4), (4, 3)])
    grid = make(rng, w, h)
    g = oracle.Geo(w, h)
    want = oracle.all_candidates(grid, w, h)
    s = work.to_sudoku(grid, w, h)
    old = old_candidates(rng, s, w, h)
    gt = work.grid_of(s)

    def fields_equal(cands, expected, what):
        for r, c in g.cells:
            if set(cands[r][c]) != set(expected(r, c)):
                mon.fail(what, box=(w, h), grid=text(grid), field=(r, c),
                         expected=sorted(expected(r, c)),
                         got=sorted(cands[r][c]))
        mon.check(work.grid_of(s) == gt, "numbers changed: " + what,
                  grid=text(grid), got=text(work.grid_of(s)))

    if kind in ("grid", "shape", "vast"):
        for r, c in g.cells:
            got = mon.call("calc_candidates", calc_candidates, s, r, c)
            if set(got) != want[r, c] or len(got) != len(want[r, c]):
                mon.fail("calc_candidates is wrong", box=(w, h),
                         grid=text(grid), field=(r, c),
                         expected=sorted(want[r, c]), got=repr(got))
            mon.count("fields")
            if not want[r, c]:
                mon.count("empty fields without candidates")
        fields_equal(work.cands_of(s), lambda r, c: old[r][c],
                     "calc_candidates changed candidates")
        mon.call("init_candidates", init_candidates, s, filled_only=True)
        fields_equal(work.cands_of(s), lambda r, c: want[r, c] if grid[r][c]
                     else old[r][c], "init_candidates(filled_only=True)")
        mon.call("init_candidates", init_candidates, s)
        fields_equal(work.cands_of(s), lambda r, c: want[r, c],
                     "init_candidates()")
        # again, from what is there now
        for _ in range(3):
            r, c = rng.choice(g.cells)
            s[r, c] = grid[r][c] = rng.choice([0, rng.randint(1, g.n)])
        gt = work.grid_of(s)
        want2 = oracle.all_candidates(grid, w, h)
        mon.call("init_candidates", init_candidates, s,
                 **rng.choice([{}, {"filled_only": False}]))
        fields_equal(work.cands_of(s), lambda r, c: want2[r, c],
                     "init_candidates() after a change")
    else:
        cls = technique("CalculateCandidates")
        todo = {rc for rc in g.cells if not old[rc[0]][rc[1]]}
        steps = mon.collect("CalculateCandidates.find", cls.find(s),
                            2 * g.n ** 2 + 5)
        fields_equal(work.cands_of(s), lambda r, c: old[r][c],
                     "searching changed candidates")
        seen = []
        for st in steps:
            mon.count("steps")
            mon.check(len(st.affected) == 1, "more than one field",
                      step=repr(st))
            rc = tuple(st.affected[0])
            seen.append(rc)
            mon.check(set(st.values) == want.get(rc),
                      "a step calculates other candidates", box=(w, h),
                      grid=text(grid), step=repr(st),
                      expected=sorted(want.get(rc, ())))
        mon.check(sorted(seen) == sorted(todo), "not exactly the fields "
                  "without candidates are calculated, each once",
                  grid=text(grid), missing=sorted(todo - set(seen))[:5],
                  extra=sorted(set(seen) - todo)[:5])
        if rng.random() < 0.5:
            t = s.copy(include_candidates=True)
            mon.call("apply_all", cls.apply_all, t)
            mon.check(work.grid_of(t) == gt, "apply_all changed numbers")
            for r, c in g.cells:
                mon.check(set(t.get_candidates(r, c)) == set(
                    old[r][c] or want[r, c]), "apply_all", grid=text(grid),
                    field=(r, c), got=sorted(t.get_candidates(r, c)))
        some = set()
        for st in rng.sample(steps, rng.randint(0, len(steps))):
            mon.call("apply", st.apply, s)
            some.add(tuple(st.affected[0]))
        fields_equal(work.cands_of(s), lambda r, c: want[r, c]
                     if (r, c) in some else old[r][c],
                     "applying the steps")
    mon.evaluated((kind, w, h, text(grid)),
                  nontrivial=any(0 in r for r in grid))
    mon.sample(box=(w, h), grid=text(grid), kind=kind)
