"""C08 - logical solving steps never lose a solution."""
from vf import oracle, work
from vf.core import Skip
from vf.lib import LOGICAL, ctext, solver, step_key, technique, text
from vf.states import bank_walk

ID = "C08"
LEVEL = "exploration"
FILES = ["solvers.py"]
RULE = ("state: a random state of numbers and candidates with planted "
        "patterns and up to 40 known solutions; each step found by each "
        "logical technique is applied to a copy, and apply_all to another, "
        "and each known solution must still be allowed. trace: the states "
        "step-by-step solving runs through; the numbers set by guessing form "
        "one solution. Non-trivial = at least one step was applied")
ASSUMPTIONS = ["a state allows a solution if each field's value is among its "
               "candidates and equals its number, if any",
               "at most 40 solutions of a state are tracked"]
PLAN = {
    "quick": [("state", 3900), ("multi", 1500), ("trace", 600), ("odd", 450), ("loose", 1200),
              ("hard", 60), ("bank", 450)],
    "thorough": [("state", 46800), ("multi", 18000), ("trace", 7200),
                 ("odd", 5400), ("loose", 14400), ("hard", 720), ("bank", 5400)],
}
REQUIRE = {"step:NakedSingle": 300, "step:HiddenSingle": 300,
           "step:NakedPair": 200, "step:HiddenPair": 200,
           "step:NakedTriple": 100, "step:HiddenTriple": 100,
           "step:NakedQuad": 50, "step:HiddenQuad": 50,
           "step:NakedQuint": 20, "step:HiddenQuint": 20,
           "step:PointingPair": 200, "step:PointingTriple": 100,
           "step:XWing": 100, "step:Swordfish": 50, "step:Jellyfish": 20,
           "step:Bruteforce": 100}


def lost(s, sols, g):
    """A solution that the state no longer allows, and where."""
    for sol in sols:
        for r, c in g.cells:
            if s[r, c] and s[r, c] != sol[r][c]:
                return sol, (r, c), "number %d, solution %d" % (
                    s[r, c], sol[r][c])
            if sol[r][c] not in s.get_candidates(r, c):
                return sol, (r, c), "candidates %s, solution %d" % (
                    sorted(s.get_candidates(r, c)), sol[r][c])
    return None


def judge(mon, s, sols, g, what, **witness):
    bad = lost(s, sols, g)
    if bad:
        mon.fail(what + " loses a solution", field=bad[1], why=bad[2],
                 solution=text(bad[0]), **witness)


def static(mon, rng, w, h, grid, cand, sols, names):
    g = oracle.Geo(w, h)
    s = work.state_sudoku(grid, cand, w, h)
    any_step = False
    for name in names:
        cls = technique(name)
        steps = mon.collect(name, cls.find(s), 400)
        for step in rng.sample(steps, min(40, len(steps))):
            t = s.copy(include_candidates=True)
            mon.call(name + ".apply", step.apply, t)
            mon.count("step:" + name)
            any_step = True
            judge(mon, t, sols, g, name, box=(w, h), grid=text(grid),
                  candidates=ctext(cand), step=repr(step))
        if steps:
            t = s.copy(include_candidates=True)
            mon.call(name + ".apply_all", cls.apply_all, t)
            judge(mon, t, sols, g, name + ".apply_all", box=(w, h),
                  grid=text(grid), candidates=ctext(cand))
            mon.count("apply_all")
    mon.evaluated((w, h, text(grid), sorted(ctext(cand).items())),
                  nontrivial=any_step)
    mon.sample(box=(w, h), grid=text(grid), solutions=len(sols))


def trace(mon, rng, w, h, grid, sols):
    from sudokutools import solve, solvers
    g = oracle.Geo(w, h)
    s = work.to_sudoku(grid, w, h)
    steps = []
    mon.call("solve", solvers.solve, s, steps.append)
    t = s.copy()
    mon.call("init_candidates", solve.init_candidates, t, filled_only=True)
    guesses = {}
    for i, step in enumerate(steps):
        name = type(step).__name__
        mon.count("step:" + name)
        mon.call(name + ".apply", step.apply, t)
        if name == "CalculateCandidates":
            for sol in sols:
                for r, c in step.affected:
                    mon.check(sol[r][c] in step.values,
                              "a calculated candidate set misses a solution",
                              grid=text(grid), step=repr(step))
        elif name == "Bruteforce":
            for r, c in step.affected:
                guesses[r, c] = step.values[0]
        elif not guesses:
            judge(mon, t, sols, g, name, box=(w, h), grid=text(grid),
                  step=repr(step), position=i,
                  before=[repr(x) for x in steps[max(0, i - 3):i]])
    if guesses:
        mon.check(any(all(sol[r][c] == v for (r, c), v in guesses.items())
                      for sol in sols), "the guessed numbers do not form one "
                  "solution", box=(w, h), grid=text(grid),
                  guesses=repr(sorted(guesses.items())))
    mon.evaluated(("trace", w, h, text(grid)), nontrivial=bool(steps))
    mon.sample(box=(w, h), grid=text(grid), steps=len(steps))


def known(grid, w, h, cand=None, limit=40, rng=None):
    try:
        return oracle.solutions(grid, w, h, limit, rng=rng, cands=cand,
                                max_nodes=15000)
    except oracle.OracleLimit:
        return []


def case(kind, rng, mon):
    if kind == "state":
        w, h = rng.choice([(3, 3)] * 5 + [(2, 3), (3, 2), (2, 4), (4, 2),
                                          (2, 2), (3, 4), (2, 5)])
        grid, cand, sol = work.state(rng, w, h)
        sols = known(grid, w, h, cand, 15, rng) + [
            tuple(map(tuple, sol))]
        static(mon, rng, w, h, grid, cand, sols, LOGICAL)
    elif kind == "loose":
        # candidates that no longer fit the numbers
        w, h = rng.choice([(3, 3)] * 3 + [(2, 3), (3, 2), (2, 4), (4, 2),
                                          (2, 2), (2, 5)])
        grid, cand, sol = work.state(rng, w, h)
        cand = work.loosen(rng, grid, cand, w, h)
        sols = known(grid, w, h, cand, 15, rng) + [
            tuple(map(tuple, sol))]
        static(mon, rng, w, h, grid, cand, sols, LOGICAL)
    elif kind == "multi":
        # many solutions are still allowed
        w, h = rng.choice([(3, 3)] * 3 + [(2, 3), (3, 2), (2, 4), (4, 2),
                                          (2, 2), (2, 5)])
        sol = work.solution(rng, w, h)
        grid = work.dig(rng, sol, w, h, rng.uniform(0.5, 0.95))
        cand = {rc: frozenset(x) for rc, x in
                oracle.all_candidates(grid, w, h).items()}
        sols = known(grid, w, h, cand, 40, rng)
        if not sols:
            sols = [tuple(map(tuple, sol))]
        if rng.random() < 0.6:
            # only what these solutions allow, so that patterns appear
            keep = rng.sample(sols, min(len(sols), rng.randint(1, 6)))
            cand = {(r, c): frozenset(x[r][c] for x in keep)
                    for r, c in cand}
            sols = known(grid, w, h, cand, 60, rng) or keep
        mon.count("states with several solutions", len(sols) > 1)
        static(mon, rng, w, h, grid, cand, sols, LOGICAL)
    elif kind == "bank":
        w, h, grid, cand = bank_walk(rng)
        sols = known(grid, w, h, cand, 20, rng)
        if not sols:
            raise Skip()
        static(mon, rng, w, h, grid, cand, sols, LOGICAL)
    elif kind == "odd":
        # boxes that are lines, very small and larger sudokus
        w, h = rng.choice(work.TINY + [(1, 5), (5, 1), (1, 6), (6, 1), (2, 6),
                                       (6, 2), (4, 4), (4, 3)])
        grid, cand, sol = work.state(rng, w, h, rng.uniform(0.2, 0.6))
        names = LOGICAL if w * h < 12 else rng.sample(LOGICAL, 4)
        static(mon, rng, w, h, grid, cand, [tuple(map(tuple, sol))], names)
    elif kind == "trace":
        w, h = rng.choice([(3, 3)] * 3 + [(2, 3), (3, 2), (2, 4), (4, 2),
                                          (2, 2), (5, 2)])
        if rng.random() < 0.6:
            grid = work.dig_unique(rng, work.solution(rng, w, h), w, h)
        else:
            grid = work.dig(rng, work.solution(rng, w, h), w, h,
                            rng.uniform(0.3, 0.75))
        try:
            sols = oracle.solutions(grid, w, h, 100, rng=rng, max_nodes=20000)
        except oracle.OracleLimit:
            raise Skip()
        if len(sols) == 100:
            raise Skip()
        trace(mon, rng, w, h, grid, sols)
    elif kind == "hard":
        grid = work.scramble(rng, work.parse9(rng.choice(work.HARD9)), 3, 3)
        trace(mon, rng, 3, 3, grid, oracle.solutions(grid, 3, 3, 3))
