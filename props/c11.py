"""C11 - step-by-step solving ends, solves what is solvable, is replayable."""
from vf import oracle, work
from vf.budget import Budget, WorkLimit
from vf.core import Skip
from vf.states import bank_puzzle
from vf.lib import is_sudoku, step_key, text

ID = "C11"
LEVEL = "exploration"
FILES = ["solvers.py"]
RULE = ("one case = one sudoku (unique, with several solutions, blank, "
        "complete, conflicting, unsolvable without conflict, random numbers; "
        "with arbitrary candidates) given to solvers.solve under a step and "
        "work budget; the result is judged by the rules and by the known "
        "solutions, each report is observed before its effect, and the "
        "reported steps are applied to the original; non-trivial = at least "
        "one step was reported")
ASSUMPTIONS = ["ending is judged by a budget of n^3 + 4 n^2 + 10 reported "
               "steps and a number of calls and loop passes far above what "
               "any terminating run was seen to need",
               "numbers in the input are 1..n"]
WORK = 60 * 10 ** 6
PLAN = {
    "quick": [("solvable", 1100), ("multi", 500), ("unsolvable", 700),
              ("conflict", 500), ("garbage", 700), ("hard", 80),
              ("shape", 160), ("bank", 240)],
    "thorough": [("solvable", 14300), ("multi", 6500), ("unsolvable", 9100),
                 ("conflict", 6500), ("garbage", 9100), ("hard", 1040),
                 ("shape", 2080), ("bank", 3120)],
}
REQUIRE = {"solvable": 500, "unique": 200, "unsolvable": 500,
           "replayed steps": 20000}


class TooManySteps(BaseException):
    pass


def observe(mon, rng, grid, w, h, sols, note):
    """sols: known solutions, complete unless there are 3 or more."""
    from sudokutools import solvers
    g = oracle.Geo(w, h)
    s = work.to_sudoku(grid, w, h)
    if rng.random() < 0.4:
        for r, c in g.cells:
            s.set_candidates(r, c, rng.sample(
                range(1, g.n + 1), rng.randint(0, g.n)))
    before = work.snapshot(s)
    limit = g.n ** 3 + 4 * g.n ** 2 + 10
    steps = []

    def report(step):
        steps.append(step)
        if len(steps) > limit:
            raise TooManySteps()
        # reported before it is applied
        mon.check(work.snapshot(s) == before, "the given sudoku changed "
                  "during solving", grid=text(grid), step=repr(step))
    try:
        with Budget(WORK) as b:
            out = mon.call("solve", solvers.solve, s, report)
    except TooManySteps:
        mon.fail("solve does not end: more steps than there are numbers and "
                 "candidates", box=(w, h), grid=text(grid), note=note,
                 last=[repr(x) for x in steps[-3:]])
    except WorkLimit:
        mon.fail("solve does not end: %d calls and loop passes" % WORK,
                 box=(w, h), grid=text(grid), note=note, steps=len(steps),
                 last=[repr(x) for x in steps[-3:]])
    mon.check(is_sudoku(out) and tuple(out.box_size) == (w, h),
              "solve returns something else", got=repr(out))
    mon.count("work units", b.used)
    got = work.grid_of(out)
    valid = oracle.is_complete_solution(got, w, h) and all(
        not grid[r][c] or grid[r][c] == got[r][c] for r, c in g.cells)
    if sols:
        mon.count("solvable")
        mon.check(valid, "a solvable sudoku is not solved", box=(w, h),
                  grid=text(grid), got=text(got), note=note)
        if len(sols) == 1:
            mon.count("unique")
            mon.check(got == tuple(map(tuple, sols[0])), "another result "
                      "than the only solution", box=(w, h), grid=text(grid),
                      got=text(got))
    else:
        mon.count("unsolvable")
        mon.check(not oracle.is_complete_solution(got, w, h),
                  "an unsolvable sudoku gives a solved one", box=(w, h),
                  grid=text(grid), got=text(got), note=note)
    # the same without a callback
    if rng.random() < 0.3:
        again = mon.call("solve", solvers.solve, s)
        mon.check(work.grid_of(again) == got if len(sols) < 2 else
                  oracle.is_complete_solution(work.grid_of(again), w, h),
                  "solve without callback gives another result",
                  grid=text(grid))
    # replay on the original
    t = work.to_sudoku(grid, w, h)
    target = s if rng.random() < 0.5 else t
    for step in steps:
        applicable(mon, step, target, grid)
        mon.call("apply", step.apply, target)
    mon.count("replayed steps", len(steps))
    mon.check(work.grid_of(target) == got, "applying the reported steps to "
              "the original gives another sudoku than the result", box=(w, h),
              grid=text(grid), got=text(work.grid_of(target)),
              expected=text(got), note=note)
    mon.evaluated((w, h, text(grid)), nontrivial=bool(steps))
    mon.sample(box=(w, h), grid=text(grid), steps=len(steps), note=note,
               work=b.used)


def applicable(mon, step, s, grid):
    """When its turn comes, a reported step has something to do."""
    name, clues, affected, values = step_key(step)
    if name in ("CalculateCandidates", "Bruteforce"):
        return
    if name in ("NakedSingle", "HiddenSingle"):
        ok = values[0] in s.get_candidates(*affected[0])
    else:
        keep = name.startswith("Hidden")
        ok = all((set(values) & s.get_candidates(r, c))
                 or keep and s.get_candidates(r, c) for r, c in affected
                 # the candidates of filled fields are not reported
                 if not grid[r][c])
    mon.check(ok, "a reported step is not possible when its turn comes",
              step=repr(step), grid=text(grid), candidates=[
                  (rc, sorted(s.get_candidates(*rc))) for rc in affected])
    mon.count("possible in its turn")


def truth(grid, w, h):
    try:
        return oracle.solutions(grid, w, h, 3, max_nodes=40000)
    except oracle.OracleLimit:
        raise Skip()


def before_effect(mon, rng, w, h, grid):
    """Each step is reported while its effect is still missing."""
    from sudokutools import solvers
    s = work.to_sudoku(grid, w, h)
    model = {}

    def report(step):
        key = step_key(step)
        if key[0] in ("NakedSingle", "HiddenSingle", "Bruteforce"):
            mon.check(key[2][0] not in model, "a number is set twice",
                      step=repr(step), grid=text(grid))
            model[key[2][0]] = key[3][0]
    out = mon.call("solve", solvers.solve, s, report)
    for (r, c), v in model.items():
        mon.check(out[r, c] == v, "a reported number is not in the result",
                  grid=text(grid), field=(r, c), reported=v, got=out[r, c])
        mon.check(not grid[r][c], "a number was set on a filled field",
                  grid=text(grid), field=(r, c))


def case(kind, rng, mon):
    shapes = [(3, 3)] * 4 + [(2, 3), (3, 2), (2, 4), (4, 2), (2, 2), (2, 2)]
    w, h = rng.choice(shapes)
    if kind == "solvable":
        if rng.random() < 0.3:
            grid = work.dig_unique(rng, work.solution(rng, w, h), w, h)
        else:
            grid = work.dig(rng, work.solution(rng, w, h), w, h,
                            rng.uniform(0, 0.6))
        observe(mon, rng, grid, w, h, truth(grid, w, h), kind)
        if rng.random() < 0.3:
            before_effect(mon, rng, w, h, grid)
    elif kind == "multi":
        grid = work.dig(rng, work.solution(rng, w, h), w, h,
                        rng.uniform(0.6, 1.0))
        observe(mon, rng, grid, w, h, truth(grid, w, h), kind)
    elif kind == "bank":
        w, h, grid = bank_puzzle(rng)
        observe(mon, rng, grid, w, h, truth(grid, w, h), kind)
    elif kind == "unsolvable":
        grid = work.add_clue_unsolvable(rng, work.solution(rng, w, h), w, h,
                                        hi=0.8)
        if grid is None:
            raise Skip()
        observe(mon, rng, grid, w, h, [], kind)
    elif kind == "conflict":
        grid = work.dig(rng, work.solution(rng, w, h), w, h, rng.choice(
            [0, rng.uniform(0, 0.9)]))
        grid = work.add_conflict(rng, grid, w, h)
        if rng.random() < 0.3:
            grid = work.dig(rng, work.one_sided(rng, w, h), w, h, rng.choice(
                [0, 0, 0.03, 0.1]))
        if not oracle.has_conflict(grid, w, h):
            raise Skip()
        observe(mon, rng, grid, w, h, [], kind)
    elif kind == "garbage":
        w, h = rng.choice(work.TINY + work.SMALL + [(3, 3)])
        grid = work.garbage(rng, w, h, rng.uniform(0, 1))
        observe(mon, rng, grid, w, h, truth(grid, w, h), kind)
    elif kind == "hard":
        grid = work.scramble(rng, work.parse9(rng.choice(work.HARD9)), 3, 3)
        if rng.random() < 0.4:
            # a wrong clue
            r, c = rng.choice([(r, c) for r in range(9) for c in range(9)
                               if not grid[r][c]])
            grid[r][c] = rng.choice(sorted(oracle.candidates_of(
                grid, 3, 3, r, c)) or [1])
        observe(mon, rng, grid, 3, 3, truth(grid, 3, 3), kind)
    elif kind == "shape":
        w, h = rng.choice(work.TINY + [(1, 5), (5, 1), (1, 6), (2, 5), (5, 2),
                                       (3, 4), (4, 3), (2, 6), (4, 4)])
        sol = work.solution(rng, w, h)
        grid = work.dig(rng, sol, w, h, rng.uniform(0, 0.45))
        try:
            sols = oracle.solutions(grid, w, h, 3, max_nodes=20000)
        except oracle.OracleLimit:
            sols = [sol] * 3
        observe(mon, rng, grid, w, h, sols, kind)
