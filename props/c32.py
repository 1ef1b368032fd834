"""C32 - answers do not wait for the enumeration of all solutions."""
import io

from vf import work
from vf.budget import Budget, WorkLimit
from vf.lib import check_solution, is_sudoku, technique, text

ID = "C32"
LEVEL = "exploration"
FILES = ["solve.py", "dlx.py", "analyze.py", "solvers.py"]
WORK = 25 * 10 ** 6
RULE = ("one case = one sudoku with at most a tenth of its fields filled, "
        "consistent with a solution and so with far more solutions than "
        "could ever be enumerated, and one consumer that needs some of them "
        "only (the first solutions of either solver, also of several "
        "enumerations at once, the uniqueness test, step-by-step solving, "
        "rating, guessing steps, the shell's solve, a template with too few "
        "fields); the calls and loop passes made inside the library are "
        "counted until the answer is there and must stay below %d (some "
        "hundred times of what was observed, far below one call per "
        "solution); the answer is judged by the rules; non-trivial = always"
        % WORK)
ASSUMPTIONS = ["up to 10 rows for the backtracking solver, 16 for the others"]
PLAN = {
    "quick": [("first", 640), ("unique", 480), ("steps", 400), ("shell", 240),
              ("template", 240)],
    "thorough": [("first", 13440), ("unique", 10080), ("steps", 8400),
                 ("shell", 5040), ("template", 5040)],
}
REQUIRE = {"solutions": 1500, "unique": 100, "rate": 20, "solve": 20,
           "guess": 20, "shell solve": 40, "template": 40, "blank": 60}


def sparse(rng, w, h):
    sol = work.solution(rng, w, h)
    share = rng.choice([0, 0, 0.02, 0.05, 0.1])
    if w * h > 10:
        share = min(share, 0.05)
    # one-line boxes and small ones: fewer clues
    return [[v if rng.random() < share else 0 for v in row] for row in sol]


def bounded(mon, what, f, **witness):
    try:
        with Budget(WORK) as b:
            out = mon.call(what, f)
    except WorkLimit:
        mon.fail("%s has no answer after %d calls and loop passes in the "
                 "library" % (what, WORK), **witness)
    mon.count("work units", b.used)
    return out


def case(kind, rng, mon):
    from sudokutools import analyze, solve, solvers
    from sudokutools.sudoku import Sudoku
    small = [(3, 3)] * 4 + [(2, 4), (4, 2), (5, 2), (2, 5), (1, 9), (8, 1)]
    large = [(3, 4), (4, 3), (4, 4), (2, 6), (7, 2)]
    w, h = rng.choice(small if rng.random() < 0.8 else small + large)
    grid = sparse(rng, w, h)
    wit = dict(box=(w, h), grid=text(grid))
    s = work.to_sudoku(grid, w, h)
    mon.count("blank", not any(map(any, grid)))
    if kind == "first":
        name = rng.choice(["dlx", "bruteforce"]) if w * h <= 10 else "dlx"
        k = rng.choice([1, 2, 5, 20])
        many = rng.choice([1, 1, 1, 2, 3])

        def take():
            its = [iter(getattr(solve, name)(s)) for _ in range(many)]
            return [[next(it, None) for _ in range(k)] for it in its]
        for got in bounded(mon, name, take, **wit):
            for x in got:
                mon.check(is_sudoku(x), "fewer solutions than there are",
                          solver=name, **wit)
                check_solution(mon, grid, w, h, x, name)
                mon.count("solutions")
            grids = [work.grid_of(x) for x in got]
            mon.check(len(set(grids)) == len(grids), "a solution twice",
                      solver=name, **wit)
    elif kind == "unique":
        got = bounded(mon, "is_unique", lambda: analyze.is_unique(s), **wit)
        mon.check(got is not None and not got, "is_unique is true", **wit)
        mon.count("unique")
    elif kind == "steps":
        what = rng.choice(["rate", "score", "solve", "guess"])
        if what == "rate":
            got = bounded(mon, what, lambda: analyze.rate(s), **wit)
            mon.check(got == 10, "rated as if no guess was needed", got=got,
                      **wit)
        elif what == "score":
            got = bounded(mon, what, lambda: analyze.score(s), **wit)
            mon.check(got >= 10, "scored as if no guess was needed", got=got,
                      **wit)
        elif what == "solve":
            check_solution(mon, grid, w, h, bounded(
                mon, what, lambda: solvers.solve(s), **wit), what)
        else:
            st = bounded(mon, what, lambda: next(
                iter(technique("Bruteforce").find(s)), None), **wit)
            mon.check(st is not None, "no guess", **wit)
        mon.count(what)
    elif kind == "shell":
        from sudokutools.shell import Shell
        if w * h > 10:
            w = h = 3
            grid = sparse(rng, 3, 3)
            wit = dict(box=(w, h), grid=text(grid))
        lines = ["new box_size=(%d,%d)" % (w, h)]
        lines += ["set %d %d %d" % (r, c, grid[r][c])
                  for r in range(w * h) for c in range(w * h) if grid[r][c]]
        sh = Shell(interactive=True, outfile=io.StringIO(),
                   infile=io.StringIO("\n".join(lines + ["solve"]) + "\n"))
        bounded(mon, "solve in the shell", sh.run, **wit)
        check_solution(mon, grid, w, h, sh.sudoku, "solve in the shell")
        mon.count("shell solve")
    else:
        from sudokutools.generate import generate_from_template
        if w * h > 10:
            w, h = 3, 3
            grid = sparse(rng, w, h)
        t = Sudoku(box_size=(w, h))
        cells = [(r, c) for r in range(w * h) for c in range(w * h)
                 if grid[r][c]]
        # two missing numbers can always be exchanged
        for rc in cells[:w * h - 2]:
            t[rc] = 1

        def make():
            try:
                generate_from_template(t, tries=2)
            except RuntimeError:
                return True
        mon.check(bounded(mon, "generate_from_template", make, **wit),
                  "a sudoku with too few numbers", **wit)
        mon.count("template")
    mon.evaluated((kind, w, h, text(grid)))
    mon.sample(box=(w, h), grid=text(grid))
