"""C01 - every yielded solution is complete, valid and keeps the clues."""
from vf import oracle, work
from vf.lib import check_solution, solver, text

ID = "C01"
LEVEL = "exploration"
FILES = ["solve.py", "dlx.py"]
RULE = ("one case = one sudoku of a random box shape (1x1 to 5x5 boxes, blank "
        "to complete, with one, several, very many or no solutions, or "
        "conflicting) given to dlx and bruteforce; every solution yielded (up "
        "to a limit) is judged by the rules; non-trivial = at least one field "
        "was empty and at least one solution was yielded")
ASSUMPTIONS = ["numbers in the input are 1..n", "bruteforce only on inputs "
               "it finishes quickly on (not on blank 16x16 or 25x25 grids)"]
PLAN = {
    "quick": [("small", 5600), ("medium", 2000), ("large", 480), ("huge", 160),
              ("bad", 1400), ("shape", 472)],
    "thorough": [("small", 100800), ("medium", 36000), ("large", 8640),
                 ("huge", 2880), ("bad", 25200), ("shape", 8496),
                 ("hard", 300)],
}
REQUIRE = {"solutions:dlx": 3000, "solutions:bruteforce": 3000}


def observe(mon, grid, w, h, names, limit):
    for name in names:
        sud = work.dressed(mon.rng, grid, w, h)
        got = []

        def drain():
            for s in solver(name)(sud):
                got.append(s)
                # judged at once, and again after the enumeration went on
                check_solution(mon, grid, w, h, s, name)
                if len(got) >= limit:
                    break
        mon.call(name, drain)
        for s in got:
            check_solution(mon, grid, w, h, s, name + " (looked at later)")
        mon.count("solutions:" + name, len(got))
        mon.evaluated((name, w, h, text(grid)),
                      nontrivial=bool(got) and any(0 in r for r in grid),
                      n=len(got))
        mon.sample(solver=name, box=(w, h), clues=text(grid),
                   yielded=len(got))


def case(kind, rng, mon):
    both = ["dlx", "bruteforce"]
    if kind == "small":
        w, h = rng.choice(work.TINY + work.SMALL)
        sol = work.solution(rng, w, h)
        grid = work.dig(rng, sol, w, h, rng.random())
        observe(mon, grid, w, h, both, rng.choice([3, 10, 40]))
    elif kind == "medium":
        w, h = rng.choice(work.MEDIUM)
        sol = work.solution(rng, w, h)
        grid = work.dig(rng, sol, w, h, rng.uniform(0.2, 0.62))
        observe(mon, grid, w, h, both, 6)
        grid = work.dig(rng, sol, w, h, rng.uniform(0.6, 1.0))
        observe(mon, grid, w, h, ["dlx"], 6)
    elif kind == "large":
        w, h = rng.choice(work.LARGE)
        sol = work.solution(rng, w, h)
        grid = work.dig(rng, sol, w, h, rng.uniform(0.1, 0.4))
        observe(mon, grid, w, h, both, 3)
        observe(mon, work.dig(rng, sol, w, h, 1.0), w, h, ["dlx"], 2)
    elif kind == "huge":
        w, h = rng.choice(work.HUGE)
        sol = work.scramble(rng, work.canonical(w, h), w, h)
        grid = work.dig(rng, sol, w, h, rng.uniform(0.02, 0.2))
        observe(mon, grid, w, h, both, 2)
    elif kind == "shape":
        # every box shape, blank and nearly complete
        w, h = rng.choice(work.ALL_SHAPES)
        sol = work.scramble(rng, work.canonical(w, h), w, h)
        if w * h <= 16:
            observe(mon, work.blank(w * h), w, h, ["dlx"], 2)
        observe(mon, work.dig(rng, sol, w, h, 0.1), w, h, both, 2)
    elif kind == "bad":
        w, h = rng.choice(work.SMALL + [(3, 3)])
        how = rng.randrange(4)
        sol = work.solution(rng, w, h)
        if how == 0:
            grid = work.garbage(rng, w, h, rng.uniform(0.05, 1.0))
        elif how == 1:
            grid = work.add_conflict(
                rng, work.dig(rng, sol, w, h, rng.uniform(0, 0.8)), w, h)
        elif how == 2:
            grid = work.dig(rng, work.one_sided(rng, w, h), w, h, rng.choice(
                [0, 0, 0.03, 0.1, 0.3]))
        else:
            grid = work.add_clue_unsolvable(rng, sol, w, h) or sol
        observe(mon, grid, w, h, both if w * h < 9 or how else ["dlx"], 4)
    elif kind == "hard":
        grid = work.scramble(rng, work.parse9(rng.choice(work.HARD9[:3]
                                                         + work.HARD9[4:5]
                                                         + work.HARD9[6:])),
                             3, 3)
        observe(mon, grid, 3, 3, both, 3)
