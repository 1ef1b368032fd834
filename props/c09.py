"""C09 - a reported step is a genuine pattern and does exactly what it says."""
from vf import oracle, work
from vf.core import Skip
from vf.lib import LOGICAL, ctext, step_key, technique, text
from vf.oracle import Geo
from vf.states import bank_walk, dense, random_state, stale_state, \
    wild_state

ID = "C09"
LEVEL = "exploration"
FILES = ["solvers.py"]
RULE = ("one case = one state of numbers and candidates (with planted "
        "patterns, or what a few solutions allow) of any box shape; every step "
        "the search reports must be among the instances an independent "
        "implementation of the textbook definitions finds, and applying it to "
        "a copy must give exactly the independently computed state; the same "
        "for the states step-by-step solving runs through and for guesses; "
        "non-trivial = at least one step was reported")
ASSUMPTIONS = ["a filled field has exactly its number as candidate",
               "guesses only in states that allow a solution"]
PLAN = {
    "quick": [("state", 3300), ("shape", 750), ("walk", 270), ("guess", 360),
              ("bank", 450), ("stale", 900), ("wild", 1500)],
    "thorough": [("state", 42900), ("shape", 9750), ("walk", 3510),
                 ("guess", 4680), ("bank", 5850), ("stale", 11700),
                 ("wild", 19500)],
}
REQUIRE = {"step:NakedSingle": 300, "step:HiddenSingle": 300,
           "step:NakedPair": 200, "step:HiddenPair": 200,
           "step:NakedTriple": 100, "step:HiddenTriple": 100,
           "step:NakedQuad": 50, "step:HiddenQuad": 50,
           "step:NakedQuint": 20, "step:HiddenQuint": 20,
           "step:PointingPair": 200, "step:PointingTriple": 100,
           "step:XWing": 100, "step:Swordfish": 50, "step:Jellyfish": 20,
           "step:Bruteforce": 100}


def judge(mon, rng, w, h, grid, cand, names, applied=25):
    g = Geo(w, h)
    num, cand = dense(g, grid, cand)
    s = work.state_sudoku(grid, cand, w, h)
    any_step = False
    for name in names:
        cls = technique(name)
        steps = mon.collect(name, cls.find(s), 3000)
        genuine = oracle.instances(name, g, num, cand)
        for step in steps:
            key = step_key(step)
            mon.check(key in genuine, "not a genuine %s" % name, box=(w, h),
                      grid=text(grid), candidates=ctext(cand), step=repr(step),
                      key=repr(key))
            mon.count("step:" + name)
            any_step = True
        for step in rng.sample(steps, min(applied, len(steps))):
            t = s.copy(include_candidates=True)
            mon.call(name + ".apply", step.apply, t)
            num2, cand2 = oracle.apply_instance(g, num, cand, step_key(step))
            same(mon, t, g, num2, cand2, name, box=(w, h), grid=text(grid),
                 candidates=ctext(cand), step=repr(step))
            mon.count("applied")
            how = rng.random()
            if how < 0.3:
                # the same step for another sudoku in the same state
                t = s.copy(include_candidates=True)
            if how < 0.5:
                mon.call(name + ".apply", step.apply, t)
                same(mon, t, g, num2, cand2, name, again=how < 0.3 or "twice",
                     box=(w, h), grid=text(grid), candidates=ctext(cand),
                     step=repr(step))
                mon.count("applied again")
    mon.evaluated((w, h, text(grid), sorted(ctext(cand).items())),
                  nontrivial=any_step)
    mon.sample(box=(w, h), grid=text(grid))


def same(mon, t, g, num, cand, name, **witness):
    for r, c in g.cells:
        if t[r, c] != num[r, c] or set(t.get_candidates(r, c)) != \
                set(cand[r, c]):
            mon.fail("applying %s does not do what it says" % name,
                     field=(r, c), number=t[r, c],
                     expected_number=num[r, c],
                     got=sorted(t.get_candidates(r, c)),
                     expected=sorted(cand[r, c]), **witness)
    mon.count("assertions")


def case(kind, rng, mon):
    if kind == "state":
        w, h, grid, cand, _ = random_state(
            rng, [(3, 3)] * 5 + [(2, 3), (3, 2), (2, 4), (4, 2), (2, 2),
                                 (2, 5), (5, 2)])
        judge(mon, rng, w, h, grid, cand, LOGICAL)
    elif kind == "shape":
        w, h, grid, cand, _ = random_state(
            rng, work.TINY + [(1, 5), (5, 1), (1, 7), (7, 1), (3, 4), (4, 3),
                              (2, 6), (6, 2), (4, 4)])
        names = LOGICAL
        if w * h > 9:
            names = [x for x in LOGICAL if "Quint" not in x
                     and x != "Jellyfish"]
        if w * h > 12:
            names = rng.sample([x for x in names if "Quad" not in x], 4)
        judge(mon, rng, w, h, grid, cand, names, applied=8)
    elif kind == "bank":
        w, h, grid, cand = bank_walk(rng)
        judge(mon, rng, w, h, grid, cand, LOGICAL)
    elif kind == "stale":
        w, h, grid, cand, _ = stale_state(
            rng, [(3, 3)] * 3 + [(2, 3), (3, 2), (2, 4), (4, 2), (2, 2),
                                 (2, 5), (5, 2)])
        judge(mon, rng, w, h, grid, cand, LOGICAL)
    elif kind == "wild":
        w, h, grid, cand = wild_state(
            rng, [(3, 3)] * 3 + [(2, 3), (3, 2), (2, 4), (2, 2), (1, 4),
                                 (2, 5)])
        judge(mon, rng, w, h, grid, cand, LOGICAL)
    elif kind == "walk":
        # a state after state of a solving walk, by the model
        w, h = rng.choice([(3, 3), (3, 3), (2, 4), (4, 2), (2, 3), (3, 2)])
        if w * h == 9 and rng.random() < 0.5:
            grid = work.scramble(rng, work.parse9(rng.choice(work.HARD9)),
                                 3, 3)
        else:
            grid = work.dig_unique(rng, work.solution(rng, w, h), w, h)
        g = Geo(w, h)
        num = {(r, c): grid[r][c] for r, c in g.cells}
        cand = {rc: frozenset(x) for rc, x in
                oracle.all_candidates(grid, w, h).items()}
        for _ in range(rng.randint(1, 30)):
            found = []
            for name in rng.sample(LOGICAL, len(LOGICAL)):
                found = sorted(oracle.instances(name, g, num, cand))
                if found:
                    break
            if not found:
                break
            num, cand = oracle.apply_instance(g, num, cand, rng.choice(found))
        grid = [[num[r, c] for c in range(g.n)] for r in range(g.n)]
        judge(mon, rng, w, h, grid, cand, LOGICAL)
    elif kind == "guess":
        w, h = rng.choice([(2, 2), (2, 3), (3, 2), (3, 3), (2, 4)])
        grid, cand, sol = work.state(rng, w, h)
        g = Geo(w, h)
        num, cand = dense(g, grid, cand)
        s = work.state_sudoku(grid, cand, w, h)
        steps = mon.collect("Bruteforce", technique("Bruteforce").find(s),
                            2 * g.n ** 2)
        empty = [rc for rc in g.cells if not num[rc]]
        mon.check(sorted(tuple(x.affected[0]) for x in steps) == empty,
                  "guessing does not fill exactly the empty fields",
                  grid=text(grid), steps=repr(steps)[:500])
        full = [list(r) for r in grid]
        for st in steps:
            mon.count("step:Bruteforce")
            r, c = st.affected[0]
            full[r][c] = st.values[0]
        mon.check(oracle.is_complete_solution(full, w, h), "the guesses are "
                  "not a solution", grid=text(grid), got=text(full))
        for st in rng.sample(steps, min(6, len(steps))):
            t = s.copy(include_candidates=True)
            mon.call("Bruteforce.apply", st.apply, t)
            key = ("NakedSingle",) + step_key(st)[1:]
            num2, cand2 = oracle.apply_instance(g, num, cand, key)
            same(mon, t, g, num2, cand2, "Bruteforce", box=(w, h),
                 grid=text(grid), step=repr(st))
        mon.evaluated(("guess", w, h, text(grid)), nontrivial=bool(steps))
