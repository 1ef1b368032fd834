"""C33 - solving steps are values: normalised, comparable, readable."""
import re

from vf import work
from vf.lib import LOGICAL, ctext, technique, text
from vf.states import bank_walk, random_state, stale_state, wild_state

ID = "C33"
LEVEL = "exploration"
FILES = ["solvers.py"]
RULE = ("one case = the steps of all techniques found in one state (random, "
        "recorded, stale, wild), or steps made by hand from fields and values "
        "in random order and random collections; clues, affected fields and "
        "values must be sorted tuples, all six comparisons must agree with "
        "those of these tuples (all pairs of a sample), sorting must be in "
        "that order, the same search on a copy must give equal steps, the "
        "representation must be an expression for an equal step and the text "
        "must name technique, fields and values; all of this also after the "
        "step has been applied; non-trivial = at least two steps")
ASSUMPTIONS = ["steps are compared with steps only"]
PLAN = {
    "quick": [("found", 2500), ("bank", 750), ("made", 3000)],
    "thorough": [("found", 57500), ("bank", 17250), ("made", 69000)],
}
REQUIRE = {"steps": 6000, "compared": 60000, "equal": 1500,
           "of two techniques": 500, "applied": 1500, "read back": 4000,
           "made": 2500}
TUPLES = [x for x in LOGICAL if x not in ("NakedSingle", "HiddenSingle")]
SINGLES = ["NakedSingle", "HiddenSingle", "Bruteforce"]


def key(step):
    return step.clues, step.affected, step.values


def normal(mon, step, what):
    for name in "clues", "affected", "values":
        got = getattr(step, name)
        mon.check(isinstance(got, tuple), "%s is no tuple" % name,
                  step=repr(step), **what)
        mon.check(list(got) == sorted(got), "%s is not sorted" % name,
                  step=repr(step), got=repr(got), **what)


def numbers(t):
    return sorted(int(x) for x in re.findall(r"\d+", t))


def written(mon, step, env, what):
    t = mon.call("repr", repr, step)
    try:
        again = eval(t, dict(env))
    except Exception as e:
        mon.fail("the representation is no expression: %s" % e, text=t,
                 **what)
    mon.check(type(again) is type(step) and key(again) == key(step),
              "the representation is that of another step", text=t,
              expected=repr(key(step)), got=repr(key(again)), **what)
    mon.check(bool(mon.call("==", lambda: again == step)),
              "not equal to the step written", text=t, **what)
    t = mon.call("str", str, step)
    name = type(step).__name__
    want = sorted([x for f in step.clues for x in f] + list(step.values))
    mon.check(name in t and numbers(t.replace(name, "")) == want,
              "the text does not name technique, clues and values", text=t,
              expected=want, **what)
    mon.count("read back")


def compare(mon, a, b, what):
    ka, kb = key(a), key(b)
    for name, got, want in (
            ("==", lambda: a == b, ka == kb), ("!=", lambda: a != b, ka != kb),
            ("<", lambda: a < b, ka < kb), ("<=", lambda: a <= b, ka <= kb),
            (">", lambda: a > b, ka > kb), (">=", lambda: a >= b, ka >= kb)):
        got = mon.call(name, got)
        if bool(got) != want:
            mon.fail("%s is wrong" % name, a=repr(a), b=repr(b), got=got,
                     **what)
    mon.count("assertions", 6)
    mon.count("compared")
    mon.count("equal", ka == kb)
    mon.count("of two techniques", ka == kb and type(a) is not type(b))


def judge(mon, rng, steps, what, env):
    for x in steps:
        normal(mon, x, what)
        mon.count("steps")
    for x in rng.sample(steps, min(len(steps), 12)):
        written(mon, x, env, what)
    part = rng.sample(steps, min(len(steps), 14))
    for a in part:
        for b in part:
            compare(mon, a, b, what)
    got = mon.call("sorted", sorted, steps)
    mon.check([key(x) for x in got] == sorted(map(key, steps)),
              "sorting gives another order", **what)


def case(kind, rng, mon):
    from sudokutools import solvers
    env = {k: getattr(solvers, k) for k in
           LOGICAL + ["Bruteforce", "CalculateCandidates"]}
    if kind == "made":
        n = rng.choice([4, 6, 9, 9, 12, 16])

        def fields(k):
            out = [(rng.randrange(n), rng.randrange(n)) for _ in range(k)]
            return sorted(set(out), key=lambda x: rng.random())

        def pack(items):
            return rng.choice([list, tuple, set, frozenset, iter,
                               lambda x: (i for i in x)])(list(items))
        steps = []
        pool = [fields(rng.randint(1, 6)) for _ in range(3)]
        vals = [rng.sample(range(1, n + 1), rng.randint(1, min(n, 5)))
                for _ in range(3)]
        for _ in range(12):
            if rng.random() < 0.3:
                r, c, v = rng.randrange(2), rng.randrange(2), rng.randint(1, 2)
                x = env[rng.choice(SINGLES)]
                st = mon.call(x.__name__, x, r, c, v)
                want = ((r, c), ), ((r, c), ), (v, )
            else:
                a, b, v = rng.choice(pool), rng.choice(pool), rng.choice(vals)
                a, b, v = (sorted(y, key=lambda x: rng.random())
                           for y in (a, b, v))
                x = env[rng.choice(TUPLES)]
                st = mon.call(x.__name__, x, pack(a), pack(b), pack(v))
                want = tuple(tuple(sorted(y)) for y in (a, b, v))
            mon.check(key(st) == want, "a step with other fields or values",
                      got=repr(st), expected=repr(want))
            steps.append(st)
            mon.count("made")
        judge(mon, rng, steps, {}, env)
        mon.evaluated((kind, [repr(x) for x in steps]))
        return
    if kind == "bank":
        w, h, grid, cand = bank_walk(rng)
    else:
        w, h, grid, cand = rng.choice(
            [random_state, random_state, stale_state, wild_state])(
                rng, [(3, 3)] * 3 + [(2, 3), (3, 2), (2, 2), (2, 4), (4, 2),
                                     (5, 2)])[:4]
    s = work.state_sudoku(grid, cand, w, h)
    what = dict(box=(w, h), grid=text(grid))
    steps, by_class = [], {}
    for name in LOGICAL:
        cls = technique(name)
        found = mon.collect(name, cls.find(s), 600)
        if len(found) > 600:
            continue
        again = mon.collect(name, cls.find(s.copy(include_candidates=True)),
                            600)
        mon.check(sorted(map(key, found)) == sorted(map(key, again)) and
                  mon.call("sorted", sorted, found) ==
                  mon.call("sorted", sorted, again),
                  "the same search gives unequal steps", technique=name,
                  candidates=ctext(cand), **what)
        # equal steps are recognised
        for x in rng.sample(again, min(3, len(again))):
            mon.check(mon.call("in", lambda: x in found), "a step is not "
                      "found in the list", step=repr(x), **what)
            compare(mon, x, rng.choice(found), what)
        by_class[name] = found
        steps += found
    judge(mon, rng, steps, what, env)
    for x in rng.sample(steps, min(len(steps), 5)):
        before = type(x), key(x), repr(x), str(x)
        t = s.copy(include_candidates=True)
        mon.call("apply", x.apply, t)
        mon.check((type(x), key(x), repr(x), str(x)) == before,
                  "applying a step changed the step", before=before[2],
                  after=repr(x), **what)
        mon.count("applied")
    same = [x for x in by_class.get("NakedSingle", [])]
    for x in same[:5]:
        for y in by_class.get("HiddenSingle", [])[:5]:
            compare(mon, x, y, what)
    mon.evaluated((w, h, text(grid), sorted(ctext(cand).items())),
                  nontrivial=len(steps) > 1)
    mon.sample(steps=[repr(x) for x in steps[:3]])
