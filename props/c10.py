"""C10 - step search and hints miss nothing."""
from collections import Counter

from vf import oracle, work
from vf.lib import LOGICAL, ctext, step_key, technique, text
from vf.oracle import Geo
from vf.states import bank_walk, dense, random_state, stale_state, \
    wild_state

ID = "C10"
LEVEL = "exploration"
FILES = ["solvers.py"]
RULE = ("one case = one state of numbers and candidates (with planted "
        "patterns, or what a few solutions allow); the multiset of steps each "
        "search reports is compared with the instances an independent "
        "implementation of the definitions finds, hints with the union of "
        "these, and the levels of the hints must not decrease; non-trivial = "
        "there is at least one instance")
ASSUMPTIONS = ["both box sides are at least 2 (else rows or columns are boxes "
               "and the same step arises twice)",
               "a filled field has exactly its number as candidate",
               "in a state without solution a field may be a hidden single "
               "of two numbers, of which one needs to be reported",
               "a naked tuple of fields that lie in a row and a box needs to "
               "be reported for one of them only"]
PLAN = {
    "quick": [("state", 3600), ("large", 210), ("early", 750), ("hints", 1350), ("bank", 750),
              ("stale", 900), ("wild", 1500)],
    "thorough": [("state", 50400), ("large", 2940), ("early", 10500),
                 ("hints", 18900), ("bank", 10500), ("stale", 12600),
                 ("wild", 21000)],
}
REQUIRE = {"inst:NakedSingle": 300, "inst:HiddenSingle": 300,
           "inst:NakedPair": 200, "inst:HiddenPair": 200,
           "inst:NakedTriple": 100, "inst:HiddenTriple": 100,
           "inst:NakedQuad": 50, "inst:HiddenQuad": 50,
           "inst:NakedQuint": 20, "inst:HiddenQuint": 20,
           "inst:PointingPair": 200, "inst:PointingTriple": 100,
           "inst:XWing": 100, "inst:Swordfish": 50, "inst:Jellyfish": 20,
           "hints": 2000, "hints to calculate": 300}


def compare(mon, name, have, g, num, cand, wild, **witness):
    """have: Counter of step keys"""
    want = oracle.instances(name, g, num, cand)
    mon.count("inst:" + name, len(want))
    dup = [k for k, n in have.items() if n > 1]
    mon.check(not dup, "the same %s is reported twice" % name,
              step=repr(dup[:1]), times=max(have.values() or [0]), **witness)
    if name in oracle.NAKED or name == "HiddenSingle" and wild:
        missing = {k[1] for k in want} - {k[1] for k in have}
    else:
        missing = want - set(have)
    mon.check(not missing, "an instance of %s is not reported" % name,
              missing=repr(sorted(missing)[:2]), reported=len(have),
              **witness)
    return len(want)


def observe(mon, rng, w, h, grid, cand, names, wild=False):
    g = Geo(w, h)
    num, cand = dense(g, grid, cand)
    s = work.state_sudoku(grid, cand, w, h)
    total = 0
    for name in names:
        steps = mon.collect(name, technique(name).find(s), 5000)
        total += compare(mon, name, Counter(step_key(x) for x in steps), g,
                         num, cand, wild, box=(w, h), grid=text(grid),
                         candidates=ctext(cand))
    mon.evaluated((w, h, text(grid), sorted(ctext(cand).items())),
                  nontrivial=total > 0)
    mon.sample(box=(w, h), grid=text(grid), instances=total)


def hints(mon, rng, w, h, grid, cand, wild=False):
    from sudokutools import solvers
    g = Geo(w, h)
    num, cand = dense(g, grid, cand)
    s = work.state_sudoku(grid, cand, w, h)
    got = [step_key(x) for x in
           mon.collect("hints", solvers.hints(s), 20000)]
    mon.count("hints", len(got))
    mon.check(all(k[0] != "Bruteforce" for k in got),
              "hints contain guesses", grid=text(grid))
    levels = [oracle.LEVELS.get(k[0]) for k in got]
    mon.check(None not in levels, "unknown technique", got=repr(got[:3]))
    mon.check(levels == sorted(levels), "hints are not easiest first",
              grid=text(grid), order=[k[0] for k in got][:60])
    for name in LOGICAL:
        compare(mon, name, Counter(k for k in got if k[0] == name), g, num,
                cand, wild, box=(w, h), grid=text(grid), candidates=ctext(cand),
                by="hints")
    # fields without candidates get hints to calculate them
    rest = sorted(k[1:] for k in got if k[0] not in LOGICAL)
    calc = sorted(((rc,), (rc,), tuple(sorted(
        oracle.candidates_of(grid, w, h, *rc))))
        for rc in g.cells if not cand[rc])
    mon.check(rest == calc, "hints to calculate candidates are not those for "
              "the fields without candidates", expected=repr(calc[:5]),
              got=repr(rest[:5]), grid=text(grid))
    mon.count("hints to calculate", len(rest))
    # and each hint is a step of the technique's own search
    own = Counter()
    for name in LOGICAL + ["CalculateCandidates"]:
        own.update(step_key(x) for x in mon.collect(
            name, technique(name).find(s), 20000))
    mon.check(own == Counter(got), "hints are not the steps of all techniques",
              grid=text(grid), candidates=ctext(cand),
              missing=repr(list(own - Counter(got))[:3]),
              extra=repr(list(Counter(got) - own)[:3]))
    mon.evaluated(("hints", w, h, text(grid), sorted(ctext(cand).items())),
                  nontrivial=bool(got))
    mon.sample(box=(w, h), grid=text(grid), hints=len(got))


SHAPES = [(3, 3)] * 6 + [(2, 3), (3, 2), (2, 4), (4, 2), (2, 2), (2, 5),
                         (5, 2)]


def case(kind, rng, mon):
    if kind == "state":
        w, h, grid, cand, _ = random_state(rng, SHAPES)
        observe(mon, rng, w, h, grid, cand, LOGICAL)
    elif kind == "large":
        w, h, grid, cand, _ = random_state(rng, [(3, 4), (4, 3), (2, 6),
                                                 (6, 2), (4, 4)])
        names = [x for x in LOGICAL if "Quint" not in x and "Quad" not in x
                 and x != "Jellyfish"]
        if w * h > 12:
            names = rng.sample(names, 4)
        observe(mon, rng, w, h, grid, cand, names)
    elif kind == "early":
        # few numbers: tuples and fish over blank boxes, rows and columns
        w, h = rng.choice([(3, 3), (3, 3), (2, 3), (3, 2), (2, 4), (4, 2)])
        grid, cand, _ = work.state(rng, w, h, rng.uniform(0.85, 1.0))
        observe(mon, rng, w, h, grid, cand, LOGICAL)
    elif kind == "bank":
        w, h, grid, cand = bank_walk(rng)
        if rng.random() < 0.3:
            hints(mon, rng, w, h, grid, cand)
        else:
            observe(mon, rng, w, h, grid, cand, LOGICAL)
    elif kind == "stale":
        w, h, grid, cand, _ = stale_state(rng, SHAPES)
        observe(mon, rng, w, h, grid, cand, LOGICAL)
    elif kind == "wild":
        w, h, grid, cand = wild_state(rng, SHAPES[4:-1])
        if rng.random() < 0.5:
            hints(mon, rng, w, h, grid, cand, wild=True)
        else:
            observe(mon, rng, w, h, grid, cand, LOGICAL, wild=True)
    elif kind == "hints":
        w, h, grid, cand, _ = random_state(rng, SHAPES[:-2])
        hints(mon, rng, w, h, grid, cand)
