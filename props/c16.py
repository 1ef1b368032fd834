"""C16 - a sudoku behaves as a grid of independent numbers and candidates."""
from vf import oracle, work

ID = "C16"
LEVEL = "exploration"
FILES = ["sudoku.py", "actions.py"]
RULE = ("one case = a random history of 20 to 200 operations (numbers and "
        "candidates written by either interface, from lists, sets, generators "
        "that are changed afterwards, removals of present and absent ones, "
        "initialisation, actions, accesses beyond the grid) on one to three "
        "sudokus of the same shape, checked against a dictionary model after "
        "each operation; non-trivial = a history with at least 20 operations")
ASSUMPTIONS = ["numbers are integers (mostly 0..n), candidates 1..n, indices are not "
               "negative"]
PLAN = {
    "quick": [("history", 3600), ("shape", 800),
              ("vast", 32)],
    "thorough": [("history", 136800), ("shape", 30400),
                 ("vast", 1216)],
}
REQUIRE = {"operations": 50000, "index errors": 3000, "odd numbers": 200}


class Model(object):
    def __init__(self, n):
        self.num = {(r, c): 0 for r in range(n) for c in range(n)}
        self.cand = {rc: frozenset() for rc in self.num}


def full_check(mon, s, m, n, trail):
    for rc, v in m.num.items():
        got = s[rc]
        if got != v or set(s.get_candidates(*rc)) != m.cand[rc] \
                or s.get_number(*rc) != v:
            mon.fail("a field does not hold what was written last", field=rc,
                     expected=(v, sorted(m.cand[rc])),
                     got=(got, sorted(s.get_candidates(*rc))),
                     history=trail[-12:])
    filled = [rc for rc in sorted(m.num) if m.num[rc]]
    empty = [rc for rc in sorted(m.num) if not m.num[rc]]
    for name, got, want in (
            ("filled", list(s.filled()), filled),
            ("empty", list(s.empty()), empty),
            ("iteration", list(s), sorted(m.num))):
        mon.check(sorted(map(tuple, got)) == want and len(got) == len(want),
                  name + " does not agree with the fields",
                  got=repr(got)[:300], expected=repr(want)[:300],
                  history=trail[-12:])
    mon.check(s.count() == len(filled), "count", got=s.count(),
              expected=len(filled), history=trail[-12:])
    mon.check(len(s) == n * n, "length", got=len(s), expected=n * n)


def case(kind, rng, mon):
    from sudokutools.actions import RemoveCandidates, SetNumber
    from sudokutools.solve import init_candidates
    from sudokutools.sudoku import Sudoku
    if kind == "shape":
        w, h = rng.choice([x for x in work.ALL_SHAPES if x[0] * x[1] <= 16])
    elif kind == "vast":
        w, h = rng.choice(work.VAST)
    else:
        w, h = rng.choice(work.TINY + work.SMALL + [(3, 3)] * 3 + [(2, 4)])
    n = w * h
    suds = []
    for _ in range(rng.randint(1, 3)):
        if (w, h) == (3, 3) and rng.random() < 0.5:
            s = mon.call("Sudoku", Sudoku)
        else:
            s = mon.call("Sudoku", Sudoku, rng.choice([(w, h), [w, h]]))
        mon.check((s.box_width, s.box_height) == (w, h)
                  and tuple(s.box_size) == (w, h), "box size")
        mon.check(list(s.numbers) == list(range(1, n + 1)), "numbers")
        suds.append((s, Model(n)))
    trail = []
    steps = rng.randint(20, 200) if n <= 9 else 25
    fields = [(r, c) for r in range(n) for c in range(n)]
    hot = rng.sample(fields, min(len(fields), rng.choice([2, 6, 81])))

    def some(limit=None):
        return rng.sample(range(1, n + 1), rng.randint(0, limit or n))

    def number():
        if rng.random() < 0.05:
            # nothing a sudoku should hold, but held as it is
            mon.count("odd numbers")
            return rng.choice([n + 1, 99, -1, 10 ** 6])
        return rng.randint(0, n)

    for step in range(steps):
        k = rng.randrange(len(suds))
        s, m = suds[k]
        r, c = rng.choice(hot if rng.random() < 0.8 else fields)
        op = rng.randrange(13)
        mon.count("operations")
        if op == 0:
            v = number()
            mon.call("s[r, c] = v", s.__setitem__, (r, c), v)
            m.num[r, c] = v
            trail.append(("[]=", k, r, c, v))
        elif op == 1:
            v = number()
            mon.call("set_number", s.set_number, r, c, v)
            m.num[r, c] = v
            trail.append(("set_number", k, r, c, v))
        elif op in (2, 3):
            vals = some()
            form = rng.choice([list, set, tuple, frozenset, iter])
            arg = form(vals)
            mon.call("set_candidates", s.set_candidates, r, c, arg)
            m.cand[r, c] = frozenset(vals)
            # the collection handed in is ours
            if form is list:
                arg.append(n)
                arg[:] = arg[1:]
            elif form is set:
                arg.clear()
            trail.append(("set_candidates", k, r, c, sorted(vals)))
        elif op in (4, 5):
            vals = some()
            if rng.random() < 0.4:
                vals.append(rng.choice([n + 1, 99, 1]))
            form = rng.choice([list, set, tuple, frozenset, iter])
            mon.call("remove_candidates", s.remove_candidates, r, c,
                     form(vals))
            m.cand[r, c] = m.cand[r, c] - frozenset(vals)
            trail.append(("remove_candidates", k, r, c, vals))
        elif op == 6:
            x = mon.call("get_candidates", s.get_candidates, r, c)
            # a set handed out is no handle
            for f in ("clear", "add", "discard"):
                if hasattr(x, f):
                    try:
                        getattr(x, f)(*([] if f == "clear" else [1]))
                    except Exception:
                        pass
            trail.append(("get_candidates", k, r, c))
        elif op == 7:
            # beyond the grid
            big = rng.choice([n, n + 1, 10 ** 6])
            rc = rng.choice([(big, c), (r, big), (big, big)])
            what = rng.randrange(7)
            try:
                if what == 0:
                    s[rc]
                elif what == 1:
                    s[rc] = 1
                elif what == 2:
                    s.get_number(*rc)
                elif what == 3:
                    s.set_number(rc[0], rc[1], 1)
                elif what == 4:
                    s.get_candidates(*rc)
                elif what == 5:
                    s.set_candidates(rc[0], rc[1], [1])
                else:
                    s.remove_candidates(rc[0], rc[1], [1])
            except IndexError:
                mon.count("index errors")
            except Exception as e:
                mon.fail("not an index error beyond the grid", field=rc,
                         access=what, error=repr(e), box=(w, h))
            else:
                mon.fail("no error beyond the grid", field=rc, access=what,
                         box=(w, h))
            trail.append(("beyond", k, rc, what))
        elif op == 8:
            other, mo = rng.choice(suds)
            got = mon.call("diff", lambda: list(s.diff(other)))
            want = [rc for rc in fields if m.num[rc] != mo.num[rc]]
            mon.check(sorted(map(tuple, got)) == want
                      and len(got) == len(want), "diff", got=repr(got)[:300],
                      expected=repr(want)[:300], history=trail[-12:])
            trail.append(("diff", k))
        elif op == 9 and rng.random() < 0.3:
            flag = rng.random() < 0.5
            mon.call("init_candidates", init_candidates, s, flag)
            grid = [[m.num[x, y] for y in range(n)] for x in range(n)]
            for rc in fields:
                if m.num[rc] or not flag:
                    m.cand[rc] = frozenset(oracle.candidates_of(
                        grid, w, h, *rc))
            trail.append(("init_candidates", k, flag))
        elif op == 10:
            at = rng.sample(fields, min(len(fields), rng.randint(0, 4)))
            if rng.random() < 0.5:
                v = rng.randint(1, n)
                mon.call("SetNumber", SetNumber(at, v), s)
                for rc in at:
                    m.num[rc] = v
                    m.cand[rc] = frozenset([v])
                trail.append(("SetNumber", k, at, v))
            else:
                vals = some()
                mon.call("RemoveCandidates", RemoveCandidates(at, vals), s)
                for rc in at:
                    m.cand[rc] = m.cand[rc] - frozenset(vals)
                trail.append(("RemoveCandidates", k, at, vals))
        else:
            v = mon.call("s[r, c]", s.__getitem__, (r, c))
            mon.check(v == m.num[r, c], "reading a field", field=(r, c),
                      got=v, expected=m.num[r, c], history=trail[-12:])
            v = mon.call("get_candidates", s.get_candidates, r, c)
            mon.check(set(v) == m.cand[r, c], "reading candidates",
                      field=(r, c), got=repr(v), history=trail[-12:])
            continue
        if n <= 6 or rng.random() < 0.15:
            for s, m in suds:
                full_check(mon, s, m, n, trail)
    for s, m in suds:
        full_check(mon, s, m, n, trail)
    mon.evaluated((w, h, repr(trail)), nontrivial=steps >= 20)
    mon.sample(box=(w, h), sudokus=len(suds), history=repr(trail[:6]))
