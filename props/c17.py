"""C17 - copies are independent, equality is an equivalence on numbers."""
from vf import oracle, work

ID = "C17"
LEVEL = "exploration"
FILES = ["sudoku.py"]
RULE = ("copy: a tree of copies with and without candidates is changed in a "
        "random order and compared with a model of each; equal: a pool of "
        "sudokus of various shapes, built to be equal, nearly equal, equal but "
        "for candidates, of equal size with other boxes or equal in the "
        "common part, is compared pair by pair in both orders, with itself "
        "and with foreign objects; non-trivial = always")
ASSUMPTIONS = ["two sudokus of the same size with other box shapes and the "
               "same numbers are equal ('the same fields with the same "
               "numbers')"]
PLAN = {
    "quick": [("copy", 1400), ("equal", 1400),
              ("vast", 12)],
    "thorough": [("copy", 22400), ("equal", 22400),
                 ("vast", 192)],
}
REQUIRE = {"comparisons": 20000, "copies": 2000, "unequal sizes": 3000,
           "same digits": 100, "handed out": 20000}


def random_sudoku(rng, w, h):
    n = w * h
    s = work.to_sudoku(work.garbage(rng, w, h), w, h)
    if rng.random() < 0.7:
        for r in range(n):
            for c in range(n):
                if rng.random() < 0.6:
                    s.set_candidates(r, c, rng.sample(
                        range(1, n + 1), rng.randint(0, n)))
    return s


def copy_case(rng, mon, shapes=None):
    w, h = rng.choice(shapes or work.TINY + work.SMALL + [
        (3, 3), (3, 3), (2, 4), (4, 3), (2, 5), (4, 4)])
    n = w * h
    live = [random_sudoku(rng, w, h)]
    snaps = [work.snapshot(live[0])]
    held = []
    for _ in range(rng.randint(4, 25)):
        k = rng.randrange(len(live))
        if rng.random() < 0.35 and len(live) < 7:
            how = rng.randrange(4)
            s = live[k]
            if how == 0:
                t, with_c = mon.call("copy", s.copy), False
            elif how == 1:
                t = mon.call("copy", s.copy, include_candidates=False)
                with_c = False
            elif how == 2:
                t = mon.call("copy", s.copy, include_candidates=True)
                with_c = True
            else:
                t, with_c = mon.call("copy", s.copy, True), True
            want = (snaps[k][0], snaps[k][1], snaps[k][2] if with_c else
                    tuple(tuple(frozenset() for _ in range(n))
                          for _ in range(n)))
            got = work.snapshot(t)
            mon.check(got == want, "a copy differs", with_candidates=with_c,
                      original=repr(snaps[k])[:800], copy=repr(got)[:800])
            mon.check(t is not s, "a copy is the original")
            mon.check(t == s and s == t, "a copy is not equal")
            live.append(t)
            snaps.append(got)
            mon.count("copies")
        else:
            s = live[k]
            m = [list(x) for x in snaps[k][1]], [list(x) for x in snaps[k][2]]
            for _ in range(rng.randint(1, 6)):
                r, c = rng.randrange(n), rng.randrange(n)
                how = rng.randrange(4)
                if how == 0:
                    v = rng.randint(0, n)
                    s[r, c] = v
                    m[0][r][c] = v
                elif how == 1:
                    v = rng.randint(0, n)
                    s.set_number(r, c, v)
                    m[0][r][c] = v
                elif how == 2:
                    vals = set(rng.sample(range(1, n + 1), rng.randint(0, n)))
                    s.set_candidates(r, c, vals)
                    m[1][r][c] = frozenset(vals)
                    vals.clear()
                else:
                    vals = rng.sample(range(1, n + 1), rng.randint(0, n))
                    s.remove_candidates(r, c, vals)
                    m[1][r][c] = m[1][r][c] - frozenset(vals)
            snaps[k] = (snaps[k][0], tuple(map(tuple, m[0])),
                        tuple(map(tuple, m[1])))
        # candidates handed out: they stay, and are not those of the sudoku
        for s in rng.sample(live, rng.randint(0, min(2, len(live)))):
            r, c = rng.randrange(n), rng.randrange(n)
            x = s.get_candidates(r, c)
            if rng.random() < 0.3:
                for change in ("clear", "pop", "add", "append"):
                    try:
                        getattr(x, change)(*([1] if change[0] == "a" else []))
                        mon.count("handed out, changed")
                    except (AttributeError, LookupError):
                        pass
            else:
                held.append((x, frozenset(x), (r, c)))
        for x, was, rc in held:
            mon.check(frozenset(x) == was, "candidates handed out change with "
                      "the sudoku", field=rc, was=sorted(was),
                      now=sorted(x))
        mon.count("handed out", len(held))
        for s, snap in zip(live, snaps):
            got = work.snapshot(s)
            mon.check(got == snap, "a change of one copy shows in another, or "
                      "is lost", expected=repr(snap)[:800],
                      got=repr(got)[:800])
    mon.evaluated((w, h, repr(snaps)))
    mon.sample(box=(w, h), copies=len(live))


class Foreign(object):
    pass


class Smaller(object):
    """Something with fields, but not as many of them."""
    def __init__(self, grid, error):
        self.grid = grid
        self.error = error

    def __getitem__(self, key):
        row, col = key
        if row + col > 2:
            raise self.error("no field %s" % (key, ))
        return self.grid[row, col]


def equal_case(rng, mon, shapes=None):
    pool = []
    for _ in range(rng.randint(2, 4)):
        w, h = rng.choice(shapes or work.TINY + work.SMALL + [
            (3, 3), (2, 4), (4, 2), (4, 3), (5, 2), (4, 4)])
        s = random_sudoku(rng, w, h)
        pool.append(s)
        n = w * h
        if rng.random() < 0.7:
            pool.append(s.copy(include_candidates=rng.random() < 0.7))
        if rng.random() < 0.5:
            # other candidates in one field
            t = s.copy(include_candidates=True)
            r, c = rng.choice([(0, 0), (n - 1, n - 1),
                               (rng.randrange(n), rng.randrange(n))])
            t.set_candidates(r, c, rng.sample(range(1, n + 1),
                                              rng.randint(0, n)))
            pool.append(t)
        if rng.random() < 0.6:
            # one field differs, often the last or the first
            t = s.copy()
            r, c = rng.choice([(0, 0), (n - 1, n - 1),
                               (rng.randrange(n), rng.randrange(n))])
            t[r, c] = (t[r, c] + 1) % (n + 1)
            pool.append(t)
        if n > 10 and rng.random() < 0.6:
            # other numbers, but the same digits one after another
            for t in work.run_together(rng, work.grid_of(s)):
                pool.append(work.to_sudoku(t, w, h))
            mon.count("same digits")
        if rng.random() < 0.6:
            # another shape with the same numbers
            w2, h2 = rng.choice([(h, w), (1, n), (n, 1)])
            pool.append(work.to_sudoku(work.grid_of(s), w2, h2))
        if rng.random() < 0.6:
            # larger or smaller, equal in the common part
            w2, h2 = rng.choice([(w + 1, h), (w, h + 1), (max(1, w - 1), h),
                                 (w, max(1, h - 1))])
            m = w2 * h2
            g = [[s[r, c] if r < n and c < n else 0 for c in range(m)]
                 for r in range(m)]
            pool.append(work.to_sudoku(g, w2, h2))
    grids = [work.grid_of(s) for s in pool]
    snaps = [work.snapshot(s) for s in pool]
    for i, a in enumerate(pool):
        for j, b in enumerate(pool):
            want = grids[i] == grids[j]
            got = mon.call("==", a.__eq__, b) if rng.random() < 0.3 else \
                mon.call("==", lambda: a == b)
            mon.check(got is not NotImplemented and bool(got) == want,
                      "== is wrong", a=repr(snaps[i][:2])[:500],
                      b=repr(snaps[j][:2])[:500], got=got)
            got = mon.call("!=", lambda: a != b)
            mon.check(bool(got) == (not want), "!= is wrong",
                      a=repr(snaps[i][:2])[:500], b=repr(snaps[j][:2])[:500])
            mon.count("comparisons")
            if len(grids[i]) != len(grids[j]):
                mon.count("unequal sizes")
                for x in (False, True):
                    got = mon.call("equals", a.equals, b, candidates=x)
                    mon.check(not got, "equals is true for another size",
                              a=repr(snaps[i])[:500], b=repr(snaps[j])[:500])
            else:
                got = mon.call("equals", a.equals, b)
                mon.check(bool(got) == want, "equals is wrong",
                          a=repr(snaps[i])[:500], b=repr(snaps[j])[:500])
                got = mon.call("equals", a.equals, b, candidates=True)
                mon.check(bool(got) == (snaps[i][1:] == snaps[j][1:]),
                          "equals with candidates is wrong",
                          a=repr(snaps[i])[:700], b=repr(snaps[j])[:700])
            mon.evaluated((snaps[i][:2], snaps[j][:2]))
    for other in [None, 0, 1.5, "000", b"0", [], [[0] * 9] * 9, (), {}, set(),
                  {(0, 0): 0}, object(), Foreign(), len, int,
                  iter([]), range(9), [0] * 81, "0" * 81, True,
                  Ellipsis, IndexError, KeyError]:
        a = rng.choice(pool)
        if isinstance(other, type) and issubclass(other, LookupError):
            if len(a) < 16:
                continue
            other = Smaller(a, other)
        for f in (lambda: a == other, lambda: other == a):
            got = mon.call("== with a foreign object", f)
            # a mapping of all fields is "any object accessed by [row, col]"
            mon.check(not got or isinstance(other, dict),
                      "equal to another kind of object", other=repr(other),
                      got=repr(got))
        mon.check(mon.call("!=", lambda: a != other) or
                  isinstance(other, dict), "!= with a foreign object is "
                  "false", other=repr(other))
        mon.count("foreign")
    for s, snap in zip(pool, snaps):
        mon.check(work.snapshot(s) == snap, "comparing changed a sudoku")
    mon.sample(pool=len(pool), shapes=[s.box_size for s in pool][:8])


def case(kind, rng, mon):
    if kind == "vast":
        rng.choice([copy_case, equal_case])(rng, mon, work.VAST)
    elif kind == "copy":
        copy_case(rng, mon)
    else:
        equal_case(rng, mon)
