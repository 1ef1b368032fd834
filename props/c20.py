"""C20 - rows, columns, boxes, parts and peers for every box shape."""
from vf import oracle, work

ID = "C20"
LEVEL = "exploration"
FILES = ["coordinates.py", "sudoku.py"]
RULE = ("for every box shape with at most 25 numbers (the rest of the shapes "
        "up to 36 numbers: sampled fields) every field, every group number "
        "and both values of `include` is asked of the sudoku's methods and "
        "of the coordinate functions and compared with an independent "
        "geometry; invalid numbers must raise ValueError; non-trivial = a "
        "box with more than one number")
ASSUMPTIONS = []
PLAN = {
    "quick": [("shape", len(work.ALL_SHAPES)), ("big", 60),
              ("session", 400)],
    "thorough": [("shape", len(work.ALL_SHAPES)), ("big", 1500),
                 ("session", 8000)],
}
REQUIRE = {"fields": 15000, "group numbers": 3500, "refused": 500}
BIG = [(w, h) for w in range(1, 37) for h in range(1, 37)
       if 25 < w * h <= 36]


def same(mon, got, want, what, **kw):
    mon.check(isinstance(got, (list, tuple)), what + ": no list", **kw)
    mon.check(all(isinstance(x, tuple) and len(x) == 2 for x in got),
              what + ": not pairs of row and column", got=got, **kw)
    mon.check(len(got) == len(set(got)), what + ": duplicates", got=got, **kw)
    mon.check(set(got) == set(want), what + ": wrong fields",
              got=sorted(got), expected=sorted(want), **kw)


def field(mon, co, s, g, r, c, dims):
    w, h = g.w, g.h
    b = g.box_no[r, c]
    kw = {"box": (w, h), "field": (r, c)}
    mon.check(mon.call("box_at", s.box_at, r, c) == b, "wrong box number",
              **kw)
    mon.check(mon.call("box_at", co.box_at, r, c, *dims) == b,
              "wrong box number (function)", **kw)
    for inc in (True, False, None):
        for name, cells in (("row_of", g.rows[r]), ("column_of", g.cols[c]),
                            ("box_of", g.boxes[b]),
                            ("surrounding_of",
                             set(g.peers[r, c]) | {(r, c)})):
            want = set(cells)
            if inc is False:
                want = want - {(r, c)}
            extra = {} if inc is None else {"include": inc}
            got = mon.call(name, getattr(s, name), r, c, **extra)
            same(mon, got, want, "Sudoku." + name, include=inc, **kw)
            got = mon.call(name, getattr(co, name), r, c, *dims, **extra)
            same(mon, got, want, "coordinates." + name, include=inc, **kw)
    mon.count("fields")
    mon.evaluated((w, h, r, c), nontrivial=w * h > 1)


def groups(mon, co, g, dims, numbers):
    for name, cells in (("the_row", g.rows), ("the_column", g.cols),
                        ("the_box", g.boxes), ("the_part", g.parts)):
        f = getattr(co, name)
        for i in numbers:
            if 0 <= i < g.n:
                got = mon.call(name, f, i, *dims)
                same(mon, got, cells[i], "coordinates." + name,
                     box=(g.w, g.h), number=i)
                mon.count("group numbers")
            else:
                try:
                    got = f(i, *dims)
                except ValueError:
                    mon.count("refused")
                    continue
                except Exception as e:
                    mon.fail(name + ": not a value error for an invalid "
                             "number", number=i, box=(g.w, g.h),
                             error=repr(e))
                mon.fail(name + " accepts an invalid number", number=i,
                         box=(g.w, g.h), got=got)


def case(kind, rng, mon):
    from sudokutools import coordinates as co
    from sudokutools.sudoku import Sudoku
    if kind == "shape":
        w, h = mon.index_of(work.ALL_SHAPES)
    elif kind == "big":
        w, h = rng.choice(BIG)
    else:
        w, h = rng.choice(work.TINY + work.SMALL + work.MEDIUM)
    g = oracle.Geo(w, h)
    n = g.n
    dims = (w, h)
    if kind == "session" and (w, h) == (3, 3) and rng.random() < 0.7:
        # the default is a standard sudoku
        dims = ()
    s = Sudoku((w, h))
    if kind == "session":
        # answers do not depend on the content or on earlier answers
        for rc in rng.sample(g.cells, min(len(g.cells), 12)):
            s[rc] = rng.randint(1, n)
            s.set_candidates(rc[0], rc[1], [s[rc]])
            for x in (s, co):
                extra = () if x is s else (w, h)
                for name in ("row_of", "column_of", "box_of",
                             "surrounding_of"):
                    for inc in (True, False):
                        got = getattr(x, name)(rc[0], rc[1], *extra,
                                               include=inc)
                        if isinstance(got, list):
                            rng.choice([got.clear, got.pop, got.reverse])() \
                                if got else got.append((0, 0))
            for name in ("the_row", "the_column", "the_box", "the_part"):
                got = getattr(co, name)(rng.randrange(n), w, h)
                if isinstance(got, list):
                    got.append((0, 0))
        cells = rng.sample(g.cells, min(len(g.cells), 20))
        numbers = [rng.randint(-2, n + 2) for _ in range(8)]
    elif kind == "big":
        cells = rng.sample(g.cells, 30)
        numbers = rng.sample(range(n), 8) + [-1, n, n + 1, -n, 2 * n]
    else:
        cells = g.cells
        numbers = [-n, -1] + list(range(n)) + [n, n + 1, n * n, 10 ** 9]
    for r, c in cells:
        field(mon, co, s, g, r, c, dims)
    groups(mon, co, g, dims, numbers)
    mon.sample(box=(w, h), fields=len(cells), peers_of_first=sorted(
        g.peers[cells[0]])[:6])
