"""C14 - generation honours minimum count and symmetry."""
from vf import oracle, work
from vf.lib import text
from props.c13 import SYM

ID = "C14"
LEVEL = "exploration"
FILES = ["generate.py"]
RULE = ("one case = one call of generate with a random box shape, minimum "
        "count (any, near full, full, above) and symmetry; the number and the "
        "pattern of filled fields are compared with what was asked for, and "
        "impossible requests must raise; non-trivial = a symmetry or a "
        "positive minimum count was asked for")
ASSUMPTIONS = ["small minimum counts only for shapes up to 10 numbers (cost)"]
PLAN = {
    "quick": [("small", 3600), ("nine", 800), ("high", 1800), ("error", 1600)],
    "thorough": [("small", 86400), ("nine", 19200), ("high", 43200),
                 ("error", 38400)],
}
REQUIRE = {"generated": 900, "exact minimum reached": 50, "errors": 300}
IMAGES = {
    None: [],
    "rotate-90": [lambda n, r, c: (c, n - 1 - r)],
    "rotate-180": [lambda n, r, c: (n - 1 - r, n - 1 - c)],
    "mirror-x": [lambda n, r, c: (n - 1 - r, c)],
    "mirror-y": [lambda n, r, c: (r, n - 1 - c)],
    "mirror-xy": [lambda n, r, c: (n - 1 - r, c),
                  lambda n, r, c: (r, n - 1 - c)],
}


def case(kind, rng, mon):
    from sudokutools.generate import generate
    if kind == "small":
        w, h = rng.choice(work.TINY + work.SMALL)
    elif kind == "nine":
        w, h = rng.choice([(3, 3), (3, 3), (2, 4), (4, 2), (2, 5)])
    else:
        w, h = rng.choice(work.SMALL + work.MEDIUM + work.LARGE[:5])
    n, full = w * h, (w * h) ** 2
    sym = rng.choice(SYM)
    if kind == "error":
        bad_sym = rng.random() < 0.5
        if bad_sym:
            kw = dict(symmetry=rng.choice(
                ["rotate", "mirror", "", "rotate-270", "ROTATE-90", 90,
                 "mirror-yx", "None", "mirror-x "]),
                min_count=rng.choice([0, full]))
        else:
            kw = dict(min_count=full + rng.choice([1, 1, 2, 100]),
                      symmetry=sym)
        kw["box_size"] = (w, h)
        try:
            s = generate(**kw)
        except Exception as e:
            mon.count("errors")
            mon.count("error " + type(e).__name__)
        else:
            mon.fail("an impossible request is not refused",
                     arguments=repr(kw), got=text(work.grid_of(s)))
        mon.evaluated(("error", repr(kw)))
        mon.sample(arguments=repr(kw), outcome="raised")
        return
    if kind == "high":
        count = full - rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10,
                                   rng.randint(0, full // 4)])
        count = max(count, 0)
    else:
        count = rng.choice([rng.randint(0, full), full // 2, 0])
    kw = dict(min_count=count, symmetry=sym, box_size=(w, h))
    s = mon.call("generate", generate, **kw)
    grid = work.grid_of(s)
    filled = {(r, c) for r in range(n) for c in range(n) if grid[r][c]}
    mon.count("generated")
    mon.check(len(filled) >= count, "fewer filled fields than requested",
              arguments=repr(kw), filled=len(filled), grid=text(grid))
    mon.count("exact minimum reached", len(filled) == count)
    for f in IMAGES[sym]:
        off = [rc for rc in filled if f(n, *rc) not in filled]
        mon.check(not off, "the filled fields lack the requested symmetry",
                  arguments=repr(kw), grid=text(grid), fields=off[:4])
    mon.evaluated((w, h, sym, count, text(grid)),
                  nontrivial=sym is not None or count > 0)
    mon.sample(arguments=repr(kw), filled=len(filled), grid=text(grid))
