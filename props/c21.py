"""C21 - coordinate notation round-trips."""
from vf import nota, work
from vf.oracle import Geo

ID = "C21"
LEVEL = "exploration"
FILES = ["notation.py", "coordinates.py"]
RULE = ("a random set of fields of a random sudoku size is handed over in "
        "random order, with repetitions and as any kind of iterable; the "
        "description in each notation is decoded by the library and, "
        "independently, by a reader written from the documented grammar; "
        "single: every field of every size up to 25 numbers; error: fields "
        "outside and invalid dimensions; non-trivial = more than one field")
ASSUMPTIONS = ["separators are not empty, contain neither digits nor the "
               "letters r, c, b, p, and the same ones are used for reading"]
PLAN = {
    "quick": [("sets", 36000), ("single", len(work.ALL_SHAPES)),
              ("error", 6000),
              ("vast", 120)],
    "thorough": [("sets", 972000), ("single", len(work.ALL_SHAPES)),
                 ("error", 162000),
                 ("vast", 3240)],
}
REQUIRE = {"round trips": 20000, "repeated input": 1500, "errors": 1000,
           "boxes are shorter": 500, "numbers above 9": 1000}
SEPS = [",", ";", " ", "+", "/", " & ", "; ", "::", "\n", "|"]
NSEPS = ["", "", "", ".", ";", " ", ",", "-", "::", "/"]


def case(kind, rng, mon):
    from sudokutools.notation import decode, encode
    if kind == "single":
        w, h = mon.index_of(work.ALL_SHAPES)
        for rc in Geo(w, h).cells:
            for boxes in (None, True, False):
                t = mon.call("encode", encode, [rc], w, h, use_boxes=boxes)
                got = mon.call("decode", decode, t, w, h)
                mon.check(tuple(got) == (rc,), "another field is read back",
                          field=rc, text=t, got=got, box=(w, h))
                mon.check(nota.read(t, w, h) == ("ok", {rc}),
                          "the text describes another field", field=rc,
                          text=t, box=(w, h))
                mon.count("round trips")
            mon.evaluated((w, h, rc), nontrivial=w * h > 1)
        return
    w, h = rng.choice(work.VAST if kind == "vast" else
                      work.ALL_SHAPES if rng.random() < 0.2 else
                      work.TINY + work.SMALL + [(3, 3)] * 6
                      + work.MEDIUM + [(3, 4), (4, 3), (4, 4)])
    n = w * h
    cells = nota.random_cells(rng, w, h)
    if kind == "error":
        error(rng, mon, encode, decode, w, h, cells)
        return
    items = sorted(cells, key=lambda x: rng.random())
    if rng.random() < 0.4:
        items += rng.choices(items, k=rng.randint(1, 5))
        rng.shuffle(items)
        mon.count("repeated input")
    kw = {}
    if rng.random() < 0.5:
        kw["sep"] = rng.choice(SEPS)
    if rng.random() < 0.5:
        kw["nsep"] = rng.choice(NSEPS)
    dims = (w, h)
    if (w, h) == (3, 3) and rng.random() < 0.5:
        dims = ()
    texts = {}
    for boxes in (None, True, False):
        form = rng.choice([list, tuple, set, iter, list])
        given = form(items)
        t = mon.call("encode", encode, given, *dims, use_boxes=boxes, **kw)
        what = dict(box=(w, h), fields=sorted(cells), text=t, use_boxes=boxes,
                    separators=repr(kw))
        mon.check(isinstance(t, str), "no text", **what)
        got = mon.call("decode", decode, t, *dims, **kw)
        mon.check(list(got) == sorted(cells),
                  "other fields are read back", got=got, **what)
        mon.check(nota.read(t, w, h, **kw) == ("ok", cells),
                  "the text describes other fields",
                  reading=nota.read(t, w, h, **kw), **what)
        seps = kw.get("sep", ",") + kw.get("nsep", "")
        if boxes is not None and not set(seps) & set("rcbp"):
            mon.check(not set(t) & set("rc" if boxes else "bp"),
                      "the other notation is used", **what)
        texts[boxes] = t
        mon.count("round trips")
    mon.check(len(texts[None]) == min(len(texts[True]), len(texts[False])),
              "not the shorter notation", box=(w, h), fields=sorted(cells),
              texts=repr(texts))
    if dims and not kw:
        # without options the notation is chosen automatically
        t = mon.call("encode", encode, items, *dims)
        mon.check(len(t) == len(texts[None]), "not the shorter notation",
                  box=(w, h), fields=sorted(cells), text=t,
                  texts=repr(texts))
    mon.count("boxes are shorter", len(texts[True]) < len(texts[False]))
    mon.count("numbers above 9", n > 9)
    mon.evaluated((w, h, tuple(sorted(cells)), repr(kw)),
                  nontrivial=len(cells) > 1)
    mon.sample(box=(w, h), text=texts[None], fields=len(cells),
               separators=repr(kw))


def error(rng, mon, encode, decode, w, h, cells):
    n = w * h
    items = list(cells)
    how = rng.randrange(4)
    if how <= 1:
        x = rng.choice([-1, n, n, n + 1, -n, 1000])
        y = rng.choice([rng.randrange(n), x])
        bad = rng.choice([(x, y), (y, x)])
        items.insert(rng.randint(0, len(items)), bad)
        f, args = encode, (items, w, h)
        kw = {"use_boxes": rng.choice([None, True, False])}
    else:
        dims = rng.choice([(0, h), (w, 0), (0, 0), (-w, h), (w, -h),
                           (-w, -h), (w + 0.5, h), (w, h + 0.25), (0.5, h)])
        if how == 2:
            f, args, kw = encode, ([(0, 0)], ) + dims, {}
        else:
            f, args, kw = decode, ("r1c1",) + dims, {}
    try:
        got = f(*args, **kw)
    except ValueError:
        mon.count("errors")
    except Exception as e:
        mon.fail("not a value error", function=f.__name__, args=repr(args),
                 error=repr(e))
    else:
        mon.fail("not refused", function=f.__name__, args=repr(args),
                 got=repr(got))
    mon.evaluated((f.__name__, repr(args), repr(kw)))
