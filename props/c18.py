"""C18 - text encoding and decoding round-trip."""
import string

from vf import oracle, work
from vf.lib import text

ID = "C18"
LEVEL = "exploration"
FILES = ["sudoku.py"]
RULE = ("roundtrip: random sudokus of any size with candidates are encoded by "
        "the library with random separators and decoded again; parse: text "
        "written by an independent encoder with any empty marker, separators, "
        "layout and whitespace is decoded; length: texts that fit no sudoku; "
        "non-trivial = a number or candidate is present, or an error is due")
ASSUMPTIONS = ["separators are different from each other, from digits and "
               "from the empty marker; if the numbers are separated, so are "
               "the candidates of a field, by the same separator",
               "without a given box size only square boxes are judged"]
PLAN = {
    "quick": [("roundtrip", 12000), ("parse", 14400), ("length", 4000),
              ("shape", 960),
              ("vast", 80)],
    "thorough": [("roundtrip", 756000), ("parse", 907200), ("length", 252000),
                 ("shape", 60480),
                 ("vast", 5040)],
}
REQUIRE = {"with candidates": 700, "separated": 700, "errors": 300,
           "odd markers": 300, "digits as marker": 25, "whitespace layouts": 300}
SEPS = [" ", ";", ":", "/", "-", ".", "\t", "_", "x", "::", " ; ", "\n", ""]


def random_sudoku(rng, w, h, cands=True):
    n = w * h
    how = rng.randrange(4)
    if how == 0:
        grid = work.scramble(rng, work.canonical(w, h), w, h)
    else:
        grid = work.garbage(rng, w, h)
    s = work.to_sudoku(grid, w, h)
    share = rng.choice([0, 0.2, 0.7, 1]) if cands else 0
    for r in range(n):
        for c in range(n):
            if rng.random() < share:
                k = rng.choice([0, 1, 2, n, rng.randint(0, n)])
                s.set_candidates(r, c, rng.sample(range(1, n + 1), min(k, n)))
    return s


def compare(mon, got, s, with_cands, given, **witness):
    n = len(s.numbers)
    mon.check(tuple(got.box_size) == tuple(s.box_size),
              "decoding gives another box size", got=got.box_size,
              expected=s.box_size, given=given, **witness)
    for r in range(n):
        for c in range(n):
            mon.check(got[r, c] == s[r, c], "decoding gives another number",
                      field=(r, c), got=repr(got[r, c]), expected=s[r, c],
                      **witness)
            want = s.get_candidates(r, c) if with_cands else frozenset()
            mon.check(set(got.get_candidates(r, c)) == set(want),
                      "decoding gives other candidates", field=(r, c),
                      got=sorted(got.get_candidates(r, c)),
                      expected=sorted(want), **witness)


def case(kind, rng, mon):
    from sudokutools.sudoku import Sudoku
    if kind in ("shape", "vast"):
        w, h = rng.choice(work.VAST if kind == "vast" else work.ALL_SHAPES)
    else:
        w, h = rng.choice(work.TINY + work.SMALL + [(3, 3)] * 4
                          + [(2, 4), (4, 2), (2, 5), (3, 4), (4, 4)])
    n = w * h
    if kind == "length":
        length(rng, mon, Sudoku)
        return
    s = random_sudoku(rng, w, h)
    if kind in ("roundtrip", "shape") or kind == "vast" and rng.random() < 0.6:
        with_c = rng.random() < 0.6
        sep = rng.choice(SEPS)
        if n > 9 and not sep:
            sep = ";"
        if not with_c and rng.random() < 0.2:
            sep = ","
        rows = rng.choice([sep, "\n", " ", "\r\n"[:1], "\t"])
        if sep and not sep.isspace() and any(x.isspace() for x in sep):
            # whitespace inside of the separator is not replaced
            rows = sep
        if not sep and rows and not rows.isspace():
            rows = ""
        kw = {}
        if sep or rng.random() < 0.5:
            kw["col_sep"] = sep
        if rows or rng.random() < 0.5:
            kw["row_sep"] = rows
        if with_c or rng.random() < 0.3:
            kw["include_candidates"] = with_c
        t = mon.call("encode", s.encode, **kw)
        mon.check(isinstance(t, str), "encode gives no text")
        dk = {}
        if sep:
            dk["number_sep"] = sep
            mon.count("separated")
        given = not (w == h and rng.random() < 0.5)
        if given:
            dk["box_size"] = rng.choice([(w, h), [w, h]])
        got = mon.call("decode", Sudoku.decode, t, **dk)
        compare(mon, got, s, with_c, given, text=t[:400], encode=repr(kw),
                decode=repr(dk))
        again = mon.call("encode", got.encode, **kw)
        mon.check(again == t, "encoding again gives another text", first=t,
                  second=again)
        mon.count("with candidates", with_c)
        mon.evaluated((t, repr(dk)), nontrivial=s.count() > 0 or with_c)
        mon.sample(encode=repr(kw), decode=repr(dk), text=t[:120])
    else:
        parse(rng, mon, Sudoku, s, w, h)


MARKERS = [c for c in string.printable if c not in string.digits] + \
    list("éß·□ñ中\u00a0") + ["0"] * 12 + ["."] * 6 + [" "] * 8


def parse(rng, mon, Sudoku, s, w, h):
    n = w * h
    empty = rng.choice(MARKERS)
    if n < 9 and rng.random() < 0.1:
        # a digit that is no number of this sudoku
        empty = str(rng.randint(n + 1, 9))
    nsep = None
    if n > 9 and rng.random() < 0.15 or rng.random() < 0.03:
        # a number that does not occur, but its digit may
        d = rng.randint(1, min(n, 9))
        empty = str(d)
        for r, c in list(s):
            if s[r, c] == d:
                s[r, c] = 0
        mon.count("digits as marker")
    if n > 9 or rng.random() < 0.4:
        nsep = rng.choice([x for x in [",", ";", " ", "\t", "-", "/", "\n"]
                           if x != empty])
    free = [x for x in "|;/!+~" if x not in (empty, nsep)]
    ssep = "|" if "|" in free and rng.random() < 0.8 else rng.choice(free)
    free = [x for x in ",;:!+~ \n" if x not in (empty, nsep, ssep)]
    csep = "," if "," in free and rng.random() < 0.8 else rng.choice(free)
    with_c = rng.random() < 0.5
    blanks = [x for x in string.whitespace
              if x not in (empty, nsep, ssep, csep)]
    fill = rng.random() < 0.6 and bool(blanks)

    def join(items):
        # whitespace may replace the separator, or be anywhere without one
        if nsep:
            out = items[:1]
            for x in items[1:]:
                out.append(rng.choice(blanks) if fill and
                           rng.random() < 0.2 else nsep)
                out.append(x)
            return "".join(out)
        if not fill:
            return "".join(items)
        return "".join(x + "".join(rng.choice(blanks) for _ in range(
            rng.choice([0, 0, 0, 1, 1, 3]))) for x in items)
    t = join([str(s[r, c]) if s[r, c] else empty
              for r in range(n) for c in range(n)])
    expected = s
    if with_c:
        sets = [join([str(d) for d in sorted(
            s.get_candidates(r, c), key=lambda x: rng.random())])
            for r in range(n) for c in range(n)]
        if rng.random() < 0.25:
            # only the first fields have candidates
            k = rng.randint(1, len(sets))
            sets = sets[:k]
            expected = s.copy(include_candidates=True)
            for i in range(k, n * n):
                expected.set_candidates(i // n, i % n, [])
        t += ssep + csep.join(sets)
    if fill and rng.random() < 0.5:
        lead = "".join(rng.choice(blanks) for _ in range(rng.randint(1, 4)))
        # in front of and behind the text
        t = lead + t
        if rng.random() < 0.7:
            t += rng.choice(blanks)
    kw = {}
    if empty != "0" or rng.random() < 0.3:
        kw["empty"] = empty
    if nsep:
        kw["number_sep"] = nsep
        mon.count("separated")
    if ssep != "|" or rng.random() < 0.2:
        kw["sudoku_sep"] = ssep
    if csep != "," or rng.random() < 0.2:
        kw["candidate_sep"] = csep
    given = not (w == h and rng.random() < 0.5)
    if given:
        kw["box_size"] = (w, h)
    got = mon.call("decode", Sudoku.decode, t, **kw)
    compare(mon, got, expected, with_c, given, text=t[:500],
            decode=repr(kw))
    mon.count("with candidates", with_c)
    mon.count("whitespace layouts", fill)
    mon.count("odd markers", empty not in "0.")
    mon.evaluated((t, repr(kw)), nontrivial=s.count() > 0 or with_c)
    mon.sample(text=t[:120], decode=repr(kw))


def length(rng, mon, Sudoku):
    nsep = rng.choice([None, ",", ";"])
    k = rng.choice([2, 3, 4, 9, 25, 49, 121, 169, 289, 5, 8, 15, 17, 80, 82, 255, 257,
                    rng.randint(2, 300), rng.randint(2, 700)])
    square = int(k ** 0.5 + 0.5) ** 2 == k
    items = [str(rng.randint(0, 1)) for _ in range(k)]
    t = (nsep or "").join(items)
    if not nsep and rng.random() < 0.5:
        t = "\n".join(t[i:i + 9] for i in range(0, k, 9))
    kw = {"number_sep": nsep} if nsep else {}
    try:
        got = Sudoku.decode(t, **kw)
    except ValueError:
        mon.count("errors")
        if square:
            root = int(k ** 0.5 + 0.5)
            r2 = int(root ** 0.5 + 0.5)
            mon.check(r2 * r2 != root, "a sudoku with square boxes is "
                      "refused", fields=k)
        mon.evaluated(("length", k, nsep))
        return
    except Exception as e:
        mon.fail("not a value error", fields=k, error=repr(e), text=t[:100])
    mon.check(square, "a number of fields that fits no sudoku is accepted",
              fields=k, box=got.box_size)
    root = int(k ** 0.5 + 0.5)
    mon.check(root == 1 or any(root % i == 0 for i in range(2, root)),
              "a prime number of rows is accepted", fields=k,
              box=got.box_size)
    mon.check(len(got) == k and got.box_width * got.box_height
              == int(k ** 0.5 + 0.5), "another size", fields=k,
              box=got.box_size)
    n = len(got.numbers)
    mon.check([str(got[r, c]) for r in range(n) for c in range(n)] == items,
              "another content", text=t)
    mon.evaluated(("length", k, nsep))
