"""C22 - coordinate notation is read as specified, malformed input refused."""
import string

from vf import nota, work

ID = "C22"
LEVEL = "exploration"
FILES = ["notation.py", "coordinates.py"]
RULE = ("semantics, long: random groups of random kinds and numbers are written by "
        "an independent writer (any order, whitespace anywhere) and the "
        "fields read by the library compared with the definition; mutated: "
        "such a text with one to three random edits, fuzz: random text over "
        "a small alphabet - both classified by an independent reader of the "
        "documented grammar: fields if it is well-formed, ValueError and "
        "nothing else if not; non-trivial = two or more kinds or groups, or "
        "a malformed text")
ASSUMPTIONS = ["numbers with leading zeros are not judged",
               "the separators are non-empty and neither digits nor letters"]
PLAN = {
    "quick": [("semantics", 27000), ("mutated", 42000), ("fuzz", 42000),
              ("long", 750),
              ("vast", 600)],
    "thorough": [("semantics", 1026000), ("mutated", 1596000),
                 ("fuzz", 1596000), ("long", 28500),
                 ("vast", 22800)],
}
REQUIRE = {"well-formed": 10000, "refused": 12000, "several groups": 4000,
           "whitespace": 2500, "parts": 2000, "empty result": 200,
           "repeated kind": 500, "out of range": 500, "missing number": 500}
SHAPES = (work.TINY[1:] + work.SMALL + [(3, 3)] * 6 + work.MEDIUM
          + [(3, 4), (4, 3), (4, 4), (2, 6), (11, 1), (1, 12), (5, 5)])


def judge(mon, decode, t, w, h, dims, kw, how):
    verdict, cells = nota.read(t, w, h, **kw)
    what = dict(text=t, box=(w, h), separators=repr(kw), case=how)
    if verdict == "open":
        mon.count("not judged")
        return
    try:
        got = decode(t, *dims, **kw)
    except ValueError as e:
        if verdict == "ok":
            mon.fail("a well-formed description is refused", error=str(e),
                     expected=sorted(cells), **what)
        mon.count("refused")
    except Exception as e:
        mon.fail("an error that is no value error", error=repr(e), **what)
    else:
        if verdict == "bad":
            mon.fail("a malformed description is accepted", got=got, **what)
        mon.check(isinstance(got, tuple) and list(got) == sorted(set(got)),
                  "not a sorted tuple without repetitions", got=got, **what)
        mon.check(set(got) == cells, "other fields than described",
                  got=got, expected=sorted(cells), **what)
        mon.count("well-formed")
        mon.count("empty result", not cells)
    return verdict


def case(kind, rng, mon):
    from sudokutools.notation import decode
    w, h = rng.choice(work.VAST if kind == "vast" else SHAPES)
    n = w * h
    dims = () if (w, h) == (3, 3) and rng.random() < 0.5 else (w, h)
    kw = {}
    if rng.random() < 0.4:
        kw["sep"] = rng.choice([",", ";", " ", "+", "/", "; ", "::", "|"])
    if rng.random() < 0.4:
        kw["nsep"] = rng.choice([",", ".", ";", " ", "-", "/"])
    sep = kw.get("sep", ",")
    nsep = kw.get("nsep") or ("," if n > 9 else "")
    if kind == "fuzz":
        alphabet = "rcbp" * 2 + "123456789" + "0" + sep + nsep + \
            rng.choice(["", " ", "x", "-", "R", ",", "\t", "."])
        t = "".join(rng.choice(alphabet)
                    for _ in range(rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 10])))
        if rng.random() < 0.7:
            # make well-formed text likely
            t = rng.choice("rcbp") + str(rng.randint(1, n)) + t
        if rng.random() < 0.3:
            t += str(rng.randint(1, n))
        judge(mon, decode, t, w, h, dims, kw, kind)
        mon.evaluated((t, w, h, repr(kw)), nontrivial=len(t) > 1)
        mon.sample(text=t, box=(w, h), separators=repr(kw))
        return
    groups = nota.random_groups(rng, w, h)
    if kind == "long":
        for _ in range(rng.choice([10, 50, rng.randint(20, 300)])):
            groups += nota.random_groups(rng, w, h)
    t = nota.write(rng, groups, sep, nsep)
    mon.count("several groups", len(groups) > 1)
    mon.count("parts", any("p" in g for g in groups))
    if kind == "mutated":
        how = rng.randrange(8)
        items = [(g, k) for g in groups for k in g]
        g, k = rng.choice(items)
        if how == 0:
            g[k] = g[k] + [rng.choice([n + 1, 0, n + 2, 99])]
            if not nsep:
                g[k][-1] = g[k][-1] if g[k][-1] < 10 else 0
            rng.shuffle(g[k])
            t = nota.write(rng, groups, sep, nsep)
            mon.count("out of range")
        elif how == 1:
            g[k] = []
            t = nota.write(rng, groups, sep, nsep)
            mon.count("missing number")
        elif how == 2:
            parts = [k2 + nsep.join(map(str, v)) for k2, v in g.items()]
            parts.insert(rng.randint(0, len(parts)), k + nsep.join(
                str(rng.randint(1, n)) for _ in range(rng.choice([0, 1, 2]))))
            texts = [nota.write(rng, [x], sep, nsep) if x is not g
                     else "".join(parts) for x in groups]
            t = sep.join(texts)
            mon.count("repeated kind")
        elif how == 3:
            t = rng.choice([t + sep, sep + t, t + sep + sep + t,
                            t.replace(sep, sep + sep), ""])
        elif how == 4:
            t = rng.choice([k2 for k2 in "rcbp"]) + t
        else:
            for _ in range(rng.choice([1, 1, 2, 3])):
                i = rng.randint(0, len(t))
                c = rng.choice("rcbprcbp0123456789" + sep + nsep + " .xR-+"
                               "\u0663\u00b2\u2003")
                t = rng.choice([t[:i] + c + t[i:], t[:i] + t[i + 1:],
                                t[:i] + c + t[i + 1:]])
        judge(mon, decode, t, w, h, dims, kw, kind)
        mon.evaluated((t, w, h, repr(kw)))
        mon.sample(text=t, box=(w, h), separators=repr(kw))
        return
    if not any(c in string.whitespace for c in sep + nsep) and \
            rng.random() < 0.5:
        out = []
        for c in t:
            out.append(c)
            if rng.random() < 0.2:
                out.append(rng.choice([" ", "  ", "\t", "\n", "\r\n", "\f"]))
        t = rng.choice(["", " ", "\n "]) + "".join(out)
        mon.count("whitespace")
    verdict = judge(mon, decode, t, w, h, dims, kw, kind)
    if verdict != "ok":
        raise AssertionError("the writer and the reader disagree: %r" % t)
    mon.evaluated((t, w, h, repr(kw)), nontrivial=len(groups) > 1
                  or len(groups[0]) > 1)
    mon.sample(text=t, box=(w, h), separators=repr(kw))
