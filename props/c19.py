"""C19 - the printed grid shows exactly the sudoku."""
from vf import work
from vf.lib import text
from props.c18 import random_sudoku

ID = "C19"
LEVEL = "exploration"
FILES = ["sudoku.py"]
RULE = ("random sudokus of every size with random numbers and candidates are "
        "printed with random options; the text is cut into fields at the "
        "columns that follow from the line length alone, and every field, "
        "bar and rule is compared with the sudoku; non-trivial = the sudoku "
        "has at least one number or candidate")
ASSUMPTIONS = ["separator and prefix contain no bar and no newline"]
PLAN = {
    "quick": [("view", 45000), ("str", 10000), ("shape", 5000),
              ("vast", 50)],
    "thorough": [("view", 1710000), ("str", 380000), ("shape", 190000),
                 ("vast", 1900)],
}
REQUIRE = {"fields": 100000, "candidate fields": 20000, "rules": 3000,
           "custom separator": 500, "custom prefix": 500,
           "left aligned": 500, "several digits": 200}


def cut(mon, out, w, h, what):
    """The fields of the printed sudoku, as written (padding included)."""
    n = w * h
    lines = out.split("\n")
    if lines and lines[-1] == "" and len(lines) > 1:
        lines.pop()
    size = max(len(x) for x in lines)
    inner = size - (n + 2 * (h - 1) - 1)
    mon.check(inner >= n and inner % n == 0,
              "the columns are not aligned", **what)
    width = inner // n
    mon.check(len(lines) == n + w - 1, "wrong number of lines",
              expected=n + w - 1, got=len(lines), **what)
    starts, bars, at = [], [], 0
    for c in range(n):
        starts.append(at)
        at += width + 1
        if (c + 1) % w == 0 and c + 1 < n:
            bars.append(at)
            at += 2
    gaps = set(range(size)) - set(bars)
    for x in starts:
        gaps -= set(range(x, x + width))
    rows, i = [], 0
    for r in range(n):
        line = lines[i].ljust(size)
        i += 1
        mon.check(all(line[b] == "|" for b in bars),
                  "a bar between two boxes is missing", line=line, row=r,
                  **what)
        mon.check(all(line[g] == " " for g in gaps),
                  "text between the columns", line=line, row=r, **what)
        fields = [line[x:x + width] for x in starts]
        mon.check(not any("|" in f for f in fields),
                  "a bar inside of a box", line=line, row=r, **what)
        rows.append(fields)
        if (r + 1) % h == 0 and r + 1 < n:
            rule = lines[i]
            i += 1
            mon.count("rules")
            mon.check(rule == "".join("+" if k in bars else "-"
                                      for k in range(size)),
                      "the rule does not fit the columns", rule=rule,
                      line=line, **what)
    return rows


def case(kind, rng, mon):
    from sudokutools.sudoku import view
    if kind in ("shape", "vast"):
        w, h = rng.choice(work.VAST if kind == "vast" else work.ALL_SHAPES)
    else:
        w, h = rng.choice(work.TINY + work.SMALL + [(3, 3)] * 6
                          + [(2, 4), (4, 2), (2, 5), (5, 2), (1, 10), (10, 1),
                             (3, 4), (4, 3)])
    n = w * h
    s = random_sudoku(rng, w, h)
    kw = {}
    if kind != "str":
        if rng.random() < 0.5:
            kw["include_candidates"] = rng.random() < 0.7
        if rng.random() < 0.5:
            kw["number_sep"] = rng.choice([None, "", ",", ";", " ", "/", "-",
                                           "::", ", ", ".", "0"])
        if rng.random() < 0.5:
            kw["candidate_prefix"] = rng.choice(["", "*", "?", "(", "+", "->",
                                                 "c:", "#", "cand"])
        if rng.random() < 0.5:
            kw["align_right"] = rng.random() < 0.4
    before = s.encode(row_sep="/", col_sep=";", include_candidates=True)
    out = mon.call("str", str, s) if kind == "str" else \
        mon.call("view", view, s, **kw)
    what = {"box": (w, h), "options": repr(kw), "printed": out,
            "sudoku": before}
    mon.check(isinstance(out, str), "no text", **what)
    mon.check(before == s.encode(row_sep="/", col_sep=";",
                                 include_candidates=True),
              "printing changes the sudoku", **what)
    cands = kind != "str" and kw.get("include_candidates", True)
    prefix = kw.get("candidate_prefix", "*")
    sep = kw.get("number_sep")
    if sep is None:
        sep = "," if n > 9 else ""
    else:
        mon.count("custom separator", cands)
    mon.count("custom prefix", cands and prefix != "*")
    right = kw.get("align_right", True)
    mon.count("left aligned", not right)
    mon.count("several digits", n > 9)
    rows = cut(mon, out, w, h, what)
    for r in range(n):
        for c in range(n):
            if s[r, c]:
                want = str(s[r, c])
            elif cands:
                want = prefix + sep.join(
                    str(x) for x in sorted(s.get_candidates(r, c)))
                mon.count("candidate fields")
            else:
                want = ""
            got = rows[r][c]
            mon.check(got == (want.rjust(len(got)) if right
                              else want.ljust(len(got))),
                      "a field is not shown as it is", field=(r, c),
                      expected=want, got=got, **what)
    mon.count("fields", n * n)
    mon.evaluated((before, repr(kw), kind), nontrivial=bool(
        s.count() or any(s.get_candidates(*rc) for rc in s)))
    mon.sample(options=repr(kw), box=(w, h), lines=out.split("\n")[:4])
