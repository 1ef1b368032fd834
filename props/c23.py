"""C23 - action notation is read, written and executed faithfully."""
from vf import nota, work
from vf.lib import text
from props.c18 import random_sudoku

ID = "C23"
LEVEL = "exploration"
FILES = ["notation.py", "actions.py"]
RULE = ("read: a change is written by an independent writer in one of the "
        "three forms, read by the library and compared, then executed on a "
        "random sudoku and every field compared with a model; write: the "
        "library's own text for a change is read back; bad: texts that "
        "describe no change must raise ValueError; non-trivial = more than "
        "one field or candidate, or a malformed text")
ASSUMPTIONS = ["numbers are numbers of the sudoku, candidate lists are not "
               "empty", "inside the text blanks are used only where the "
               "coordinates are"]
PLAN = {
    "quick": [("read", 18000), ("write", 18000), ("bad", 15000),
              ("vast", 180)],
    "thorough": [("read", 504000), ("write", 504000), ("bad", 420000),
                 ("vast", 5040)],
}
REQUIRE = {"set": 3000, "removed": 4000, "dash form": 1000,
           "two-digit candidates": 800, "executed": 8000, "refused": 4000,
           "repeated candidates": 300, "emptied": 400}
SHAPES = (work.TINY[1:] + work.SMALL + [(3, 3)] * 6 + work.MEDIUM
          + [(3, 4), (4, 3), (4, 4), (2, 6), (1, 12), (5, 5)])


def execute(mon, rng, action, cells, number, cands, w, h, what):
    s = random_sudoku(rng, w, h)
    want = {rc: (s[rc], set(s.get_candidates(*rc))) for rc in s}
    for rc in cells:
        if number is not None:
            want[rc] = (number, {number} if number else set())
        else:
            want[rc] = (want[rc][0], want[rc][1] - set(cands))
    mon.call("executing the change", action, s)
    for rc in s:
        got = s[rc], set(s.get_candidates(*rc))
        mon.check(got == want[rc], "executing the change gives another field",
                  field=rc, got=repr(got), expected=repr(want[rc]), **what)
    mon.count("executed")


def same(mon, action, cells, number, cands, what):
    from sudokutools.actions import RemoveCandidates, SetNumber
    if number is not None:
        mon.check(isinstance(action, SetNumber), "not a set number change",
                  got=repr(action), **what)
        mon.check(action.number == number, "another number",
                  got=action.number, expected=number, **what)
    else:
        mon.check(isinstance(action, RemoveCandidates),
                  "not a change of candidates", got=repr(action), **what)
        mon.check(set(action.candidates) == set(cands), "other candidates",
                  got=repr(action.candidates), expected=sorted(cands),
                  **what)
    mon.check(set(action.coordinates) == set(cells), "other fields",
              got=sorted(action.coordinates), expected=sorted(cells), **what)


def blanks(rng, t, share=0.5):
    if rng.random() < share:
        return t
    return "".join(c + (" " if rng.random() < 0.2 else "") for c in t)


def case(kind, rng, mon):
    from sudokutools.actions import RemoveCandidates, SetNumber
    from sudokutools.notation import decode_action, encode_action
    w, h = rng.choice(work.VAST if kind == "vast" else SHAPES)
    if kind == "vast":
        kind = rng.choice(["read", "write", "bad"])
    n = w * h
    nsep = "," if n > 9 else ""
    dims = () if (w, h) == (3, 3) and rng.random() < 0.5 else (w, h)
    if kind == "bad":
        bad(rng, mon, decode_action, w, h, dims, nsep)
        return
    number = rng.choice([0] + 5 * [rng.randint(1, n)]) \
        if rng.random() < 0.4 else None
    mon.count("emptied", number == 0)
    cands = rng.sample(range(1, n + 1), rng.choice(
        [1, 1, min(2, n), min(3, n), rng.randint(1, n), n]))
    mon.count("set", number is not None)
    mon.count("removed", number is None)
    mon.count("two-digit candidates", number is None and max(cands) > 9)
    if kind == "write":
        cells = nota.random_cells(rng, w, h)
        form = rng.choice([list, tuple, set])
        items = sorted(cells, key=lambda x: rng.random())
        if number is not None:
            action = SetNumber(form(items), number)
        else:
            action = RemoveCandidates(form(items), rng.choice(
                [list, tuple, set, frozenset])(cands))
        t = mon.call("encode_action", encode_action, action, *dims)
        what = dict(text=t, box=(w, h), fields=sorted(cells), number=number,
                    candidates=cands)
        mon.check(isinstance(t, str), "no text", **what)
        back = mon.call("decode_action", decode_action, t, *dims)
        same(mon, back, cells, number, cands, what)
        if rng.random() < 0.5:
            execute(mon, rng, back, cells, number, cands, w, h, what)
    else:
        groups = nota.random_groups(rng, w, h)
        cells = nota.cells_of(groups, w, h)
        where = blanks(rng, nota.write(rng, groups, ",", nsep))
        listed = [str(x) for x in cands]
        if rng.random() < 0.15:
            listed += rng.choices(listed, k=2)
            mon.count("repeated candidates", number is None)
        listed = nsep.join(listed)
        if number is not None:
            t = where + rng.choice(["=", "=", " =", "= "]) + str(number)
        elif rng.random() < 0.5:
            t = where + "<>" + listed
        else:
            t = "-" + listed + " " + where
            mon.count("dash form")
        t = rng.choice(["", "", " ", "\t"]) + t + rng.choice(
            ["", "", " ", "\n"])
        what = dict(text=t, box=(w, h), fields=sorted(cells), number=number,
                    candidates=cands)
        action = mon.call("decode_action", decode_action, t, *dims)
        same(mon, action, cells, number, cands, what)
        execute(mon, rng, action, cells, number, cands, w, h, what)
    mon.evaluated((t, w, h), nontrivial=len(cells) > 1 or (
        number is None and len(cands) > 1))
    mon.sample(text=t, box=(w, h), fields=len(cells))


def bad(rng, mon, decode_action, w, h, dims, nsep):
    n = w * h
    where = nota.write(rng, nota.random_groups(rng, w, h), ",", nsep)
    num = str(rng.randint(1, n))
    broken = rng.choice([
        "", "r", "x1c1", "r%dc1" % (n + 1), "r0c1", "c0", "r1r1", "r1c",
        where + ",", where + ";" + where, "1", "rc", "R1C1", where + "=",
        where + "<", "." + where])
    t = rng.choice([
        where, num, "", " ", "set " + where, where + " " + num,
        where + "<" + num, where + ">" + num, where + ":" + num,
        where + "=", where + "=x", where + "=" + num + "=" + num,
        where + "=" + num + "x", where + "==" + num, where + "= ",
        where + "<>x", where + "<>" + num + "x", where + "<>" + num + "!",
        where + "<>" + num + "<>" + num, where + "<>=" + num,
        "=" + num, "<>" + num, "-", "-" + num, "- " + where,
        "-x " + where, "-" + num + "x " + where, "-" + num + where,
        broken + "=" + num, broken + "<>" + num, "-" + num + " " + broken])
    if t == "- " + where:
        # removing nothing is not judged
        t = "-"
    try:
        got = decode_action(t, *dims)
    except ValueError:
        mon.count("refused")
    except Exception as e:
        mon.fail("an error that is no value error", text=t, box=(w, h),
                 error=repr(e))
    else:
        mon.fail("text that describes no change is accepted", text=t,
                 box=(w, h), got=str(got))
    mon.evaluated((t, w, h))
    mon.sample(text=t, box=(w, h), refused=True)
