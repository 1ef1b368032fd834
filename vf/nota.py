"""An independent reading of the coordinate and action notation."""
import re
import string

from vf.oracle import Geo


def cells_of(groups, w, h):
    """groups: list of {kind letter: 1-based numbers}."""
    g = Geo(w, h)
    table = {"r": g.rows, "c": g.cols, "b": g.boxes, "p": g.parts}
    out = set()
    for group in groups:
        sets = [set().union(*(table[k][i - 1] for i in nums))
                for k, nums in group.items()]
        out |= set.intersection(*sets)
    return out


def write(rng, groups, sep=",", nsep=""):
    """Text for groups, kinds and numbers in the order they come in."""
    return sep.join("".join(k + nsep.join(str(i) for i in nums)
                            for k, nums in group.items())
                    for group in groups)


def read(s, w, h, sep=",", nsep=""):
    """(verdict, fields): "ok", "bad" or "open" (not specified)."""
    n = w * h
    if not nsep and n > 9:
        nsep = ","
    if not any(c in string.whitespace for c in sep + nsep):
        s = "".join(c for c in s if c not in string.whitespace)
    num = "[0-9]+"
    nums = num + ("(?:%s%s)*" % (re.escape(nsep), num) if nsep else "")
    group = "(?:[rcbp]%s)+" % nums
    if not re.fullmatch("%s(?:%s%s)*" % (group, re.escape(sep), group), s):
        return "bad", None
    groups, verdict = [], "ok"
    for part in re.split(re.escape(sep) + "(?=[rcbp])", s):
        d = {}
        for k, t in re.findall("([rcbp])(%s)" % nums, part):
            if k in d:
                return "bad", None
            items = t.split(nsep) if nsep else list(t)
            if any(len(x) > 1 and x[0] == "0" for x in items):
                verdict = "open"
            d[k] = [int(x) for x in items]
            if not all(1 <= x <= n for x in d[k]):
                return "bad", None
        groups.append(d)
    return verdict, cells_of(groups, w, h)


def random_groups(rng, w, h, most=4):
    n = w * h
    groups = []
    for _ in range(rng.choice([1, 1, 2, 2, 3, rng.randint(1, most)])):
        kinds = rng.sample("rcbp", rng.choice([1, 2, 2, 2, 3, 4]))
        groups.append({k: [rng.randint(1, n) for _ in range(
            rng.choice([1, 1, 2, 3, rng.randint(1, n)]))] for k in kinds})
    return groups


def random_cells(rng, w, h):
    """A non-empty set of fields: scattered, structured or nearly all."""
    g = Geo(w, h)
    how = rng.randrange(7)
    if how == 0:
        return {rng.choice(g.cells)}
    if how == 1:
        return set(rng.sample(g.cells, rng.randint(1, len(g.cells))))
    if how == 2:
        return set(rng.sample(g.cells, rng.randint(1, min(6, len(g.cells)))))
    if how == 3:
        return set(rng.choice(g.units + g.parts))
    if how == 4:
        out = set()
        for unit in rng.sample(g.units + g.parts, min(
                rng.randint(1, 4), len(g.units))):
            out |= set(rng.sample(unit, rng.randint(1, len(unit))))
        return out
    if how == 5:
        return cells_of(random_groups(rng, w, h), w, h) or {(0, 0)}
    a = rng.sample(range(g.n), rng.randint(1, g.n))
    b = rng.sample(range(g.n), rng.randint(1, g.n))
    return {(r, c) for r in a for c in b}
