"""An independent model of sudoku: geometry, rules, solutions, techniques.

Nothing here imports the library under test. A grid is a list of rows of
ints (0 = empty); w and h are box width and box height, n = w * h.
"""
from itertools import combinations


# ---------------------------------------------------------------- geometry

class Geo(object):
    _cache = {}

    def __new__(cls, w, h):
        try:
            return cls._cache[w, h]
        except KeyError:
            self = cls._cache[w, h] = object.__new__(cls)
            self._setup(w, h)
            return self

    def _setup(self, w, h):
        self.w, self.h, self.n = w, h, w * h
        n = self.n
        self.cells = [(r, c) for r in range(n) for c in range(n)]
        self.rows = [[(r, c) for c in range(n)] for r in range(n)]
        self.cols = [[(r, c) for r in range(n)] for c in range(n)]
        # boxes are numbered row by row, h boxes to a band, w bands
        self.boxes = []
        for band in range(w):
            for stack in range(h):
                self.boxes.append([(band * h + i, stack * w + j)
                                   for i in range(h) for j in range(w)])
        self.box_no, self.part_no = {}, {}
        for b, cells in enumerate(self.boxes):
            for p, rc in enumerate(cells):
                self.box_no[rc] = b
                self.part_no[rc] = p
        self.parts = [[rc for rc in self.cells if self.part_no[rc] == p]
                      for p in range(n)]
        self.units = self.rows + self.cols + self.boxes
        self.peers = {}
        for r, c in self.cells:
            s = set(self.rows[r]) | set(self.cols[c]) | set(
                self.boxes[self.box_no[r, c]])
            s.discard((r, c))
            self.peers[r, c] = s


# ---------------------------------------------------------------- rules

def conflict_pairs(grid, w, h):
    """Ordered pairs of distinct peers holding the same number."""
    g = Geo(w, h)
    out = []
    for r, c in g.cells:
        v = grid[r][c]
        if v:
            for i, j in g.peers[r, c]:
                if grid[i][j] == v:
                    out.append(((r, c), (i, j), v))
    return out


def has_conflict(grid, w, h):
    for unit in Geo(w, h).units:
        vals = [grid[r][c] for r, c in unit if grid[r][c]]
        if len(vals) != len(set(vals)):
            return True
    return False


def is_complete_solution(grid, w, h):
    n = w * h
    full = set(range(1, n + 1))
    return all({grid[r][c] for r, c in unit} == full
               for unit in Geo(w, h).units)


def candidates_of(grid, w, h, r, c):
    if grid[r][c]:
        return {grid[r][c]}
    return set(range(1, w * h + 1)) - {
        grid[i][j] for i, j in Geo(w, h).peers[r, c]}


def all_candidates(grid, w, h):
    return {(r, c): candidates_of(grid, w, h, r, c)
            for r, c in Geo(w, h).cells}


# ---------------------------------------------------------------- solving

class OracleLimit(Exception):
    pass


def solutions(grid, w, h, limit, rng=None, cands=None, max_nodes=200000):
    """Up to `limit` solutions as tuples of row tuples, by bitmask search.

    cands restricts cells to given candidates. rng randomises the order.
    Raises OracleLimit if the search grows beyond max_nodes.
    """
    g = Geo(w, h)
    n = g.n
    if has_conflict(grid, w, h):
        return []
    full = (1 << n) - 1
    avail = {}
    vals = {}
    rowm, colm, boxm = [full] * n, [full] * n, [full] * n
    for r, c in g.cells:
        v = grid[r][c]
        if v:
            bit = 1 << (v - 1)
            rowm[r] &= ~bit
            colm[c] &= ~bit
            boxm[g.box_no[r, c]] &= ~bit
            vals[r, c] = v
    for rc in g.cells:
        m = full
        if cands is not None:
            m = 0
            for v in cands[rc]:
                m |= 1 << (v - 1)
        if rc in vals:
            if not (1 << (vals[rc] - 1)) & m:
                return []
        else:
            avail[rc] = m
    out = []
    nodes = [0]
    box_no = g.box_no

    def search(empty):
        nodes[0] += 1
        if nodes[0] > max_nodes:
            raise OracleLimit()
        if not empty:
            out.append(tuple(tuple(vals[r, c] for c in range(n))
                             for r in range(n)))
            return len(out) >= limit
        best, bm, bc = None, 0, n + 1
        for rc in empty:
            r, c = rc
            m = avail[rc] & rowm[r] & colm[c] & boxm[box_no[rc]]
            k = bin(m).count("1")
            if k < bc:
                best, bm, bc = rc, m, k
                if k == 0:
                    return False
                if k == 1:
                    break
        places = None
        if bc > 1:
            # a digit with fewer places in a unit than best has digits?
            found = _digit_places(g, empty, avail, rowm, colm, boxm, bc)
            if found == "dead":
                return False
            if found:
                places = found
        if places:
            moves = [(rc, bit) for rc in places[1] for bit in (places[0],)]
        else:
            moves = []
            m = bm
            while m:
                bit = m & -m
                m ^= bit
                moves.append((best, bit))
        if rng is not None:
            rng.shuffle(moves)
        for rc, bit in moves:
            r, c = rc
            b = box_no[rc]
            if not (rowm[r] & colm[c] & boxm[b] & bit):
                continue
            rowm[r] ^= bit
            colm[c] ^= bit
            boxm[b] ^= bit
            vals[rc] = bit.bit_length()
            empty.remove(rc)
            stop = search(empty)
            empty.add(rc)
            del vals[rc]
            rowm[r] ^= bit
            colm[c] ^= bit
            boxm[b] ^= bit
            if stop:
                return True
        return False

    import sys
    if sys.getrecursionlimit() < 5000:
        sys.setrecursionlimit(5000)
    search(_OrderedSet(rc for rc in g.cells if rc not in vals))
    return out


class _OrderedSet(dict):
    def __init__(self, it):
        dict.__init__(self, ((x, None) for x in it))

    def add(self, x):
        self[x] = None

    def remove(self, x):
        del self[x]


def _digit_places(g, empty, avail, rowm, colm, boxm, best):
    """A (bit, cells) with fewer than `best` places in a unit, "dead" or None.
    """
    n = g.n
    units = {}
    for rc in empty:
        r, c = rc
        b = g.box_no[rc]
        m = avail[rc] & rowm[r] & colm[c] & boxm[b]
        for key in (r, n + c, 2 * n + b):
            units.setdefault(key, []).append((rc, m))
    found = None
    for key, items in units.items():
        need = (rowm[key] if key < n else
                colm[key - n] if key < 2 * n else boxm[key - 2 * n])
        while need:
            bit = need & -need
            need ^= bit
            cells = [rc for rc, m in items if m & bit]
            if not cells:
                return "dead"
            if len(cells) < best:
                best = len(cells)
                found = (bit, cells)
                if best == 1:
                    return found
    return found


def count_solutions(grid, w, h, limit=2, max_nodes=200000):
    return len(solutions(grid, w, h, limit, max_nodes=max_nodes))


# ---------------------------------------------------------------- techniques
#
# Every instance is (technique, clues, affected, values), all sorted tuples,
# for a state of (numbers, candidates) in which a filled cell has exactly its
# number as candidate.

def t_naked_single(g, num, cand):
    return {("NakedSingle", (rc,), (rc,), tuple(cand[rc]))
            for rc in g.cells if not num[rc] and len(cand[rc]) == 1}


def t_hidden_single(g, num, cand):
    """(cell, digit): no other cell of some unit of the cell has the digit."""
    out = set()
    for unit in g.units:
        for d in range(1, g.n + 1):
            have = [rc for rc in unit if d in cand[rc]]
            if len(have) == 1 and not num[have[0]]:
                out.add(("HiddenSingle", (have[0],), (have[0],), (d,)))
    return out


def naked_fields(g, num, cand, k):
    """{clues: set of (affected, values)} of the k-tuples of fields."""
    out = {}
    for unit in g.units:
        cells = [rc for rc in unit
                 if not num[rc] and 2 <= len(cand[rc]) <= k]
        for fields in combinations(cells, k):
            vals = set().union(*(cand[rc] for rc in fields))
            if len(vals) > k:
                continue
            affected = tuple(sorted(rc for rc in unit if rc not in fields
                                    and cand[rc] & vals))
            if affected:
                out.setdefault(tuple(sorted(fields)), set()).add(
                    (affected, tuple(sorted(vals))))
    return out


def t_hidden_tuple(g, num, cand, k, name):
    out = set()
    for unit in g.units:
        if not any(not num[rc] for rc in unit):
            continue
        places = {}
        for d in range(1, g.n + 1):
            have = frozenset(rc for rc in unit if d in cand[rc])
            if 2 <= len(have) <= k:
                places[d] = have
        for ds in combinations(sorted(places), k):
            cells = frozenset().union(*(places[d] for d in ds))
            if len(cells) > k:
                continue
            affected = tuple(sorted(rc for rc in cells
                                    if cand[rc] - set(ds)))
            if affected:
                out.add((name, tuple(sorted(unit)), affected, ds))
    return out


def t_pointing(g, num, cand, k, name):
    out = set()
    lines = g.rows + g.cols
    for d in range(1, g.n + 1):
        for box in g.boxes:
            have = [rc for rc in box if d in cand[rc]]
            if len(have) != k:
                continue
            for line in lines:
                if all(rc in line for rc in have):
                    affected = tuple(sorted(
                        rc for rc in line if rc not in have and d in cand[rc]))
                    if affected:
                        out.add((name, tuple(sorted(have)), affected, (d,)))
        for line in lines:
            have = [rc for rc in line if d in cand[rc]]
            if len(have) != k:
                continue
            if len({g.box_no[rc] for rc in have}) == 1:
                box = g.boxes[g.box_no[have[0]]]
                affected = tuple(sorted(
                    rc for rc in box if rc not in have and d in cand[rc]))
                if affected:
                    out.add((name, tuple(sorted(have)), affected, (d,)))
    return out


def t_fish(g, num, cand, k, name):
    out = set()
    for d in range(1, g.n + 1):
        for axis in (0, 1):
            base = g.rows if axis == 0 else g.cols
            pos = {}
            for i, line in enumerate(base):
                have = [rc for rc in line if d in cand[rc]]
                if 2 <= len(have) <= k:
                    pos[i] = have
            for idx in combinations(sorted(pos), k):
                fields = [rc for i in idx for rc in pos[i]]
                cover = {}
                for rc in fields:
                    x = rc[1 - axis]
                    cover[x] = cover.get(x, 0) + 1
                if len(cover) > k or min(cover.values()) < 2:
                    continue
                affected = tuple(sorted(
                    rc for rc in g.cells if rc[1 - axis] in cover
                    and rc[axis] not in idx and d in cand[rc]))
                if affected:
                    out.add((name, tuple(sorted(fields)), affected, (d,)))
    return out


NAKED = {"NakedPair": 2, "NakedTriple": 3, "NakedQuad": 4, "NakedQuint": 5}
HIDDEN = {"HiddenPair": 2, "HiddenTriple": 3, "HiddenQuad": 4,
          "HiddenQuint": 5}
POINTING = {"PointingPair": 2, "PointingTriple": 3}
FISH = {"XWing": 2, "Swordfish": 3, "Jellyfish": 4}
ORDER = ["CalculateCandidates", "NakedSingle", "HiddenSingle", "NakedPair",
         "HiddenPair", "NakedTriple", "HiddenTriple", "NakedQuad",
         "HiddenQuad", "NakedQuint", "HiddenQuint", "PointingPair",
         "PointingTriple", "XWing", "Swordfish", "Jellyfish", "Bruteforce"]
LEVELS = dict(zip(ORDER, [0, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 5, 6, 7, 10]))


def instances(name, g, num, cand):
    """All instances of a technique; naked tuples as a superset by unit."""
    if name == "NakedSingle":
        return t_naked_single(g, num, cand)
    if name == "HiddenSingle":
        return t_hidden_single(g, num, cand)
    if name in NAKED:
        return {(name, clues, aff, vals)
                for clues, s in naked_fields(g, num, cand, NAKED[name]).items()
                for aff, vals in s}
    if name in HIDDEN:
        return t_hidden_tuple(g, num, cand, HIDDEN[name], name)
    if name in POINTING:
        return t_pointing(g, num, cand, POINTING[name], name)
    if name in FISH:
        return t_fish(g, num, cand, FISH[name], name)
    raise KeyError(name)


def apply_instance(g, num, cand, inst):
    """New (num, cand) after an instance."""
    name, clues, affected, values = inst
    num, cand = dict(num), dict(cand)
    if name in ("NakedSingle", "HiddenSingle"):
        rc, v = affected[0], values[0]
        num[rc] = v
        cand[rc] = frozenset([v])
        for p in g.peers[rc]:
            cand[p] = frozenset(cand[p] - {v})
    elif name in HIDDEN:
        for rc in affected:
            cand[rc] = frozenset(cand[rc] & set(values))
    else:
        for rc in affected:
            cand[rc] = frozenset(cand[rc] - set(values))
    return num, cand


def singles_close(grid, w, h):
    """Fill singles until none is left; True if that completes the grid."""
    g = Geo(w, h)
    num = {(r, c): grid[r][c] for r, c in g.cells}
    cand = {rc: frozenset(s) for rc, s in all_candidates(grid, w, h).items()}
    while True:
        found = t_naked_single(g, num, cand) or t_hidden_single(g, num, cand)
        if not found:
            return all(num[rc] for rc in g.cells)
        num, cand = apply_instance(g, num, cand, sorted(found)[0])
