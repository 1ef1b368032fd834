"""Workload generators: sizes, grids, puzzles, candidate states.

Everything here is drawn from the case's own random generator and built with
the oracle only, so a workload never depends on the code it will exercise.
"""
from vf import oracle
from vf.oracle import Geo, OracleLimit
from vf.core import Skip

TINY = [(1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2)]
SMALL = [(2, 2), (2, 3), (3, 2), (1, 5), (5, 1), (1, 4), (4, 1)]
MEDIUM = [(3, 3), (2, 4), (4, 2), (3, 3), (2, 5), (5, 2), (3, 3)]
LARGE = [(3, 4), (4, 3), (2, 6), (6, 2), (4, 4), (4, 4)]
HUGE = [(5, 4), (4, 5), (5, 5)]
# numbers of three digits
VAST = [(10, 10), (20, 5), (5, 20), (1, 100), (101, 1), (17, 6)]
# every shape of a box with at most 25 numbers
ALL_SHAPES = [(w, h) for w in range(1, 26) for h in range(1, 26)
              if w * h <= 25]

HARD9 = [
    "800000000003600000070090200050007000000045700000100030001000068008500010090000400",
    "000000010400000000020000000000050407008000300001090000300400200050100000000806000",
    "400000805030000000000700000020000060000080400000010000000603070500200000104000000",
    "000000000000003085001020000000507000004000100090000000500000073002010000000040009",
    "005300000800000020070010500400005300010070006003200080060500009004000030000009700",
    "000801000000000043500000000000070800000000100020030000600000075003400000000200600",
    "100007090030020008009600500005300900010080002600004000300000010040000007007000300",
    "000070005600051807000800040002000301010002000030000090509000012800000406004006000",
    "500010070840000000603500000000030005000107000030040210070950400000004502000000900",
    "000900000040058006509004000000000040650000203020600008900740000007000800003009005",
    "900080000000014580007090200108940020009030000050000030300000670021050300000000100",
    "000000000000008435000030860000000218060000000900154000001000040008700021020900500",
    "003020600900305001001806400008102900700000008006708200002609500800203009005010300",
]


def parse9(s):
    return [[int(x) for x in s[9 * r:9 * r + 9]] for r in range(9)]


def blank(n):
    return [[0] * n for _ in range(n)]


def canonical(w, h):
    n = w * h
    return [[(w * (r % h) + r // h + c) % n + 1 for c in range(n)]
            for r in range(n)]


def scramble(rng, grid, w, h):
    """A random symmetry: rows in bands, bands, columns, stacks, numbers."""
    n = w * h
    rows = []
    for band in rng.sample(range(w), w):
        rows += [band * h + i for i in rng.sample(range(h), h)]
    cols = []
    for stack in rng.sample(range(h), h):
        cols += [stack * w + j for j in rng.sample(range(w), w)]
    perm = [0] + rng.sample(range(1, n + 1), n)
    out = [[perm[grid[r][c]] for c in cols] for r in rows]
    if w == h and rng.random() < 0.5:
        out = [list(x) for x in zip(*out)]
    return out


def solution(rng, w, h):
    """A random complete grid."""
    n = w * h
    grid = scramble(rng, canonical(w, h), w, h)
    if n == 1:
        return grid
    if n <= 10:
        how = rng.random()
        if how < 0.3:
            return grid
        if how < 0.65:
            start = blank(n)
            vals = rng.sample(range(1, n + 1), n)
            for (r, c), v in zip(Geo(w, h).boxes[rng.randrange(n)], vals):
                start[r][c] = v
        else:
            start = dig(rng, grid, w, h, rng.uniform(0.5, 0.8))
    else:
        start = dig(rng, grid, w, h, rng.uniform(0.3, 0.45))
    try:
        return [list(r) for r in oracle.solutions(
            start, w, h, 1, rng=rng, max_nodes=5000)[0]]
    except OracleLimit:
        return grid


def dig(rng, grid, w, h, share):
    """Blank a share of the fields."""
    cells = list(Geo(w, h).cells)
    out = [list(r) for r in grid]
    for r, c in rng.sample(cells, int(round(share * len(cells)))):
        out[r][c] = 0
    return out


def dig_unique(rng, grid, w, h, goal=0):
    """Blank fields while the solution stays unique, down to `goal` clues."""
    cells = list(Geo(w, h).cells)
    rng.shuffle(cells)
    out = [list(r) for r in grid]
    left = len(cells)
    for r, c in cells:
        if left <= goal:
            break
        v = out[r][c]
        out[r][c] = 0
        try:
            if oracle.count_solutions(out, w, h, 2, max_nodes=3000) != 1:
                raise OracleLimit()
            left -= 1
        except OracleLimit:
            out[r][c] = v
    return out


def puzzle_limited(rng, w, h, limit, lo=0.2, hi=0.8, max_nodes=20000):
    """(puzzle, all its solutions) with at most `limit` solutions."""
    sol = solution(rng, w, h)
    share = rng.uniform(lo, hi)
    for _ in range(12):
        p = dig(rng, sol, w, h, share)
        try:
            s = oracle.solutions(p, w, h, limit + 1, max_nodes=max_nodes)
            if len(s) <= limit:
                return p, s
        except OracleLimit:
            pass
        share *= 0.85
    return sol, [tuple(map(tuple, sol))]


def add_clue_unsolvable(rng, sol, w, h, tries=30, hi=0.62):
    """A puzzle without conflict and without solution, or None."""
    n = w * h
    g = Geo(w, h)
    for _ in range(tries):
        p = dig(rng, sol, w, h, rng.uniform(0.3, hi))
        empty = [rc for rc in g.cells if not p[rc[0]][rc[1]]]
        rng.shuffle(empty)
        for r, c in empty[:10]:
            opts = list(oracle.candidates_of(p, w, h, r, c) - {sol[r][c]})
            if not opts:
                continue
            p[r][c] = rng.choice(opts)
            try:
                if not oracle.solutions(p, w, h, 1, max_nodes=3000):
                    return p
            except OracleLimit:
                pass
            p[r][c] = 0
    return None


def add_conflict(rng, grid, w, h):
    """Put a number next to an equal one."""
    g = Geo(w, h)
    out = [list(r) for r in grid]
    filled = [rc for rc in g.cells if out[rc[0]][rc[1]]]
    if not filled or g.n == 1:
        return out
    r, c = rng.choice(filled)
    kind = rng.randrange(3)
    unit = (g.rows[r], g.cols[c], g.boxes[g.box_no[r, c]])[kind]
    others = [rc for rc in unit if rc != (r, c)]
    if not others:
        return out
    i, j = rng.choice(others)
    out[i][j] = out[r][c]
    return out


def one_sided(rng, w, h):
    """A complete grid that is right in two of rows, columns and boxes only
    (if there is such a grid), or differs from a right one in a few fields."""
    n = w * h
    sol = solution(rng, w, h)
    how = rng.randrange(4)
    if how == 0:
        # a latin square, whose boxes are wrong
        out = [list(r) for r in sol]
        rng.shuffle(out)
        if rng.random() < 0.5:
            out = [list(x) for x in zip(*out)]
            rng.shuffle(out)
            out = [list(x) for x in zip(*out)]
        return out
    out = [list(r) for r in sol]
    for _ in range(rng.choice([1, 1, 2, n])):
        r, c = rng.randrange(n), rng.randrange(n)
        if how == 1:
            # the same row and box: the columns are wrong
            i, j = r, c - c % w + rng.randrange(w)
        elif how == 2:
            i, j = r - r % h + rng.randrange(h), c
        else:
            i, j = (r, rng.randrange(n)) if rng.random() < 0.5 else (
                rng.randrange(n), c)
        out[r][c], out[i][j] = out[i][j], out[r][c]
    return out


def garbage(rng, w, h, share=None):
    """A grid of random numbers."""
    n = w * h
    if share is None:
        share = rng.random()
    return [[rng.randint(1, n) if rng.random() < share else 0
             for _ in range(n)] for _ in range(n)]


# ------------------------------------------------------------ library objects

def to_sudoku(grid, w, h):
    from sudokutools.sudoku import Sudoku
    s = Sudoku(box_size=(w, h))
    for r, row in enumerate(grid):
        for c, v in enumerate(row):
            if v:
                s[r, c] = v
    return s


def dressed(rng, grid, w, h):
    """A sudoku of these numbers, made in one of many ways, with any
    candidates: for functions that depend on the numbers only."""
    from sudokutools.sudoku import Sudoku
    n = w * h
    how = rng.randrange(5)
    if how == 0:
        s = to_sudoku(grid, w, h)
    elif how == 1:
        # other numbers were there before
        s = to_sudoku(garbage(rng, w, h), w, h)
        for r, c in rng.sample([(r, c) for r in range(n) for c in range(n)],
                               n * n):
            s[r, c] = grid[r][c]
    elif how == 2:
        s = Sudoku.decode("/".join(",".join(map(str, row)) for row in grid)
                          .replace("/", ","), number_sep=",",
                          box_size=(w, h))
    else:
        s = to_sudoku(grid, w, h).copy(include_candidates=how == 3)
    how = rng.randrange(6)
    for r in range(n):
        for c in range(n):
            if how == 0:
                s.set_candidates(r, c, rng.sample(range(1, n + 1),
                                                  rng.randint(0, n)))
            elif how == 1 and grid[r][c]:
                s.set_candidates(r, c, {grid[r][c]})
            elif how == 2:
                s.set_candidates(r, c, oracle.candidates_of(
                    grid, w, h, r, c))
            elif how == 3 and rng.random() < 0.2:
                s.set_candidates(r, c, {rng.randint(1, n)})
    return s


def grid_of(s):
    n = s.box_width * s.box_height
    return tuple(tuple(s[r, c] for c in range(n)) for r in range(n))


def cands_of(s):
    n = s.box_width * s.box_height
    return tuple(tuple(frozenset(s.get_candidates(r, c)) for c in range(n))
                 for r in range(n))


def snapshot(s):
    """Everything observable of a sudoku."""
    return (tuple(s.box_size), grid_of(s), cands_of(s))


def set_cands(s, cand):
    for (r, c), v in cand.items():
        s.set_candidates(r, c, v)


# ------------------------------------------------------------ states

def state(rng, w, h, share=None):
    """A (grid, cand, sol): sound candidates around one solution.

    Candidates are the plain ones minus random wrong ones; in addition
    patterns of the techniques are planted, which keep the solution.
    """
    g = Geo(w, h)
    n = g.n
    sol = solution(rng, w, h)
    if share is None:
        share = rng.uniform(0.25, 0.95)
    grid = dig(rng, sol, w, h, share)
    cand = oracle.all_candidates(grid, w, h)
    p = rng.choice([0, 0, 0.1, 0.3, 0.5, 0.7]) * rng.random()
    for r, c in g.cells:
        if not grid[r][c]:
            for d in list(cand[r, c]):
                if d != sol[r][c] and rng.random() < p:
                    cand[r, c].discard(d)
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        plant(rng, g, grid, cand, sol)
    return grid, {rc: frozenset(s) for rc, s in cand.items()}, sol


def loosen(rng, grid, cand, w, h):
    """More candidates than needed: numbers were set without removing them
    elsewhere, or filled fields still have others.  Loses no solution."""
    n = w * h
    g = Geo(w, h)
    cand = {rc: set(x) for rc, x in cand.items()}
    p = rng.choice([0.02, 0.1, 0.3])
    where = rng.choice(["empty", "filled", "peers", "all"])
    for r, c in g.cells:
        if rng.random() < p and (
                where == "all" or (where == "filled") == bool(grid[r][c])
                and where != "peers"):
            cand[r, c].add(rng.randint(1, n))
        elif where == "peers" and grid[r][c] and rng.random() < p:
            for rc in g.peers[r, c]:
                if not grid[rc[0]][rc[1]] and rng.random() < 0.5:
                    cand[rc].add(grid[r][c])
    return {rc: frozenset(x) for rc, x in cand.items()}


def plant(rng, g, grid, cand, sol):
    n = g.n
    kind = rng.choice(["naked", "hidden", "pointing", "claiming", "fish",
                       "fish", "single", "hsingle"])
    empty = [rc for rc in g.cells if not grid[rc[0]][rc[1]]]
    if not empty:
        return
    if kind in ("naked", "hidden"):
        unit = rng.choice(g.units)
        cells = [rc for rc in unit if rc in empty]
        k = rng.randint(2, 5)
        if len(cells) <= k:
            return
        cells = rng.sample(cells, k)
        digits = {sol[r][c] for r, c in cells}
        for rc in (cells if kind == "naked" else
                   [x for x in unit if x not in cells]):
            r, c = rc
            if grid[r][c]:
                continue
            if kind == "naked":
                cand[rc] &= digits
            else:
                cand[rc] -= digits
    elif kind in ("pointing", "claiming"):
        r, c = rng.choice(empty)
        d = sol[r][c]
        box = g.boxes[g.box_no[r, c]]
        line = rng.choice([g.rows[r], g.cols[c]])
        scope, keep = (box, line) if kind == "pointing" else (line, box)
        for rc in scope:
            if rc not in keep and not grid[rc[0]][rc[1]]:
                cand[rc].discard(d)
    elif kind == "fish":
        d = rng.randint(1, n)
        k = rng.randint(2, 4)
        axis = rng.randrange(2)
        # lines in which d is not a given
        home = {}
        for r, c in g.cells:
            if sol[r][c] == d and not grid[r][c]:
                home[(r, c)[axis]] = (r, c)[1 - axis]
        if len(home) <= k:
            return
        idx = rng.sample(sorted(home), k)
        cover = {home[i] for i in idx}
        for rc in g.cells:
            if rc[axis] in idx and rc[1 - axis] not in cover and \
                    not grid[rc[0]][rc[1]]:
                cand[rc].discard(d)
    elif kind == "single":
        r, c = rng.choice(empty)
        cand[r, c] = {sol[r][c]}
    elif kind == "hsingle":
        r, c = rng.choice(empty)
        unit = rng.choice([g.rows[r], g.cols[c], g.boxes[g.box_no[r, c]]])
        for rc in unit:
            if rc != (r, c) and not grid[rc[0]][rc[1]]:
                cand[rc].discard(sol[r][c])


def state_sudoku(grid, cand, w, h):
    s = to_sudoku(grid, w, h)
    set_cands(s, cand)
    return s


def rectangle_pair(rng, w, h):
    """A puzzle with exactly two solutions that differ in four fields.

    None if no solved grid with a swappable rectangle turned up.
    """
    g = Geo(w, h)
    n = g.n
    for _ in range(20):
        sol = solution(rng, w, h)
        found = []
        for r1 in range(n):
            for r2 in range(r1 + 1, n):
                where = {sol[r2][c]: c for c in range(n)}
                for c1 in range(n):
                    c2 = where[sol[r1][c1]]
                    if c2 > c1 and sol[r2][c1] == sol[r1][c2]:
                        boxes = [{g.box_no[r, c] for r in (r1, r2)}
                                 for c in (c1, c2)]
                        rows = [{g.box_no[r, c] for c in (c1, c2)}
                                for r in (r1, r2)]
                        # the swap must keep the boxes
                        if all(len(b) == 1 for b in boxes) or \
                                all(len(b) == 1 for b in rows):
                            found.append((r1, r2, c1, c2))
        if found:
            r1, r2, c1, c2 = rng.choice(found)
            p = [list(row) for row in sol]
            for r in (r1, r2):
                for c in (c1, c2):
                    p[r][c] = 0
            return p, sol
    return None


def run_together(rng, grid):
    """Two grids with numbers above 9 that differ in two neighbouring fields
    only, but are the same row of digits: 1, 11 and 11, 1 or 1, 10 and 11, 0.
    """
    n = len(grid)
    pairs = {}
    for a in range(n + 1):
        for b in range(n + 1):
            pairs.setdefault("%d%d" % (a, b), []).append((a, b))
    x, y = rng.sample(rng.choice(
        [v for v in pairs.values() if len(v) > 1]), 2)
    one, two = [list(r) for r in grid], [list(r) for r in grid]
    k = rng.randrange(n * n - 1)
    if rng.random() < 0.3:
        # side by side in a column
        k = rng.randrange(n * (n - 1))
        where = [divmod(k, n), divmod(k + n, n)]
    else:
        where = [divmod(k, n), divmod(k + 1, n)]
    for g, vals in ((one, x), (two, y)):
        for (r, c), v in zip(where, vals):
            g[r][c] = v
    return one, two


def rectangle_together(rng, w, h):
    """As rectangle_pair(), with two numbers above 9 that run together."""
    n = w * h
    p = rectangle_pair(rng, w, h)
    if p is None:
        return None
    grid, sol = p
    hole = [(r, c) for r in range(n) for c in range(n) if not grid[r][c]]
    (r1, c1), (r1, c2) = hole[:2]
    a, b = sol[r1][c1], sol[r1][c2]
    x = rng.randint(1, n // 10)
    y = rng.choice([v for v in range(10, n + 1) if str(v) == str(x) * len(
        str(v))] or [n])
    rest = [v for v in range(1, n + 1) if v not in (x, y)]
    rng.shuffle(rest)
    perm = {a: x, b: y, 0: 0}
    for v in range(1, n + 1):
        if v not in perm:
            perm[v] = rest.pop()
    # move the two columns next to each other
    cols = list(range(n))
    i, j = c1 // w, c2 // w
    stacks = [cols[k * w:k * w + w] for k in range(n // w)]
    if i == j:
        stacks[i].remove(c2)
        stacks[i].insert(stacks[i].index(c1) + 1, c2)
    else:
        stacks[i].remove(c1)
        stacks[i].append(c1)
        stacks[j].remove(c2)
        stacks[j].insert(0, c2)
        one = stacks.pop(j)
        stacks.insert(stacks.index(next(
            s for s in stacks if c1 in s)) + 1, one)
    cols = sum(stacks, [])
    return ([[perm[row[c]] for c in cols] for row in grid],
            [[perm[row[c]] for c in cols] for row in sol])


def blank_lines(rng, sol, w, h):
    """A grid of a solution without some whole lines, boxes or numbers."""
    n = w * h
    g = oracle.Geo(w, h)
    grid = [list(r) for r in sol]
    out = set()
    how = rng.randrange(5)
    if how == 0:
        # neighbouring rows
        a = rng.randrange(n)
        for r in range(a, min(n, a + rng.choice([1, 2, 2, 2, 3]))):
            out |= {(r, c) for c in range(n)}
    elif how == 1:
        a = rng.randrange(n)
        for c in range(a, min(n, a + rng.choice([1, 2, 2, 2, 3]))):
            out |= {(r, c) for r in range(n)}
    elif how == 2:
        for unit in rng.sample(g.units, rng.choice([1, 2, 2, 3])):
            out |= set(unit)
    elif how == 3:
        gone = rng.sample(range(1, n + 1), min(n, rng.choice([1, 1, 2, 2, 3])))
        out = {(r, c) for r in range(n) for c in range(n)
               if sol[r][c] in gone}
    else:
        # one row and one column, perhaps a number
        a, b = rng.randrange(n), rng.randrange(n)
        out = {(a, c) for c in range(n)} | {(r, b) for r in range(n)}
        gone = rng.sample(range(1, n + 1), rng.choice([0, 1]))
        out |= {(r, c) for r in range(n) for c in range(n)
                if sol[r][c] in gone}
    if rng.random() < 0.4:
        out |= set(rng.sample(g.cells, rng.randint(0, max(1, n // 2))))
    for r, c in out:
        grid[r][c] = 0
    return grid


def deep(rng, n=None):
    """(w, h, puzzle, solution): three quarters of the fields are empty, and
    filling them needs no search.

    A critical set of the cyclic latin square of even order, scrambled.
    """
    n = n or rng.choice([34, 36, 38, 38, 40])
    rows, cols = rng.sample(range(n), n), rng.sample(range(n), n)
    num = rng.sample(range(1, n + 1), n)
    grid, sol = blank(n), blank(n)
    for i in range(n):
        for j in range(n):
            v = num[(i + j) % n]
            sol[rows[i]][cols[j]] = v
            if i + j < n // 2 or i + j >= n + n // 2:
                grid[rows[i]][cols[j]] = v
    w, h = rng.choice([(1, n), (n, 1)])
    return w, h, grid, sol
