"""States of numbers and candidates for the step searches (C09, C10)."""
from vf import oracle, work


def union_state(rng, w, h):
    """Candidates are what a few solutions allow: patterns of every kind."""
    sol = work.solution(rng, w, h)
    grid = work.dig(rng, sol, w, h, rng.uniform(0.5, 0.95))
    try:
        sols = oracle.solutions(grid, w, h, 12, rng=rng, max_nodes=8000)
    except oracle.OracleLimit:
        sols = []
    sols = rng.sample(sols, min(len(sols), rng.randint(1, 5)))
    sols.append(sol)
    cand = {(r, c): frozenset([grid[r][c]]) if grid[r][c] else
            frozenset(x[r][c] for x in sols)
            for r, c in oracle.Geo(w, h).cells}
    return grid, cand, sol


def random_state(rng, shapes):
    w, h = rng.choice(shapes)
    if rng.random() < 0.3:
        grid, cand, sol = union_state(rng, w, h)
    else:
        grid, cand, sol = work.state(rng, w, h)
    return w, h, grid, cand, sol


def stale_state(rng, shapes):
    """Candidates that were not removed when numbers were set."""
    w, h, grid, cand, sol = random_state(rng, shapes)
    cand = work.loosen(rng, grid, cand, w, h)
    return w, h, grid, {
        (r, c): frozenset([grid[r][c]]) if grid[r][c] else x
        for (r, c), x in cand.items()}, sol


def wild_state(rng, shapes):
    """Any numbers and candidates: perhaps no solution is left."""
    w, h = rng.choice(shapes)
    n = w * h
    grid = work.dig(rng, work.solution(rng, w, h), w, h, rng.random())
    if rng.random() < 0.3:
        grid = work.add_conflict(rng, grid, w, h)
    lo, hi = rng.choice([(0, 0), (0, n), (1, n), (1, 3), (0, 2), (2, 2)])
    hi = min(hi, n)
    share = rng.choice([0.1, 0.5, 1])
    cand = {}
    for (r, c), x in oracle.all_candidates(grid, w, h).items():
        if not grid[r][c] and rng.random() < share:
            x = rng.sample(range(1, n + 1), rng.randint(min(lo, hi), hi))
        cand[r, c] = frozenset(x)
    return w, h, grid, cand


def dense(g, grid, cand):
    return ({(r, c): grid[r][c] for r, c in g.cells}, dict(cand))


RARE = ("HiddenTriple", "NakedQuad", "HiddenQuad", "NakedQuint",
        "HiddenQuint", "XWing", "Swordfish", "Jellyfish")
_BANK = []


def bank_puzzle(rng, techniques=RARE, shapes=None, unique=None):
    """A recorded grid where rare techniques act, scrambled."""
    from vf import bank
    if not _BANK:
        _BANK.extend(bank.load())
    name = rng.choice(techniques)
    pool = [e for e in _BANK if name in e[3]
            and (shapes is None or (e[0], e[1]) in shapes)
            and (unique is None or e[2] == unique)] or _BANK
    w, h, _, names, grid = rng.choice(pool)
    grid = work.scramble(rng, grid, w, h)
    if w != h and rng.random() < 0.5:
        grid = [list(x) for x in zip(*grid)]
        w, h = h, w
    return w, h, grid


def bank_walk(rng, stop=0.5, shapes=None):
    """A state on the way to a solution, often where a rare technique acts.

    The easiest techniques are applied by the model, all found at once.
    """
    w, h, grid = bank_puzzle(rng, shapes=shapes)
    g = oracle.Geo(w, h)
    num = {(r, c): grid[r][c] for r, c in g.cells}
    cand = {rc: frozenset(x) for rc, x in
            oracle.all_candidates(grid, w, h).items()}
    last = (num, cand)
    while True:
        for name in oracle.ORDER[1:-1]:
            found = oracle.instances(name, g, num, cand)
            if found:
                break
        else:
            # only a guess is left: the state before the last technique
            num, cand = last
            break
        if name in RARE and rng.random() < stop:
            break
        last = (num, cand)
        for inst in sorted(found):
            num, cand = oracle.apply_instance(g, num, cand, inst)
        if all(num.values()):
            num, cand = last
            break
    grid = [[num[r, c] for c in range(g.n)] for r in range(g.n)]
    return w, h, grid, cand
