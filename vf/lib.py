"""Small helpers on objects of the library, used by many properties."""
import random
import types

from vf import work

LOGICAL = ["NakedSingle", "HiddenSingle", "NakedPair", "HiddenPair",
           "NakedTriple", "HiddenTriple", "NakedQuad", "HiddenQuad",
           "NakedQuint", "HiddenQuint", "PointingPair", "PointingTriple",
           "XWing", "Swordfish", "Jellyfish"]


def technique(name):
    from sudokutools import solvers
    return getattr(solvers, name)


def solver(name):
    from sudokutools import solve
    return getattr(solve, name)


def step_key(step):
    """(technique, clues, affected, values) of a step."""
    return (type(step).__name__, tuple(sorted(map(tuple, step.clues))),
            tuple(sorted(map(tuple, step.affected))),
            tuple(sorted(step.values)))


def text(grid):
    """A grid as a short string for witnesses."""
    n = len(grid)
    sep = "" if n < 10 else " "
    return "/".join(sep.join(str(v) for v in row) for row in grid)


def ctext(cand):
    return {"r%dc%d" % (r + 1, c + 1): sorted(v)
            for (r, c), v in sorted(cand.items())}


def is_sudoku(x):
    from sudokutools.sudoku import Sudoku
    return isinstance(x, Sudoku)


def check_solution(mon, clues, w, h, got, what):
    """One yielded solution against the rules."""
    from vf import oracle
    mon.check(is_sudoku(got), what + ": not a sudoku", got=repr(got))
    mon.check(tuple(got.box_size) == (w, h) and got.box_width == w
              and got.box_height == h, what + ": other box size",
              expected=(w, h), got=got.box_size)
    grid = mon.call("reading a solution", work.grid_of, got)
    mon.check(oracle.is_complete_solution(grid, w, h),
              what + ": not a valid complete grid", clues=text(clues),
              got=text(grid), box=(w, h))
    for r in range(w * h):
        for c in range(w * h):
            if clues[r][c] and clues[r][c] != grid[r][c]:
                mon.fail(what + ": a clue was changed", clues=text(clues),
                         got=text(grid), field=(r, c), box=(w, h))
    return grid
