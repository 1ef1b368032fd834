"""Writes known_findings.json from the list below (commits by subject)."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = [
    {"id": "score-formula-unbounded", "property": "C12",
     "what": "score() exceeds the documented maximum of 10 * empty fields if "
             "eliminations add to a sudoku that needs guessing for nearly "
             "every field, e.g. 566 > 560 for 0061870090000090000090020000"
             "02003000800200300000000006000901760000030008600728003; only "
             "where the score is exactly the sum of the levels of the "
             "reported steps"},
]
FIXED = [
    ("C29", "fix: show the real signature", "help raised AttributeError (inspect.getargspec) and showed defaults of other parameters"),
    ("C11", "fix: let solve() end", "solvers.solve() never ended for unsolvable sudokus"),
    ("C18", "fix: compare items with the empty marker", "decode() failed for empty markers that are not interned"),
    ("C18", "fix: keep leading and trailing empty", "decode(empty=' ') lost blanks at both ends"),
    ("C18", "fix: separate candidates in encode()", "candidates > 9 were ambiguous, decode(number_sep) failed on empty candidate lists"),
    ("C17", "fix: sudokus of different size", "a smaller sudoku equalled a larger one, not vice versa"),
    ("C19", "fix: use the number_sep argument", "view(number_sep=...) was ignored"),
    ("C19", "fix: align the rules of view()", "rules too long for boxes of height 1"),
    ("C22", "fix: remove whitespace in notation", "'r1 c1' raised ValueError"),
    ("C22", "fix: refuse repeated kinds", "'r1r2c1' dropped r1, 'r1c' was the whole row, 'r' raised TypeError"),
    ("C23", "fix: make encode_action() work", "encode_action() raised TypeError or returned None"),
    ("C23", "fix: read candidates to remove after '-'", "decode_action('-12 r1c1') always failed"),
    ("C23", "fix: support candidates above 9", "'r1c1<>12' on 16x16 removed 1 and 2"),
    ("C26", "fix: report every malformed shell argument", "'set 0 0 {[]}' ended the shell with TypeError"),
    ("C27", "fix: forget an interrupted command line", "after an interrupt the next line was appended to the interrupted one"),
    ("C27", "fix: close a loop also if", "after an interrupted 'loop end' the loop definition stayed open"),
    ("C30", "fix: don't crash on empty lines", "an empty line and 'settings' ended the game with an error"),
    ("C24", "fix: print numbers and candidates", "the shell commands get and get_candidates always failed"),
    ("C27", "fix: don't execute a continued line", "the beginning of an interrupted continued line was executed at end of input"),
    ("C23", "fix: emptying a field by an action", "'r1c1=0' left the candidate 0, which hung the game with autoset"),
    ("C30", "fix: hints follow changed", "after removing or calculating candidates, hint went on with the steps of the state before"),
    ("C09", "fix: a hidden single is a", "HiddenSingle.find() reported numbers that are no candidates of the field"),
    ("C02", "fix: dlx() doesn't exceed", "dlx() raised RecursionError if more than some 900 fields are empty, e.g. with 36x36 fields; so did is_unique() (C03)"),
    ("C02", "fix: bruteforce() doesn't exceed", "bruteforce() raised RecursionError if some 1000 fields are empty"),
    ("C17", "fix: equals() is false for", "Sudoku.equals() was true for a larger sudoku with the same beginning and raised IndexError for a smaller one"),
    ("C27", "fix: an interrupted pop", "an interrupt right after the sudoku was taken from the stack lost it: neither on the stack nor current"),
    ("C10", "fix: report each hidden tuple once", "HiddenTuple.find() yielded the same step once per field"),
]

log = subprocess.check_output(
    ["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines()
fixed = []
for prop, subject, what in FIXED:
    hits = [l.split()[0] for l in log if l.split(" ", 1)[1].startswith(subject)]
    assert len(hits) == 1, (subject, hits)
    fixed.append("fixed: property=%s %s %s" % (prop, hits[0], what))
with open(os.path.join(HERE, "known_findings.json"), "w") as f:
    json.dump({"known": KNOWN, "fixed": fixed}, f, indent=1)
    f.write("\n")
