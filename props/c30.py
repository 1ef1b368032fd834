"""C30 - playing: moves, automatic rules, undo and redo."""
import io
import re
import sys

from vf import nota, oracle, work
from vf.lib import text
from vf.shellkit import Streams, drain
from props.c19 import cut

ID = "C30"
LEVEL = "exploration"
FILES = ["shell.py", "notation.py", "actions.py"]
RULE = ("one case = one game of 25 to 60 input lines (some of 250 or 400, with "
        "all states undone and redone at the end) typed into the running "
        "game through standard input (moves in all forms on one or many "
        "fields, undo, redo, queries, blank and unusable lines), for all "
        "eight combinations of the automatic rules; after every line the "
        "printed grid is cut into fields and compared with a model that "
        "applies the rules and keeps the history, and the lists printed by "
        "conflicts and check are compared with an oracle, those printed by "
        "hint with solvers.hints() in the same state; non-trivial = a "
        "line that changes the grid or lists something")
ASSUMPTIONS = ["the game has no command to end it; it is ended by the end of "
               "its input", "numbers of moves are numbers of the sudoku or 0"]
PLAN = {
    "quick": [("play", 360), ("fuzz", 90), ("mess", 150),
              ("long", 24)],
    "thorough": [("play", 3600), ("fuzz", 900), ("mess", 1500),
                 ("long", 240)],
}
REQUIRE = {"lines": 10000, "moves": 3000, "several fields": 300,
           "removals": 600, "undo": 900, "redo": 300, "new branch": 250,
           "nothing to undo": 40, "nothing to redo": 40,
           "conflicts listed": 250, "wrong fields listed": 250,
           "automatically set": 800, "automatically removed": 600,
           "unusable": 900, "blank": 200, "hints": 200, "candidates": 150,
           "settings": 60, "without effect": 60, "emptied": 60,
           "no conflicts": 40, "hints in a row": 1000, "start": 300,
           "hints judged": 2500, "100 states or more": 7,
           "redone to the end": 1500,
           "hints after a hint in another state": 70}


class Game(object):
    """Numbers and candidates by field, and what a line makes of them."""

    def __init__(self, num, settings):
        self.g = oracle.Geo(3, 3)
        self.settings = settings
        self.start = dict(num)
        self.num = dict(num)
        self.cand = {rc: {v} if v else set() for rc, v in num.items()}
        self.history, self.at = [], 0

    def grid(self):
        return [[self.num[r, c] for c in range(9)] for r in range(9)]

    def state(self):
        return dict(self.num), {k: set(v) for k, v in self.cand.items()}

    def load(self):
        num, cand = self.history[self.at]
        self.num, self.cand = dict(num), {k: set(v)
                                          for k, v in cand.items()}

    def begin(self, mon, fields, what):
        if self.settings["autocandidates"]:
            self.calculate()
            if self.settings["autoset"] and not self.settings["autoremove"]:
                # the candidates are those before numbers were set
                for rc, v in self.num.items():
                    if not v:
                        shown = set(int(x) for x in fields[rc]
                                    if x.isdigit())
                        mon.check(self.cand[rc] <= shown, "a candidate of "
                                  "the new sudoku is missing", field=rc,
                                  got=fields[rc], expected=sorted(
                                      self.cand[rc]), **what)
                        self.cand[rc] = shown
            nset = self.auto()[0]
            mon.check(not nset, "the automatic rules were not applied to the "
                      "new sudoku", **what)
        self.history = [self.state()]

    def calculate(self):
        grid = self.grid()
        for r, c in self.num:
            v = self.num[r, c]
            self.cand[r, c] = {v} if v else set(
                oracle.candidates_of(grid, 3, 3, r, c))

    def auto(self):
        """The automatic rules, until they change nothing. The numbers of
        fields set and of candidates removed."""
        nset = nrem = 0
        while True:
            before = nset + nrem
            if self.settings["autoremove"]:
                for rc, v in self.num.items():
                    if v:
                        for x in self.g.peers[rc]:
                            if v in self.cand[x]:
                                self.cand[x].remove(v)
                                nrem += 1
            if self.settings["autoset"]:
                for rc in [x for x in self.num if not self.num[x]]:
                    if len(self.cand[rc]) == 1:
                        self.num[rc], = self.cand[rc]
                        nset += 1
            if nset + nrem == before:
                return nset, nrem

    def commit(self):
        """True, if the last line changed something."""
        if self.state() == self.history[self.at]:
            return False
        branch = len(self.history) > self.at + 1
        self.history = self.history[:self.at + 1] + [self.state()]
        self.at += 1
        return "branch" if branch else True


class Feed(object):
    """Standard input: the session generator says what is typed."""

    def __init__(self, session, st):
        self.session, self.st = session, st
        self.error, self.done, self.started = None, False, False
        self.lines = []

    def isatty(self):
        return False

    def __iter__(self):
        return iter(self.readline, "")

    def __next__(self):
        line = self.readline()
        if not line:
            raise StopIteration
        return line

    def readline(self, *args):
        if self.done:
            return ""
        try:
            out = drain(self.st.out)
            if not self.started:
                self.started = True
                next(self.session)
            line = self.session.send(out)
        except StopIteration:
            self.done = True
            return ""
        except BaseException as e:
            self.error, self.done = e, True
            return ""
        self.lines.append(line)
        return line + "\n"


def shown(mon, out, what):
    """Messages and {field: text} of what was printed before the prompt."""
    t = out.rstrip()
    if t.endswith(">"):
        t = t[:-1]
    rows = t.rstrip("\n ").split("\n")
    mon.check(len(rows) >= 11, "no grid is printed", out=out, **what)
    fields = cut(mon, "\n".join(rows[-11:]), 3, 3, dict(what, out=out))
    return "\n".join(rows[:-11]), {
        (r, c): fields[r][c].strip() for r in range(9) for c in range(9)}


def compare(mon, game, fields, what):
    for rc, got in fields.items():
        v = game.num[rc]
        want = str(v) if v else "*" + "".join(
            map(str, sorted(game.cand[rc])))
        mon.check(got == want, "the grid shows something else than the moves "
                  "made", field=rc, got=got, expected=want, **what)


def conflict_lines(mon, msg, what):
    out = []
    for row in msg.split("\n"):
        if not row.strip():
            continue
        m = re.search(r"(r\dc\d|c\dr\d)\s*=\s*(r\dc\d|c\dr\d)\s*=\s*(\d+)",
                      row)
        mon.check(m, "an unreadable conflict", line=row, **what)
        cells = [nota.read(x, 3, 3)[1] for x in m.groups()[:2]]
        out.append((frozenset(cells[0] | cells[1]), int(m.group(3))))
    return out


def check_lines(mon, msg, what):
    out = []
    for row in msg.split("\n"):
        if not row.strip():
            continue
        m = re.search(r"(r\dc\d|c\dr\d)\s*=\s*(\d+)\s*$", row)
        mon.check(m, "an unreadable line of check", line=row, **what)
        cell, = nota.read(m.group(1), 3, 3)[1]
        out.append((cell, int(m.group(2))))
    return out


class Hinted(object):
    """The hints the library has for a state, taken one by one."""

    def __init__(self, game):
        from sudokutools import solvers
        self.state = game.state()
        s = work.to_sudoku(game.grid(), 3, 3)
        for r, c in game.g.cells:
            s.set_candidates(r, c, set(game.cand[r, c]))
        self.steps = iter(solvers.hints(s))
        self.texts = []

    def text(self, k):
        """The k-th hint, None if there are not that many."""
        while len(self.texts) <= k:
            self.texts.append(str(next(self.steps, "")) or None)
        return self.texts[k]


def hint(mon, game, last, msg, what, go_on):
    """A hint is one of the present state, one after another."""
    mon.check(msg.strip(), "no answer to hint", **what)
    again = last is not None and last[0].state == game.state()
    hinted, k = last if again else (Hinted(game), -1)
    # after something else it may begin again
    for k in [k + 1] if go_on else [k + 1, 0]:
        want = hinted.text(k)
        if want is None or want in msg:
            break
    else:
        mon.check(False, "hint shows no step that is to be taken now",
                  out=msg, expected=hinted.texts[:3], **what)
    mon.count("hints judged", want is not None)
    mon.count("hints after a hint in another state",
              want is not None and last is not None and not again)
    mon.count("hints used up", want is None)
    return hinted, k


def random_move(rng, game, wild):
    """(text, fields, number, removed)"""
    g = game.g
    how = rng.random()
    if how < 0.65:
        empty = [rc for rc in g.cells if not game.num[rc]]
        if empty and rng.random() < 0.75:
            r, c = rng.choice(empty)
        else:
            r, c = rng.choice(g.cells)
        groups = [rng.choice([{"r": [r + 1], "c": [c + 1]},
                              {"c": [c + 1], "r": [r + 1]}])]
    elif how < 0.85 or not wild:
        groups = [{"r": [rng.randint(1, 9)], "c": rng.sample(
            range(1, 10), rng.randint(1, 3))} for _ in range(
                rng.choice([1, 1, 2]))]
    else:
        groups = nota.random_groups(rng, 3, 3)
    cells = nota.cells_of(groups, 3, 3)
    where = nota.write(rng, groups)
    if rng.random() < 0.1:
        where = where.replace(",", ", ").replace("c", " c")
    if rng.random() < 0.68:
        if cells and rng.random() < 0.5:
            # what could be right there
            v = rng.choice(sorted(cells))
            v = rng.choice(sorted(game.cand[v] - {0}) or [rng.randint(1, 9)])
        else:
            v = rng.randint(1, 9)
        if rng.random() < (0.15 if wild else 0.02):
            v = 0
        t = where + rng.choice(["=", " = ", "= ", " ="]) + str(v)
        return rng.choice(["", "", " "]) + t + rng.choice(
            ["", " "]), cells, v, None
    vs = rng.sample(range(1, 10), rng.choice([1, 1, 1, 2, 3, rng.randint(
        1, 9)]))
    if rng.random() < 0.5 and cells:
        have = sorted(game.cand[min(cells)] - {0})
        if have:
            vs = rng.sample(have, rng.randint(1, max(1, len(have) - 1)))
    listed = "".join(map(str, vs))
    if rng.random() < 0.5:
        return where + "<>" + listed, cells, None, vs
    return "-" + listed + " " + where, cells, None, vs


BAD = ["foo", "help", "exit", "quit", "r1c1", "r1c1=", "=5", "r0c1=1",
       "r10c1=5", "r1c10=2", "r1c0=3", "x1c1=2", "r1c1=x", "r1c1=1=2",
       "r1c1=1.5", "r1=", "c=1", "r1r2=3", "b10=1", "p0=1", "-", "-1",
       "-x r1c1", "-1 ", "- ", "-12 x", "-1 r0c1", "r1c1<>x", "r1c1<>1,2",
       "<>1", "r1c1<>2 3", "r0c0<>1", "Undo", "REDO", "undo1", "hints",
       "checks", "conflict", "set 0 0 1", "1", "12", "r1c1==2", "r1c1 5",
       "r1c1:=5", "r1c1=5;r1c2=6", "r1c1=5 r1c2=6", "?", "\\", "#",
       "# r1c1=1", "r1c1=5 # x", "'r1c1=5'", "print", "rc=1", "r1c1=--1",
       "r1c1=one", "r1c1,=1", ",r1c1=1", "r1c1<2", "r1c1>2", "r1c1=[1]",
       "\x00", "r\x001c1=1", "é", "r1c1=²", "r1c1=" + "9" * 5000, "r" * 5000,
       "setting", "auto", "new", "%s", "%d%s%", "{}",
       "r1c1={}", "\t-\t", "=", "<>", "==", "r=1c=2", "1=r1c1", "r1c1=r2c2",
       "-=1", "-1=r1c1", "-<>", "r1c1=5,6", "r1 c1 5", "r-1c1=5", "r1c1=5!"]
FUZZ = ["r", "c", "b", "p", "1", "5", "9", "0", "=", "<>", "-", ",", " ", "x",
        "10", ".", "<", ">", "\t", "=3", "r2", "c4", "é", "\x00", "\u0663"]


def session(kind, rng, mon, settings, log):
    """Yields lines, receives what was printed before the prompt."""
    out = yield
    what = {"settings": settings, "lines": log}
    _, fields = shown(mon, out, what)
    # the numbers of the new sudoku, and those the rules set at once
    num = {rc: int(t) if t.isdigit() else 0 for rc, t in fields.items()}
    grid = [[num[r, c] for c in range(9)] for r in range(9)]
    try:
        sols = oracle.solutions(grid, 3, 3, 2)
    except oracle.OracleLimit:
        sols = None
    if sols is not None:
        mon.check(len(sols) == 1, "the sudoku of a game has not exactly one "
                  "solution", grid=text(grid), count=len(sols), **what)
    else:
        raise work.Skip("too hard for the oracle")
    sol = sols[0]
    game = Game(num, settings)
    game.begin(mon, fields, what)
    compare(mon, game, fields, what)
    mon.count("start")
    hinted = None
    count = rng.choice([25, 40, 60])
    if kind == "long":
        count = rng.choice([250, 400])
    for i in range(count):
        p = rng.random()
        msg = None
        query = False
        if kind == "fuzz" and p < 0.6:
            line = random_move(rng, game, True)[0]
            for _ in range(rng.choice([1, 1, 2, 3])):
                j = rng.randint(0, len(line))
                line = line[:j] + rng.choice(FUZZ) + line[
                    j + rng.choice([0, 0, 1]):]
            from sudokutools.notation import decode_action
            try:
                action = decode_action(line, 3, 3)
            except ValueError:
                action = None
                mon.count("unusable")
            if line.strip().split(" ")[:1] in (["undo"], ["redo"]):
                line, action = "foo", None
            if action is not None:
                number = getattr(action, "number", None)
                if number is not None and not 0 <= number <= 9:
                    # numbers out of range are not judged
                    line = "r1c1="
                else:
                    apply(mon, game, action.coordinates, number,
                          getattr(action, "candidates", None))
            log.append(line)
            out = yield line
        elif p < {"play": 0.45, "long": 0.64}.get(kind, 0.55):
            line, cells, number, removed = random_move(
                rng, game, kind in ("mess", "long"))
            if kind == "play" and number and rng.random() < 0.4:
                # towards the solution
                empty = [rc for rc in game.g.cells if not game.num[rc]]
                if empty:
                    rc = rng.choice(empty)
                    cells, number = {rc}, sol[rc[0]][rc[1]]
                    line = "r%dc%d=%d" % (rc[0] + 1, rc[1] + 1, number)
            mon.count("moves")
            mon.count("several fields", len(cells) > 1)
            mon.count("removals", number is None)
            mon.count("emptied", number == 0)
            apply(mon, game, cells, number, removed)
            log.append(line)
            out = yield line
        elif p < (0.67 if kind == "long" else 0.66):
            # often several in a row
            if game.at and (rng.random() < 0.6
                            or game.at + 1 == len(game.history)
                            and rng.random() < 0.8):
                line = "undo"
            else:
                line = rng.choice(["redo", "redo", "redo", "undo"])
            for _ in range(rng.choice([1, 1, 2, 3, 5])):
                if line == "undo":
                    if game.at:
                        game.at -= 1
                        mon.count("undo")
                    else:
                        mon.count("nothing to undo")
                else:
                    if game.at + 1 < len(game.history):
                        game.at += 1
                        mon.count("redo")
                    else:
                        mon.count("nothing to redo")
                game.load()
                log.append(line)
                typed = rng.choice(["", "", " "]) + line + rng.choice(
                    ["", " "])
                out = yield typed
                _, fields = shown(mon, out, what)
                compare(mon, game, fields, what)
                mon.count("lines")
        else:
            line = rng.choice(["conflicts", "check", "conflicts", "check",
                               "hint", "settings", "candidates", "", "bad",
                               "bad", "bad", "bad"])
            if line == "candidates":
                game.calculate()
                if game.commit() == "branch":
                    mon.count("new branch")
                mon.count("candidates")
            elif line == "":
                line = rng.choice(["", " ", "   ", "\t"])
                mon.count("blank")
            elif line == "bad":
                line = rng.choice(BAD)
                mon.count("unusable")
            else:
                query = True
            log.append(line)
            typed = line
            if query or line == "candidates":
                typed = rng.choice(["", "", " "]) + line + rng.choice(
                    ["", " "])
            out = yield typed
        msg, fields = shown(mon, out, what)
        compare(mon, game, fields, what)
        mon.count("lines")
        changed = False
        if line == "conflicts":
            got = conflict_lines(mon, msg, what)
            want = {(frozenset((a, b)), v) for a, b, v in
                    oracle.conflict_pairs(game.grid(), 3, 3)}
            mon.check(len(got) == len(set(got)) and set(got) == want,
                      "conflicts lists other conflicts", got=sorted(
                          map(show, got)), expected=sorted(map(show, want)),
                      **what)
            mon.count("conflicts listed" if want else "no conflicts")
            changed = bool(want)
        elif line == "check":
            got = check_lines(mon, msg, what)
            want = {((r, c), v) for (r, c), v in game.num.items()
                    if v and v != sol[r][c]}
            mon.check(len(got) == len(set(got)) and set(got) == want,
                      "check lists other fields", got=got,
                      expected=sorted(want), **what)
            mon.count("wrong fields listed", bool(want))
            changed = bool(want)
        elif line == "settings":
            for key, value in settings.items():
                row = [x for x in msg.split("\n") if re.search(
                    r"\b%s\b" % key, x)]
                mon.check(row and re.search(r"%s\s*[=:]\s*%s\b" % (
                    key, value), row[0]), "settings shows something else",
                    setting=key, value=value, out=msg, **what)
            mon.count("settings")
        elif line == "hint":
            hinted = hint(mon, game, hinted, msg, what,
                          hinted is not None and log[-2] == "hint")
            mon.count("hints")
            if rng.random() < 0.3:
                # as many as there are: also those of the rare techniques
                for _ in range(rng.randint(10, 150)):
                    log.append(line)
                    out = yield line
                    msg, fields = shown(mon, out, what)
                    compare(mon, game, fields, what)
                    hinted = hint(mon, game, hinted, msg, what, True)
                    mon.count("hints in a row")
        elif line == "undo" or line == "redo" or not line.strip():
            pass
        elif not query:
            changed = True
        mon.evaluated((tuple(log[-3:]), text(game.grid())),
                      nontrivial=changed)
    # back to the start: nothing of the history was lost
    mon.count("100 states or more", len(game.history) >= 100)
    while game.at:
        game.at -= 1
        game.load()
        log.append("undo")
        out = yield "undo"
        _, fields = shown(mon, out, what)
        compare(mon, game, fields, what)
        mon.count("undo")
    # and forth again
    while kind != "fuzz" and game.at + 1 < len(game.history):
        game.at += 1
        game.load()
        log.append("redo")
        out = yield "redo"
        _, fields = shown(mon, out, what)
        compare(mon, game, fields, what)
        mon.count("redone to the end")
    mon.sample(settings=settings, lines=[x[:40] for x in log[:15]])


def show(x):
    return sorted(x[0]), x[1]


def apply(mon, game, cells, number, removed):
    for rc in cells:
        rc = tuple(rc)
        if number is not None:
            game.num[rc] = number
            game.cand[rc] = {number} if number else set()
        else:
            game.cand[rc] -= set(removed)
    nset, nrem = game.auto()
    mon.count("automatically set", nset)
    mon.count("automatically removed", nrem)
    done = game.commit()
    mon.count("without effect", not done)
    mon.count("new branch", done == "branch")


def case(kind, rng, mon):
    from sudokutools.shell import GameShell
    settings = {"autocandidates": rng.random() < 0.75,
                "autoremove": rng.random() < 0.7,
                "autoset": rng.random() < 0.4}
    log = []
    s = session(kind, rng, mon, settings, log)
    saved = sys.stdin
    with Streams() as st:
        feed = Feed(s, st)
        sys.stdin = feed
        try:
            game = GameShell()
            for k, v in settings.items():
                mon.check(k in game.settings, "an unknown setting", key=k)
                game.settings[k] = v
            game.run()
        except EOFError:
            pass
        except Exception as e:
            if feed.error is None:
                mon.fail("an input line ended the game by an error",
                         error=repr(e), lines=log[-12:], settings=settings)
        finally:
            sys.stdin = saved
        if feed.error is None and not feed.done:
            mon.fail("the game ended before its input", lines=log[-12:])
    if feed.error is not None:
        raise feed.error
