"""Driving the shell and a model of what its sessions mean.

A session is a Python generator that yields Line objects (commands typed) and
receives Result objects (what the shell printed until it asked for the next
line). It can be driven through Shell.execute_line(), or through Shell.run()
as an interactive shell or as one that reads a script.
"""
import io
import sys
import warnings

from vf import oracle, work
from vf.lib import text


class Line(object):
    """Commands of one logical line; `raw` are the physical lines typed."""

    def __init__(self, commands, raw=None, interrupt=None):
        self.commands = [commands] if isinstance(commands, str) else commands
        self.raw = raw
        self.interrupt = interrupt

    def __repr__(self):
        return "Line(%r%s)" % (self.raw or self.commands,
                               ", interrupt=%r" % (self.interrupt,)
                               if self.interrupt else "")


class Result(object):
    def __init__(self, out="", err="", exit=None, interrupted=False):
        self.out, self.err, self.exit = out, err, exit
        self.interrupted = interrupted

    def __repr__(self):
        return "Result(out=%r, err=%r, exit=%r)" % (
            self.out[:300], self.err[:300], self.exit)


class Streams(object):
    """sys.stdout and sys.stderr replaced while the shell is driven."""

    def __enter__(self):
        self.saved = sys.stdout, sys.stderr
        self.out, self.err = io.StringIO(), io.StringIO()
        sys.stdout, sys.stderr = self.out, self.err
        self.warn = warnings.catch_warnings()
        self.warn.__enter__()
        warnings.simplefilter("ignore")
        return self

    def __exit__(self, *exc):
        self.warn.__exit__(*exc)
        sys.stdout, sys.stderr = self.saved


def drain(stream):
    t = stream.getvalue()
    stream.seek(0)
    stream.truncate()
    return t


def drive_lines(mon, session, interactive=True, log=None):
    """Through execute_line()."""
    from sudokutools.shell import Shell
    with Streams() as st:
        shell = Shell(interactive=interactive, infile=io.StringIO(""),
                      outfile=st.out)
        try:
            line = next(session)
            while True:
                if log is not None:
                    log.append(line)
                res = Result()
                try:
                    for raw in (line.raw or ["; ".join(line.commands)]):
                        shell.execute_line(raw)
                except SystemExit as e:
                    res.exit = e
                except Exception as e:
                    mon.fail("the shell crashed on a command",
                             error=repr(e), session=tail(log, line))
                res.out, res.err = drain(st.out), drain(st.err)
                line = session.send(res)
        except StopIteration:
            pass
    return shell


def drive_pair(mon, rng, sessions, logs, interactive=True):
    """Several shells of one process, the lines executed in a random order."""
    from sudokutools.shell import Shell
    with Streams() as st:
        live, shells = list(range(len(sessions))), {}
        lines = {}
        order = []
        while live:
            # some begin when others have come far
            i = live[0] if rng.random() < 0.4 else rng.choice(live)
            if i not in shells:
                shells[i] = Shell(interactive=interactive,
                                  infile=io.StringIO(""), outfile=st.out)
                res = None
            else:
                res = Result()
                try:
                    for raw in (lines[i].raw or ["; ".join(
                            lines[i].commands)]):
                        shells[i].execute_line(raw)
                except SystemExit as e:
                    res.exit = e
                except Exception as e:
                    mon.fail("the shell crashed on a command",
                             error=repr(e), session=tail(logs[i], lines[i]))
                res.out, res.err = drain(st.out), drain(st.err)
            order.append(i)
            try:
                lines[i] = sessions[i].send(res)
                logs[i].append(lines[i])
            except StopIteration:
                live.remove(i)
    return order


class Feed(object):
    """The input of Shell.run(): asks the session for the next line."""

    def __init__(self, session, st, log, interactive):
        self.session, self.st, self.log = session, st, log
        self.pending = []
        self.started = False
        self.done = False
        self.error = None
        self.out = ""
        self.interactive = interactive
        self.on_line = lambda line: None

    def isatty(self):
        return self.interactive

    def __iter__(self):
        return iter(self.readline, "")

    def __next__(self):
        line = self.readline()
        if not line:
            raise StopIteration
        return line

    def readline(self, *args):
        if self.done:
            return ""
        self.on_line(None)
        if self.pending:
            # between the physical lines there is nothing but a prompt
            piece = drain(self.st.out)
            if "\n" in piece:
                self.out += piece
            return self.typed(self.pending.pop(0))
        return self.advance(None)

    def advance(self, exit):
        try:
            if not self.started:
                self.started = True
                # the greeting is nothing a command printed
                drain(self.st.out)
                drain(self.st.err)
                line = next(self.session)
            else:
                out, self.out = self.out + drain(self.st.out), ""
                line = self.session.send(Result(
                    out, drain(self.st.err), exit))
        except StopIteration:
            self.done = True
            return ""
        except BaseException as e:
            # whatever the shell does with exceptions, this one is reported
            self.error = e
            self.done = True
            return ""
        if self.log is not None:
            self.log.append(line)
        self.pending = list(line.raw or ["; ".join(line.commands) + "\n"])
        self.line = line
        return self.typed(self.pending.pop(0))

    def typed(self, raw):
        if raw is KeyboardInterrupt:
            raise KeyboardInterrupt()
        self.on_line(self.line)
        return raw


def drive_run(mon, session, interactive=True, log=None, hook=None):
    """Through run(); returns the exit status (None: it returned)."""
    from sudokutools.shell import Shell
    status = None
    with Streams() as st:
        feed = Feed(session, st, log, interactive)
        shell = Shell(interactive=interactive, infile=feed, outfile=st.out)
        if hook is not None:
            hook(feed)
        try:
            shell.run()
        except SystemExit as e:
            status = e
        except BaseException as e:
            feed.on_line(None)
            if feed.error is None:
                mon.fail("the shell crashed", error=repr(e),
                         session=tail(log))
        feed.on_line(None)
        if feed.error is None and not feed.done:
            # the shell ended by itself: the session learns how
            feed.advance(status if status is not None else "returned")
            if feed.error is None and not feed.done:
                mon.fail("the shell ended before its input",
                         status=repr(status), session=tail(log))
    if feed.error is not None:
        raise feed.error
    return status


def tail(log, *more):
    return [repr(x) for x in (log or [])[-12:]]


# ------------------------------------------------------------ arguments

def lit(rng, v):
    """The value as typed: without blanks and separators."""
    if isinstance(v, str):
        q = rng.choice("'\"")
        return q + v.replace("\\", "\\\\").replace("\n", "\\n").replace(
            "\t", "\\t").replace(
            q, "\\" + q) + q
    if isinstance(v, (tuple, list, set, frozenset)):
        items = ",".join(lit(rng, x) for x in v)
        if isinstance(v, list):
            return "[%s]" % items
        if isinstance(v, (set, frozenset)):
            return "{%s}" % items if v else "[]"
        if len(v) == 1:
            return "(%s,)" % items
        return rng.choice(["(%s)", "(%s)", "%s"]) % items if v else "()"
    return repr(v)


def typed(rng, name, args=(), kw=None):
    """Text of a command with positional and keyword arguments."""
    parts = [name] + [lit(rng, a) for a in args]
    for k in sorted(kw or {}, key=lambda x: rng.random()):
        parts.append("%s=%s" % (k, lit(rng, kw[k])))
    return " ".join(parts)


# ------------------------------------------------------------ the model

DUMP = ["encode col_sep='/' row_sep='/' include_candidates=True", "print"]


def dump_text(s):
    """What DUMP prints for a sudoku."""
    return (s.encode(row_sep="/", col_sep="/", include_candidates=True)
            + "\n" + str(s) + "\n")


def read_dump(out, w, h):
    """The sudoku a dump describes, or None."""
    from sudokutools.sudoku import Sudoku
    first = out.split("\n", 1)[0]
    if "|" not in first:
        return None
    nums, cands = first.split("|", 1)
    n = w * h
    try:
        nums = [int(x) for x in nums.split("/")]
        cands = [[int(y) for y in x.split("/") if y]
                 for x in cands.split(",")]
    except ValueError:
        return None
    if len(nums) != n * n or len(cands) != n * n:
        return None
    s = Sudoku((w, h))
    for i, v in enumerate(nums):
        s[i // n, i % n] = v
        s.set_candidates(i // n, i % n, cands[i])
    return s


class Model(object):
    """The current sudoku and the stack, by the library's own functions."""

    def __init__(self):
        from sudokutools.sudoku import Sudoku
        self.s = Sudoku()
        self.stack = []

    def clone(self):
        m = Model.__new__(Model)
        m.s = self.s.copy(include_candidates=True)
        m.stack = [x.copy(include_candidates=True) for x in self.stack]
        return m

    def apply(self, op):
        """Expected output of an operation: text, or ("ints", list)."""
        from sudokutools.solve import init_candidates
        from sudokutools.sudoku import Sudoku, view
        name, args, kw = op
        s = self.s
        if name == "new":
            self.s = Sudoku(*args, **kw)
        elif name == "decode":
            self.s = Sudoku.decode(*args, **kw)
        elif name == "get":
            return "ints", [s.get_number(*args, **kw)]
        elif name == "set":
            s.set_number(*args, **kw)
        elif name == "get_candidates":
            return "ints", sorted(s.get_candidates(*args, **kw))
        elif name == "set_candidates":
            s.set_candidates(*args, **kw)
        elif name == "remove_candidates":
            s.remove_candidates(*args, **kw)
        elif name == "init_candidates":
            init_candidates(s, *args, **kw)
        elif name == "encode":
            return s.encode(*args, **kw) + "\n"
        elif name == "print":
            return str(s) + "\n"
        elif name == "view":
            return view(s, *args, **kw) + "\n"
        elif name == "push":
            self.stack.append(s.copy(include_candidates=True))
        elif name == "pop":
            i = kw.get("position", args[0] if args else None)
            self.s = self.stack.pop(len(self.stack) - 1 if i is None else i)
        elif name == "stack":
            return "ints", [len(self.stack)]
        elif name == "stack-dump":
            return "".join(dump_text(x) for x in self.stack)
        else:
            raise AssertionError(name)
        return ""


def ints(t):
    import re
    return sorted(int(x) for x in re.findall("[0-9]+", t))


def match(mon, got, expected, what):
    """Compare the output of some commands with the expected pieces."""
    rest = got
    for kind, want in ((x if isinstance(x, tuple) else ("text", x))
                       for x in expected):
        if kind == "text":
            mon.check(rest.startswith(want), "a command prints something "
                      "else than the library gives", got=rest[:800],
                      expected=want[:800], **what)
            rest = rest[len(want):]
        else:
            line, _, rest = rest.partition("\n")
            mon.check(ints(line) == sorted(want), "a command prints "
                      "something else than the library gives",
                      got=line, expected=want, **what)
    # a prompt may follow
    mon.check("\n" not in rest and len(rest) < 60,
              "a command prints more than the library gives",
              got=rest[:800], **what)


# ------------------------------------------------------------ commands

SHAPES = [(3, 3)] * 4 + [(2, 2), (2, 2), (2, 3), (3, 2), (1, 4), (4, 1),
                         (2, 4), (2, 5), (3, 4), (1, 1), (2, 1)]


def random_op(rng, model, changing=None):
    """A valid deterministic command for the model's current sudoku."""
    s = model.s
    n = len(s.numbers)
    w, h = s.box_size
    groups = {
        True: ["set"] * 5 + ["set_candidates"] * 3 + ["remove_candidates"] * 3
        + ["init_candidates"] * 2,
        False: ["get", "get", "get_candidates", "get_candidates", "encode",
                "encode", "print", "view", "view"],
        "make": ["new", "decode", "decode"],
    }
    if changing is None:
        changing = rng.choice([True] * 4 + [False] * 4 + ["make"])
    name = rng.choice(groups[changing])
    r, c = rng.randrange(n), rng.randrange(n)
    v = rng.choice([0, rng.randint(1, n), rng.randint(1, n)])
    some = rng.sample(range(1, n + 1), rng.randint(0, n))
    some = rng.choice([list, tuple, set])(some)
    kwd = rng.random() < 0.3
    if name == "new":
        size = rng.choice(SHAPES)
        if rng.random() < 0.3:
            return name, (), {}
        if kwd:
            return name, (), {"box_size": rng.choice([size, list(size)])}
        return name, (size,), {}
    if name == "decode":
        return decode_op(rng)
    if name == "set":
        if kwd:
            return name, (), {"row": r, "col": c, "value": v}
        return name, (r, c, v), {}
    if name == "get":
        return (name, (), {"row": r, "col": c}) if kwd else (name, (r, c), {})
    if name == "get_candidates":
        return (name, (r,), {"col": c}) if kwd else (name, (r, c), {})
    if name in ("set_candidates", "remove_candidates"):
        if kwd:
            return name, (r, c), {"value": some}
        return name, (r, c, some), {}
    if name == "init_candidates":
        if rng.random() < 0.5:
            return name, (), {}
        f = rng.random() < 0.5
        return (name, (), {"filled_only": f}) if kwd else (name, (f,), {})
    if name == "encode":
        kw = {}
        if rng.random() < 0.5:
            kw["row_sep"] = rng.choice(["/", "\n", ":", "", "+", "=", "a=b",
                                        "\t", "\"", "'", "end", "push"])
        if rng.random() < 0.5:
            kw["col_sep"] = rng.choice([",", "-", "", "/", "=", "=="])
        if rng.random() < 0.5:
            kw["include_candidates"] = rng.random() < 0.7
        if rng.random() < 0.2:
            return name, (rng.choice(["/", "\n"]), ","), {}
        return name, (), kw
    if name == "view":
        kw = {}
        if rng.random() < 0.4:
            kw["include_candidates"] = rng.random() < 0.5
        if rng.random() < 0.4:
            kw["number_sep"] = rng.choice([None, ",", "/", "", "=", "\\"])
        if rng.random() < 0.4:
            kw["candidate_prefix"] = rng.choice(["*", "", "?", "::", "=",
                                                 "n=", "end"])
        if rng.random() < 0.4:
            kw["align_right"] = rng.random() < 0.5
        if rng.random() < 0.2:
            return name, (False,), {}
        return name, (), kw
    return name, (), {}


def decode_op(rng):
    w, h = rng.choice(SHAPES)
    n = w * h
    how = rng.randrange(3)
    if how == 0:
        grid = work.dig(rng, work.solution(rng, w, h), w, h, rng.random()) \
            if n <= 10 else work.canonical(w, h)
    else:
        grid = work.garbage(rng, w, h)
    kw = {}
    empty = "0"
    if rng.random() < 0.3:
        empty = kw["empty"] = rng.choice([".", "_", "-", "x"])
    sep = ""
    if n > 9 or rng.random() < 0.2:
        sep = kw["number_sep"] = rng.choice([",", "/", ":"])
    t = sep.join(str(v) if v else empty for row in grid for v in row)
    if rng.random() < 0.4:
        lists = [rng.sample(range(1, n + 1), rng.randint(0, min(n, 4)))
                 for _ in range(rng.randint(1, n * n))]
        # something has to separate the lists from the numbers of a list
        csep = kw["candidate_sep"] = "!" if sep else rng.choice([",", "!"])
        if csep == ",":
            del kw["candidate_sep"]
        t += "|" + csep.join(sep.join(map(str, x)) for x in lists)
    if w != h or rng.random() < 0.3:
        kw["box_size"] = (w, h)
    return "decode", (t,), kw


# ------------------------------------------------------------ layout

def layout(rng, commands):
    """Physical lines for a logical line: blanks, comments, continuation."""
    t = commands[0]
    for c in commands[1:]:
        t += rng.choice([";", "; ", " ; ", " ;"]) + c
    lines = [t]
    while rng.random() < 0.25 and len(lines) < 4 and len(lines[-1]) > 3:
        last = lines.pop()
        cuts = [i for i in range(1, len(last))
                if last[i] != " " and "\\" not in last]
        if not cuts:
            lines.append(last)
            break
        i = rng.choice(cuts)
        lines += [last[:i], last[i:]]
    out = []
    for i, x in enumerate(lines):
        if i < len(lines) - 1:
            x += "\\" + rng.choice(["", "", " "])
        x = rng.choice(["", "", " ", "\t", "    "]) + x
        if rng.random() < 0.2:
            x += rng.choice([
                " # a comment", "# new; set 0 0 1", "#", " # '", ' # 3" wide',
                ' # say "x"; new', " # new \\", " # (", " ## [#",
                " # größer ✓", " # 数独"])
        out.append(x + rng.choice(["\n", "\n", "\n", " \n", "\r\n"]))
    while rng.random() < 0.2:
        out.insert(0, rng.choice(["\n", "   \n", "# comment\n", "\t\n",
                                  "  # new \\\n", "#\n"]))
    return out
