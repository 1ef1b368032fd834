"""Delivers a KeyboardInterrupt at a chosen point inside of the library.

Points are function starts, resumed generators, jumps and branches executed in
the package, outside of the modules named in `spare` (places where CPython
really looks for signals, and more).
"""
import sys

from vf.core import PKG


def commands():
    """The code of the commands that the shell implements itself."""
    from sudokutools import shell
    for name, entry in shell.COMMANDS.items():
        code = getattr(entry[0], "__code__", None)
        if code is not None and code.co_filename == shell.__file__ \
                and name not in ("loop", "exit"):
            yield code


class Injector(object):
    """arm(k) raises at the k-th event; events are counted while armed."""

    def __init__(self, spare=("shell.py", "__main__.py")):
        self.m = m = sys.monitoring
        self.spare = tuple(PKG + x for x in spare)
        self.armed = False
        self.fired = None
        self.seen = 0
        self.at = 0
        self.commands = frozenset(commands())
        m.use_tool_id(m.DEBUGGER_ID, "verif-interrupt")
        ev = m.events
        for e in (ev.PY_START, ev.PY_RESUME, ev.JUMP, ev.BRANCH):
            m.register_callback(m.DEBUGGER_ID, e, self.event)
        m.set_events(m.DEBUGGER_ID, ev.PY_START | ev.PY_RESUME | ev.JUMP
                     | ev.BRANCH)
        # the commands of the shell itself: signals are looked for when a
        # function starts and after a built-in function
        m.register_callback(m.DEBUGGER_ID, ev.C_RETURN, self.returned)
        for code in self.commands:
            m.set_local_events(m.DEBUGGER_ID, code, ev.CALL)

    def returned(self, code, offset, *more):
        if code in self.commands:
            self.point(code, offset)

    def event(self, code, offset, *more):
        fn = code.co_filename
        if code in self.commands and not more:
            return self.point(code, offset)
        if not fn.startswith(PKG) or fn in self.spare:
            return self.m.DISABLE
        self.point(code, offset)

    def point(self, code, offset):
        if self.armed:
            self.seen += 1
            if self.seen == self.at:
                self.armed = False
                self.fired = "%s:%s+%d" % (
                    code.co_filename[len(PKG):], code.co_name, offset)
                raise KeyboardInterrupt()

    def arm(self, at):
        """at = 0: count only."""
        self.seen, self.at, self.fired = 0, at, None
        self.armed = True

    def disarm(self):
        self.armed = False

    def close(self):
        self.disarm()
        self.m.set_events(self.m.DEBUGGER_ID, 0)
        self.m.free_tool_id(self.m.DEBUGGER_ID)

    _one = None

    @classmethod
    def get(cls):
        """The one of this process (switching events on and off is slow)."""
        if cls._one is None:
            cls._one = cls()
        cls._one.disarm()
        return cls._one
