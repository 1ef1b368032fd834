"""A logical work limit: the number of calls and jumps in the library.

Termination is judged by it instead of by a clock, so that a slow or busy
machine never changes a verdict.
"""
import sys

from vf.core import PKG


class WorkLimit(BaseException):
    pass


class Budget(object):
    def __init__(self, limit):
        self.limit = limit
        self.used = 0

    def __enter__(self):
        m = sys.monitoring
        self.tool = m.PROFILER_ID
        m.use_tool_id(self.tool, "budget")
        ev = m.events

        def hit(code, *rest):
            if code.co_filename.startswith(PKG):
                self.used += 1
                if self.used > self.limit:
                    # let the handlers of the library run freely
                    m.set_events(self.tool, 0)
                    raise WorkLimit()
                return None
            return m.DISABLE
        for e in (ev.PY_START, ev.PY_RESUME, ev.JUMP):
            m.register_callback(self.tool, e, hit)
        m.set_events(self.tool, ev.PY_START | ev.PY_RESUME | ev.JUMP)
        return self

    def __exit__(self, *exc):
        m = sys.monitoring
        m.set_events(self.tool, 0)
        for e in (m.events.PY_START, m.events.PY_RESUME, m.events.JUMP):
            m.register_callback(self.tool, e, None)
        m.free_tool_id(self.tool)
        m.restart_events()
        return False
