"""A pristine process that runs one call per forked child.

It is forked before the worker has called anything of the library, so each
answer comes from a process in which nothing of it has run before.
"""
import os
import pickle
import struct
import sys


class Zygote(object):
    def __init__(self, handler):
        a, b = os.pipe(), os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(a[1])
            os.close(b[0])
            try:
                self._serve(a[0], b[1], handler)
            finally:
                os._exit(0)
        os.close(a[0])
        os.close(b[1])
        self.pid, self.w, self.r = pid, a[1], b[0]

    @staticmethod
    def _read(fd):
        head = b""
        while len(head) < 8:
            x = os.read(fd, 8 - len(head))
            if not x:
                return None
            head += x
        size = struct.unpack("Q", head)[0]
        out = b""
        while len(out) < size:
            x = os.read(fd, min(1 << 16, size - len(out)))
            if not x:
                return None
            out += x
        return pickle.loads(out)

    @staticmethod
    def _write(fd, obj):
        data = pickle.dumps(obj)
        data = struct.pack("Q", len(data)) + data
        while data:
            n = os.write(fd, data)
            data = data[n:]

    def _serve(self, rfd, wfd, handler):
        import signal
        signal.setitimer(signal.ITIMER_PROF, 0)
        while True:
            req = self._read(rfd)
            if req is None:
                return
            pid = os.fork()
            if pid == 0:
                try:
                    try:
                        res = ("ok", handler(req))
                    except BaseException as e:
                        res = ("error", "%s: %s" % (type(e).__name__, e))
                    self._write(wfd, res)
                finally:
                    os._exit(0)
            os.waitpid(pid, 0)

    def ask(self, req):
        self._write(self.w, req)
        return self._read(self.r)


SCRIPT = """
import sys
sys.path[:0] = [%r, %r]
from vf.zygote import Zygote
import importlib
handler = importlib.import_module(%r).handler
out = %d
Zygote._serve(Zygote.__new__(Zygote), 0, out, handler)
"""


class Foreign(Zygote):
    """The same in a new interpreter with another hash seed."""

    def __init__(self, module, hashseed, repo):
        import atexit
        import subprocess
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        r, w = os.pipe()
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
        self.proc = subprocess.Popen(
            [sys.executable, "-c", SCRIPT % (here, repo, module, w)],
            stdin=subprocess.PIPE, pass_fds=(w,), env=env)
        os.close(w)
        self.pid, self.w, self.r = self.proc.pid, self.proc.stdin.fileno(), r
        atexit.register(self.proc.kill)
