"""Controlled scheduler for processes that run real code and share a directory.

Every access to the directory (existence test, open, remove, rename, a started program) is a step: the process stops before it and goes on
when the scheduler says so.  A process can be killed before any of its steps."""
import os
import pickle
import select
import signal
import struct
import sys

EVENTS = {"open", "os.remove", "os.rename", "os.system", "subprocess.Popen", "os.mkdir", "os.rmdir", "os.truncate", "os.listdir", "os.posix_spawn", "os.exec"}


def _send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack("I", len(b)) + b
    while b:
        b = b[os.write(fd, b):]


def _read(fd, n):
    out = b""
    while len(out) < n:
        c = os.read(fd, n - len(out))
        if not c:
            return None
        out += c
    return out


def _recv(fd):
    h = _read(fd, 4)
    if h is None:
        return None
    b = _read(fd, struct.unpack("I", h)[0])
    return None if b is None else pickle.loads(b)


class Proc:
    """a forked process that runs fun() and reports its steps in directory d"""

    def __init__(self, fun, d):
        up, down = os.pipe(), os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(up[0])
                os.close(down[1])
                self.child(fun, d, up[1], down[0])
            finally:
                os._exit(0)
        os.close(up[1])
        os.close(down[0])
        self.up, self.down = up[0], down[1]
        self.done, self.result = False, None
        self.next()

    def child(self, fun, d, w, r):
        signal.setitimer(signal.ITIMER_REAL, 0)
        os.chdir(d)
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 1)
        os.dup2(null, 2)
        busy = [False]

        def step(name, path):
            if busy[0]:
                return
            busy[0] = True
            try:
                _send(w, ("step", name, path))
                if _read(r, 1) is None:
                    os._exit(0)
            finally:
                busy[0] = False

        def inside(p):
            if isinstance(p, bytes):
                p = os.fsdecode(p)
            if not isinstance(p, (str, os.PathLike)):
                return None
            p = os.path.abspath(p)
            return os.path.relpath(p, d) if p.startswith(d + os.sep) else None

        def hook(event, args):
            if event not in EVENTS or busy[0]:
                return
            if event in ("os.system", "subprocess.Popen", "os.posix_spawn", "os.exec"):
                return step(event, "")
            p = inside(args[0]) if args else None
            if p is not None:
                step(event, p)

        stat = os.stat

        def traced(path, *a, **k):
            if not busy[0]:
                p = inside(path)
                if p is not None:
                    step("stat", p)
            return stat(path, *a, **k)

        os.stat = traced
        sys.addaudithook(hook)
        try:
            out = ("value", fun())
        except Exception as e:
            out = ("raised", "%s: %s" % (type(e).__name__, e))
        busy[0] = True
        _send(w, ("end", out, None))

    def next(self):
        m = _recv(self.up)
        if m is None:
            self.done, self.result = True, ("died", None)
        elif m[0] == "end":
            self.done, self.result = True, m[1]
        else:
            self.at = m[1:]

    def go(self):
        os.write(self.down, b".")
        self.next()

    def kill(self):
        try:
            os.kill(self.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.close()

    def close(self):
        os.close(self.up)
        os.close(self.down)
        os.waitpid(self.pid, 0)
        self.done = True


def run(funs, d, switches, limit=400):
    """run the processes; switch to the next one at each step number in switches, otherwise only when one ends.
    Returns (results, number of steps taken, trace)"""
    procs = [Proc(f, d) for f in funs]
    try:
        cur, n, trace = 0, 0, []
        while not all(p.done for p in procs):
            if procs[cur].done or n in switches and not all(p.done for i, p in enumerate(procs) if i != cur):
                cur = next(j % len(procs) for j in range(cur + 1, cur + 1 + len(procs)) if not procs[j % len(procs)].done)
            trace.append((cur,) + tuple(procs[cur].at))
            procs[cur].go()
            n += 1
            if n > limit:
                raise RuntimeError("no end after %d steps" % n)
        return [p.result for p in procs], n, trace
    finally:
        for p in procs:
            try:
                os.kill(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.close()


def crash(fun, d, at):
    """kill the process before its step number at; True if it got that far"""
    p = Proc(fun, d)
    try:
        n = 0
        while not p.done:
            if n == at:
                return True
            p.go()
            n += 1
        return False
    finally:
        p.kill()
