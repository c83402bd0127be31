"""Running commands of the program at once, one operation at a time.

Each command runs in a process of its own that stops before every operation on
the world; the explorer says which one goes on.  The virtual clock is shared."""
import os

import core
from core import Shim

MSG = 256


class Diverged(Exception):
    pass


class Proc:
    def __init__(self, func, reads, others):
        self.ops = []            # what it has done
        self.pending = None      # what it is about to do
        self.done = False
        self.result = None
        r1, w1 = os.pipe()       # child -> explorer: stops
        r2, w2 = os.pipe()       # explorer -> child: go on
        r3, w3 = os.pipe()       # child -> explorer: result
        self.pid = os.fork()
        if self.pid == 0:
            code = 70
            try:
                for o in others:
                    for fd in (o.rd, o.wr, o.res):
                        os.close(fd)
                os.close(r1)
                os.close(w2)
                os.close(r3)
                Shim.reset()
                Shim.sched(r2, w1, 1 if reads else 0)
                text = repr(func())
                Shim.sched(-1, -1, 0)
                os.write(w3, text.encode())
                code = 0
            finally:
                os._exit(code)
        os.close(w1)
        os.close(r2)
        os.close(w3)
        self.rd, self.wr, self.res = r1, w2, r3
        self._wait()

    def _wait(self):
        """Wait until it stops or ends."""
        data = b""
        while len(data) < MSG:
            b = os.read(self.rd, MSG - len(data))
            if not b:
                break
            data += b
        if len(data) == MSG:
            text = data.rstrip(b"\0").decode("utf-8", "replace")
            name, _, path = text.partition(" ")
            self.pending = (name, path)
            return
        self.pending = None
        self.done = True
        chunks = []
        while True:
            b = os.read(self.res, 65536)
            if not b:
                break
            chunks.append(b)
        for fd in (self.rd, self.wr, self.res):
            os.close(fd)
        _, status = os.waitpid(self.pid, 0)
        self.result = (b"".join(chunks).decode("utf-8", "replace")
                       if status == 0 else "status {}".format(status))

    def step(self):
        """Let it do its pending operation."""
        self.ops.append(self.pending)
        t = int(round((Shim.now() + 0.001) * 1000)) * 1000000
        Shim.time(t / 1e9)
        os.write(self.wr, t.to_bytes(8, "little"))
        self._wait()

    @property
    def sleeping(self):
        return self.pending is not None and self.pending[0] == "sleep"


def run_all(funcs, decide, reads=False, limit=20000):
    """Run commands at once.  decide(procs, current) returns the index of the
    one to go on; it is asked before every operation.  Returns the Procs."""
    procs = []
    for f in funcs:
        procs.append(Proc(f, reads, [p for p in procs if not p.done]))
    current = 0
    steps = 0
    try:
        while not all(p.done for p in procs):
            current = decide(procs, current)
            if procs[current].done:
                raise Diverged("process {} has ended".format(current))
            procs[current].step()
            steps += 1
            if steps > limit:
                raise Diverged("no end after {} operations".format(limit))
    finally:
        for p in procs:
            if not p.done:
                import signal
                os.kill(p.pid, signal.SIGKILL)
                while not p.done:
                    p._wait()
    return procs


def segments(plan, yield_on_sleep=True):
    """A decide function: plan is [(index, operations)].  When a segment is
    over, another process goes on: that of the next segment, or after the last
    one any other, until it ends or sleeps."""
    todo = [list(x) for x in plan]

    def decide(procs, current):
        def blocked(i):
            return procs[i].done or (yield_on_sleep and procs[i].sleeping)

        avoid = None
        while todo:
            i, n = todo[0]
            if n > 0 and not blocked(i):
                todo[0][1] -= 1
                return i
            todo.pop(0)
            avoid = i
        if avoid is None and not blocked(current):
            return current
        live = [i for i, p in enumerate(procs) if not p.done]
        for group in ([i for i in live if i != avoid and not blocked(i)],
                      [i for i in live if not blocked(i)],
                      [i for i in live if i not in (avoid, current)], live):
            if group:
                return group[0]
    return decide
