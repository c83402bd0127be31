"""Running the daemon under a simulated clock.

The daemon's threads are real threads, but only one of them runs at a time, and
it runs until it sleeps or ends; then the one that is to wake up first goes on.
What other programs do (opening files, syncing, locking the database) are events
at given times."""
import io
import subprocess
import sys
import threading
import time
import types

import core
from core import Shim

_RealThread = threading.Thread
_real_sleep = time.sleep


class Stop(BaseException):
    """The daemon is stopped."""


class Task:
    def __init__(self, name, func):
        self.name, self.func = name, func
        self.go = threading.Semaphore(0)
        self.wake = 0.0
        self.done = False
        self.error = None
        self.thread = None


class Sim:
    """One run of the daemon for a profile."""

    def __init__(self, w, client=1, order=()):
        self.w, self.name = w, w.name(client)
        self.tasks = []
        self.back = threading.Semaphore(0)
        self.stopping = False
        self.current = None
        self.sleeps = []         # (task name, time, seconds)
        self.on_sleep = None     # called when a task is about to sleep
        self.on_popen = None     # called with the arguments of a subprocess
        self.handler = None
        self.watches = []
        self.daemon = None
        self.request = self.result = None
        self.tie = 0             # which task goes first if both could

    # -- what the program calls
    def sleep(self, secs):
        task = self.current
        if task is None or threading.current_thread() is not task.thread:
            return _real_sleep(secs)
        self.sleeps.append((task.name, Shim.now(), secs))
        if self.on_sleep is not None:
            self.on_sleep(task, secs)
        task.wake = Shim.now() + max(0.0, secs)
        self.back.release()
        task.go.acquire()
        if self.stopping:
            raise Stop()

    def in_main(self, func):
        """Call func in the main thread of this process."""
        task = self.current
        self.request = func
        self.back.release()
        task.go.acquire()
        if self.stopping:
            raise Stop()
        return self.result

    def add(self, name, func):
        task = Task(name, func)
        task.wake = Shim.now()

        def body():
            task.go.acquire()
            try:
                if not self.stopping:
                    func()
            except Stop:
                pass
            except BaseException as e:
                task.error = e
            finally:
                task.done = True
                self.back.release()
        task.thread = _RealThread(target=body, daemon=True)
        task.thread.start()
        self.tasks.append(task)
        return task

    # -- running
    def run(self, events, until):
        """events: [(time, function)] in order; all tasks that wake up before
        one go first."""
        sim = self

        class FakeThread:
            def __init__(self, group=None, target=None, name=None, args=(),
                         kwargs=None, daemon=None):
                self.target = (lambda: target(*args, **(kwargs or {}))
                               ) if target else None
                self.daemon = daemon
                self.name = name or "thread"

            def run(self):
                self.target()

            def start(self):
                self.task = sim.add("thread", self.run)

            def join(self, timeout=None):
                pass

            def is_alive(self):
                return not self.task.done

            def setDaemon(self, on):
                self.daemon = on

        fake = sys.modules["pyinotify"]
        fake.WatchManager.instances.clear()
        fake.ThreadedNotifier.instances.clear()
        old = (time.sleep, threading.Thread, subprocess.Popen,
               core._connections, sys.stderr)
        time.sleep, threading.Thread = self.sleep, FakeThread
        subprocess.Popen = lambda *a, **k: FakePopen(self, *a, **k)
        core._connections = []
        sys.stderr = io.StringIO()

        def main():
            self.daemon = core.zielen.daemon.Daemon(self.name)
            self.daemon.main()
        events = list(events)
        try:
            self.add("main", main)
            while True:
                live = [t for t in self.tasks if not t.done]
                if not live:
                    break
                first = min(t.wake for t in live)
                ready = [t for t in live if t.wake - first < 0.05]
                task = ready[self.tie % len(ready)]
                if events and events[0][0] <= first:
                    when, func = events.pop(0)
                    if when > Shim.now():
                        Shim.time(when)
                    self._find_handler()
                    func()
                    continue
                if first > until:
                    break
                if task.wake > Shim.now():
                    Shim.time(task.wake)
                self._step(task)
                if task.name == "main" and task.done:
                    break
        finally:
            self.stopping = True
            for t in self.tasks:
                if not t.done:
                    self._step(t)
            for conn in core._connections:
                try:
                    conn.close()
                except Exception:
                    # It belongs to a thread that has ended.
                    pass
            (time.sleep, threading.Thread, subprocess.Popen,
             core._connections, stderr) = old
            self.stderr, sys.stderr = sys.stderr.getvalue(), stderr
        self._find_handler()
        return self

    def _step(self, task):
        self.current = task
        task.go.release()
        self.back.acquire()
        while self.request is not None and not self.stopping:
            func, self.request = self.request, None
            self.result = func()
            task.go.release()
            self.back.acquire()
        self.current = None

    def _find_handler(self):
        fake = sys.modules["pyinotify"]
        if self.handler is None and fake.ThreadedNotifier.instances:
            self.handler = fake.ThreadedNotifier.instances[0].handler
        self.watches = [x for m in fake.WatchManager.instances
                        for x in m.watches]

    def emit(self, path, is_dir=False, mask=0x20):
        """A file in one of the watched directories is opened."""
        head, _, name = path.rpartition("/")
        if self.handler is None or not any(
                watch.covers(head, mask) for watch in self.watches):
            return False
        event = types.SimpleNamespace(
            pathname=path, path=head, name=name, dir=is_dir, mask=(
                mask | (0x40000000 if is_dir else 0)), maskname="IN_OPEN",
            wd=1)
        self.handler(event)
        return True


PIPE_SIZE = 65536


class FakePopen:
    """A command that the daemon runs: it takes the time that the explorer
    says, and does what it says."""

    def __init__(self, sim, args, **kwargs):
        self.sim, self.args = sim, args
        self.returncode = None
        self.pid = 1
        self.stdin = io.StringIO()
        self.stdout = io.StringIO("")
        self.stderr = _Stream(self)
        self.duration, self.action = sim.on_popen(args)
        # What it prints on its standard error output.
        self.text = ""
        self.inherits = kwargs.get("stderr") is None

    def _finish(self):
        if self.returncode is None:
            self.returncode = -1
            if self.duration:
                self.sim.sleep(self.duration)
            self.returncode, self.text = self.action()
            if self.inherits:
                sys.stderr.write(self.stderr.rest())

    def poll(self):
        return self.returncode

    def wait(self, timeout=None):
        self._finish()
        if len(self.text) > PIPE_SIZE and not self.stderr.given:
            # It can't go on until somebody reads that.
            self.sim.sleep(10 ** 9)
        return self.returncode

    def communicate(self, input=None, timeout=None):
        self._finish()
        return "", self.stderr.rest()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self._finish()

    def kill(self):
        pass

    terminate = kill


class _Stream:
    """The program's error output, which ends when the program does."""

    def __init__(self, proc):
        self.proc, self.given = proc, False

    def rest(self):
        self.given = True
        text, self.proc.text = self.proc.text, ""
        return text

    def readline(self):
        self.proc._finish()
        self.given = True
        line, end, self.proc.text = self.proc.text.partition("\n")
        return line + end

    def read(self, *a):
        self.proc._finish()
        return self.rest()

    def __iter__(self):
        return self

    def __next__(self):
        line = self.readline()
        if not line:
            raise StopIteration
        return line

    def close(self):
        pass
