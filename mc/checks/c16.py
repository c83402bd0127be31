"""C16: the daemon and a sync never undo each other's changes of metadata."""
import sys
import time

import core
import faults
import sched
from core import Shim
from synclib import *

ID = "C16"
LEVEL = "model_checking"
RULE = ("the daemon (opened files to count, an adjustment that is due) and a "
        "command on the same profile run at once in processes of their own; "
        "either is preempted at each of its operations on the file system, "
        "and for some also a second time at each operation of the other. "
        "Distinct states are the sequences of operations of both")
ASSUMPTIONS = [
    "the order of file system operations determines the outcome (the programs "
    "share nothing else)",
    "the daemon's wait between transactions ends after any number of the "
    "other program's operations",
]

SCENARIOS = [
    [op_replace("L1", "n"), op_write("R", "a")],
    [op_rm("L1", "a"), op_replace("R", "d/n"), op_replace("L1", "d/b.txt")],
    [op_dirify("L1", "a"), op_rm("R", "d/e")],
    [],
]
LIMITS = ["1000KiB", "0KiB", "24KiB"]
OPENED = ["a", "d/b.txt", "d/e/c", "new", "d/b.txt"]


def plan(tier):
    """(scenario, limit, adjustment due, preemptions)"""
    if tier == "thorough":
        return [(s, i, due, n) for s in range(len(SCENARIOS))
                for i in range(len(LIMITS)) for due in (True, False)
                for n in (1, 2)]
    return [(s, (s + due) % 3, bool(due), 1) for s in range(len(SCENARIOS))
            for due in (0, 1)] + [(0, 1, True, 1), (1, 0, True, 1),
                                  (0, 0, True, 2)]


def bound(tier):
    p = plan(tier)
    return ("{} combinations of {} sets of edits, {} limits and whether an "
            "adjustment is due, with one preemption; {} with two".format(
                sum(x[3] == 1 for x in p), len(SCENARIOS), len(LIMITS),
                sum(x[3] == 2 for x in p)))


def jobs(tier):
    out = []
    for p in plan(tier):
        parts = 24 if p[3] == 2 else 6
        out += [list(p) + [part, parts] for part in range(parts)]
    return out


def setup(ctx):
    ctx.bases = {}


def info(w):
    prof = core.zielen.profile.Profile(w.name(1))
    prof.read()
    paths = prof.get_paths()
    prof._db_file.close()
    return paths, prof.last_sync, prof.last_adjust


def base(ctx, s, i, due):
    w = ctx.world
    if (s, i, due) not in ctx.bases:
        r = start(w, LIMITS[i], PriorityHalfLife="1", SyncInterval="100000")
        if not r.ok:
            ctx.fail("setup", "init/sync failed: {}".format(r))
        prof = core.zielen.profile.Profile(w.name(1))
        prof.read()
        prof.update_paths(["a"], priority=8)
        prof.update_paths(["d/b.txt"], priority=4)
        prof.update_paths(["d/e/c"], priority=2)
        for op in SCENARIOS[s]:
            op.func(w)
            w.advance(10)
        prof.last_adjust = Shim.now() - (700 if due else 10)
        prof.write()
        prof._db_file.close()
        ctx.bases[s, i, due] = w.save()
    return ctx.bases[s, i, due]


class Stop(BaseException):
    pass


def run_sync(w):
    r = w.sync(1)
    with open(w.p("home/stop"), "w"):
        pass
    return r


def run_daemon(w):
    """In a child: count the opened files, and go on until two rounds after
    the sync has ended."""
    import subprocess
    import threading
    import daemonlib
    fake = sys.modules["pyinotify"]
    real_sleep = time.sleep
    rounds = []
    main = threading.current_thread()

    def sleep(secs):
        if os.path.exists(w.p("home/stop")):
            rounds.append(1)
            if len(rounds) > 2:
                raise Stop()
        real_sleep(secs)

    class Quiet:
        def __init__(self, *a, **k):
            pass

        def start(self):
            pass

    def add_watch(self, path, *a, **k):
        if path != w.p("R"):
            return
        handler = fake.ThreadedNotifier.instances[-1].handler
        import types
        for p in OPENED:
            full = w.p("L1/" + p)
            handler(types.SimpleNamespace(
                pathname=full, path=os.path.dirname(full),
                name=os.path.basename(full), dir=False, mask=0x20, wd=1))
    fake.WatchManager.add_watch = add_watch
    threading.Thread = Quiet
    time.sleep = sleep
    sys.stderr = sys.stdout = open(os.devnull, "w")
    try:
        d = core.zielen.daemon.Daemon(w.name(1))
        d.main()
    except Stop:
        return "stopped"
    except BaseException as e:
        return "{}: {}".format(type(e).__name__, e)
    return "ended"


def run(ctx, job):
    s, i, due, preemptions, part, parts = job
    w = ctx.world
    saved = base(ctx, s, i, due)
    w.load(saved)
    title = "{} {} {}".format(LIMITS[i], SCENARIOS[s],
                              "adjustment due" if due else "")
    before, old_sync, old_adjust = info(w)
    t0 = Shim.now()
    funcs = [lambda: run_sync(w), lambda: run_daemon(w)]

    def explore(segments):
        ctx.check_time()
        w.load(saved)
        try:
            procs = sched.run_all(funcs, decider(segments))
        except sched.Diverged as e:
            ctx.fail("hang", "{}\n{}\nschedule {}".format(e, title, segments))
        trail = "{}\nschedule (0 the sync, 1 the daemon) {}: {}".format(
            title, segments, [p.result for p in procs])
        check(ctx, w, before, old_adjust, due, t0, procs, trail)
        ctx.stats["evaluations"] += 1
        ctx.state((s, i, due, [p.ops for p in procs], segments))
        ctx.outcomes["{}".format(
            "waited" if any(op[0] == "sleep" for op in procs[0].ops)
            else "didn't wait")] += 1
        ctx.sample(trail, 3)
        return [len(p.ops) for p in procs]
    n = explore([])
    for a in (0, 1):
        for k in range(1 + part, 400, parts):
            if preemptions == 1:
                m = explore([(a, k)])
                if m[a] <= k or k > n[a] + 60:
                    break
            else:
                j = 0
                while True:
                    j += 1
                    m = explore([(a, k), (1 - a, j)])
                    if m[a] <= k or m[1 - a] <= j or j > 60:
                        break
                if m[a] <= k or k > n[a] + 60:
                    break


def decider(segments):
    """Like sched.segments, except that the daemon's sleep ends any time."""
    todo = [list(x) for x in segments]

    def decide(procs, current):
        while todo:
            i, n = todo[0]
            if n > 0 and not procs[i].done:
                todo[0][1] -= 1
                return i
            todo.pop(0)
            current = 1 - i
        # The sync to its end, unless it waits for the daemon.
        if procs[current].done or procs[current].sleeping:
            current = 1 - current
        if procs[current].done:
            current = 1 - current
        return current
    return decide


def check(ctx, w, before, old_adjust, due, t0, procs, trail):
    if procs[0].result != "ok()":
        ctx.fail("sync", "the sync ended with {}\n{}".format(
            procs[0].result, trail))
    if procs[1].result != repr("stopped"):
        ctx.fail("daemon", "the daemon ended with {}\n{}".format(
            procs[1].result, trail))
    after, new_sync, new_adjust = info(w)
    if not t0 - 1 <= new_sync <= t0 + 100:
        ctx.fail("last-sync", "the time of the last sync is {} after {}\n{}"
                 .format(new_sync, t0, trail))
    if due and not t0 - 1 <= new_adjust <= t0 + 100:
        ctx.fail("last-adjust", "the time of the last adjustment is {} after "
                 "{}\n{}".format(new_adjust, t0, trail))
    if not due and abs(new_adjust - old_adjust) > 1e-3:
        ctx.fail("last-adjust", "adjusted at {} although it wasn't due\n{}"
                 .format(new_adjust, trail))
    c = 0.5 ** (600 / 3600.0) if due else 1.0
    want = {p: d.priority * c + (p in OPENED) for p, d in before.items()
            if not d.directory}
    most = max(d.priority for d in before.values() if not d.directory)
    left = max([d.priority for q, d in before.items()
                if not d.directory and q in after
                and not after[q].directory], default=0.0)
    loc, rem = local(w), remote(w)
    if set(after) != set(rem):
        ctx.fail("paths", "the database has {} and the directory {}\n{}"
                 .format(sorted(after), sorted(rem), trail))
    for p, d in after.items():
        if d.directory:
            total = sum(x.priority for q, x in after.items()
                        if q.startswith(p + "/") and not x.directory)
            # An opened file may have become a directory before it counts.
            extra = [0, 1] if p in OPENED else [0]
            if all(abs(total + n - d.priority) > 1e-6 for n in extra):
                ctx.fail("directory", "{} has {} instead of {}\n{}".format(
                    p, d.priority, total, trail))
            continue
        if p in want and not before[p].directory:
            allowed = [want[p]]
        else:
            # The highest priority at some time, adjusted or not; or none for
            # a file that is new in the remote directory.
            allowed = [0.0] + [
                v for m in (most, left) for n in (0, 1, 2)
                for v in (m * c + n, (m + n) * c, m + n)]
        if not any(abs(x - d.priority) < 1e-6 for x in allowed):
            ctx.fail("priority", "{} has {} instead of {}\n{}".format(
                p, d.priority, allowed, trail))
        real = loc.get(p) != ("r",)
        if bool(d.local) != real:
            ctx.fail("location", "{} is {} in the database\n{}".format(
                p, "local" if d.local else "remote", trail))
