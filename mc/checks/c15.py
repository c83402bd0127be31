"""C15: the daemon counts every file that is opened, once."""
import itertools
import os

import core
import daemonlib
from core import Shim
from synclib import *

ID = "C15"
LEVEL = "model_checking"
RULE = ("every assignment of events (a file opened locally, remotely, another "
        "file, a directory or unknown file, nothing) to points in time before, "
        "between and after the daemon's transactions, at distances below and "
        "above its cooldown period, x which of its transactions find the "
        "database locked x when the priorities are due to be adjusted; the "
        "daemon's threads run under a simulated clock. Distinct states are "
        "(events, locks, adjustment) with the resulting priorities")
ASSUMPTIONS = [
    "the events come from a stand-in for inotify, in the order in which the "
    "files were opened",
]

POINTS = [0.3, 0.7, 1.5, 3.2, 3.9, 5.0]
MORE_POINTS = POINTS + [6.4]
KINDS = ["-", "a", "A", "b", "x"]
# A new directory that is synced by someone else, and then files are opened in
# it, locally and remotely.
NEW_KINDS = ["-", "a", "n", "N"]
# The kinds of locks that others can hold, and at which transactions.
LOCKS = [(), ("IMMEDIATE", 3), ("IMMEDIATE", 6), ("IMMEDIATE", 3, 6),
         ("EXCLUSIVE", 3), ("SHARED", 3)]
# When the priorities are due to be adjusted; the last one is the only one with
# which more than one interval has passed.
ADJUST = [None, 1.0, 5.0, -3000.0]
# Where the local and the remote directory are.
LAYOUTS = [("L1", "R"), ("L1", "L1-remote"), ("R-local", "R"),
           ("R/L1", "R/R")]
HORIZON = 16.0
COOLDOWN, INTERVAL = 1.0, 600.0


def points(tier, lock, adjust):
    if adjust is not None and adjust < 0:
        return POINTS[2:]
    if tier == "thorough":
        return MORE_POINTS if not lock else POINTS
    return POINTS if lock == LOCKS[1] or (not lock and adjust is None) else (
        POINTS[1:] if not lock else POINTS[2:])


def bound(tier):
    return ("{} kinds of events at up to {} points in time x {} lockings x {} "
            "times of adjustment (one of them long overdue); at 4 points for {} other places of the "
            "directories; with files in a new directory at 5 points"
            .format(
                len(KINDS), len(points("thorough" if tier == "thorough" else
                                       tier, (), None)),
                len(LOCKS), len(ADJUST), len(LAYOUTS) - 1))


def jobs(tier):
    return [[n, j, k, kk, 0] for n in range(len(LOCKS))
            for j in range(len(ADJUST)) for k in KINDS for kk in KINDS
            if n == 0 or j < 3] + [
                [0, 0, k, kk, x] for k in KINDS for kk in KINDS
                for x in range(1, len(LAYOUTS))] + [
                    [0, 0, k, kk, "new"] for k in NEW_KINDS
                    for kk in NEW_KINDS]


def setup(ctx):
    w = ctx.world
    ctx.saved = []
    for loc, rem in LAYOUTS:
        w.fresh()
        os.makedirs(w.p(rem))
        base_tree(w, loc)
        w.advance()
        r = w.init(1, local=w.p(loc), remote=w.p(rem), PriorityHalfLife="1",
                   SyncInterval="100000")
        w.advance()
        r2 = w.sync(1)
        if not r.ok or not r2.ok:
            ctx.fail("setup", "init/sync failed: {} {}".format(r, r2))
        w.advance()
        ctx.saved.append(w.save())
    core.DB_TIMEOUT = 0


def priorities(w):
    prof = core.zielen.profile.Profile(w.name(1))
    prof.read()
    out = {p: d.priority for p, d in prof.get_paths(directory=False).items()}
    dirs = {p: d.priority for p, d in prof.get_paths(directory=True).items()}
    last = prof.last_adjust
    prof._db_file.close()
    return out, dirs, last


def set_adjust(w, when):
    prof = core.zielen.profile.Profile(w.name(1))
    prof.read()
    prof.last_adjust = when
    prof.write()
    prof._db_file.close()


FILES = {"a": "L/a", "A": "R/a", "b": "L/d/b.txt", "n": "L/new/d/n",
         "N": "R/new/d/n"}
PATHS = {"a": "a", "A": "a", "b": "d/b.txt", "n": "new/d/n", "N": "new/d/n"}


def run(ctx, job):
    n, j, first, second, layout = job
    lock, adjust = LOCKS[n], ADJUST[j]
    w = ctx.world
    kinds, new = KINDS, layout == "new"
    if new:
        kinds, layout = NEW_KINDS, 0
    w.load(ctx.saved[layout])
    grid = points(ctx.tier, lock, adjust)
    if new:
        grid = grid[-5:]
    elif layout:
        grid = grid[-4:]
    for rest in itertools.product(kinds, repeat=len(grid) - 2):
        ctx.check_time()
        if new:
            w.load(ctx.saved[layout])
            w.set_config(1, InflatePriority="no")
        one(ctx, lock, adjust, grid, (first, second) + rest, LAYOUTS[layout])


def one(ctx, lock, adjust, grid, kinds, layout):
    w = ctx.world
    w.advance(100)
    t0 = float(int(Shim.now()) + 1)
    Shim.time(t0)
    set_adjust(w, t0 - INTERVAL + adjust if adjust is not None else t0)
    before, _, last = priorities(w)
    want = dict(before)
    trail = "opened {} locked {} adjustment due at {} {}".format(
        " ".join("{}@{}".format(k, t) for k, t in zip(kinds, grid)),
        lock, adjust, " ".join(layout))

    def place(path):
        return w.p(layout["LR".index(path[0])] + path[1:])
    Shim.time(t0)
    sim = daemonlib.Sim(w)
    times = []               # (time, path) of the opened files
    held = []

    def emit(kind):
        def f():
            if kind == "x":
                sim.emit(place("L/d"), True)
                sim.emit(place("R/unknown"))
                return
            if kind in "nN" and not os.path.exists(place("L/new/d/n")):
                # The daemon isn't told of what the sync opens here.
                w.write(layout[0] + "/new/d/n", b"n")
                w.advance()
                conns = core._connections
                res = w.sync(1)
                core._connections = conns
                if not res.ok:
                    ctx.fail("sync", "{}\n{}".format(res, trail))
                want["new/d/n"] = 0
                return
            if not sim.emit(place(FILES[kind])):
                ctx.fail("unwatched", "{} isn't watched\n{}".format(
                    FILES[kind], trail))
            times.append((Shim.now(), PATHS[kind]))
        return f

    def hold():
        conn = core._real_connect(w.profile_dir(1) + "/local.db", timeout=0,
                                  isolation_level=None)
        if lock[0] == "SHARED":
            # Hold a lock for reading until the end of this transaction.
            conn.execute("BEGIN")
            conn.execute("SELECT * FROM nodes").fetchone()
        else:
            conn.execute("BEGIN " + lock[0])
        held.append(conn)

    def release():
        conn = held.pop()
        conn.execute("ROLLBACK")
        conn.close()
    events = [(t0 + t, emit(k)) for t, k in zip(grid, kinds) if k != "-"]
    for k in lock[1:]:
        events.append((t0 + k - 0.05, hold))
        events.append((t0 + k + 0.15, release))
    events.sort(key=lambda x: x[0])
    turns = []               # when the main thread has done its work
    sim.on_sleep = lambda task, secs: (
        turns.append(Shim.now()) if task.name == "main" else None)
    sim.on_popen = lambda args: (0, lambda: (0, ""))
    sim.run(events, t0 + HORIZON)
    for task in sim.tasks:
        if task.error is not None:
            ctx.fail("daemon", "the daemon's {} thread died: {!r}\n{}".format(
                task.name, task.error, trail))
    after, dirs, new_last = priorities(w)
    due = last + INTERVAL
    counted, pending = {}, []
    queue = sorted(times, key=lambda x: x[0])
    adjusted = None
    for turn in turns:
        while queue and queue[0][0] < turn:
            t, p = queue.pop(0)
            if p not in counted or t > counted[p] + COOLDOWN:
                counted[p] = t
                pending.append(p)
        # Those who only read don't get in the way.
        locked = lock and lock[0] != "SHARED" and any(t0 + k - 0.05 <= turn <= t0 + k + 0.15 for k in lock[1:])
        if locked:
            continue
        if turn >= due:
            for p in want:
                want[p] *= 0.5 ** (INTERVAL / 3600.0)
            adjusted = turn
            due = turn + INTERVAL
        for p in pending:
            want[p] += 1
        pending = []
    wrong = {p: (want.get(p), after.get(p)) for p in set(want) | set(after)
             if p not in want or p not in after
             or abs(want[p] - after[p]) > 1e-6 * (1 + want[p])}
    if wrong:
        ctx.fail("count", "priorities, expected and found: {}\n{}".format(
            wrong, trail))
    for d, value in dirs.items():
        total = sum(x for p, x in after.items() if p.startswith(d + "/"))
        if abs(value - total) > 1e-6 * (1 + total):
            ctx.fail("directories", "{} has {} instead of {}\n{}".format(
                d, value, total, trail))
    if adjusted is not None and not (
            adjusted - 1 <= new_last <= adjusted + 1):
        ctx.fail("adjusted", "the time of the adjustment is {} instead of {}"
                 "\n{}".format(new_last, adjusted, trail))
    if adjusted is None and abs(new_last - last) > 1e-3:
        ctx.fail("adjusted", "adjusted at {} although it wasn't due\n{}"
                 .format(new_last, trail))
    ctx.state((kinds, lock, adjust, layout))
    ctx.stats["transitions"] += len(turns)
    ctx.stats["traces"] += 1
    ctx.outcomes["{} counted{}{}".format(
        min(6, sum(1 for _ in counted)), ", locked" if lock else "",
        ", adjusted" if adjusted else "")] += 1
    ctx.sample("{} -> {}".format(trail, after), 2)
