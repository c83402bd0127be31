"""C25: the daemon syncs at the configured interval, whatever happens."""
import itertools

import core
import daemonlib
from core import Shim
from synclib import *

ID = "C25"
LEVEL = "model_checking"
RULE = ("every combination of sync intervals, age of the last sync, outcome "
        "and duration of each sync, changes of the interval at several points "
        "in time and order of the daemon's threads, under a simulated clock; "
        "the syncs are those of the real command line, and what they "
        "print as errors has to be printed by the daemon. Distinct states are "
        "the sequences of times at which syncs start and end")
ASSUMPTIONS = [
    "a change of the config file may take up to two of the daemon's rounds "
    "(6 s) to be noticed",
]

INTERVALS = ["0", "1", "2"]
AGES = [0.0, 40.0, 500.0]
OUTCOMES = ["ok", "no remote"]
DURATIONS = [0.0, 7.0, 150.0]
CHANGES = [None, (1.0, "2"), (65.0, "0"), (70.0, "1"), (64.0, "2")]
HORIZON = 330.0
SLACK = 6.5
# A sync that is due must begin within one of the daemon's rounds.
ROUND = 3.5


def count(tier):
    return 3 if tier == "thorough" else 2


def bound(tier):
    n = (len(OUTCOMES) * len(DURATIONS)) ** count(tier)
    return ("{} intervals x {} ages x {} histories of {} syncs (then failing "
            "ones) x {} changes of the interval x 2 orders of the threads, "
            "for {:.0f} s (100 s if the interval is 0)".format(len(INTERVALS), len(AGES), n, count(tier),
                                  len(CHANGES), HORIZON))


def jobs(tier):
    return [[i, a, c, t] for i in range(len(INTERVALS))
            for a in range(len(AGES)) for c in range(len(CHANGES))
            for t in (0, 1)]


def setup(ctx):
    ctx.bases = {}


def base(ctx, i, a):
    w = ctx.world
    if (i, a) not in ctx.bases:
        r = start(w, "1000KiB", SyncInterval=INTERVALS[i])
        if not r.ok:
            ctx.fail("setup", "init/sync failed: {}".format(r))
        Shim.time(float(int(last_sync(w) + AGES[a]) + 1))
        ctx.bases[i, a] = w.save()
    return ctx.bases[i, a]


def run(ctx, job):
    i, a, c, tie = job
    choices = list(itertools.product(OUTCOMES, DURATIONS))
    for history in itertools.product(choices, repeat=count(ctx.tier)):
        ctx.check_time()
        one(ctx, i, a, CHANGES[c], tie, history)


def one(ctx, i, a, change, tie, history):
    w = ctx.world
    w.load(base(ctx, i, a))
    t0 = Shim.now()
    trail = "interval {} last sync {} s ago, syncs {}, change {}, order {}" \
        .format(INTERVALS[i], AGES[a], history, change, tie)
    before = last_sync(w)
    sim = daemonlib.Sim(w)
    sim.tie = tie
    runs = []                # [start, end]
    printed = []

    def popen(args):
        n = len(runs)
        if runs and runs[-1][1] is None:
            ctx.fail("overlap", "a sync starts while another runs\n" + trail)
        args = list(args)
        if not args or args[0].rpartition("/")[2] != "zielen" or (
                "sync" not in args):
            ctx.fail("command", "unexpected command {}\n{}".format(
                args, trail))
        runs.append([Shim.now(), None])
        outcome, duration = (history[n] if n < len(history)
                             else ("no remote", 0.0))

        def action():
            if n >= len(history):
                runs[-1][1] = Shim.now()
                return 1, ""
            if outcome == "no remote":
                os.rename(w.p("R"), w.p("gone"))
            try:
                r = sim.in_main(lambda: real_sync(args))
            finally:
                if outcome == "no remote":
                    os.rename(w.p("gone"), w.p("R"))
            if r.ok != (outcome == "ok"):
                ctx.fail("sync", "the command {} ended with {}\n{}".format(
                    args, r, trail))
            runs[-1][1] = Shim.now()
            if r.ok:
                return 0, ""
            printed.append("sync {}: {}\n\nend\n".format(n, r))
            if n == 1:
                # More than a pipe holds.
                printed[-1] += "more\n" * 20000
            return 1, printed[-1]
        return duration, action
    sim.on_popen = popen
    values = [(t0 - 1000, int(INTERVALS[i]) * 60)]
    events = []
    if change is not None:
        values.append((t0 + change[0], int(change[1]) * 60))
        events.append((t0 + change[0], lambda: w.set_config(
            1, SyncInterval=change[1])))
    horizon = t0 + (100.0 if INTERVALS[i] == "0" else HORIZON)
    sim.run(events, horizon)
    for task in sim.tasks:
        if task.error is not None:
            if isinstance(task.error, core_failures()):
                raise task.error
            ctx.fail("daemon", "the daemon's {} thread died: {!r}\n{}".format(
                task.name, task.error, trail))
    if [x for x in sim.stderr.splitlines() if x] != [
            x for x in "".join(printed).splitlines() if x]:
        ctx.fail("output", "what the syncs print as errors isn't what the "
                 "daemon does\n" + trail)
    check(ctx, t0, horizon, before, runs, values, trail)
    ctx.state([round(x - t0, 1) for r in runs for x in r if x is not None])
    ctx.stats["transitions"] += len(runs)
    ctx.stats["traces"] += 1
    ctx.outcomes["{} syncs".format(min(len(runs), 9))] += 1
    ctx.sample("{} -> {}".format(trail, [
        round(r[0] - t0, 1) for r in runs[:8]]), 2)


def core_failures():
    import pool
    return tuple(x for x in vars(pool).values() if isinstance(x, type)
                 and issubclass(x, BaseException))


def real_sync(args):
    old = core._connections
    funcs = core.AT_EXIT.funcs
    try:
        return core.run_cli(args[1:])
    finally:
        core._connections = old
        core.AT_EXIT.funcs = funcs


def check(ctx, t0, horizon, before, runs, values, trail):
    def known(t):
        """The intervals that the daemon may be using at a time."""
        return [v for k, (when, v) in enumerate(values) if when <= t and (
            k + 1 == len(values) or values[k + 1][0] > t - SLACK)]
    last = before
    free = t0                # since when it could have started one
    for begin, end in runs + [[horizon, None]]:
        closing = end is None and begin == horizon
        if not closing and not any(
                begin >= last + v - 0.01 for v in known(begin)):
            ctx.fail("early", "a sync at {:.1f} after one that ended at {:.1f}"
                     " with intervals {}\n{}".format(
                         begin - t0, last - t0, known(begin), trail))
        # Since when was it due for certain?
        due = max(free, last + max(known(begin)))
        if len(known(begin)) > 1:
            due = begin
        elif len(values) > 1 and values[-1][0] <= begin:
            due = max(due, values[-1][0] + SLACK) if (
                last + values[0][1] > values[-1][0]) else due
        if begin - due > ROUND:
            ctx.fail("late", "no sync between {:.1f} and {:.1f} although one "
                     "was due\n{}".format(due - t0, begin - t0, trail))
        if closing or end is None:
            return
        last = free = end
