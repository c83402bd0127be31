"""C23: commands of two clients that run at once do what they do one after the
other."""
import re

import core
import faults
import model
import sched
from synclib import *

ID = "C23"
LEVEL = "model_checking"
RULE = ("two commands of two clients that share a remote directory run at once, "
        "under a scheduler that stops them before every operation on the file "
        "system; every schedule with one preemption (operations including the "
        "opening of files and listing of directories) and with two "
        "preemptions (operations that change something); a command waiting "
        "for a lock either waits until it gets it or gives up. Distinct cases "
        "are (scenario, commands, sequence of operations as interleaved)")
ASSUMPTIONS = ["both clients are on one machine and see each other's writes "
               "at once"]

SCENARIOS = [
    [op_write("L1", "a"), op_replace("L1", "n"), op_rm("L1", "d/e"),
     op_replace("L2", "a"), op_replace("L2", "m/n"),
     op_replace("L2", "d/b.txt")],
    [op_rm("L1", "d/b.txt"), op_rm("L2", "d"), op_replace("L1", "a"),
     op_rm("L2", "a"), op_replace("L1", "n"), op_replace("L2", "n")],
    [op_dirify("L1", "a"), op_replace("L2", "a"), op_replace("L2", "d"),
     op_replace("R", "d/e/c")],
    [op_rm("L2", "a"), op_rm("L2", "d/b.txt"), op_replace("R", "n")],
]
LIMITS = [("1000KiB", "0KiB"), ("0KiB", "20KiB")]
PAIRS = ["sync+sync", "sync+init", "sync+empty-trash", "sync+reset-k",
         "init+init"]


def plan(tier):
    """(scenario, limits, pair, reads, preemptions)"""
    out = []
    for s in range(len(SCENARIOS)):
        for li in range(len(LIMITS)):
            for p, name in enumerate(PAIRS):
                if name == "init+init" and s:
                    continue
                if tier == "thorough" or (
                        li == s % 2 and (name == "sync+sync" or s == 0)):
                    out.append((s, li, p, True, 1))
                if tier == "thorough" and li == s % 2 and (
                        name == "sync+sync" or s == 0):
                    out.append((s, li, p, False, 2))
    return out


def bound(tier):
    p = plan(tier)
    return ("{} scenarios x limits {} x commands {}; {} with 2 preemptions "
            "among the changing operations, {} with 1 preemption among all"
            .format(len(SCENARIOS), LIMITS, PAIRS,
                    sum(1 for x in p if x[4] == 2),
                    sum(1 for x in p if x[4] == 1)))


def jobs(tier):
    out = []
    for p in plan(tier):
        parts = 24 if p[4] == 2 else 6
        for part in range(parts):
            out.append(list(p) + [part, parts])
    return out


def setup(ctx):
    ctx.bases = {}


def prepare(ctx, s, li, pair):
    """A world with edits pending, and the two commands."""
    w = ctx.world
    name = PAIRS[pair]
    key = (s, li, pair)
    if key not in ctx.bases:
        w.fresh()
        os.makedirs(w.p("R"))
        lim = LIMITS[li]
        base_tree(w, "L1")
        w.advance()
        steps = [lambda: w.init(1, lim[0]), lambda: w.sync(1)]
        if name == "init+init":
            steps = []
            base_tree(w, "R")
            w.rm("L1")
        if "init" not in name:
            steps += [lambda: w.init(2, lim[1], add_remote=True),
                      lambda: w.sync(2), lambda: w.sync(1)]
        if name == "sync+empty-trash":
            w2 = w
            steps += [lambda: (w2.rm("L2/z"), w2.sync(2))[1]]
        for step in steps:
            r = step()
            if not r.ok:
                ctx.fail("setup", "init/sync failed: {}".format(r))
            w.advance()
        if name != "init+init":
            for op in SCENARIOS[s]:
                if "init" in name and "L2" in op.label:
                    continue
                op.func(w)
                w.advance()
        ctx.bases[key] = w.save()
    first = lambda: w.sync(1)
    if name == "sync+sync":
        second = lambda: w.sync(2)
    elif name == "sync+init":
        second = lambda: w.init(2, LIMITS[li][1], add_remote=True)
    elif name == "sync+empty-trash":
        second = lambda: core.run_cli(["empty-trash", w.name(2)])
    elif name == "sync+reset-k":
        second = lambda: core.run_cli(["reset", "-k", w.name(2)])
    else:
        first = lambda: w.init(1, LIMITS[li][0], add_remote=True)
        second = lambda: w.init(2, LIMITS[li][1], add_remote=True)
    return ctx.bases[key], first, second


def plain(tree_):
    """Without what depends on the time of the sync."""
    out = []
    for p, n in tree_.items():
        p = re.sub(r"_conflict-\d{8}-\d{6}(\(\d+\))?", "_conflict", p)
        out.append((p, n[:2] if n[0] in "fl" else n[:1]))
    return sorted(out)


def finish(ctx, name, results, trail):
    """Whatever was refused is done now; then both sync until nothing
    changes.  Returns the final state."""
    w = ctx.world
    w.advance()

    def must(r, what):
        if not r.ok:
            ctx.fail("after-" + r.kind, "{} failed: {}\n{}".format(
                what, r, trail))
        w.advance()
    order = [1, 2]
    if name == "init+init" and results[0] != "ok()":
        must(w.init(1, LIMITS[0][0], add_remote=True), "init 1")
    if name in ("sync+init", "init+init") and results[1] != "ok()":
        must(w.init(2, LIMITS[0][1], add_remote=True), "init 2")
    if name == "sync+empty-trash":
        must(core.run_cli(["empty-trash", w.name(2)]), "empty-trash")
    if name == "sync+reset-k":
        if results[1] != "ok()":
            must(core.run_cli(["reset", "-k", w.name(2)]), "reset")
        order = [1]
    for n in order + order:
        must(w.sync(n), "sync {}".format(n))
    rem = remote(w)
    for n in order:
        v = view(local(w, n), rem)
        if v != rem:
            ctx.fail("diverged", "client {} and the remote directory differ: "
                     "{}\n{}".format(n, model.diff(rem, v), trail))
    tr = [] if name == "sync+empty-trash" else plain(trash(w))
    if name == "sync+empty-trash" and any(
            n[0] != "d" for n in trash(w).values()):
        # What the first sync put there afterwards may stay.
        pass
    extra = plain(scan(w.p("L2"))) if order == [1] else []
    for n in order:
        prof = core.zielen.profile.Profile(w.name(n))
        paths = sorted(prof.get_paths())
        prof._db_file.close()
        if set(paths) != set(rem):
            ctx.fail("database", "client {} knows {} but there is {}\n{}"
                     .format(n, paths, sorted(rem), trail))
    return repr((plain(rem), extra)), tr


ALLOWED = ("already taking place", "another operation")


def run(ctx, job):
    s, li, pair, reads, preemptions, part, parts = job
    w = ctx.world
    name = PAIRS[pair]
    saved, first, second = prepare(ctx, s, li, pair)
    title = "{} {} {}".format(LIMITS[li], name,
                              SCENARIOS[s] if name != "init+init" else "")

    # One after the other.
    allowed, lengths = {}, []
    for order in ((0, 1), (1, 0)):
        w.load(saved)
        results = ["", ""]
        for x in order:
            results[x] = repr((first, second)[x]())
            w.advance()
        # Whatever can't be done first is done again.
        trail = title + " in the order {}: {}".format(order, results)
        state, tr = finish(ctx, name, results, trail)
        allowed[state] = order
    for x in (0, 1):
        w.load(saved)
        code, text, ops = faults.op_log(w, (first, second)[x], reads)
        lengths.append(len(ops) + 40)

    def explore(plan, waits):
        """Returns the numbers of operations, or None if a segment was
        longer than its process."""
        ctx.check_time()
        w.load(saved)
        procs = sched.run_all([first, second],
                              sched.segments(plan, waits), reads)
        results = [p.result for p in procs]
        trail = "{}\nschedule {} {}: {}".format(
            title, plan, "waiting" if waits else "giving up", results)
        for x, r in enumerate(results):
            if r != "ok()" and not any(a in r for a in ALLOWED) and not (
                    "init" in name and "error" in r):
                ctx.fail("result", "a command ended with {}\n{}".format(
                    r, trail))
        if all(r != "ok()" for r in results):
            ctx.fail("both", "both commands failed\n" + trail)
        state, tr = finish(ctx, name, results, trail)
        if state not in allowed:
            ctx.fail("outcome", "not what happens one after the other:\n{}\n"
                     "{}\n{}".format(state, "\n".join(allowed), trail))
        ctx.stats["evaluations"] += 1
        ctx.state((s, li, pair, [p.ops for p in procs], plan))
        ctx.outcomes["{} {} {} order {}".format(
            name, *[r.split("(")[0] for r in results], allowed[state])] += 1
        ctx.sample(trail, 3)
        return [len(p.ops) for p in procs] + [
            any(op[0] == "sleep" for p in procs for op in p.ops)]

    for a in (0, 1):
        i = 0
        while True:
            i += 1
            if i > lengths[a]:
                break
            if i % parts != part:
                continue
            if preemptions == 1:
                n = explore([(a, i)], True)
                if n[2]:
                    explore([(a, i)], False)
                if n[a] <= i:
                    break
            else:
                j = 0
                while True:
                    j += 1
                    n = explore([(a, i), (1 - a, j)], True)
                    if n[a] <= i or n[1 - a] <= j:
                        break
                if n[a] <= i:
                    break
