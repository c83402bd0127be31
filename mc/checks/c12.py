"""C12: two commands on one profile never run at the same time."""
import hashlib
import re

import core
import faults
import sched
from core import run_cli
from synclib import *

ID = "C12"
LEVEL = "model_checking"
RULE = ("two commands on the same profile run at once, in processes of their "
        "own under a scheduler that stops them before every operation on the "
        "file system (including opening files, listing directories and taking "
        "the lock of the profile); every schedule with one preemption and, for "
        "some, with two. Distinct cases are (state of the profile, commands, "
        "sequence of operations as interleaved)")
ASSUMPTIONS = ["both commands are run by the same user on the same machine"]

EDITS = [op_write("L1", "a"), op_replace("L1", "n"), op_rm("L1", "d/e"),
         op_replace("R", "d/b.txt"), op_rm("L1", "z"), op_replace("R", "m")]
LIMIT = "12KiB"
COMMANDS = {
    "sync": lambda w: w.sync(1),
    "reset": lambda w: run_cli(["reset", w.name(1)]),
    "reset -k": lambda w: run_cli(["reset", "-k", w.name(1)]),
    "reset -n": lambda w: run_cli(["reset", "-n", w.name(1)]),
    "reset path": lambda w: run_cli(["reset", "-n", w.p("L1")]),
    "sync path": lambda w: run_cli(["sync", w.p("L1")]),
    "empty-trash": lambda w: run_cli(["empty-trash", w.name(1)]),
    "init": lambda w: run_cli(["init", "-t", w.p("home/tpl1"), w.name(1)]),
    "init -a": lambda w: run_cli(["init", "-t", w.p("home/tpl1"), "-a",
                                  w.name(1)]),
    "init name": lambda w: run_cli(["init", w.name(1)]),
    "list": lambda w: run_cli(["list"]),
}
# (state of the profile, commands)
PAIRS = [
    ("ready", "sync", "sync"), ("ready", "sync", "reset"),
    ("ready", "sync", "reset -k"), ("ready", "sync path", "reset -n"),
    ("ready", "sync", "empty-trash"), ("ready", "reset", "reset"),
    ("ready", "reset -k", "reset path"), ("ready", "reset", "empty-trash"),
    ("ready", "sync", "init"), ("ready", "reset -k", "init"),
    ("ready", "reset", "list"), ("ready", "sync", "list"),
    ("none", "init", "init"), ("none", "init", "sync"),
    ("none", "init", "list"), ("empty", "init -a", "init -a"),
    ("partial", "init name", "init name"), ("partial", "init", "sync path"),
]
TWICE = [("ready", "sync", "sync"), ("ready", "reset -k", "sync"),
         ("none", "init", "init"), ("partial", "init name", "init name")]
MORE = [("ready", "reset", "init"), ("partial", "init name", "reset"),
        ("ready", "reset -n", "reset"), ("partial", "init", "list"),
        ("ready", "empty-trash", "empty-trash"), ("ready", "sync path",
                                                  "reset path")]


def plan(tier):
    """(state, command, command, preemptions)"""
    if tier == "thorough":
        return [p + (n,) for p in PAIRS + MORE for n in (1, 2)]
    return [p + (1,) for p in PAIRS] + [TWICE[2] + (2,)]


def bound(tier):
    p = plan(tier)
    return ("{} pairs of commands with one preemption, {} with two".format(
        sum(x[3] == 1 for x in p), sum(x[3] == 2 for x in p)))


def jobs(tier):
    out = []
    for p in plan(tier):
        parts = 24 if p[3] == 2 else 4
        out += [list(p) + [part, parts] for part in range(parts)]
    return out


def setup(ctx):
    ctx.bases = {}


def base(ctx, state):
    w = ctx.world
    if state in ctx.bases:
        return ctx.bases[state]
    if state == "ready":
        r = start(w, LIMIT)
        if not r.ok:
            ctx.fail("setup", "init/sync failed: {}".format(r))
        w.rm("L1/d/e")
        w.advance()
        r = w.sync(1)
        if not r.ok:
            ctx.fail("setup", "sync failed: {}".format(r))
        w.advance()
        for op in EDITS:
            try:
                op.func(w)
            except FileNotFoundError:
                continue
            w.advance()
    else:
        w.fresh()
        os.makedirs(w.p("R"))
        base_tree(w, "R" if state == "empty" else "L1")
        w.advance()
    w.write_template(1, LIMIT)
    if state == "partial":
        saved = w.save()
        code, text, ops = faults.op_log(w, lambda: COMMANDS["init"](w), False)
        # Half-way through moving the files.
        k = next(i for i, o in enumerate(ops)
                 if o[0] == "rename" and "/R/d" in o[1]) + 1
        w.load(saved)
        faults.run_faulted(w, lambda: COMMANDS["init"](w), k + 1,
                           core.ACT_KILL)
        w.advance()
    ctx.bases[state] = w.save()
    return ctx.bases[state]


REFUSED = ("already taking place",)


def plain(tree_):
    out = []
    for p, n in tree_.items():
        p = re.sub(r"_conflict-\d{8}-\d{6}(\(\d+\))?", "_conflict", p)
        if n[0] == "f":
            n = ("f", hashlib.sha1(n[1]).hexdigest()[:6])
        out.append(" ".join((p,) + n[:2]))
    return sorted(out)


def finish(ctx, names, results, trail):
    """Do what was refused, then sync if there's a profile.  Returns how the
    commands ended and the final state."""
    w = ctx.world
    w.advance()
    results = list(results)
    for x in (0, 1):
        if any(s in results[x] for s in REFUSED):
            results[x] = repr(COMMANDS[names[x]](w))
            w.advance()
            if any(s in results[x] for s in REFUSED):
                ctx.fail("stuck", "{} is still refused: {}\n{}".format(
                    names[x], results[x], trail))
    kinds = [r.split("(")[0] for r in results]
    profile = os.path.isdir(w.profile_dir(1))
    syncs = []
    if profile:
        for _ in range(2):
            r = w.sync(1)
            syncs.append(r.kind)
            w.advance()
    loc, rem = local(w), remote(w)
    paths = []
    if profile and "ok" in syncs:
        prof = core.zielen.profile.Profile(w.name(1))
        paths = sorted(prof.get_paths())
        prof._db_file.close()
    return repr((kinds, profile, syncs, plain(loc), plain(rem),
                 plain(trash(w)), paths))


def run(ctx, job):
    state, first, second, preemptions, part, parts = job
    w = ctx.world
    names = (first, second)
    saved = base(ctx, state)
    funcs = [lambda: COMMANDS[first](w), lambda: COMMANDS[second](w)]
    title = "{}: {} and {}".format(state, first, second)
    allowed = {}
    lengths = [0, 0]
    for order in ((0, 1), (1, 0)):
        w.load(saved)
        results = ["", ""]
        for x in order:
            results[x] = repr(funcs[x]())
            w.advance()
        trail = title + " in the order {}: {}".format(order, results)
        allowed[finish(ctx, names, results, trail)] = order
    for x in (0, 1):
        w.load(saved)
        code, text, ops = faults.op_log(w, funcs[x], True)
        lengths[x] = len(ops) + 40

    def explore(segments):
        ctx.check_time()
        w.load(saved)
        procs = sched.run_all(funcs, sched.segments(segments), True)
        results = [p.result for p in procs]
        trail = "{}\nschedule {}: {}".format(title, segments, results)
        for r in results:
            if not r.startswith(("ok(", "error(")):
                ctx.fail("crash", "a command ended with {}\n{}".format(
                    r, trail))
        final = finish(ctx, names, results, trail)
        if final not in allowed:
            ctx.fail("outcome", "not what happens one after the other:\n{}\n"
                     "{}\n{}".format(final, "\n".join(allowed), trail))
        ctx.stats["evaluations"] += 1
        ctx.state((job[:3], [p.ops for p in procs], segments))
        ctx.outcomes["{}: {} {}".format(title, *[
            "refused" if any(s in r for s in REFUSED) else r.split("(")[0]
            for r in results])] += 1
        ctx.sample(trail, 3)
        return [len(p.ops) for p in procs]

    for a in (0, 1):
        for i in range(1 + part, lengths[a] + 1, parts):
            if preemptions == 1:
                if explore([(a, i)])[a] <= i:
                    break
                continue
            j, n = 0, None
            while n is None or (n[a] > i and n[1 - a] > j):
                j += 1
                n = explore([(a, i), (1 - a, j)])
            if n[a] <= i:
                break
