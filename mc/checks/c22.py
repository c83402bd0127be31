"""C22: a remote directory that disappears during a sync costs nothing."""
import os
import shutil

import core
import faults
import model
from synclib import *
from checks import c08, c09, c11

ID = "C22"
LEVEL = "fault_enumeration"
RULE = ("for every scenario (a set of edits on both sides and a storage limit) "
        "the remote directory disappears (with and without an empty mount "
        "point left behind) at each operation of a sync on the file system, "
        "including the opening of files and the listing of directories; or it "
        "isn't there when the sync starts; then it comes back and another sync "
        "completes it; the same with reset instead of the first sync. Distinct "
        "cases are (scenario, kind, operation)")
ASSUMPTIONS = [
    "files of the remote directory that are open stay usable",
]
KINDS = ["gone", "empty mount point"]


def plan(tier):
    """(limit, kind)"""
    return [(i, k) for i in range(len(c08.LIMITS)) for k in range(len(KINDS))
            if tier == "thorough" or k == 1 or i == 1]


def bound(tier):
    return ("{} scenarios x {} x every operation of sync; {} scenarios x {} "
            "limits x {} options x {} x every operation of reset".format(
                len(c08.scenarios(tier)),
                [(c08.LIMITS[i], KINDS[k]) for i, k in plan(tier)],
                len(c11.CRASH), len(resets(tier)), list(c11.MODES), KINDS))


def resets(tier):
    """Indices of limits"""
    return range(len(c11.LIMITS)) if tier == "thorough" else [1]


def jobs(tier):
    out = [[n, i, k] for n in range(len(c08.scenarios(tier)))
           for i, k in plan(tier)]
    out += [["init", n, k] for n in range(len(c09.ways(tier)))
            for k in range(len(KINDS)) if c09.ways(tier)[n][3] != "deep"]
    return out + [["reset", n, i, mode, k] for n in range(len(c11.CRASH))
                  for i in resets(tier) for mode in c11.MODES
                  for k in range(len(KINDS))]


def setup(ctx):
    c08.setup(ctx)
    ctx.sync_bases = ctx.bases
    c11.setup(ctx)
    ctx.reset_bases = ctx.bases
    c09.setup(ctx)
    ctx.init_bases = ctx.bases


def come_back(ctx, trail):
    w = ctx.world
    if not os.path.isdir(w.p("gone")):
        return
    if os.path.lexists(w.p("R")):
        # What is written here is hidden by the directory that comes back.
        written = os.listdir(w.p("R"))
        if written:
            ctx.fail("mountpoint", "there is {} in the empty mount point\n{}"
                     .format(sorted(written), trail))
        shutil.rmtree(w.p("R"))
    os.rename(w.p("gone"), w.p("R"))


def reset(ctx, n, i, mode, kind):
    """The same while reset runs."""
    w = ctx.world
    ctx.bases = ctx.reset_bases
    saved, client = c11.base(ctx, i, False)
    w.load(saved)
    for op in c11.CRASH[n]:
        op.func(w)
        w.advance()
    name = "{} {}\nreset {}".format(c11.LIMITS[i], c11.CRASH[n], mode)
    known = c11.known_paths(w, client.base)
    saved = w.save()
    loc, rem = local(w), remote(w)
    want = c11.Want(client.base, loc, rem, known, mode != "none")
    fails = mode == "plain" and want.unretrieved
    needed = want.contents()
    if fails or mode != "plain":
        needed |= c11.all_files(rem)
    Shim.vanish(w.p("R"), w.p("gone"))
    code, text, ops = faults.op_log(w, lambda: c11.reset(w, mode), True)
    if code or text.startswith("ok") == fails:
        ctx.fail("reset", "reset: {} {}\n{}".format(code, text, name))
    for k in range(0, len(ops) + 1):
        ctx.check_time()
        w.load(saved)
        if not k:
            # It isn't there at all.
            trail = "{}\n{} at the start".format(name, KINDS[kind])
            os.rename(w.p("R"), w.p("gone"))
            if kind:
                os.mkdir(w.p("R"))
            res = c11.reset(w, mode)
            text = str(res)
            # With -n it need not be there; only the stand-ins are removed.
            left = {p: x for p, x in loc.items()
                    if mode != "none" or not res.ok or x != ("r",)}
            if res.ok and mode != "none" or local(w) != left:
                ctx.fail("absent", "reset without the remote directory: {} {}"
                         "\n{}".format(res, model.diff(loc, local(w)), name))
        else:
            op, path = ops[k - 1]
            trail = "{}\n{} at operation {} of {}: {} {}".format(
                name, KINDS[kind], k, len(ops), op, path)
            code, text, fired = faults.run_faulted(
                w, lambda: c11.reset(w, mode), k, core.ACT_VANISH, kind,
                reads=True)
            if not fired:
                ctx.stats["not_reached"] += 1
                continue
            if code:
                ctx.fail("died", "reset ended with status {}: {}\n{}".format(
                    code, text, trail))
        if not text.startswith(("ok(", "error(")):
            ctx.fail("crash", "reset crashed: {}\n{}".format(text, trail))
        trail += "\n" + text
        come_back(ctx, trail)
        w.advance()
        ctx.stats["evaluations"] += 1
        ctx.state(("reset", n, i, mode, kind, k))
        ctx.outcomes["reset: " + text.split("(")[0]] += 1
        ctx.sample(trail, 2)
        c11.here(ctx, needed, trail, "right away")
        there = os.path.exists(w.profile_dir(1) + "/info.json")
        if text.startswith("ok("):
            c11.gone(ctx, trail)
            continue
        res = c11.reset(w, mode)
        if there and not fails and not res.ok or res.kind == "exc":
            ctx.fail("again-" + res.kind, "then: {}\n{}".format(res, trail))
        c11.here(ctx, needed, trail, "then: {}".format(res))
        if there and not fails:
            c11.gone(ctx, trail)
            rest = [p for p, x in local(w).items() if x == ("r",)]
            if rest:
                ctx.fail("stand-ins", "left: {}\n{}".format(rest, trail))


def init(ctx, n, kind):
    """The same while init runs."""
    w = ctx.world
    ctx.bases = ctx.init_bases
    way = c09.ways(ctx.tier)[n]
    saved, kwargs, _, done, after = c09.base(ctx, way)
    w.load(saved)
    Shim.vanish(w.p("R"), w.p("gone"))
    _, _, ops = faults.op_log(w, lambda: c09.do_init(w, way, kwargs), True)
    first = 1 + max(k for k, x in enumerate(ops, 1)
                    if x[1] in ("/home/tpl1", "/home/ex1"))
    # An empty directory can't be told from the one that init was given.
    first = max(first, 1 + min(k for k, x in enumerate(ops, 1)
                               if "R/.zielen" in x[1]))
    for k in range(first, len(ops) + 1):
        op, path = ops[k - 1]
        ctx.check_time()
        w.load(saved)
        trail = "init {}\n{} at operation {} of {}: {} {}".format(
            way, KINDS[kind], k, len(ops), op, path)
        code, text, fired = faults.run_faulted(
            w, lambda: c09.do_init(w, way, kwargs), k, core.ACT_VANISH, kind,
            reads=True)
        if not fired:
            ctx.stats["not_reached"] += 1
            continue
        if code:
            ctx.fail("died", "init ended with status {}: {}\n{}".format(
                code, text, trail))
        trail += "\n" + text
        come_back(ctx, trail)
        w.advance()
        ctx.state(("init", n, kind, k))
        ctx.stats["evaluations"] += 1
        ctx.outcomes["init: " + text.split("(")[0]] += 1
        ctx.sample(trail, 2)
        c09.resume(ctx, way, kwargs, False, trail)
        c09.compare_final(ctx, done, c09.final(w, way), trail)
        got = c09.finish(ctx, way, trail)
        if got != after:
            ctx.fail("synced", "after two syncs: {}\n{}".format(
                [model.diff(a, b) for a, b in zip(after[0], got[0])], trail))


def run(ctx, job):
    if job[0] == "init":
        return init(ctx, *job[1:])
    if job[0] == "reset":
        return reset(ctx, *job[1:])
    n, i, kind = job
    w = ctx.world
    ctx.bases = ctx.sync_bases
    saved, client = c08.base(ctx, i)
    w.load(saved)
    scenario = c08.scenarios(ctx.tier)[n]
    for op in scenario:
        op.func(w)
        w.advance()
    name = "{} {}".format(c08.LIMITS[i], scenario)
    saved = w.save()
    loc, rem = local(w), remote(w)
    m = model.Merge(client.base, loc, rem, client.placeholders)
    before_sync = last_sync(w)
    old_trash = trash(w)
    Shim.vanish(w.p("R"), w.p("gone"))

    # It isn't there at all.
    os.rename(w.p("R"), w.p("gone"))
    if kind:
        os.mkdir(w.p("R"))
    res = w.sync(1)
    if res.ok:
        ctx.fail("absent", "a sync without the remote directory succeeded\n"
                 + name)
    if res.kind != "error":
        ctx.fail("crash", "the sync crashed: {}\n{}".format(res, name))
    if local(w) != loc:
        ctx.fail("absent", "a sync without the remote directory changed the "
                 "local one: {}\n{}".format(model.diff(loc, local(w)), name))
    come_back(ctx, name)
    w.advance()
    c08.recover(ctx, c08.seen(w, client, before_sync), m, name)

    w.load(saved)
    code, text, ops = faults.op_log(w, lambda: w.sync(1), True)
    if code or text != "ok()":
        ctx.fail("sync", "sync failed: {} {}\n{}".format(code, text, name))
    for k in range(1, len(ops) + 1):
        op, path = ops[k - 1]
        w.load(saved)
        trail = "{}\n{} at operation {} of {}: {} {}".format(
            name, KINDS[kind], k, len(ops), op, path)
        code, text, fired = faults.run_faulted(
            w, lambda: w.sync(1), k, core.ACT_VANISH, kind, reads=True)
        if not fired:
            ctx.stats["not_reached"] += 1
            continue
        if code:
            ctx.fail("died", "the sync ended with status {}: {}\n{}".format(
                code, text, trail))
        if text != "ok()" and not text.startswith("error("):
            ctx.fail("crash", "the sync crashed: {}\n{}".format(text, trail))
        come_back(ctx, trail)
        w.advance()
        ctx.state((n, i, kind, k))
        ctx.outcomes["{} {}: {}".format(
            KINDS[kind], op, text.split("(")[0])] += 1
        ctx.sample(trail + "\n" + text, 2)
        if text == "ok()":
            problems, _ = compare(w, client, m, old_trash)
            if problems:
                ctx.fail("silent", "the sync succeeded, but {}\n{}".format(
                    "\n".join(problems), trail))
        c08.recover(ctx, c08.seen(w, client, before_sync), m,
                    trail + "\n" + text)
