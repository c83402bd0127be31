"""C09: an init that is interrupted at any point is completed by the next one."""
import errno
import os
import signal

import core
import faults
import model
from core import run_cli
from synclib import *
from checks import c10

ID = "C09"
LEVEL = "fault_enumeration"
RULE = ("for every way to initialize, init is killed before each of its "
        "operations on the file system, killed half-way through each write, "
        "sent SIGTERM at each operation and made to fail with ENOSPC at each "
        "operation; the user may then edit something; then init is run again, "
        "with the same arguments or, where it is to resume, only the name of "
        "the profile; then two syncs. Distinct cases are (way, fault, "
        "operation, arguments, edit)")
ASSUMPTIONS = [
    "the user doesn't replace a file with a directory while an interrupted "
    "init has copied but not yet replaced it",
    "the user doesn't put files with the names of local ones into the remote "
    "directory before the local files have been moved there",
    "the process dies, the system doesn't: what was written stays written",
    "SQLite recovers its own files (its torn writes are not enumerated, kills "
    "between its writes are)",
]

# (mode, limit, exclude, other)
WAYS = [
    ("local", "1000KiB", 0, "missing"), ("local", "0KiB", 1, "empty"),
    ("local", "12KiB", 2, "deep"),
    ("remote", "1000KiB", 0, "missing"), ("remote", "0KiB", 1, "empty"),
    ("shared", "0KiB", 0, "missing"), ("shared", "1000KiB", 2, "empty"),
]
MORE = [("local", "0KiB", 0, "missing"), ("local", "1000KiB", 1, "deep"),
        ("remote", "12KiB", 2, "deep"), ("shared", "12KiB", 1, "deep")]
NODES = c10.NODES
EDITS = [op_replace("L1", "a"), op_replace("L1", "n"), op_replace("R", "a"),
         op_replace("R", "d/n"), op_rm("L1", "d/e"), op_dirify("L1", "a"),
         op_dirify("R", "d/b.txt")]
PARTS = 4


def ways(tier):
    return WAYS + (MORE if tier == "thorough" else [])


def bound(tier):
    return ("{} ways to initialize x every operation x (kill, torn write, "
            "SIGTERM, ENOSPC) x same/no arguments; after a kill also each of "
            "{} edits".format(len(ways(tier)), len(EDITS)))


def jobs(tier):
    return [[n, kind, part] for n in range(len(ways(tier)))
            for kind in ("plain", "edits") for part in range(PARTS)]


def setup(ctx):
    ctx.bases = {}


def do_init(w, way, kwargs):
    return w.init(1, way[1], **kwargs)


def base(ctx, way):
    """The world before init, and what comes of an init that isn't
    interrupted."""
    w = ctx.world
    if way not in ctx.bases:
        r, kwargs = c10.prepare(w, *way, NODES)
        if r is not None:
            ctx.fail("setup", "{}".format(r))
        saved = w.save()
        code, text, ops = faults.op_log(w, lambda: do_init(w, way, kwargs))
        if code or text != "ok()":
            ctx.fail("init", "init failed: {} {}\n{}".format(code, text, way))
        done = final(w, way)
        after = finish(ctx, way, str(way))
        ctx.bases[way] = (saved, kwargs, ops, done, after)
    return ctx.bases[way]


def final(w, way):
    """Everything that init is to leave behind."""
    loc, rem = c10.sides(w, way[0], way[3])
    prof = core.zielen.profile.Profile(w.name(1))
    prof.read()
    name = "{}/.zielen/exclude/{}".format(rem, prof.id)
    try:
        with open(w.p(name)) as f:
            excluded = f.read()
    except FileNotFoundError:
        excluded = None
    prof._db_file.close()
    return (c10.seen(w, loc, rem), db_state(w), prof.status,
            excluded)


def finish(ctx, way, trail):
    """What the syncs after init make of it."""
    w = ctx.world
    for n in range(2):
        w.advance()
        r = w.sync(1)
        if not r.ok:
            ctx.fail("sync-" + r.kind, "sync failed: {}\n{}".format(r, trail))
    if way[0] == "shared":
        w.advance()
        r = w.sync(2)
        if not r.ok:
            ctx.fail("other-" + r.kind, "the sync of the other client failed:"
                     " {}\n{}".format(r, trail))
    loc, rem = c10.sides(w, way[0], way[3])
    return c10.seen(w, loc, rem), (
        view(local(w, 2), remote(w)) if way[0] == "shared" else None)


def status(w):
    prof = core.zielen.profile.Profile(w.name(1))
    try:
        prof.read()
    except FileNotFoundError:
        return None
    prof._db_file.close()
    return prof.status


def compare_final(ctx, want, got, trail):
    names = ("local", "remote")
    for name, a, b in zip(names, want[0], got[0]):
        if a != b:
            ctx.fail("resumed", "{}: {}\n{}".format(
                name, model.diff(a, b), trail))
    for name, a, b in zip(("database", "status", "exclude"), want[1:],
                          got[1:]):
        if a != b:
            ctx.fail("resumed-" + name, "{}: {} instead of {}\n{}".format(
                name, b, a, trail))


def resume(ctx, way, kwargs, bare, trail):
    """Run init until it says that it's done."""
    w = ctx.world
    if status(w) == "initialized":
        # It was interrupted after it was done.
        r = do_init(w, way, kwargs)
        if r.kind != "error" or "already exists" not in r.detail:
            ctx.fail("again", "init of an existing profile: {}\n{}".format(
                r, trail))
        return
    if bare and status(w) != "partial":
        bare = False
    r = (run_cli(["init", w.name(1)]) if bare else do_init(w, way, kwargs))
    if not r.ok:
        ctx.fail("resume-" + r.kind, "the next init failed: {}\n{}".format(
            r, trail))


def run(ctx, job):
    n, kind, part = job
    w = ctx.world
    way = ways(ctx.tier)[n]
    saved, kwargs, ops, done, after = base(ctx, way)
    # The first operations are those of the harness.
    first = 1 + max(k for k, x in enumerate(ops, 1)
                    if x[1] in ("/home/tpl1", "/home/ex1"))
    for k in range(first + part, len(ops) + 1, PARTS):
        op, path = ops[k - 1]
        acts = [("kill", core.ACT_KILL, 0)]
        if kind == "plain" and not faults.is_db(path):
            acts.append(("SIGTERM", core.ACT_SIGNAL, signal.SIGTERM))
            acts.append(("ENOSPC", core.ACT_ERRNO, errno.ENOSPC))
            if op == "write":
                acts.append(("torn", core.ACT_TORN, 0))
        for label, act, arg in acts:
            ctx.check_time()
            w.load(saved)
            trail = "init {}\n{} at operation {} of {}: {} {}".format(
                way, label, k, len(ops), op, path)
            code, text, fired = faults.run_faulted(
                w, lambda: do_init(w, way, kwargs), k, act, arg)
            if not fired:
                ctx.stats["not_reached"] += 1
                continue
            ctx.outcomes["{} {} {}".format(label, op, (
                "database" if faults.is_db(path) else "file"))] += 1
            if label == "ENOSPC" and text == "ok()":
                # It was able to do without.
                compare_final(ctx, done, final(w, way), trail)
                ctx.stats["evaluations"] += 1
                continue
            w.advance()
            crashed = w.save()
            if kind == "edits":
                for e in range(len(EDITS)):
                    w.load(crashed)
                    where = EDITS[e].label.split()[1]
                    fresh = not os.path.lexists(w.p(where))
                    if way[3] == "deep" or not EDITS[e].func(w):
                        continue
                    w.advance()
                    ctx.state((n, label, k, e))
                    changed = w.save()
                    for bare in (False, True):
                        w.load(changed)
                        if bare and status(w) != "partial":
                            continue
                        edited(ctx, way, kwargs, EDITS[e], fresh, bare,
                               "{}\nthen {}, init {}".format(
                                   trail, EDITS[e],
                                   "name" if bare else "again"))
                continue
            for bare in (False, True):
                if bare and status(w) != "partial":
                    continue
                w.load(crashed)
                where = trail + ("\nthen init {}".format(
                    "name" if bare else "again"))
                resume(ctx, way, kwargs, bare, where)
                compare_final(ctx, done, final(w, way), where)
                got = finish(ctx, way, where)
                if got != after:
                    ctx.fail("synced", "after two syncs: {}\n{}".format(
                        [model.diff(a, b) for a, b in zip(after[0], got[0])],
                        where))
                ctx.state((n, label, k, bare))
                ctx.stats["evaluations"] += 1
                ctx.sample(where, 2)


def edited(ctx, way, kwargs, edit, fresh, bare, trail):
    """What the user has written since is kept, and both sides agree."""
    w = ctx.world
    loc, rem = c10.sides(w, way[0], way[3])
    before = c10.seen(w, loc, rem)
    # The user has replaced, changed or deleted what the edit is about.
    side, _, about = edit.label.split()[1].partition("/")
    if fresh and side == "L1" and way[0] != "local":
        # A new file, whatever there is of that name in the remote directory.
        about = "/"
    want = set()
    for side in before:
        want |= {n[1] for p, n in side.items()
                 if n[0] == "f" and not (p + "/").startswith(about + "/")}
    if way[0] == "local" and any(
            p in before[0] and before[0][p] not in (n, ("r",))
            and (edit.label.split()[1].startswith("R/")
                 or before[0][p] == ("d",))
            for p, n in before[1].items()):
        # Nothing but init is to write to the remote directory, and a file that
        # has been moved there isn't to become a directory.
        return
    new = {n[1] for side in before for n in side.values()
           if n[0] == "f" and n[1].startswith((b"new", b"q@"))}
    if before[way[0] == "local"] and status(w) is None:
        # It hadn't begun, so the directory has to be empty.
        return
    resume(ctx, way, kwargs, bare, trail)
    finish(ctx, way, trail)
    got_l, got_r = c10.seen(w, loc, rem)
    have = {n[1] for side in (got_l, got_r) for n in side.values()
            if n[0] == "f"}
    if new - have:
        ctx.fail("lost-edit", "lost {}\n{}".format(sorted(new - have), trail))
    # Nobody has deleted these.
    lost = want - have - {n[1] for n in trash(w).values() if n[0] == "f"}
    if lost:
        ctx.fail("lost", "lost {}\n{}".format(
            sorted(x[:20] for x in lost), trail))
    ctx.stats["evaluations"] += 1
