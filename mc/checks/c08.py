"""C08: a sync that is interrupted at any point loses nothing and is completed
by the next one."""
import signal

import core
import faults
import model
from synclib import *

ID = "C08"
LEVEL = "fault_enumeration"
RULE = ("for every scenario (a set of edits on both sides and a storage limit) "
        "the sync is killed before each of its operations on the file system, "
        "killed half-way through each write to a file other than a database, "
        "and sent SIGTERM at each operation other than on a database; then, "
        "optionally, the user changes something, and another sync completes "
        "it. Distinct cases are (scenario, kind of fault, operation, edit)")
ASSUMPTIONS = [
    "the process dies, the system doesn't: what was written stays written",
    "no client but the interrupted one has edits of its own in the runs where "
    "another client syncs first",
    "SQLite recovers its own files (its torn writes are not enumerated, kills "
    "between its writes are)",
]

LIMITS = ["1000KiB", "0KiB", "20KiB"]


def set_limit(limit):
    def f(w):
        w.set_config(1, StorageLimit=limit)
        return True
    return Op("limit " + limit, f)


def both(path, first, second):
    return [op_write(first, path), op_write(second, path)]


SCENARIOS = [
    # additions
    [op_write("L1", "a"), op_replace("L1", "n"), op_replace("L1", "d/n"),
     op_mkdir("L1", "y"), op_replace("L1", "m/k/n"), op_link("L1", "t", "a")],
    [op_write("R", "a"), op_replace("R", "n"), op_replace("R", "d/n"),
     op_mkdir("R", "y"), op_replace("R", "m/k/n"), op_link("R", "t", "a")],
    # deletions
    [op_rm("L1", "a"), op_rm("L1", "d/e"), op_rm("R", "d/b.txt"),
     op_rm("R", "s"), op_rm("L1", "z")],
    [op_rm("L1", "d"), op_write("R", "a"), op_rm("R", "z")],
    [op_rm("R", "d"), op_write("L1", "a"), op_rm("L1", "s")],
    # conflicts
    [op_replace("L1", "a"), op_replace("R", "a"), op_replace("R", "d/b.txt"),
     op_replace("L1", "d/b.txt"), op_replace("L1", "n"),
     op_replace("R", "n")],
    [op_rm("L1", "d"), op_replace("R", "d/b.txt"), op_replace("L1", "a"),
     op_rm("R", "a")],
    # changes of type
    [op_dirify("L1", "a"), op_replace("L1", "d")],
    [op_dirify("R", "a"), op_replace("R", "d")],
    [op_dirify("L1", "a"), op_replace("R", "a"), op_replace("R", "d"),
     op_replace("L1", "d/b.txt")],
    [op_replace("L1", "s"), op_link("R", "a", "d/b.txt"),
     op_move("R", "d/e/c", "c"), op_move("L1", "d/b.txt", "z/b.txt")],
    # the limit changes
    [set_limit("0KiB")], [set_limit("20KiB")], [set_limit("1000KiB")],
    [set_limit("0KiB"), op_replace("L1", "d/b.txt"), op_replace("R", "n")],
]
MORE = [
    [a, b] for a in (op_write("L1", "a"), op_rm("L1", "a"), op_rm("L1", "d"),
                     op_dirify("L1", "a"), op_replace("L1", "d/n"))
    for b in (op_write("R", "a"), op_rm("R", "a"), op_rm("R", "d"),
              op_replace("R", "d"), op_replace("R", "d/n"))
]
# What the user does between the interruption and the next sync.
EDITS = [op_replace("L1", "a"), op_rm("L1", "a"), op_rm("L1", "d"),
         op_rm("L1", "n"), op_replace("L1", "n"), op_write("R", "a"),
         op_rm("R", "d/b.txt"), op_replace("L1", "d/n")]
FEW = [0, 2, 3]


def scenarios(tier):
    return SCENARIOS + (MORE if tier == "thorough" else [])


def edits(tier):
    return list(range(len(EDITS))) if tier == "thorough" else FEW


def bound(tier):
    return ("{} scenarios x limits {} x every operation of the sync x "
            "(kill, torn write, SIGTERM); after a kill also followed by each "
            "of {} edits, and by a sync of another client first{}".format(
                len(scenarios(tier)), LIMITS, len(edits(tier)),
                "; and a second kill at every operation of the recovering "
                "sync" if tier == "thorough" else ""))


def jobs(tier):
    out = []
    for n in range(len(scenarios(tier))):
        for i in range(len(LIMITS)):
            out.append([n, i, "plain"])
            out.append([n, i, "edits"])
            if n < len(SCENARIOS):
                out.append([n, i, "other"])
            if tier == "thorough" and n < len(SCENARIOS):
                out.append([n, i, "twice"])
    return out


def setup(ctx):
    ctx.bases = {}


def base(ctx, i):
    w = ctx.world
    if i not in ctx.bases:
        r = start(w, LIMITS[i])
        if not r.ok:
            ctx.fail("setup", "init/sync failed: {}".format(r))
        ctx.bases[i] = (w.save(), Client(w))
    saved, client = ctx.bases[i]
    return saved, client.copy()


def names_of(tree_):
    """The contents in a tree, regardless of the names."""
    return {n[:2] for n in tree_.values() if n[0] in "fl"}


def recover(ctx, client, m, trail, edited=False):
    """The next sync must do what a sync does from here, and nothing that the
    interrupted sync was to preserve may be lost."""
    w = ctx.world
    ctx.check_time()
    merges = [
        model.Merge(b, local(w), remote(w), client.placeholders)
        for b in client.bases]
    # If a file was replaced with a stand-in just before the interruption, then
    # deleting it now counts as deleting a file or a stand-in.
    old_trash = trash(w)
    # It may have been about to move these to the trash.
    spare = {n[:2] for p, sub in m.trash for n in sub.values()}
    res = w.sync(1)
    if not res.ok:
        ctx.fail("recovery-" + res.kind,
                 "the next sync failed: {}\n{}".format(res, trail))
    for now in merges:
        problems, (loc, rem, tr) = compare(
            w, client, now, old_trash, check_trash=not edited,
            spare=spare)
        if not problems:
            break
    else:
        ctx.fail("recovery", "{}\n{}".format("\n".join(problems), trail))
    if not edited:
        check_contents(ctx, m, rem, trail)
        kept = {n[:2] for p, sub in m.trash for n in sub.values()
                if n[0] in "fl"}
        if kept - names_of(tr) - names_of(rem):
            ctx.fail("untrashed", "not in the trash: {}\n{}".format(
                sorted(model.short(x) for x in kept - names_of(tr)), trail))
    w.advance()
    before = (loc, rem, tr)
    res = w.sync(1)
    after = (local(w), remote(w), trash(w))
    if not res.ok or after != before:
        ctx.fail("unsettled", "{}: the sync after that changed {}\n{}".format(
            res, [model.diff(a, b) for a, b in zip(before, after) if a != b],
            trail))
    ctx.stats["evaluations"] += 1


def seen(w, client, before_sync):
    """What the client has seen after an interruption."""
    client = client.copy()
    old = client.base
    client.bases = [old]
    if last_sync(w) != before_sync:
        # The sync was complete, but it may not have remembered yet which
        # files are new.
        client.capture(w)
        client.bases = [client.base, {
            p: n for p, n in client.base.items()
            if p in old and (old[p] == ("d",)) == (n == ("d",))}]
    return client


def two_clients(ctx, i):
    w = ctx.world
    key = ("two", i)
    if key not in ctx.bases:
        r = start(w, LIMITS[i])
        for step in (lambda: w.init(2, "16KiB", add_remote=True),
                     lambda: w.sync(2), lambda: w.sync(1)):
            if r.ok:
                r = step()
                w.advance()
        if not r.ok:
            ctx.fail("setup", "init/sync failed: {}".format(r))
        ctx.bases[key] = (w.save(), Client(w))
    saved, client = ctx.bases[key]
    return saved, client.copy()


def recover_all(ctx, m, trail):
    """Another client syncs before the interrupted one does."""
    w = ctx.world
    ctx.check_time()
    for n in (2, 1, 2, 1):
        res = w.sync(n)
        if not res.ok:
            ctx.fail("other-" + res.kind, "the sync of client {} failed: {}\n"
                     "{}".format(n, res, trail))
        w.advance()
    rem = remote(w)
    for n in (1, 2):
        v = view(local(w, n), rem)
        if v != rem:
            ctx.fail("diverged", "client {} and the remote directory differ: "
                     "{}\n{}".format(n, model.diff(rem, v), trail))
    check_contents(ctx, m, rem, trail)
    ctx.stats["evaluations"] += 1


def check_contents(ctx, m, rem, trail):
    want = {n[:2] for n in m.expected().values() if n[0] in "fl"}
    want |= {n[:2] for p, n in m.conflicts}
    lost = want - names_of(rem)
    if lost:
        ctx.fail("lost", "lost {}\n{}".format(
            sorted(model.short(x) for x in lost), trail))
    extra = names_of(rem) - want
    if extra:
        ctx.fail("revived", "came back: {}\n{}".format(
            sorted(model.short(x) for x in extra), trail))


def run(ctx, job):
    n, i, mode = job
    w = ctx.world
    saved, client = (two_clients if mode == "other" else base)(ctx, i)
    w.load(saved)
    scenario = scenarios(ctx.tier)[n]
    for op in scenario:
        op.func(w)
        w.advance()
    name = "{} {}".format(LIMITS[i], scenario)
    saved = w.save()
    m = model.Merge(client.base, local(w), remote(w), client.placeholders)
    before_sync = last_sync(w)
    code, text, ops = faults.op_log(w, lambda: w.sync(1))
    if code or text != "ok()":
        ctx.fail("sync", "sync failed: {} {}\n{}".format(code, text, name))
    for k in range(1, len(ops) + 1):
        op, path = ops[k - 1]
        acts = [("kill", core.ACT_KILL, 0)]
        if mode == "plain" and not faults.is_db(path):
            acts.append(("SIGTERM", core.ACT_SIGNAL, signal.SIGTERM))
            if op == "write":
                acts.append(("torn", core.ACT_TORN, 0))
        for label, act, arg in acts:
            w.load(saved)
            trail = "{}\n{} at operation {} of {}: {} {}".format(
                name, label, k, len(ops), op, path)
            code, text, fired = faults.run_faulted(
                w, lambda: w.sync(1), k, act, arg)
            if not fired:
                ctx.stats["not_reached"] += 1
                continue
            ctx.outcomes["{} {} {}".format(label, op, (
                "database" if faults.is_db(path) else "file"))] += 1
            ctx.state((n, i, label, k, mode == "other"))
            w.advance()
            if mode == "other":
                recover_all(ctx, m, trail)
                continue
            after = seen(w, client, before_sync)
            if mode == "plain":
                ctx.sample(trail, 2)
                recover(ctx, after, m, trail)
                continue
            crashed = w.save()
            if mode == "edits":
                for e in edits(ctx.tier):
                    w.load(crashed)
                    if not EDITS[e].func(w):
                        continue
                    w.advance()
                    ctx.state((n, i, label, k, e))
                    recover(ctx, after, m, trail + "\nthen {}".format(
                        EDITS[e]), True)
            else:
                for k2 in range(1, 400):
                    w.load(crashed)
                    code, text, fired = faults.run_faulted(
                        w, lambda: w.sync(1), k2, act, arg)
                    if not fired:
                        break
                    w.advance()
                    ctx.state((n, i, label, k, "twice", k2))
                    recover(ctx, seen(w, client, before_sync), m, trail + "\nand at operation {} "
                            "of the next sync".format(k2))
