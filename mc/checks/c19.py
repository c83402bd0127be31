"""C19: a sync that meets a failing file system operation either completes or
reports the failure, and loses nothing."""
import errno

import core
import faults
import model
from synclib import *
from checks import c08

ID = "C19"
LEVEL = "fault_enumeration"
RULE = ("for every scenario (a set of edits on both sides and a storage limit) "
        "each operation of the sync on the file system fails, once or from "
        "then on, with each error; then another sync without failures "
        "completes it. Distinct cases are (scenario, error, operation)")
ASSUMPTIONS = ["a failing operation has no effect"]

ERRORS = {
    "quick": [("EACCES", errno.EACCES, 0), ("ENOSPC", errno.ENOSPC, 1)],
    "thorough": [("EACCES", errno.EACCES, 0), ("EACCES...", errno.EACCES, 1),
                 ("ENOSPC", errno.ENOSPC, 0), ("ENOSPC...", errno.ENOSPC, 1),
                 ("EIO", errno.EIO, 0), ("EROFS...", errno.EROFS, 1),
                 ("EPERM", errno.EPERM, 0)],
}
setup = c08.setup


def bound(tier):
    return "{} scenarios x limits {} x every operation x {}".format(
        len(c08.scenarios(tier)), c08.LIMITS,
        [(n, "from then on" if p else "once") for n, e, p in ERRORS[tier]])


def jobs(tier):
    return [[n, i, e] for n in range(len(c08.scenarios(tier)))
            for i in range(len(c08.LIMITS)) for e in range(len(ERRORS[tier]))]


def run(ctx, job):
    n, i, e = job
    label, number, persist = ERRORS[ctx.tier][e]
    w = ctx.world
    saved, client = c08.base(ctx, i)
    w.load(saved)
    scenario = c08.scenarios(ctx.tier)[n]
    for op in scenario:
        op.func(w)
        w.advance()
    name = "{} {}".format(c08.LIMITS[i], scenario)
    saved = w.save()
    m = model.Merge(client.base, local(w), remote(w), client.placeholders)
    before_sync = last_sync(w)
    old_trash = trash(w)
    code, text, ops = faults.op_log(w, lambda: w.sync(1))
    if code or text != "ok()":
        ctx.fail("sync", "sync failed: {} {}\n{}".format(code, text, name))
    for k in range(1, len(ops) + 1):
        op, path = ops[k - 1]
        w.load(saved)
        trail = "{}\n{}{} at operation {} of {}: {} {}".format(
            name, label, " (and from then on)" if persist else "", k,
            len(ops), op, path)
        code, text, fired = faults.run_faulted(
            w, lambda: w.sync(1), k, core.ACT_ERRNO, number, persist)
        if not fired:
            ctx.stats["not_reached"] += 1
            continue
        if code:
            ctx.fail("died", "the sync ended with status {}: {}\n{}".format(
                code, text, trail))
        w.advance()
        ctx.state((n, i, label, k))
        ctx.outcomes["{} {}: {}".format(label, op, text.split("(")[0])] += 1
        ctx.sample(trail + "\n" + text, 2)
        if text == "ok()":
            # It claims to be complete.
            problems, _ = compare(w, client, m, old_trash)
            if problems:
                ctx.fail("silent", "the sync succeeded, but {}\n{}".format(
                    "\n".join(problems), trail))
        c08.recover(ctx, c08.seen(w, client, before_sync), m,
                    trail + "\n" + text)
