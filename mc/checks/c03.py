"""C03: a sync with nothing to do does nothing, in every configuration."""
import itertools

import core
from synclib import *
from checks import c01

ID = "C03"
LEVEL = "model_checking"
RULE = ("every operation (thorough: pair of operations) followed by a sync, in "
        "every configuration, then three more syncs, with the storage limit "
        "changed and changed back in between; distinct states are (local "
        "tree, remote tree, trash, database) after the first sync")
ASSUMPTIONS = ["nothing accesses the files between the syncs",
               "with exclude patterns, the first sync may take three steps"]

LIMITS = ["0KiB", "8KiB", "12KiB", "16KiB", "20KiB", "28KiB", "40KiB",
          "1000KiB"]
OPTIONS = [dict(AccountForSize=a, InflatePriority=i)
           for a in ("yes", "no") for i in ("yes", "no")]
EXCLUDES = [[], ["d/e", "*.txt"], ["/d"]]


def bound(tier):
    return "{} limits x {} options x {} exclude files x {} operations{}".format(
        len(LIMITS), len(OPTIONS), len(EXCLUDES), len(c01.OPS) + 1,
        " and pairs of core operations" if tier == "thorough" else "")


def jobs(tier):
    return [[lim, o, e, tier] for lim in LIMITS for o in range(len(OPTIONS))
            for e in range(len(EXCLUDES))]


def setup(ctx):
    ctx.bases = {}


def base(ctx, limit, o, e):
    key = (limit, o, e)
    if key not in ctx.bases:
        w = ctx.world

        def make(w, side):
            base_tree(w, side)
            w.write(side + "/k1", b"k" * 5000)
            w.write(side + "/d/k2", b"k" * 9000)
        r = start(w, limit, make, sync=False, **OPTIONS[o])
        if r.ok:
            prof = core.zielen.profile.Profile(w.name(1))
            for i, p in enumerate(("k1", "a", "d/k2", "d/e/c")):
                prof.increment([p], 1 + i % 3)
            prof.commit()
            prof._db_file.close()
            if EXCLUDES[e]:
                w.set_exclude(1, EXCLUDES[e])
            r = w.sync()
            w.advance()
        if not r.ok:
            ctx.fail("setup", "init/sync failed: {}".format(r))
        ctx.bases[key] = w.save()
    return ctx.bases[key]


def observe(w):
    return ((local(w), remote(w), trash(w)), db_state(w))


def run(ctx, job):
    limit, o, e, tier = job
    w = ctx.world
    saved = base(ctx, limit, o, e)
    seqs = [()] + [(op,) for op in c01.OPS]
    if tier == "thorough":
        seqs += [(c01.OPS[i], c01.OPS[j]) for i in c01.CORE for j in c01.CORE]
    other = "1000KiB" if limit != "1000KiB" else "12KiB"
    for seq in seqs:
        ctx.check_time()
        w.load(saved)
        for op in seq:
            op.func(w)
            w.advance()
        trail = "[{} {} exclude {}] {}".format(
            limit, OPTIONS[o], EXCLUDES[e], list(seq))
        r = w.sync()
        if not r.ok:
            ctx.fail("sync-" + r.kind, "sync failed: {}\n{}".format(r, trail))
        w.advance()
        if EXCLUDES[e]:
            # A remote file that matches a pattern shows up in one sync and is
            # excluded in the next one, which makes room for others in a third.
            for _ in range(2):
                r = w.sync()
                w.advance()
                if not r.ok:
                    ctx.fail("sync-" + r.kind, "second sync failed: {}\n{}"
                             .format(r, trail))
        first = observe(w)
        for n in range(3):
            if n == 1:
                # Elsewhere and back again.
                w.set_config(1, StorageLimit=other)
                r = w.sync()
                w.advance()
                w.set_config(1, StorageLimit=limit)
                if not r.ok:
                    ctx.fail("sync-" + r.kind, "sync with limit {} failed: {}"
                             "\n{}".format(other, r, trail))
                if remote(w) != first[0][1] or trash(w) != first[0][2]:
                    ctx.fail("resync", "changing the storage limit changed "
                             "the remote directory: {}\n{}".format(
                                 explain_change(first, observe(w)), trail))
            r = w.sync()
            w.advance()
            if not r.ok:
                ctx.fail("sync-" + r.kind, "sync #{} failed: {}\n{}".format(
                    n + 2, r, trail))
            now = observe(w)
            if now != first:
                ctx.fail("resync", "sync #{} changed something: {}\n{}".format(
                    n + 2, explain_change(first, now), trail))
            ctx.stats["transitions"] += 1
        ctx.stats["traces"] += 1
        ctx.state(first)
        ctx.outcomes["{} real files".format(
            sum(1 for x in first[0][0].values() if x[0] == "f"))] += 1
        ctx.sample(trail + " -> " + repr(sorted(first[0][0])), 2)
