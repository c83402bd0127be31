"""C07: clients that share a remote directory converge."""
import itertools

import core
import model
from synclib import *

ID = "C07"
LEVEL = "model_checking"
RULE = ("every sequence of edits in the local directory of either client, "
        "edits in the remote directory and syncs of either client up to the "
        "bound (states seen before are not expanded again), each closed by "
        "syncing the clients in turn; distinct states are (both local trees, "
        "remote tree, both databases, pending edits)")
ASSUMPTIONS = ["syncs of different clients don't overlap (C23's)",
               "the clocks of the clients agree"]

# The limits of the clients and the time between events: in the second
# configuration, all that happens within a second or two.
LIMITS = [("1000KiB", "1000KiB", None), ("0KiB", "1000KiB", 0.02),
          ("16KiB", "0KiB", None)]


def make(w, side):
    w.write(side + "/a", b"a0" * 10)
    w.write(side + "/d/b.txt", b"b0" * 4096)
    w.write(side + "/d/c", b"c0")


MANY = 24


def make_many(w, side):
    make(w, side)
    for n in range(MANY):
        w.write("{}/w/{}".format(side, n), b"%d" % n)


def edits(alphabet):
    out = []
    for s in ("L1", "L2"):
        if alphabet == "many":
            names = ["w/%d" % n for n in range(MANY)]
            out += [op_all(s, "replace w", [op_replace(s, p) for p in names]),
                    op_all(s, "rm w", [op_rm(s, p) for p in names])]
            continue
        if alphabet == "types":
            out += [op_replace(s, "d"), op_rm(s, "d"), op_dirify(s, "a"),
                    op_rm(s, "a")]
            continue
        out += [op_replace(s, "a"), op_rm(s, "a"), op_rm(s, "d"),
                op_replace(s, "d/n")]
        if alphabet == "full":
            out += [op_write(s, "d/b.txt"), op_rm(s, "d/c"),
                    op_dirify(s, "a"), op_replace(s, "d"),
                    op_mkdir(s, "y"), op_rm(s, "d/n")]
    if alphabet == "full":
        out += [op_write("R", "a"), op_rm("R", "d/c"), op_replace("R", "n")]
    return out


def plan(tier):
    """(limits, alphabet, depth)"""
    depths = {"quick": {"full": 2, "small": 4, "types": 3},
              "thorough": {"full": 3, "small": 5, "types": 4}}[tier]
    return [(i, a, d) for a, d in sorted(depths.items())
            for i in range(len(LIMITS))] + [
                (0, "many", 4 if tier == "thorough" else 3)]


def bound(tier):
    return "{} files in w; ".format(MANY) + "; ".join(
        "limits {}: {} edits + 2 syncs, depth {}".format(
            LIMITS[i], len(edits(a)), d) for i, a, d in plan(tier))


def jobs(tier):
    out = []
    for i, a, d in plan(tier):
        n = len(edits(a)) + 2
        for x in range(n):
            for y in range(n):
                out.append([i, a, d, x, y])
    return out


def setup(ctx):
    ctx.bases = {}


def base(ctx, i, make):
    if (i, make) not in ctx.bases:
        w = ctx.world
        w.fresh()
        w.pace = LIMITS[i][2] or w.pace
        os.makedirs(w.p("R"))
        make(w, "L1")
        w.advance()
        for step in (lambda: w.init(1, LIMITS[i][0]), lambda: w.sync(1),
                     lambda: w.init(2, LIMITS[i][1], add_remote=True),
                     lambda: w.sync(2)):
            r = step()
            if not r.ok:
                ctx.fail("setup", "init/sync failed: {}".format(r))
            w.advance()
        ctx.bases[i, make] = (w.save(), {1: Client(w, 1), 2: Client(w, 2)})
    return ctx.bases[i, make]


def one_sync(ctx, clients, n, trail):
    ctx.check_time()
    sync_and_check(ctx.world, clients[n], ctx.fail, trail, again=False)
    ctx.stats["transitions"] += 1


def close(ctx, clients, trail):
    """Sync in turn: both clients must end up with the same files, and then
    nothing more changes."""
    w = ctx.world
    clients = {n: c.copy() for n, c in clients.items()}
    for n in (1, 2, 1, 2):
        one_sync(ctx, clients, n, trail + " closing sync {}".format(n))
    rem = remote(w)
    for n in (1, 2):
        v = view(local(w, n), rem)
        if v != rem:
            ctx.fail("diverged", "client {} and the remote directory differ: "
                     "{}\n{}".format(n, model.diff(rem, v), trail))
    before = (local(w, 1), local(w, 2), rem, trash(w))
    for n in (1, 2):
        one_sync(ctx, clients, n, trail + " final sync {}".format(n))
    after = (local(w, 1), local(w, 2), remote(w), trash(w))
    if after != before:
        ctx.fail("unstable", "syncs keep changing things: {}\n{}".format(
            [model.diff(a, b) for a, b in zip(before, after) if a != b],
            trail))
    ctx.stats["traces"] += 1
    ctx.outcomes["{} files".format(
        sum(1 for x in rem.values() if x[0] != "d"))] += 1


def canonical(w, clients):
    """Ages matter only relative to the last syncs, which the bases hold."""
    def rel(tree, c):
        return {p: (n[:2], n != c.base.get(p)) for p, n in tree.items()}
    l1, l2, rem = local(w, 1), local(w, 2), remote(w)
    stamps = sorted({n[2] for t in (l1, l2, rem) for n in t.values()
                     if n[0] in "fl"})
    rank = {s: i for i, s in enumerate(stamps)}

    def fold(tree):
        return sorted((p, n[:2] + ((rank[n[2]],) if n[0] in "fl" else ()))
                      for p, n in tree.items())
    return (fold(l1), fold(l2), fold(rem),
            sorted(rel(l1, clients[1]).items()),
            sorted(rel(l2, clients[2]).items()),
            sorted(rel(rem, clients[1]).items()),
            sorted(rel(rem, clients[2]).items()),
            db_state(w, 1), db_state(w, 2))


def run(ctx, job):
    i, alphabet, depth, first, second = job
    w = ctx.world
    saved, clients = base(
        ctx, i, make_many if alphabet == "many" else make)
    ops = edits(alphabet)

    def step(cl, x, trail):
        """Returns the clients after the step or None."""
        if x < len(ops):
            if not ops[x].func(w):
                return None
            w.advance()
            ctx.stats["transitions"] += 1
            return cl
        n = x - len(ops) + 1
        cl = {k: c.copy() for k, c in cl.items()}
        one_sync(ctx, cl, n, trail)
        return cl

    def label(x):
        return repr(ops[x]) if x < len(ops) else "sync {}".format(
            x - len(ops) + 1)

    def dfs(state, cl, path, left, forced):
        for x in (forced[:1] or range(len(ops) + 2)):
            # Two syncs of the same client in a row are C03's.
            if x >= len(ops) and path and path[-1] == x:
                continue
            w.load(state)
            trail = "{} {}".format(LIMITS[i], [label(y) for y in path + [x]])
            new = step(cl, x, trail)
            if new is None:
                continue
            if forced[1:]:
                dfs(w.save(), new, path + [x], left - 1, forced[1:])
                continue
            if not ctx.state((i, canonical(w, new))):
                continue
            state2 = w.save()
            close(ctx, new, trail)
            ctx.sample(trail, 3)
            if left > 1:
                dfs(state2, new, path + [x], left - 1, ())

    dfs(saved, clients, [], depth, (first, second))
