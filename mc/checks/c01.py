"""C01: what a sync does to the two directories is the three-way merge."""
import itertools

import core
from synclib import *

ID = "C01"
LEVEL = "model_checking"
RULE = ("every history of rounds of user operations on either side followed "
        "by a sync, from every base configuration; distinct states are "
        "(local tree, remote tree, database) after a sync")
ASSUMPTIONS = [
    "edits happen between syncs and give a file a newer mtime",
    "one client; several clients are C07's",
]

CONFIGS = [
    ("1000KiB", {}),                    # everything fits
    ("20KiB", {"pace": 0.05}),          # some files are stand-ins
    ("0KiB", {"UseTrash": "no"}),       # everything is a stand-in
]


def ops_for(side):
    return [
        op_write(side, "a"), op_write(side, "d/b.txt"), op_replace(side, "n"),
        op_replace(side, "d/n"), op_replace(side, "m/n"),
        op_rm(side, "a"), op_rm(side, "d/b.txt"), op_rm(side, "d"),
        op_rm(side, "z"), op_rm(side, "d/e"), op_rm(side, "s"),
        op_mkdir(side, "y"), op_mkdir(side, "d/y"),
        op_link(side, "t", "a"), op_link(side, "t2", "d"),
        op_link(side, "d/bk", "nope"), op_link(side, "s", "d/b.txt"),
        op_replace(side, "a"), op_replace(side, "s"), op_replace(side, "d"),
        op_replace(side, "d/b.txt"), op_link(side, "a", "d/b.txt"),
        op_mkdir(side, "n"), op_dirify(side, "a"),
        op_chmod(side, "d/e/c", 0o600), op_move(side, "a", "z/a"),
        op_move(side, "d/e/c", "c"), op_dirify(side, "d/e/c"),
    ] + ([op_link("L1", "u", "/etc/nowhere"), op_link("L1", "d/u", "../../x")]
         if side == "L1" else [])


OPS = ops_for("L1") + ops_for("R")

# A tree with many files in a directory and a deep one.
WIDE = [("1000KiB", {"pace": 0.05}), ("300KiB", {"pace": 0.05}),
        ("0KiB", {"UseTrash": "no", "pace": 0.05})]
NUMBER, DEEP = 30, "p/p/p/p/p/p/p/p"


def wide_tree(w, side):
    base_tree(w, side)
    for n in range(NUMBER):
        w.write("{}/w/{}".format(side, n), b"%d" % n)
        w.write("{}/v/{}/f".format(side, n), b"%d." % n * (50 * n))
    for n in range(1, 9):
        w.write("{}/{}/f".format(side, "/".join("p" * n)), b"p%d" % n)
    os.makedirs(w.p("{}/{}/empty".format(side, DEEP)))


def wide_ops(side):
    every = range(NUMBER)
    w, v = ["w/%d" % n for n in every], ["v/%d/f" % n for n in every]
    return [
        op_all(side, "write w", [op_write(side, p) for p in w]),
        op_all(side, "replace v", [op_replace(side, p) for p in v]),
        op_all(side, "rm w", [op_rm(side, p) for p in w]),
        op_all(side, "rm v", [op_rm(side, p) for p in v[:-1]]),
        op_rm(side, "w"), op_rm(side, "v"), op_move(side, "v", "w/v"),
        op_move(side, "w", "x"), op_dirify(side, "w"),
        op_all(side, "new w", [op_write(side, "w/n%d" % n) for n in every]),
        op_all(side, "new y", [op_write(side, "y/%d/n" % n) for n in every]),
        op_all(side, "links in w",
               [op_link(side, "w/l%d" % n, str(n)) for n in every]),
        op_replace(side, "w"), op_write(side, DEEP + "/f"),
        op_rm(side, DEEP), op_rm(side, "p/p"), op_rm(side, DEEP + "/empty"),
        op_move(side, "p/p", "q"), op_replace(side, DEEP + "/n/n"),
        op_replace(side, "p/p/p"),
    ]


WIDE_OPS = wide_ops("L1") + wide_ops("R")
CORE = [i for i, o in enumerate(OPS) if o.label.split("/", 1)[1].split()[0] in
        ("a", "d/b.txt", "d", "n", "d/n")]


def bound(tier):
    return base_bound(tier) + (
        "; in a directory with {} files and directories in one and 8 levels "
        "of directories, {} configurations x {}^2 histories (of one round, "
        "or of two in the configurations with rounds)".format(
            NUMBER, len(WIDE), len(WIDE_OPS)))


def base_bound(tier):
    if tier == "quick":
        return ("3 configurations x ({0}+{0}^2 one-round histories of at most "
                "2 operations, and {0}^2 histories of 2 rounds of 1 operation)"
                .format(len(OPS)))
    return ("3 configurations x (rounds [2], [1,1], [2,1] over {0} operations;"
            " [3], [1,1,1] over {1} of them)".format(len(OPS), len(CORE)))


def jobs(tier):
    out = [[c, kind, i] for c in range(len(WIDE))
           for kind in ("wide", "wide-rounds") for i in range(len(WIDE_OPS))
           if tier == "thorough" or kind == "wide" or c == 1]
    for c in range(len(CONFIGS)):
        for i in range(len(OPS)):
            out.append([c, "pairs", i])
            out.append([c, "rounds", i])
            if tier == "thorough":
                for j in range(len(OPS)):
                    out.append([c, "pair-round", i, j])
                if i in CORE:
                    for j in CORE:
                        out.append([c, "triples", i, j])
                        out.append([c, "rounds3", i, j])
    return out


def setup(ctx):
    ctx.bases = {}


def base(ctx, c, configs=CONFIGS, make=base_tree):
    if (c, make) not in ctx.bases:
        w = ctx.world
        limit, options = configs[c]
        r = start(w, limit, make, **options)
        if not r.ok:
            ctx.fail("setup", "init/sync failed: {}".format(r))
        cl = Client(w, 1, options.get("UseTrash") != "no")
        ctx.bases[c, make] = (w.save(), cl)
    return ctx.bases[c, make]


def do(ctx, op):
    ok = op.func(ctx.world)
    ctx.world.advance()
    ctx.stats["transitions"] += 1
    return ok


def synced(ctx, cl, trail):
    ctx.check_time()
    m, after = sync_and_check(ctx.world, cl, ctx.fail, trail)
    ctx.stats["transitions"] += 2
    ctx.stats["traces"] += 1
    ctx.outcomes["{} files, {} dirs, {} conflicts, {} trashed".format(
        len(m.files), len(m.dirs), len(m.conflicts), len(m.trash))] += 1
    new = ctx.state((after, db_state(ctx.world)))
    ctx.sample("{} -> local {} remote {}".format(
        trail, sorted(after[0]), sorted(after[1])), 2)
    return new


def run(ctx, job):
    c, kind, rest = job[0], job[1], job[2:]
    w = ctx.world
    configs, all_ops = CONFIGS, OPS
    if kind.startswith("wide"):
        configs, all_ops = WIDE, WIDE_OPS
        saved, cl0 = base(ctx, c, WIDE, wide_tree)
    else:
        saved, cl0 = base(ctx, c)

    def begin(state, cl):
        w.load(state)
        return cl.copy()

    def sequence(ops, cl, state, label):
        """One round; None if an operation is not applicable."""
        cl = begin(state, cl)
        for o in ops:
            if not do(ctx, o):
                return None
        synced(ctx, cl, label)
        return cl, w.save()

    limit = configs[c][0]
    first = [all_ops[i] for i in rest]
    if kind in ("pairs", "wide"):
        if sequence(first, cl0, saved, "[{}] {}".format(limit, first)) is None:
            return
        for o in all_ops:
            ops = first + [o]
            sequence(ops, cl0, saved, "[{}] {}".format(limit, ops))
    elif kind == "triples":
        for k in CORE:
            ops = first + [OPS[k]]
            sequence(ops, cl0, saved, "[{}] {}".format(limit, ops))
    elif kind in ("rounds", "wide-rounds"):
        r = sequence(first, cl0, saved, "[{}] {}".format(limit, first))
        if r is None:
            return
        for o in all_ops:
            sequence([o], r[0], r[1], "[{}] {} | {}".format(limit, first, o))
    elif kind == "pair-round":
        r = sequence(first, cl0, saved, "[{}] {}".format(limit, first))
        if r is None:
            return
        for o in OPS:
            sequence([o], r[0], r[1], "[{}] {} | {}".format(limit, first, o))
    elif kind == "rounds3":
        r = sequence(first[:1], cl0, saved, "[{}] {}".format(limit, first[:1]))
        if r is None:
            return
        r = sequence(first[1:], r[0], r[1], "[{}] {} | {}".format(
            limit, first[:1], first[1:]))
        if r is None:
            return
        for k in CORE:
            sequence([OPS[k]], r[0], r[1], "[{}] {} | {} | {}".format(
                limit, first[0], first[1], OPS[k]))
