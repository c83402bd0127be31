"""C04: what stays in the local directory is the greedy choice by priority
within the storage limit."""
import itertools

import core
import model
from synclib import *

ID = "C04"
LEVEL = "model_checking"
RULE = ("every assignment of priorities to the files of each tree, for every "
        "storage limit and value of AccountForSize, from a local directory "
        "that holds everything and from one that holds nothing; distinct "
        "states are (limit, option, priorities, kept paths)")
ASSUMPTIONS = ["one file system block is 4096 bytes (tmpfs)",
               "priorities are set through the interface the daemon uses"]
BLK = 4096

# path -> size; None: empty directory
TREES = [
    {"a": 1, "b": 8000, "d/x": 100, "d/y": 12000, "d/e/z": 5000, "v": None},
    {"p/q/r/one": 4096, "p/q/two": 4097, "p/three": 10, "q": 0, "w": 9000},
    # Names that start with the names of directories.
    {"d/x": 5000, "d.txt": 4097, "d2/x": 9000, "d/e/x": 10, "d/ee": 5000},
]
OPTIONS = ["yes", "no"]


def values(tier):
    return (0, 1, 3) if tier == "quick" else (0, 1, 2, 5)


def limits(tier):
    out = ["0KiB"] + ["{}KiB".format(4 * k) for k in range(1, 15)]
    out += ["19KiB", "29KB", "100KiB"]
    return out if tier == "thorough" else [
        "0KiB", "8KiB", "12KiB", "16KiB", "20KiB", "24KiB", "28KiB", "32KiB",
        "36KiB", "40KiB", "19KiB", "29KB"]


def bound(tier):
    return ("{} trees of 5 files x priorities {} per file x {} limits x "
            "AccountForSize yes/no x 2 starting states; the same with an "
            "excluded file of two blocks, and with a new local file or a file "
            "changed on both sides (either version the newer one) with and "
            "without InflatePriority, over priorities (0, 2)".format(
                len(TREES), values(tier), len(limits(tier))))


def jobs(tier):
    out = [[t, o, lim, tier, "plain"] for t in range(len(TREES))
           for o in OPTIONS for lim in limits(tier)]
    out += [[t, o, lim, tier, v] for t in range(len(TREES)) for o in OPTIONS
            for lim in limits(tier)
            for v in ("excluded", "inflated", "not-inflated",
                      "conflict-local-inflated",
                      "conflict-local-not-inflated",
                      "conflict-remote-inflated",
                      "conflict-remote-not-inflated")]
    return out


def files_of(tree):
    return [p for p, s in tree.items() if s is not None]


def setup(ctx):
    ctx.bases = {}


def base(ctx, t, limit):
    key = (t, limit)
    if key not in ctx.bases:
        w = ctx.world

        def make(w, side):
            for p, s in TREES[t].items():
                if s is None:
                    os.makedirs(w.p(side + "/" + p))
                else:
                    w.write(side + "/" + p, b"x" * s)
        r = start(w, limit, make, TrashCleanupPeriod="-1")
        if not r.ok:
            ctx.fail("setup", "init/sync failed: {}".format(r))
        ctx.bases[key] = w.save()
    return ctx.bases[key]


def blocks(size):
    return -(-size // BLK) * BLK


def select(tree, prio, limit, per_byte, excluded=0):
    """The reference: whole directories first, then files; highest priority
    first; whatever still fits.  Everything starts as a stand-in of one
    block."""
    files = {p: blocks(s) for p, s in tree.items() if s is not None}
    dirs = {q for p in tree for q in model.parents(p)}
    dirs |= {p for p, s in tree.items() if s is None}

    def inside(d):
        return {p for p in files if p.startswith(d + "/")}

    def rank(p, value, size):
        if per_byte:
            value = value / size if size else 0
        return (-value, p)
    free = limit - excluded - len(files) * BLK
    kept, chosen = set(), []
    dprio = {d: sum(prio[p] for p in inside(d)) for d in dirs}
    dsize = {d: sum(files[p] for p in inside(d)) for d in dirs}
    for d in sorted(dirs, key=lambda d: rank(d, dprio[d], dsize[d])):
        if any(d == c or d.startswith(c + "/") for c in chosen):
            continue
        if dsize[d] > limit:
            continue
        new = inside(d) - kept
        cost = sum(files[p] for p in new) - len(new) * BLK
        if free - cost >= 0:
            free -= cost
            kept |= new
            chosen.append(d)
    for p in sorted(files, key=lambda p: rank(p, prio[p], files[p])):
        if p in kept or any(p.startswith(c + "/") for c in chosen):
            continue
        cost = files[p] - BLK
        if free - cost > 0:
            free -= cost
            kept.add(p)
    return kept


def parse_limit(text):
    num = int("".join(c for c in text if c.isdigit()))
    return num * (1024 if text.endswith("KiB") else 1000)


def usage(w):
    total = 0
    for p, n in local(w).items():
        if n[0] == "f":
            total += os.lstat(w.p("L1/" + p)).st_blocks * 512
        elif n[0] == "r":
            total += BLK
    return total - sum(
        os.lstat(w.p("L1/" + p)).st_blocks * 512 for p in local(w)
        if p.endswith(".skip"))


def set_priorities(w, values):
    prof = core.zielen.profile.Profile(w.name(1))
    try:
        have = prof.get_paths(directory=False)
        for p, v in values.items():
            prof.increment([p], v - have[p].priority)
        prof.commit()
    finally:
        prof._db_file.close()


def run(ctx, job):
    t, option, limit, tier, variant = job
    w = ctx.world
    tree = TREES[t]
    old_files = files_of(tree)
    vals = values(tier) if variant == "plain" else (0, 2)
    for prior in itertools.product(vals, repeat=len(old_files)):
        prio = dict(zip(old_files, prior))
        excluded = 2 * BLK if variant == "excluded" else 0
        added = None
        if variant.endswith("inflated"):
            added = "new"

        def choice():
            """What is expected to be kept of `tree` and the added file."""
            sizes, new_prio = dict(tree), dict(prio)
            if variant.startswith("conflict"):
                sizes[old_files[0]] = 5000
            if added:
                sizes[added] = 5000
                # Only new local files are inflated.
                new_prio[added] = (
                    0 if "not" in variant or "-remote" in variant
                    else max(prior))
            return files_of(sizes), select(
                sizes, new_prio, parse_limit(limit), option == "yes", excluded)
        ctx.stats["model_selections"] += 1
        for begin in ("1000KiB", "0KiB"):
            ctx.check_time()
            w.load(base(ctx, t, begin))
            w.set_config(1, StorageLimit=limit, AccountForSize=option)
            set_priorities(w, prio)
            if variant == "excluded":
                w.set_exclude(1, ["*.skip"])
                w.write("L1/v/x.skip" if t == 0 else "L1/x.skip", b"s" * 5000)
            elif variant != "plain":
                w.set_config(1, InflatePriority=(
                    "no" if "not" in variant else "yes"))
                if variant.startswith("conflict"):
                    # Which version is the older one and gets renamed?
                    both = old_files[0]
                    for side in (("L1/", "R/") if "-local" in variant
                                 else ("R/", "L1/")):
                        os.unlink(w.p(side + both))
                        w.write(side + both, b"n" * 5000)
                        w.advance()
                else:
                    w.write("L1/new", b"n" * 5000)
                w.advance()
            trail = "[{}, AccountForSize={}] {}, from {}, priorities {}".format(
                limit, option, variant, begin, prio)
            r = w.sync()
            if not r.ok:
                ctx.fail("sync-" + r.kind, "sync failed: {}\n{}".format(
                    r, trail))
            loc = local(w)
            rem = remote(w)
            if variant.startswith("conflict"):
                copies = [p for p in rem if p not in tree
                          and rem[p][0] == "f"]
                if len(copies) != 1:
                    ctx.fail("conflict-copy", "conflict copies: {}\n{}".format(
                        copies, trail))
                added = copies[0]
            files, expected = choice()
            kept = {p for p in files if loc.get(p, ("?",))[0] == "f"}
            if kept != expected:
                ctx.fail("selection", "kept {}, expected {}\n{}".format(
                    sorted(kept), sorted(expected), trail))
            for p in files:
                if p not in kept and loc.get(p) != ("r",):
                    ctx.fail("stand-in", "{} is {}\n{}".format(
                        p, loc.get(p), trail))
            if kept and usage(w) + excluded > parse_limit(limit):
                ctx.fail("limit", "disk usage {} exceeds {}\n{}".format(
                    usage(w), limit, trail))
            for p, n in rem.items():
                if n[0] == "f" and p in kept and n != loc[p]:
                    ctx.fail("content", "{} differs\n{}".format(p, trail))
            ctx.stats["transitions"] += 1
            ctx.stats["traces"] += 1
            ctx.outcomes["{} kept".format(len(kept))] += 1
            ctx.state((t, limit, option, variant, prior, sorted(kept)))
        ctx.sample("{} -> {}".format(trail, sorted(kept)), 2)
