"""C06: deleted remote files are kept in the trash for as long as configured."""
import itertools
import os
import re

import core
import faults
import model
from core import Shim
from synclib import *

ID = "C06"
LEVEL = "model_checking"
RULE = ("(names) every set of files, links and directories of the same name "
        "deleted at once x every set of names that are taken in the trash; "
        "(time) every sequence of deletions, waiting and syncs of two clients "
        "with different cleanup periods; (crash) every operation of a sync "
        "that moves old files to the trash, at which it is killed; (empty) "
        "every trash directory and every operation of empty-trash at which it "
        "is killed. Distinct states are resulting trees")
ASSUMPTIONS = ["only the program changes the trash",
               "within a minute of the end of the cleanup period, a file may "
               "or may not be deleted"]

DAY = 86400.0
NAMES = ["a", "a.txt", ".h", "t.tar.gz", "a(1)", "a(1).txt", "a b.c"]
KINDS = ["file", "link", "dir"]


def variants(name, n):
    base, ext = os.path.splitext(name)
    return [name] + ["{}({}){}".format(base, k, ext) for k in range(1, n)]


def make_node(w, rel, kind, tag):
    full = w.p(rel)
    os.makedirs(os.path.dirname(full), exist_ok=True)
    if kind == "file":
        w.write(rel, tag.encode())
    elif kind == "link":
        os.symlink("nowhere-" + tag, full)
    elif kind == "outlink":
        os.symlink(w.p("outside"), full)
    else:
        w.write(rel + "/in/side", tag.encode())
        w.write(rel + "/" + os.path.basename(rel), b"same " + tag.encode())
        os.symlink(w.p("outside"), full + "/out")


PLACES = ["x", "y", "z/z"]


def jobs(tier):
    out = []
    for n in range(len(NAMES)):
        for kinds in itertools.product(KINDS, repeat=len(PLACES)):
            out.append(["names", n, list(kinds)])
    for i in range(len(PERIODS)):
        for x in range(len(events())):
            for y in range(len(events())):
                out.append(["time", i, x, y])
    for limit in ("0KiB", "16KiB"):
        for s in range(len(CRASH)):
            out.append(["crash", limit, s])
    for k in range(len(KINDS2) + 1):
        for kinds in itertools.combinations(KINDS2, k):
            out.append(["empty", list(kinds)])
    return out


def setup(ctx):
    ctx.bases = {}


def begin(ctx, key, make, limit="0KiB", **options):
    if key not in ctx.bases:
        w = ctx.world
        r = start(w, limit, make, **options)
        if not r.ok:
            ctx.fail("setup", "init/sync failed: {}".format(r))
        w.write("outside/precious", b"precious")
        ctx.bases[key] = w.save()
    ctx.world.load(ctx.bases[key])


def check_outside(ctx, title):
    w = ctx.world
    if scan(w.p("outside"))["precious"][1] != b"precious":
        ctx.fail("outside", "files outside were changed\n" + title)


# -------------------------------------------------------------------- names

def run_names(ctx, name, kinds):
    w = ctx.world
    options = {}

    def make(w, side):
        for place, kind in zip(PLACES, kinds):
            make_node(w, "{}/{}/{}".format(side, place, name),
                      kind, "{} {}".format(place, kind))
        w.write(side + "/keep", b"keep")
    begin(ctx, (name, tuple(kinds)), make)
    saved = w.save()
    taken_sets = [()]
    for k in (1, 2, 3):
        taken_sets += list(itertools.combinations(variants(name, 3), k))
    for deleted in (PLACES[:1], PLACES[:2], PLACES):
        for t, taken in enumerate(taken_sets):
            for how in ("each", "parent"):
                w.load(saved)
                for k, x in enumerate(taken):
                    make_node(w, "R/.zielen/Trash/" + x,
                              KINDS[(k + t) % 3], "old " + x)
                old = trash(w)
                cl = Client(w)
                title = "rm ({}) {} of kinds {} with {} in the trash".format(
                    how, [p + "/" + name for p in deleted], kinds,
                    list(taken))
                for p in deleted:
                    w.rm("L1/" + (p if how == "parent" else p + "/" + name))
                w.advance()
                sync_and_check(w, cl, ctx.fail, title, again=False)
                new = trash(w)
                if {p: n for p, n in new.items() if p in old} != old:
                    ctx.fail("overwritten", "trash: {}\n{}".format(
                        model.diff(old, new), title))
                check_outside(ctx, title)
                ctx.state((new, remote(w)))
                ctx.stats["transitions"] += 1
                ctx.stats["traces"] += 1
                ctx.outcomes["names {}".format(how)] += 1
                ctx.sample(title + " -> {}".format(
                    sorted(p for p in new if "/" not in p)), 2)


# --------------------------------------------------------------------- time

# Cleanup periods of the two clients, in days; None is the default.
PERIODS = [(None, "1"), ("0", "30"), ("2", "-1"), ("-1", None), ("1", "2")]
FILES = ["old", "new", "d/f", "l"]


def events():
    out = [op_rm("L1", f) for f in ("old", "d", "l")] + [op_rm("L2", "new")]
    for t in (0.5, 1.0, 2.0, 28.0):
        for sign in (-1, 1):
            out.append(("wait", t * DAY + sign * 120.0))
    return out + [("sync", 1), ("sync", 2)]


def depth(tier):
    return 5 if tier == "quick" else 6


def bound(tier):
    return ("{} names x {} kinds of 3 files x 1-3 deleted x taken names; "
            "{} pairs of periods x sequences of {} events up to {}; {} crash "
            "scenarios x 2 limits; {} trash directories".format(
                len(NAMES), len(KINDS) ** 3, len(PERIODS), len(events()),
                depth(tier), len(CRASH), 2 ** len(KINDS2)))


def make_time(w, side):
    w.write(side + "/old", b"old")
    os.utime(w.p(side + "/old"), (1000, 1000))
    w.write(side + "/new", b"new")
    w.write(side + "/d/f", b"f")
    os.utime(w.p(side + "/d/f"), (1000, 1000))
    os.symlink("nowhere", w.p(side + "/l"))
    w.write(side + "/keep", b"keep")


def run_time(ctx, i, first, second):
    w = ctx.world
    key = ("time", i)
    if key not in ctx.bases:
        opts = [{} if p is None else {"TrashCleanupPeriod": p}
                for p in PERIODS[i]]
        r = start(w, "0KiB", make_time, **opts[0])
        if r.ok:
            r = w.init(2, "0KiB", add_remote=True, **opts[1])
            w.advance()
        if r.ok:
            r = w.sync(2)
        if not r.ok:
            ctx.fail("setup", "init/sync failed: {}".format(r))
        w.advance()
        ctx.bases[key] = w.save()
    evs = events()
    periods = [30.0 if p is None else float(p) for p in PERIODS[i]]

    def do(x, ages, trail):
        """ages: {name in the trash: time of trashing}"""
        e = evs[x]
        if isinstance(e, Op):
            if not e.func(w):
                return None
            w.advance(1.0)
            return ages
        if e[0] == "wait":
            w.advance(e[1])
            return ages
        ctx.check_time()
        before, rem = trash(w), remote(w)
        t0 = Shim.now()
        n = e[1]
        r = w.sync(n)
        if not r.ok:
            ctx.fail("time-" + r.kind, "sync failed: {}\n{}".format(r, trail))
        t1 = Shim.now()
        after = trash(w)
        ages = dict(ages)
        period = periods[n - 1] * DAY
        for p in after:
            top = p.partition("/")[0]
            if top not in ages:
                if p in before:
                    ctx.fail("time-model", "{}\n{}".format(p, trail))
                ages[top] = (t0, t1)
        gone_remote = set(rem) - set(remote(w))
        for p in gone_remote:
            if rem[p][0] in "fl" and period > 0:
                if not any(q[:2] == rem[p][:2] for q in after.values()):
                    ctx.fail("time-lost", "{} isn't in the trash\n{}".format(
                        p, trail))
        tops = {p.partition("/")[0] for p in after}
        for top, (a, b) in list(ages.items()):
            if period >= 0 and t0 - b > period + 60 and top in tops:
                ctx.fail("time-kept", "{} has been in the trash for {:.3f} "
                         "days\n{}".format(top, (t0 - b) / DAY, trail))
            if top not in tops:
                if period < 0 or t1 - a < period - 60:
                    ctx.fail("time-early", "{} was deleted after {:.3f} days\n"
                             "{}".format(top, (t1 - a) / DAY, trail))
                del ages[top]
            else:
                for p, node in before.items():
                    if p.partition("/")[0] == top and after.get(p) != node:
                        ctx.fail("time-damaged", "{} in the trash changed\n{}"
                                 .format(p, trail))
        w.advance(1.0)
        return ages

    def label(x):
        e = evs[x]
        return repr(e) if isinstance(e, Op) else (
            "wait {:.3f} days".format(e[1] / DAY) if e[0] == "wait"
            else "sync {}".format(e[1]))

    def waited(ages):
        now = Shim.now()
        return sorted((k, round((now - v[1]) / 100)) for k, v in ages.items())

    def dfs(state, ages, path, left, forced):
        for x in (forced[:1] or range(len(evs))):
            # Two waits in a row are one, a sync at once is C03's.
            if path and not isinstance(evs[x], Op) and not isinstance(
                    evs[path[-1]], Op) and evs[x][0] == evs[path[-1]][0] and (
                        evs[x][0] == "wait" or x == path[-1]):
                continue
            # Nothing is to be seen after the last event but of a sync.
            if left == 1 and (isinstance(evs[x], Op) or evs[x][0] == "wait"):
                continue
            w.load(state)
            trail = "periods {} {}".format(
                PERIODS[i], [label(y) for y in path + [x]])
            new = do(x, ages, trail)
            if new is None:
                continue
            ctx.stats["transitions"] += 1
            if not forced[1:] and not ctx.state((
                    i, waited(new), trash(w), local(w, 1), local(w, 2),
                    remote(w), left)):
                continue
            ctx.stats["traces"] += 1
            ctx.outcomes["{} in the trash".format(len(new))] += 1
            ctx.sample(trail, 3)
            if left > 1:
                dfs(w.save(), new, path + [x], left - 1, forced[1:])

    dfs(ctx.bases[key], {}, [], depth(ctx.tier), (first, second))


# -------------------------------------------------------------------- crash

CRASH = [["old"], ["d"], ["l"], ["old", "d", "l"], ["d/f"], ["old", "new"]]


def run_crash(ctx, limit, s):
    w = ctx.world
    begin(ctx, ("crash", limit), make_time, limit)
    for p in CRASH[s]:
        if local(w).get(p, ("",))[0] not in ("r", "d"):
            return
        w.rm("L1/" + p)
    w.advance()
    saved = w.save()
    want = {n[:2] for n in remote(w).values() if n[0] in "fl"}
    title = "[{}] rm {}".format(limit, CRASH[s])
    code, text, ops = faults.op_log(w, lambda: w.sync(1))
    if code or text != "ok()":
        ctx.fail("sync", "sync failed: {} {}\n{}".format(code, text, title))
    for k in range(1, len(ops) + 1):
        w.load(saved)
        trail = "{}\nkilled at operation {} of {}: {}".format(
            title, k, len(ops), ops[k - 1])
        faults.run_faulted(w, lambda: w.sync(1), k, core.ACT_KILL)
        for x in range(2):
            w.advance()
            r = w.sync(1)
            if not r.ok:
                ctx.fail("crash-" + r.kind, "{}\n{}".format(r, trail))
        have = {n[:2] for t in (remote(w), trash(w)) for n in t.values()
                if n[0] in "fl"}
        if want - have:
            ctx.fail("crash-lost", "neither in the remote directory nor in "
                     "the trash: {}\n{}".format(want - have, trail))
        for t in (remote(w), local(w)):
            for p in CRASH[s]:
                if p in t:
                    ctx.fail("crash-undone", "{} is there again\n{}".format(
                        p, trail))
        if model.diff(remote(w), view(local(w), remote(w))):
            ctx.fail("crash-differ", "the directories differ\n" + trail)
        # The cleanup works for these, too.
        w.advance(31 * DAY)
        r = w.sync(1)
        if not r.ok or trash(w) or os.listdir(w.p("R/.zielen/Trash")):
            ctx.fail("crash-kept", "after 31 days {} {} is still in the trash"
                     "\n{}".format(r, os.listdir(w.p("R/.zielen/Trash")),
                                   trail))
        ctx.state(("crash", limit, s, k))
        ctx.stats["transitions"] += 4
        ctx.stats["traces"] += 1
        ctx.outcomes["crash " + ops[k - 1][0]] += 1
        ctx.sample(trail, 5)


# -------------------------------------------------------------------- empty

KINDS2 = ["file", "link", "dir", "outlink", "hidden", "emptydir", "readonly"]


def run_empty(ctx, kinds):
    w = ctx.world
    begin(ctx, "empty", make_time, "16KiB")
    w.write("R/.zielen/keep", b"")
    os.remove(w.p("R/.zielen/keep"))
    for k in kinds:
        rel = "R/.zielen/Trash/" + k
        if k == "hidden":
            w.write("R/.zielen/Trash/.hidden", b"h")
        elif k == "emptydir":
            os.mkdir(w.p(rel))
        elif k == "readonly":
            w.write(rel, b"ro")
            os.chmod(w.p(rel), 0o400)
        else:
            make_node(w, rel, k, "empty")
    saved = w.save()
    before = (local(w), remote(w))
    title = "empty-trash with {}".format(kinds)

    def command():
        return core.run_cli(["empty-trash", w.name(1)])

    def check(trail):
        if os.listdir(w.p("R/.zielen/Trash")):
            ctx.fail("empty-left", "{} left\n{}".format(
                os.listdir(w.p("R/.zielen/Trash")), trail))
        if (local(w), remote(w)) != before:
            ctx.fail("empty-more", "other files were changed\n" + trail)
        check_outside(ctx, trail)
        w.advance()
        r = w.sync()
        if not r.ok or (local(w), remote(w)) != before:
            ctx.fail("empty-sync", "a sync afterwards: {}\n{}".format(
                r, trail))
        ctx.stats["transitions"] += 2
        ctx.stats["traces"] += 1
        ctx.state(trail)
    r = command()
    if not r.ok:
        ctx.fail("empty-" + r.kind, "{}\n{}".format(r, title))
    if r.out.strip() != "{} files deleted".format(len(kinds)):
        ctx.fail("empty-output", "{!r}\n{}".format(r.out, title))
    check(title)
    ctx.outcomes["emptied"] += 1
    w.load(saved)
    code, text, ops = faults.op_log(w, command)
    for k in range(1, len(ops) + 1):
        w.load(saved)
        trail = "{}\nkilled at operation {}: {}".format(title, k, ops[k - 1])
        faults.run_faulted(w, command, k, core.ACT_KILL)
        if (local(w), remote(w)) != before:
            ctx.fail("empty-more", "other files were changed\n" + trail)
        r = command()
        if not r.ok:
            ctx.fail("empty-again", "{}\n{}".format(r, trail))
        check(trail)


def run(ctx, job):
    if job[0] == "names":
        run_names(ctx, NAMES[job[1]], job[2])
    elif job[0] == "time":
        run_time(ctx, *job[1:])
    elif job[0] == "crash":
        run_crash(ctx, *job[1:])
    else:
        run_empty(ctx, job[1])
