"""C10: init makes the two directories show the same files and loses none."""
import itertools
import os

import core
import model
from synclib import *
from checks import c05

ID = "C10"
LEVEL = "model_checking"
RULE = ("every set of files, links and directories in the directory that has "
        "the files x storage limits x exclude files x states of the other "
        "directory, for both ways to initialize, then two syncs. Distinct "
        "states are (trees, database) after init and after the syncs")
ASSUMPTIONS = ["nothing changes the files while init runs"]

NODES = ["a", "d/b.txt", "d/e/c", "z", "s", "u", "d/v", ".h", "d/w", "m"]
EXCLUDES = [[], ["*.txt", "/a"], ["d", "u", "z"], ["**"]]
LIMITS = ["1000KiB", "0KiB", "12KiB"]
# Those of which every set is tried in the quick tier.
FEW = ["a", "d/b.txt", "d/e/c", "z", "u", "d/v", "d/w", "m"]
# Is the other directory missing or empty?
OTHER = ["missing", "empty", "deep"]


def add_node(w, side, n):
    full = w.p(side + "/" + n)
    os.makedirs(os.path.dirname(full), exist_ok=True)
    if n == "z":
        os.mkdir(full)
    elif n == "s":
        os.symlink("a", full)
    elif n == "u":
        os.symlink("/nonexistent/x", full)
    elif n == "d/v":
        os.symlink("../../outside", full)
    elif n == "d/w":
        os.symlink("e", full)
    else:
        w.write(side + "/" + n, (n * 3000).encode()[:6000])
        os.utime(full, ns=(10**18 + 123456789, 10**18 + 123456000))
        if n == "m":
            os.chmod(full, 0o400)


def build(w, side, nodes):
    os.makedirs(w.p(side), exist_ok=True)
    for n in nodes:
        add_node(w, side, n)


UNSAFE = ["u", "d/v"]


def plan(tier):
    """(mode, limit, exclude, other)"""
    out = []
    for mode in ("local", "remote", "shared"):
        for limit in LIMITS:
            for e in range(len(EXCLUDES)):
                for o in OTHER:
                    full = tier == "thorough" or (
                        limit == LIMITS[e % 2] and o == OTHER[e % 3])
                    out.append((mode, limit, e, o, full))
    return out


def bound(tier):
    nodes = sets_of(tier)
    return ("modes local/remote/shared x limits {} x {} exclude "
            "files x {} ({} of these with all {} sets of {} files, the others "
            "with all of {} files)".format(
                LIMITS, len(EXCLUDES), OTHER, sum(p[4] for p in plan(tier)),
                2 ** len(nodes), len(nodes), len(NODES)))


def sets_of(tier):
    return NODES if tier == "thorough" else FEW


def jobs(tier):
    out = []
    for k, p in enumerate(plan(tier)):
        if not p[4]:
            out.append([k, None])
            continue
        for bits in range(8):
            out.append([k, bits])
    return out


def setup(ctx):
    pass


def run(ctx, job):
    mode, limit, e, other, full = plan(ctx.tier)[job[0]]
    if job[1] is None:
        return one(ctx, mode, limit, e, other, NODES)
    nodes = sets_of(ctx.tier)
    last = nodes[-3:]
    for r in range(len(nodes) - 2):
        for chosen in itertools.combinations(nodes[:-3], r):
            ctx.check_time()
            one(ctx, mode, limit, e, other, list(chosen) + [
                n for i, n in enumerate(last) if job[1] >> i & 1])


def prepare(w, mode, limit, e, other, nodes):
    """Everything that is there before init; the arguments of init."""
    w.fresh()
    src, dst = ("L1", "R") if mode == "local" else ("R", "L1")
    if mode == "shared":
        build(w, "L2", nodes)
        r = w.init(2, "1000KiB")
        w.advance()
        if r.ok:
            r = w.sync(2)
            w.advance()
        if not r.ok:
            return r, None
        # It has been used, and changed directly since.
        w.write("L2/old", b"old")
        w.advance()
        w.sync(2)
        w.rm("L2/old")
        w.advance()
        w.sync(2)
        w.write("R/direct", b"direct")
    else:
        build(w, src, nodes)
    w.advance()
    kwargs = {"exclude": EXCLUDES[e], "add_remote": mode != "local"}
    if other == "empty":
        os.makedirs(w.p(dst))
    elif other == "deep":
        kwargs["remote" if dst == "R" else "local"] = w.p(dst + "/x/y")
    if mode != "local" and other == "deep":
        kwargs["local"] = w.p("L1/x/y")
    return None, kwargs


def sides(w, mode, other):
    """The paths of the local and the remote directory."""
    loc, rem = "L1", "R"
    if other == "deep":
        if mode == "local":
            rem = "R/x/y"
        else:
            loc = "L1/x/y"
    return loc, rem


def seen(w, loc, rem):
    return (scan(w.p(loc), w.p(rem)), scan(w.p(rem), None, (".zielen",)))


def expected(mode, e, before_l, before_r):
    """What init must make of the two directories: (local view, remote)."""
    if mode != "local":
        return dict(before_r), dict(before_r)
    ex = c05.excluded_by(EXCLUDES[e], {
        p: n[0] == "d" for p, n in before_l.items()})
    rem = {p: n for p, n in before_l.items()
           if p not in ex and n[0] != "u" and p not in UNSAFE}
    # Directories that hold something that is synced are there.
    for p in list(rem):
        while "/" in p:
            p = p.rpartition("/")[0]
            rem[p] = ("d",)
    return dict(before_l), rem


def check_init(ctx, mode, e, loc, rem, before, title):
    w = ctx.world
    want_l, want_r = expected(mode, e, *before)
    got_l, got_r = seen(w, loc, rem)
    if got_r != want_r:
        ctx.fail("remote", "{}\n{}".format(model.diff(want_r, got_r), title))
    shown = {p: (got_r.get(p, ("broken",)) if n == ("r",) else n)
             for p, n in got_l.items()}
    # Links that aren't safe in the remote directory aren't brought over.
    if mode != "local":
        want_l = {p: n for p, n in want_l.items() if p not in UNSAFE}
    if shown != want_l:
        ctx.fail("local", "{}\n{}".format(model.diff(want_l, shown), title))
    return got_l, got_r


def one(ctx, mode, limit, e, other, nodes):
    w = ctx.world
    r, kwargs = prepare(w, mode, limit, e, other, nodes)
    title = "init {} [{}] exclude {} other {} with {}".format(
        mode, limit, EXCLUDES[e], other, nodes)
    if r is not None:
        ctx.fail("setup", "{}\n{}".format(r, title))
    loc, rem = sides(w, mode, other)
    before = seen(w, loc, rem)
    r = w.init(1, limit, **kwargs)
    if not r.ok:
        ctx.fail("init-" + r.kind, "{}\n{}".format(r, title))
    state = check_init(ctx, mode, e, loc, rem, before, title)
    ctx.state((state, db_state(w)))
    ctx.stats["transitions"] += 1
    shown = None
    for k in range(4):
        w.advance()
        r = w.sync(1)
        if not r.ok:
            ctx.fail("sync-" + r.kind, "{}\n{}".format(r, title))
        got_l, got_r = seen(w, loc, rem)
        last, shown = shown, (got_l, got_r)
        visible = {p: (got_r.get(p, ("broken",)) if n == ("r",) else n)
                   for p, n in got_l.items()}
        want_l, want_r = expected(mode, e, *before)
        if mode != "local":
            # A link that isn't safe is brought over by a sync at the latest.
            for p in UNSAFE:
                if k < 1 and p not in visible:
                    want_l.pop(p, None)
            visible = {p: (want_l[p] if n[0] == "u" and p in want_l
                           and n[1] == want_l[p][1] else n)
                       for p, n in visible.items()}
        if mode != "local" and EXCLUDES[e]:
            # What is excluded is brought over before it is left alone.
            want_l = {p: n for p, n in want_l.items() if p in visible
                      or n[0] != "d"}
        if visible != want_l:
            ctx.fail("synced", "local after sync {}: {}\n{}".format(
                k + 1, model.diff(want_l, visible), title))
        if mode == "local" and got_r != want_r:
            ctx.fail("synced", "remote after sync {}: {}\n{}".format(
                k + 1, model.diff(want_r, got_r), title))
    if last != shown:
        ctx.fail("unsettled", "the fourth sync changed something\n" + title)
    ctx.state(shown)
    ctx.stats["transitions"] += 4
    ctx.stats["traces"] += 1
    ctx.outcomes["{} {}: {} stand-ins".format(mode, limit, min(3, sum(
        n == ("r",) for n in got_l.values())))] += 1
    ctx.sample(title, 2)
