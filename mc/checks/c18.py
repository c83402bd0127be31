"""C18: symlinks of the user are synced as they are, unless they lead out of
the directory."""
import itertools
import os

import core
from core import run_cli
from synclib import *

ID = "C18"
LEVEL = "model_checking"
RULE = ("every target made of the components up to the length, for links at "
        "every depth, made before init (both ways) or before a sync on either "
        "side, or by changing another link, followed by syncs, a deletion of "
        "all links or a reset. Distinct states are (place, target, how it was "
        "made, what is on both sides)")
ASSUMPTIONS = ["a link that leads out doesn't take the place of a synced file",
               "what the links point to doesn't change"]

PARTS = [".", "..", "d", "a", "L1", "R", "L1x", "", "e"]
PLACES = ["", "d/", "d/e/"]
LIMITS = ["1000KiB", "0KiB"]
WAYS = ["init", "init-a", "sync-local", "sync-remote", "retarget-local",
        "retarget-remote"]
BATCH = 64


def targets(tier):
    out = []
    for n in range(1, 5 if tier == "thorough" else 4):
        out += ["/".join(x) for x in itertools.product(PARTS, repeat=n)]
    out += ["a b", "a\n", "-", "~", "~/a", "\u00e9", "*", "a" * 200, "...",
            "..a", "..d/a", "d/..a", "a..", "d/../..a", "{w}/L1/a", "{w}/R/a",
            "{w}/L1", "{w}/R", "//{w}/L1/a", "{w}/nothing", "/{w}/R/x",
            "{w}/R/../R/a", "x0", "d/x0", "../x0", "../../x0", "x1", "\udcff",
            "d/\udcfe"]
    return [t for t in dict.fromkeys(out) if t]


def bound(tier):
    return "{} targets x {} places x {} x {} limits".format(
        len(targets(tier)), len(PLACES), WAYS, len(LIMITS))


def jobs(tier):
    n = len(targets(tier))
    return [[way, place, limit, i] for way in WAYS
            for place in range(len(PLACES)) for limit in range(len(LIMITS))
            for i in range(0, n, 4 * BATCH)]


def setup(ctx):
    pass


def unsafe(place, target):
    """Does it lead out of the directory (or is absolute)?"""
    if target.startswith("/"):
        return True
    depth = []
    for c in (place + target).split("/"):
        if c == "..":
            if not depth:
                return True
            depth.pop()
        elif c not in ("", "."):
            depth.append(c)
    return False


def run(ctx, job):
    way, place, limit, first = job
    w = ctx.world
    w.fresh()
    ts = targets(ctx.tier)[first:first + 4 * BATCH]
    ts = [t.replace("{w}", w.root) for t in ts]
    for k in range(0, len(ts), BATCH):
        for end in ("delete", "reset") if (k // BATCH + first) % 2 else (
                "reset", "delete-remote"):
            ctx.check_time()
            one(ctx, way, PLACES[place], LIMITS[limit], ts[k:k + BATCH], end)


def put(w, side, place, ts):
    for i, t in enumerate(ts):
        path = w.p("{}/{}x{}".format(side, place, i))
        if os.path.lexists(path):
            os.unlink(path)
        os.symlink(t, path)


def node(path):
    if os.path.islink(path):
        return ("l", os.readlink(path))
    return None if not os.path.lexists(path) else ("other",)


def must(ctx, r, title):
    if not r.ok:
        ctx.fail("command", "{}\n{}".format(r, title))


def one(ctx, way, place, limit, ts, end):
    w = ctx.world
    w.fresh()
    side = "R" if way in ("init-a", "sync-remote", "retarget-remote") else "L1"
    title = "{} in {} [{}] then {}".format(
        way, place or "/", limit, end)
    base_tree(w, "R" if way == "init-a" else "L1")
    if way.startswith("init"):
        put(w, side, place, ts)
    w.advance()
    must(ctx, w.init(1, limit, add_remote=way == "init-a"), title)
    w.advance()
    if not way.startswith("init"):
        must(ctx, w.sync(1), title)
        w.advance()
        if way.startswith("retarget"):
            # Where they led before: the reverse of the list, but a link that
            # leads out mustn't take the place of a synced one.
            old = [t if side == "R" or unsafe(place, t) or not
                   unsafe(place, n) else "/out"
                   for t, n in zip(reversed(ts), ts)]
            put(w, side, place, old)
            w.advance()
            must(ctx, w.sync(1), title)
            w.advance()
        put(w, side, place, ts)
        w.advance()
    for k in range(3):
        must(ctx, w.sync(1), title)
        w.advance()
        judge(ctx, w, side, place, ts, title + ", sync {}".format(k + 1))
    ctx.stats["traces"] += 1
    names = ["{}x{}".format(place, i) for i in range(len(ts))]
    shown = [n for n in names if os.path.lexists(w.p("L1/" + n))]
    if end == "reset":
        must(ctx, run_cli(["reset", w.name(1)]), title)
        for i, t in enumerate(ts):
            got = node(w.p("L1/" + names[i]))
            # All links into the remote directory are removed.
            to = os.path.normpath(os.path.join(w.p("L1/" + place), t))
            if got is None and (to.replace("//", "/") + "/").startswith(
                    w.p("R/")):
                continue
            if got != ("l", t):
                fail(ctx, "reset", w, place, t, got, None, title)
        return
    target = "L1/" if end == "delete" else "R/"
    for n in names:
        if os.path.lexists(w.p(target + n)):
            os.unlink(w.p(target + n))
    w.advance()
    for k in range(2):
        must(ctx, w.sync(1), title)
        w.advance()
    for i, t in enumerate(ts):
        got = (node(w.p("L1/" + names[i])), node(w.p("R/" + names[i])))
        want = (None, None)
        if end == "delete-remote" and side == "L1" and unsafe(place, t):
            want = (("l", t), None)
        if got != want:
            fail(ctx, "deleted", w, place, t, got[0], got[1], title)


def judge(ctx, w, side, place, ts, title):
    for i, t in enumerate(ts):
        rel = "{}x{}".format(place, i)
        loc, rem = node(w.p("L1/" + rel)), node(w.p("R/" + rel))
        ctx.stats["transitions"] += 1
        if loc == ("l", w.p("R/" + rel)) and t != loc[1]:
            shown = rem
            kind = "stand-in"
        else:
            shown, kind = loc, "link"
        out = unsafe(place, t)
        want = None if out and side == "L1" else ("l", t)
        ctx.state((place, t.replace(w.root, ""), title, kind, rem))
        ctx.outcomes["{}: {} {}".format(
            "leads out" if out else "inside", kind,
            "on both sides" if rem else "local")] += 1
        if rem != want or shown != ("l", t):
            fail(ctx, "synced", w, place, t, loc, rem, title)


def fail(ctx, key, w, place, t, loc, rem, title):
    ctx.fail(key, "the link {}x -> {} ({}) became {} locally, {} in the "
             "remote directory\n{}".format(
                 place, t.replace(w.root, "W"), "leads out" if unsafe(
                     place, t) else "inside", loc, rem, title))
