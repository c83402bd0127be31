"""C02: a sync conflict keeps both versions, whatever the order, names, kinds
and earlier conflicts."""
import itertools

import core
import model
from synclib import *

ID = "C02"
LEVEL = "model_checking"
RULE = ("every combination of base file, name, kind of change on each side, "
        "order of the mtimes, storage limit and files already occupying the "
        "conflict names; repeated conflicts within the same second; distinct "
        "states are (local tree, remote tree, database) after the sync")
ASSUMPTIONS = ["edits happen between syncs and give a file a newer mtime"]

NAMES = ["a", "b.txt", "d/c.tar.gz", ".hid", "d/.h.x", "d.x/noext", "sp ce.t",
         "u\u00e9.md"]
LIMITS = ["1000KiB", "0KiB"]
ORDERS = ["local-older", "remote-older", "equal"]
KINDS = ["file", "same", "link", "empty"]


def bound(tier):
    return ("names {} x limits {} x known/new x kinds {} on either side x "
            "mtime orders {} x occupied conflict names x 2 consecutive "
            "conflicts in one second{}".format(
                len(NAMES), LIMITS, KINDS, ORDERS,
                "; all pairs of names at once, 3 consecutive conflicts"
                if tier == "thorough" else "; adjacent pairs of names"))


def jobs(tier):
    out = []
    for n in range(len(NAMES)):
        for limit in LIMITS:
            for known in (True, False):
                out.append(["one", n, limit, known,
                            3 if tier == "thorough" else 2])
    for a in range(len(NAMES)):
        for b in range(len(NAMES)):
            if a < b and (tier == "thorough" or b - a == 1):
                for limit in LIMITS:
                    out.append(["two", a, b, limit])
    return out


def setup(ctx):
    ctx.bases = {}


def base(ctx, limit, known):
    """All names exist (known) or none of them."""
    key = (limit, tuple(known))
    if key not in ctx.bases:
        w = ctx.world

        def make(w, side):
            w.write(side + "/other", b"other")
            for n in known:
                w.write(side + "/" + n, b"base " + n.encode())
            for d in ("d", "d.x"):
                os.makedirs(w.p(side + "/" + d), exist_ok=True)
        r = start(w, limit, make)
        if not r.ok:
            ctx.fail("setup", "init/sync failed: {}".format(r))
        ctx.bases[key] = (w.save(), Client(w))
    return ctx.bases[key]


def put(w, side, name, kind, when, tag):
    full = w.p(side + "/" + name)
    if os.path.lexists(full):
        os.unlink(full)
    now = Shim.now()
    Shim.time(when)
    if kind == "link":
        os.symlink("other" + tag, full)
    else:
        data = {"file": name + side + tag, "same": name + tag, "empty": ""}[
            kind]
        with open(full, "wb") as f:
            f.write(data.encode())
    if kind == "link":
        os.utime(full, (when, when), follow_symlinks=False)
    else:
        os.utime(full, (when, when))
    Shim.time(now)


def versions(w):
    out = set()
    for tree in (local(w), remote(w)):
        for p, n in tree.items():
            if n[0] in "fl":
                out.add((n[0], n[1]))
    return out


def one_sync(ctx, cl, trail):
    """A sync checked against the model and, independently, for the presence
    of every version of every changed file on both sides."""
    w = ctx.world
    loc, rem = local(w), remote(w)
    changed = set()
    for p, n in loc.items():
        if n[0] in "fl" and n != cl.base.get(p):
            changed.add((n[0], n[1]))
    for p, n in rem.items():
        if n[0] in "fl" and n != cl.base.get(p):
            changed.add((n[0], n[1]))
    m, after = sync_and_check(w, cl, ctx.fail, trail, again=False)
    rem = {(n[0], n[1]) for n in after[1].values() if n[0] in "fl"}
    loc = {(n[0], n[1]) for n in view(after[0], after[1]).values()
           if n[0] in "fl"}
    for what, have in (("local", loc), ("remote", rem)):
        if changed - have:
            ctx.fail("lost", "versions missing from the {} directory: {}\n{}"
                     .format(what, sorted(changed - have), trail))
    ctx.stats["transitions"] += 1
    ctx.stats["traces"] += 1
    ctx.outcomes["{} conflicts".format(len(m.conflicts))] += 1
    ctx.state((after, db_state(w)))
    ctx.sample("{} -> {}".format(trail, sorted(after[1])), 3)
    return m, after


def mtimes(order, now):
    now = int(now)
    return {"local-older": (now + 10.25, now + 10.75),
            "remote-older": (now + 10.75, now + 10.25),
            "equal": (now + 10, now + 10)}[order]


def run(ctx, job):
    w = ctx.world
    if job[0] == "two":
        _, a, b, limit = job
        names = [NAMES[a], NAMES[b]]
        for known in ([], names, names[:1]):
            saved, cl0 = base(ctx, limit, known)
            for o1, o2 in itertools.product(ORDERS, repeat=2):
                ctx.check_time()
                w.load(saved)
                cl = cl0.copy()
                now = Shim.now()
                for n, o in zip(names, (o1, o2)):
                    tl, tr = mtimes(o, now)
                    put(w, "L1", n, "file", tl, "1")
                    put(w, "R", n, "file", tr, "1")
                w.advance()
                one_sync(ctx, cl, "[{}] known={} {} {} {}".format(
                    limit, known, names, o1, o2))
        return
    _, n, limit, known, rounds = job
    name = NAMES[n]
    saved, cl0 = base(ctx, limit, [name] if known else [])
    for kl, kr, order in itertools.product(KINDS, KINDS, ORDERS):
        for occupied in ("", "L1", "R", "both"):
            if occupied and (kl, kr) != ("file", "file"):
                continue
            ctx.check_time()
            w.load(saved)
            cl = cl0.copy()
            trail = "[{}] {} {} local {} remote {} {} occupied={}".format(
                limit, name, "known" if known else "new", kl, kr, order,
                occupied)
            tl, tr = mtimes(order, Shim.now())
            put(w, "L1", name, kl, tl, "1")
            put(w, "R", name, kr, tr, "1")
            w.advance()
            if occupied:
                # Somebody already has files with the names that conflicts at
                # this time get.
                tag = conflict_names(name, Shim.now())
                for side in (["L1", "R"] if occupied == "both"
                             else [occupied]):
                    for t in tag:
                        w.write(side + "/" + t, b"precious " + side.encode())
            m, after = one_sync(ctx, cl, trail)
            if (kl, kr) != ("file", "file") or occupied:
                # Conflicts again at the same time of day.
                continue
            for r in range(2, rounds + 1):
                # The clock has hardly moved since the last sync.
                w.advance(0.05 - STEP_BACK)
                Shim.time(max(Shim.now(), ctx_last(w)))
                cl.capture(w)
                now = Shim.now()
                tl, tr = now + 0.01, now + 0.02
                if order == "remote-older":
                    tl, tr = tr, tl
                elif order == "equal":
                    tr = tl
                put(w, "L1", name, "file", tl, str(r))
                put(w, "R", name, "file", tr, str(r))
                Shim.time(now + 0.05)
                one_sync(ctx, cl, trail + " again #{}".format(r))


STEP_BACK = core.STEP


def ctx_last(w):
    """The time of the last sync, from which the clock can't go back."""
    prof = core.zielen.profile.Profile(w.name(1))
    prof.read()
    t = prof.last_sync
    prof._db_file.close()
    return t + 0.01


def conflict_names(name, now):
    """The names conflict files get if the sync runs at this time."""
    import time
    stem, ext = os.path.splitext(name)
    return ["{}_conflict-{}{}".format(
        stem, time.strftime("%Y%m%d-%H%M%S", time.localtime(now + d)), ext)
        for d in (0, 1)]
