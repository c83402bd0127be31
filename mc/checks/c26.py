"""C26: any file name that the file system allows is synced like any other."""
import glob

import core
import model
from synclib import *

ID = "C26"
LEVEL = "model_checking"
RULE = ("every unusual name as the name of files, directories, links and empty "
        "directories x every pair of operations, one on either side or both "
        "on one side, between two syncs, for every storage limit; then a "
        "second round. Distinct states are (trees, database) after the sync")
ASSUMPTIONS = [
    "nothing at the top is called .zielen, and no name starts with "
    ".zielen-partial",
]

NAMES = [
    "a b", " lead", "trail ", "new\nline", "tab\t", "-rf", "--help", "#c",
    "~", "~root", "%s%(x)s", "a=b", "[ab]", "*", "?", "**", "\\", "back\\slash",
    "'", "\"", "';DROP TABLE nodes;--", "$HOME", "`id`", "{0}", ":", "..x",
    "...", ".h", "a.", ".tar.gz", "\u00e9", "e\u0301", "\u65e5\u672c.txt",
    "\U0001f600", "\udcff", "x\udcff\udcfe.t", "\udce9t\udce9", "n" * 255,
    "m" * 250 + ".text", "x." + "e" * 250, "\u00e9" * 127, "NULL", "0",
    "f_conflict-20200101-000000", "f(1)", "\x01\x7f", "remote.db", "Trash",
    ".zielenrc", ".zielen2", ".zielen-x", ".Zielen", "zielen", ".ziele",
]
TWIN = {"\u00e9": "e\u0301", "e\u0301": "\u00e9", "[ab]": "a", "*": "xyz",
        "a.": "a", "trail ": "trail", " lead": "lead", "0": "00",
        "\udcff": "\udcfe", "NULL": "null"}
LIMITS = ["1000KiB", "0KiB", "12KiB"]


def twin(name):
    """A name that might be confused with it."""
    return TWIN.get(name) or (name[:-1] + ("z" if name[-1] != "z" else "y"))


def limits(tier):
    return LIMITS if tier == "thorough" else LIMITS[:2]


def bound(tier):
    return "{} names x {} x {} (pairs of {} operations{})".format(
        len(NAMES), limits(tier), "two rounds" if tier == "thorough"
        else "one round", len(ops("L1", "n")),
        " on any side" if tier == "thorough" else ", one on either side")


def ops(side, n):
    t = twin(n)
    out = [
        op_write(side, "f/" + n), op_rm(side, "f/" + n),
        op_dirify(side, "f/" + n), op_rm(side, "d/" + n),
        op_replace(side, "d/" + n), op_write(side, "d/{0}/{0}".format(n)),
        op_rm(side, "e/" + n), op_replace(side, n), op_mkdir(side, n),
        op_link(side, n, "f/" + n), op_move(side, "f/" + n, t),
        op_replace(side, "f/" + t), op_rm(side, "f/" + t),
    ]
    for o in out:
        o.label = ascii(o.label.replace(n, n if len(n) < 50 else "LONG"))
    return out


def jobs(tier):
    out = []
    for n in range(len(NAMES)):
        for i in range(len(limits(tier))):
            out.append([n, i])
            if tier == "thorough":
                for k in range(2 * len(ops("L1", "n"))):
                    out.append([n, i, k])
    return out


def setup(ctx):
    ctx.bases = {}


def base(ctx, n, i):
    if (n, i) not in ctx.bases:
        ctx.bases.clear()
        w = ctx.world
        name = NAMES[n]

        def make(w, side):
            w.write(side + "/f/" + name, b"f" * 5000)
            w.write(side + "/f/" + twin(name), b"twin" * 5000)
            w.write("{0}/d/{1}/{1}".format(side, name), b"dd")
            w.write(side + "/d/" + twin(name), b"d twin")
            os.makedirs(w.p(side + "/e/" + name))
            os.makedirs(w.p(side + "/l"))
            os.symlink("../f/" + name if len(name) < 250 else "x",
                       w.p(side + "/l/" + name))
        r = start(w, LIMITS[i], make)
        if not r.ok:
            ctx.fail("setup", "init/sync failed: {} with {!a}".format(r, name))
        ctx.bases[n, i] = (w.save(), Client(w))
    return ctx.bases[n, i]


def one(ctx, chosen, cl, state, trail):
    w = ctx.world
    w.load(state)
    cl = cl.copy()
    for o in chosen:
        if not o.func(w):
            return None
        w.advance()
        ctx.stats["transitions"] += 1
    ctx.check_time()
    m, after = sync_and_check(w, cl, ctx.fail, trail)
    ctx.stats["transitions"] += 2
    ctx.stats["traces"] += 1
    ctx.outcomes["{} conflicts, {} trashed".format(
        len(m.conflicts), len(m.trash))] += 1
    new = ctx.state(repr((after, db_state(w))))
    ctx.sample(trail, 3)
    return new, w.save(), cl


def exclude(ctx, n, i):
    """The name can be written as a pattern."""
    w = ctx.world
    name = NAMES[n]
    saved, cl = base(ctx, n, i)
    if name != name.strip() or "\n" in name or name.startswith("#"):
        return
    w.load(saved)
    pattern = "/f/" + glob.escape(name)
    w.set_exclude(1, [pattern])
    trail = "[{}] excluding {!a}".format(LIMITS[i], pattern)
    before = view(local(w), remote(w))
    for k in range(3):
        w.advance()
        r = w.sync(1)
        if not r.ok:
            ctx.fail("exclude-" + r.kind, "{}\n{}".format(r, trail))
    want = dict(remote_before(cl))
    del want["f/" + name]
    if remote(w) != want:
        ctx.fail("exclude", "remote: {}\n{}".format(
            model.diff(want, remote(w)), trail))
    if view(local(w), remote(w)) != before:
        ctx.fail("exclude", "local: {}\n{}".format(
            model.diff(before, view(local(w), remote(w))), trail))
    ctx.stats["transitions"] += 3
    ctx.stats["traces"] += 1


def remote_before(cl):
    return cl.base


def run(ctx, job):
    n, i = job[:2]
    saved, cl = base(ctx, n, i)
    name = NAMES[n]
    left, right = ops("L1", name), ops("R", name)
    title = "[{}] name {} {!a}: ".format(LIMITS[i], n, name[:50])
    if len(job) == 2:
        exclude(ctx, n, i)
        for o in left + right:
            one(ctx, [o], cl, saved, title + repr(o))
        for a in left:
            for b in right:
                one(ctx, [a, b], cl, saved, title + repr([a, b]))
        return
    every = left + right
    a = every[job[2]]
    for b in every[:len(left)] if job[2] < len(left) else every[len(left):]:
        one(ctx, [a, b], cl, saved, title + repr([a, b]))
    first = one(ctx, [a], cl, saved, title + repr(a))
    if first:
        for b in every:
            one(ctx, [b], first[2], first[1], title + repr(a) + " | "
                + repr(b))
