"""C21: list shows every profile as it is configured, whatever state it or
another one is in, and changes nothing."""
import itertools
import os
import re

import core
import faults
from core import run_cli
from synclib import *

ID = "C21"
LEVEL = "model_checking"
RULE = ("every sequence of states of up to the number of profiles, and of "
        "texts in their options; the table that is printed against their "
        "config files. Distinct states are (profiles, output)")
ASSUMPTIONS = ["the order of the rows is arbitrary"]

HEADERS = ["Profile", "Local Directory", "Remote Directory", "Limit"]
ANSI = re.compile("\x1b\\[[0-9;]*m")
# State of a profile: is there a row for it?
STATES = {
    "ready": True, "partial": True, "no info": None, "no config": False,
    "no directory": True, "bad option": True, "bad value": True,
    "no limit": True, "blank": True, "no options": None, "empty": False,
    "config is a directory": False, "unreadable": False, "no database": True,
    "broken info": True, "stray file": False, "stray link": False,
}
TEXTS = ["/x", "/" + "long" * 60, "/\u00e9", "/e\u0301", "/\u65e5\u672c",
         "/\u2502", "/\udcff\udc80", "/a b", "/a=b", "/\x1b[1mbold\x1b[0m",
         "relative", "/%s{}\\", "~/x", "#", ""]
LIMITS = ["1KiB", "wrong", "10 GB", ""]


def bound(tier):
    return ("all sequences of up to {} of {} states; {} pairs of texts x {} "
            "limits alone and with another profile".format(
                depth(tier), len(STATES), len(TEXTS) ** 2, len(LIMITS)))


def depth(tier):
    return 5 if tier == "thorough" else 4


def jobs(tier):
    out = [["states", i] for i in range(-1, len(STATES))]
    return out + [["texts", i] for i in range(len(TEXTS))]


def setup(ctx):
    """A ready and a partial profile to make all others of."""
    w = ctx.world
    w.fresh()
    base_tree(w, "L1")
    w.advance()
    saved = w.save()
    code, text, ops = faults.op_log(w, lambda: w.init(1, "12KiB"), False)
    k = next(i for i, o in enumerate(ops) if "/R/d" in "".join(
        str(x) for x in o))
    w.load(saved)
    faults.run_faulted(w, lambda: w.init(1, "12KiB"), k + 1, core.ACT_KILL)
    partial = core.snapshot(w.profile_dir(1))
    w.load(saved)
    r = w.init(1, "12KiB")
    if not r.ok:
        ctx.fail("setup", "init failed: {}".format(r))
    ready = core.snapshot(w.profile_dir(1))
    w.rm("home/.config/zielen/profiles")
    os.mkdir(w.p("home/.config/zielen/profiles"))
    w.advance()
    ctx.saved = w.save()
    ctx.parts = {"ready": ready, "partial": partial}


def make(ctx, name, state, local=None, remote=None, limit="12KiB"):
    """Make a profile; return its row, None if it has none."""
    w = ctx.world
    path = w.p("home/.config/zielen/profiles/" + name)
    if state == "stray file":
        with open(path, "w") as f:
            f.write("x")
        return None
    if state == "stray link":
        os.symlink(w.p("L1"), path)
        return None
    os.mkdir(path)
    if state == "empty":
        return None
    core.restore(path, ctx.parts["partial" if state == "partial"
                                 else "ready"])
    local = w.p("L1") if local is None else local
    remote = w.p("R") if remote is None else remote
    opts = {"LocalDir": local, "RemoteDir": remote, "StorageLimit": limit}
    if state == "no directory":
        opts["LocalDir"] = local = w.p("gone")
    elif state == "bad option":
        opts["Wrong"] = "1"
    elif state == "bad value":
        opts["StorageLimit"] = limit = "much"
    elif state == "no limit":
        del opts["StorageLimit"]
        limit = ""
    elif state == "blank":
        opts["RemoteDir"] = remote = ""
    elif state == "no options":
        opts = {}
        local = remote = limit = ""
    with open(path + "/config", "w", errors="surrogateescape") as f:
        f.write("# comment = 1\n" + "".join(
            "{}={}\n".format(*x) for x in opts.items()))
    if state == "no info":
        os.unlink(path + "/info.json")
    elif state == "broken info":
        with open(path + "/info.json", "w") as f:
            f.write("{")
    elif state == "no config":
        os.unlink(path + "/config")
    elif state == "no database":
        os.unlink(path + "/local.db")
    elif state == "config is a directory":
        os.unlink(path + "/config")
        os.mkdir(path + "/config")
    elif state == "unreadable":
        os.chmod(path + "/config", 0)
    return [name, local, remote, limit]


def printable(text):
    return ANSI.sub("", os.fsencode(text).decode(errors="replace")).strip()


def table(out):
    """The rows of the printed table; a string if it isn't one."""
    lines = [ANSI.sub("", x) for x in out.strip("\n").split("\n")]
    if len(lines) < 3:
        return "too few lines"
    if len({len(x) for x in lines}) != 1:
        return "lines of lengths {}".format([len(x) for x in lines])
    top = lines[0]
    cols = [i for i, c in enumerate(top) if c not in "\u2500"]
    if len(cols) != 5:
        return "the top is {!r}".format(top)
    rows = []
    for line in lines[1:-1]:
        if set(line[1:-1]) <= {"\u2500", "\u253c"}:
            continue
        if any(line[c] != "\u2502" for c in cols):
            return "a line is {!r}".format(line)
        rows.append([line[a + 1:b].strip() for a, b in zip(cols, cols[1:])])
    return rows


def judge(ctx, rows, optional, title):
    w = ctx.world
    before = {p: n for p, n in everything(w).items()}
    r = run_cli(["list"])
    ctx.stats["transitions"] += 1
    if not r.ok:
        ctx.fail("command", "list ended with {}\n{}".format(r, title))
    if everything(w) != before:
        ctx.fail("effect", "list changed files\n" + title)
    ctx.state((title, r.out.replace(w.root, "").replace(w.tag, "")))
    rows = [[printable(c) for c in row] for row in rows]
    optional = [[printable(c) for c in row] for row in optional]
    got = table(r.out)
    if isinstance(got, str):
        if not rows and "No profiles" in r.out:
            ctx.outcomes["no profiles"] += 1
            return
        ctx.fail("format", "{}\n{}".format(got, title))
    if got[:1] != [HEADERS]:
        ctx.fail("format", "the headers are {}\n{}".format(got[:1], title))
    rest = sorted(got[1:])
    for row in optional:
        if row in rest:
            rest.remove(row)
    if rest != sorted(rows):
        ctx.fail("rows", "shown: {}, should be: {}\n{}".format(
            rest, sorted(rows), title).replace(w.root, "W"))
    ctx.outcomes["{} rows".format(len(got) - 1)] += 1
    # A quiet list prints nothing.
    if len(got) == 2:
        r = run_cli(["-q", "list"])
        if not r.ok or r.out:
            ctx.fail("quiet", "list -q ended with {} and printed {!r}"
                     "\n{}".format(r, r.out, title))


def everything(w):
    out = {}
    for d, dirs, files in os.walk(w.root):
        for f in dirs + files:
            p = os.path.join(d, f)
            if not f.endswith(("-shm", "-wal")):
                st = os.lstat(p)
                out[p] = (st.st_mode, st.st_size if f in files else 0,
                          st.st_mtime_ns if f in files else 0)
    return out


def run(ctx, job):
    w = ctx.world
    if job[0] == "states":
        names = list(STATES)
        if job[1] < 0:
            seqs = [()]
        else:
            seqs = [(names[job[1]],) + rest for n in range(depth(ctx.tier))
                    for rest in itertools.combinations_with_replacement(
                        names[job[1]:], n)]
        for seq in seqs:
            ctx.check_time()
            w.load(ctx.saved)
            rows, optional = [], []
            for i, state in enumerate(seq):
                row = make(ctx, "p" * (3 * i + 1) + str(i), state)
                if STATES[state]:
                    rows.append(row)
                elif STATES[state] is None:
                    optional.append(row)
            judge(ctx, rows, optional, "profiles {}".format(seq))
        return
    for remote, limit, other in itertools.product(
            TEXTS, LIMITS, (False, True)):
        ctx.check_time()
        w.load(ctx.saved)
        rows = [make(ctx, "one", "ready", TEXTS[job[1]], remote, limit)]
        if other:
            rows.append(make(ctx, "\u00e9other", "ready"))
        judge(ctx, rows, [], "options {!r} {!r} {!r}{}".format(
            TEXTS[job[1]], remote, limit, " and another" if other else ""))
