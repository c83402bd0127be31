"""C20: commands act on the profile the user means, init only on valid
directories."""
import itertools
import os

import core
import faults
from core import run_cli
from synclib import *

ID = "C20"
LEVEL = "model_checking"
RULE = ("every pair of a local and a remote directory of the alphabets for "
        "init, both ways, next to other profiles; every way to write the name "
        "or the path of a profile, from every working directory, for every "
        "command; every profile name of the alphabet. Which profile changes, "
        "and whether anything else does, against a reference. Distinct states "
        "are (arguments, result)")
ASSUMPTIONS = ["directories aren't moved while a command runs"]

# ------------------------------------------------------------ directories

# Where the other profile is: local directory O/L2, remote directory O/R2.
LOCALS = [
    "L1", "L1/", "//L1", "L1/.", "R/../L1", "toL1", "L1/d", "new", "new/a/b",
    "empty", "file", "file/x", "dangling", "toempty", "noaccess",
    "noaccess/new", "noread", "O", "O/L2", "O/L2/", "//O/L2", "O/L2/sub",
    "O/L2/new", "toO", "toO/L2", "toL2", "toL2/sub", "O/L2x", "O/L", "O/L2 ",
    "O/other", "home", "home/", "tohome", "home/.config",
    "home/.config/zielen", "home/.config/zielen/profiles",
    "home/.config/zielen-x", "home/docs", ".", "P/L3", "P", "P/L3/new",
    "Q/L4", "L1/R", "R/L", "R", "toR/L", "/",
]
REMOTES = [
    "R", "R/", "//R", "toR", "newr", "newr/a/b", "emptyr", "toemptyr", "file",
    "file/y", "dangling", "noaccess", "noaccess/newr", "L1", "L1/", "L1/R",
    "L1/emptyr", "toL1/R", "toL1", "L1x", ".", "O/R2", "empty/R",
]
# Only these are combined with everything.
FEW_LOCALS = ["L1", "new", "empty", "toL1", "L1/R", "R/L", "O/L2/sub",
              "toempty"]
FEW_REMOTES = ["R", "newr", "L1/R", "emptyr", "toL1", "O/R2"]
STATES = ["ready", "partial", "none"]

NAMES = ["", " ", "a b", "a\tb", "a\n", "\n", ".", "..", "a/b", "/a", "a.b",
         "a:b", "a\\b", "~", "*", "a'b", "a;b", "a=b", "-x", "a\u00e9", "a-b",
         "a_b", "A", "9", "__", "x" * 60, "x" * 300, "a\x1bb", "a\u2028b"]


def setup(ctx):
    w = ctx.world
    ctx.bases = {}
    ctx.two = None


def make_dirs(w):
    base_tree(w, "L1")
    base_tree(w, "R")
    os.makedirs(w.p("L1/emptyr"))
    for d in ("empty", "emptyr", "noaccess", "noread", "home/docs", "O",
              "home/.config/zielen-x"):
        os.makedirs(w.p(d), exist_ok=True)
    w.write("file", b"file")
    w.write("home/docs/x", b"x")
    w.write("home/.config/zielen-x/x", b"x")
    w.write("noread/x", b"x")
    for link, target in (("toL1", "L1"), ("toR", "R"), ("toO", "O"),
                         ("toL2", "O/L2"), ("toempty", "empty"),
                         ("toemptyr", "emptyr"), ("dangling", "nothing"),
                         ("tohome", "home")):
        os.symlink(w.p(target), w.p(link))
    for d in ("O/L2x", "O/L", "O/other", "Q/L4"):
        w.write(d + "/x", b"x")
    w.write("O/L2/sub/f", b"f")


def base(ctx, state):
    """Other profiles: c2 (O/L2), c3 (P/L3), in the given state."""
    w = ctx.world
    if state in ctx.bases:
        return ctx.bases[state]
    w.fresh()
    make_dirs(w)
    if state != "none":
        w.advance()
        r = w.init(2, "12KiB", local=w.p("O/L2"), remote=w.p("O/R2"))
        if not r.ok:
            ctx.fail("setup", "init failed: {}".format(r))
        w.advance()
        w.write("P/L3/f", b"f")
        w.advance()
        saved = w.save()
        init = lambda: w.init(3, "12KiB", local=w.p("P/L3"),
                              remote=w.p("P/R3"))
        if state == "ready":
            r = init()
            if not r.ok:
                ctx.fail("setup", "init failed: {}".format(r))
        else:
            code, text, ops = faults.op_log(w, init, False)
            k = next(i for i, o in enumerate(ops) if "/R3/f" in "".join(
                str(x) for x in o))
            w.load(saved)
            faults.run_faulted(w, init, k + 1, core.ACT_KILL)
    # The harness's directories keep their modes across snapshots.
    os.chmod(w.p("noaccess"), 0o555)
    w.advance()
    ctx.bases[state] = w.save()
    return ctx.bases[state]


def resolve(w, rel):
    """The path as it is written in the config, and where it is."""
    if rel == "/":
        return "/", "/"
    if rel.startswith("//"):
        path = "/" + w.p(rel[2:])
    else:
        path = w.p(rel)
    return path, os.path.realpath(path.strip())


def inside(a, b):
    """Is a the same as b or in it?"""
    return (a.rstrip("/") + "/").startswith(b.rstrip("/") + "/")


def overlap(a, b):
    return inside(a, b) or inside(b, a)


def usable(path, must_exist):
    """Can the directory be used as one that has the files or gets them?"""
    if os.path.isdir(path):
        if not os.access(path, os.W_OK):
            return False
        return must_exist or not os.listdir(path)
    if os.path.lexists(path) or must_exist:
        return False
    # It is made.
    parent = os.path.dirname(path)
    while not os.path.lexists(parent):
        parent = os.path.dirname(parent)
    return os.path.isdir(parent) and os.access(parent, os.W_OK)


def allowed(w, state, loc, rem, add_remote):
    if overlap(loc, w.p("home/.config/zielen")):
        return False
    if overlap(loc, rem):
        return False
    if state != "none":
        for d in ("O/L2", "P/L3"):
            if overlap(loc, os.path.realpath(w.p(d))):
                return False
    return usable(loc, not add_remote) and usable(rem, add_remote)


def everything(w):
    """All of the world but empty directories (which init may have made)."""
    out = {}
    for p, n in core.tree(w.root, ()).items():
        if p.endswith(("-shm", "-wal", "/tpl1")) or n == ("d",):
            continue
        out[p] = n
    return out


def combos(tier):
    out = []
    for loc, rem in itertools.product(LOCALS, REMOTES):
        if tier == "thorough" or loc in FEW_LOCALS or rem in FEW_REMOTES:
            out.append((loc, rem))
    return out


COMMANDS = ("sync", "reset", "empty-trash")
CWDS = ["home", "A", "A/L1", "A/L1/d", "B", "."]
ARGS = [
    "{one}", "{two}", "{three}", "{four}", "{one}x", "{ONE}", "{one}/",
    "./{one}", "{prefix}", "../{one}",
    "{w}/A/L1", "{w}/A/L1/", "{w}//A/L1", "/{w}/A/L1", "{w}/A/./L1",
    "{w}/B/../A/L1", "{w}/A/L1/..", "{w}/A/L1/../L1", "{w}/A/L1/d",
    "{w}/A/L1/d/..", "{w}/A", "{w}/A/R", "{w}/A/l1", "{w}/A/L1x", "{w}/toL1",
    "{w}/toL1/", "{w}/toA/L1", "{w}/B/L2", "{w}/toL2", "{w}/C/L3",
    "{w}/D/L4", "{w}/E/L5", "{w}/missing", "{w}/A/L1/a", "{w}", "/",
    "~/A/L1", "A/L1", "L1", "./L1", "L1/", "../L1", "../A/L1", "../../A/L1",
    ".", "..", "./", "./.", "L2", "../B/L2", "toL1", "../toL1", "a", "",
    " {one}", "*", "{five}", "{six}", "stray", "../profiles/{one}",
]


def bound(tier):
    n = len(combos(tier))
    return ("{} pairs of directories x 2 ways x {} states of other profiles, "
            "{} names; {} ways to write a profile x {} working directories x "
            "{} commands".format(n, len(STATES), len(NAMES), len(ARGS),
                                 len(CWDS), len(COMMANDS)))


PARTS = 6


def jobs(tier):
    out = [["init", s, a, i] for s in STATES for a in (0, 1)
           for i in range(PARTS)]
    out += [["names", 0, 0, 0]]
    out += [["select", c, d, i] for c in COMMANDS for d in range(len(CWDS))
            for i in range(2)]
    return out


def run(ctx, job):
    kind = job[0]
    if kind == "init":
        for loc, rem in combos(ctx.tier)[job[3]::PARTS]:
            ctx.check_time()
            one_init(ctx, job[1], loc, rem, bool(job[2]))
    elif kind == "names":
        for name in NAMES:
            one_name(ctx, name)
    else:
        for arg in ARGS[job[3]::2]:
            ctx.check_time()
            one_select(ctx, job[1], CWDS[job[2]], arg)


def one_init(ctx, state, loc, rem, add_remote):
    w = ctx.world
    w.load(base(ctx, state))
    title = "init {}local {} remote {} ({})".format(
        "-a " if add_remote else "", loc, rem, state)
    lpath, lreal = resolve(w, loc)
    rpath, rreal = resolve(w, rem)
    # What is around the world can't be touched, whatever happens.
    if not inside(lreal, w.root) and os.access(lreal, os.W_OK):
        ctx.fail("setup", "not contained: " + title)
    want = allowed(w, state, lreal, rreal, add_remote) and not any(
        os.path.islink(p) and not os.path.exists(p) for p in (lpath, rpath))
    before = everything(w)
    r = w.init(1, "12KiB", local=lpath, remote=rpath, add_remote=add_remote)
    after = everything(w)
    ctx.stats["transitions"] += 1
    ctx.state((title, r.kind))
    if r.kind == "exc":
        ctx.fail("crash", "{}\n{}".format(r, title))
    if r.ok and not want:
        ctx.fail("accepted", "should be refused: " + title)
    if want and not r.ok:
        ctx.fail("refused", "{}\n{}".format(r, title))
    ctx.outcomes["init " + r.kind] += 1
    if not r.ok:
        if after != before or os.path.exists(w.profile_dir(1)):
            ctx.fail("refused-effect", "a refused init changed {}\n{}".format(
                sorted(p for p in set(before) | set(after)
                       if before.get(p) != after.get(p)), title))
        return
    # Nothing but the two directories and the profile has changed.
    mine = [os.path.relpath(x, w.root) for x in (
        lreal, rreal, w.profile_dir(1))]
    for p in set(before) | set(after):
        if before.get(p) != after.get(p) and not any(
                inside(p, m) for m in mine):
            ctx.fail("effect", "init changed {}\n{}".format(p, title))
    seen = []
    src = rem if add_remote else loc
    for d in (lreal, rreal):
        seen.append({p: ("f",) if n[0] == "l" and n[1].startswith(rpath[:2])
                     else n[:1] for p, n in core.tree(d).items()})
    for p in set(seen[0]) | set(seen[1]):
        if p not in seen[0] or p not in seen[1]:
            if (seen[0].get(p) or seen[1].get(p)) != ("l",):
                ctx.fail("content", "{} is only on one side\n{}".format(
                    p, title))
    w.advance()
    r = w.sync(1)
    if not r.ok:
        ctx.fail("sync", "{}\n{}".format(r, title))
    ctx.stats["traces"] += 1


def one_name(ctx, name):
    w = ctx.world
    w.fresh()
    base_tree(w, "L1")
    w.advance()
    before = core.tree(w.root, ())
    tpl = w.write_template(1, "12KiB")
    name = name + w.tag if name[:1] == "A" else name
    title = "name {!r}".format(name)
    r = run_cli(["init", "-t", tpl, name])
    profiles = w.p("home/.config/zielen/profiles")
    made = os.listdir(profiles) if os.path.isdir(profiles) else []
    ctx.stats["transitions"] += 1
    ctx.outcomes["name " + r.kind] += 1
    ctx.state((name[:1] != "A" and name, r.kind))
    good = name and len(name) <= 60 and all(
        c.isalnum() or c in "_-" for c in name) and name[0] != "-"
    if len(name) > 60:
        good = None
    if r.kind == "exc" and len(name) < 255:
        ctx.fail("crash", "{}\n{}".format(r, title))
    if good is not None and bool(good) != r.ok:
        ctx.fail("name", "init ended with {}\n{}".format(r, title))
    if not r.ok:
        after = core.tree(w.root, ())
        changed = [p for p in set(before) | set(after)
                   if before.get(p) != after.get(p) and p != "home/tpl1"
                   and after.get(p) != ("d",)]
        if changed or made:
            ctx.fail("refused-effect", "a refused init changed {}\n{}".format(
                sorted(changed) + made, title))
        return
    if made != [name]:
        ctx.fail("name", "profiles: {}\n{}".format(made, title))
    w.advance()
    for argv in (["sync", name], ["list"], ["empty-trash", w.p("L1")],
                 ["reset", name]):
        r = run_cli(argv)
        w.advance()
        if not r.ok:
            ctx.fail("name", "{} ended with {}\n{}".format(
                argv[0], r, title))
        if argv[0] == "list" and name not in r.out:
            ctx.fail("list", "the list lacks the name\n" + title)


def names(w):
    return {"one": w.name(1), "two": w.name(1) + "x", "three": w.name(3),
            "four": w.name(4), "five": w.name(5), "six": w.name(6),
            "ONE": w.name(1).upper(), "prefix": w.name(1)[:-1], "w": w.root}


DIRS = {"one": "A", "two": "B", "three": "C", "four": "D", "five": "E",
        "six": "F"}
NUM = {"one": "1", "two": "2", "three": "3", "four": "4", "five": "5",
       "six": "6"}


def two_base(ctx):
    """Profiles: one and two are fine, three is partial, four has no info
    file, five has an invalid config, six has lost its local directory."""
    w = ctx.world
    if ctx.two:
        return ctx.two
    w.fresh()
    n = names(w)
    for key, d in DIRS.items():
        loc = "{}/L{}".format(d, NUM[key])
        base_tree(w, loc)
        w.advance()
        tpl = w.write_template(1, "1000KiB", local=w.p(loc),
                               remote=w.p(d + "/R"))
        argv = ["init", "-t", tpl, n[key]]
        if key == "three":
            saved = w.save()
            code, text, ops = faults.op_log(w, lambda: run_cli(argv), False)
            k = next(i for i, o in enumerate(ops) if "C/R/d" in "".join(
                str(x) for x in o))
            w.load(saved)
            faults.run_faulted(w, lambda: run_cli(argv), k + 1, core.ACT_KILL)
        else:
            r = run_cli(argv)
            if not r.ok:
                ctx.fail("setup", "init failed: {}".format(r))
        w.advance()
        w.write(loc + "/added", b"added")
        w.write(d + "/R/.zielen/Trash/t", b"t")
    os.unlink(w.p("home/.config/zielen/profiles/{}/info.json".format(
        n["four"])))
    with open(w.p("home/.config/zielen/profiles/{}/config".format(
            n["five"])), "a") as f:
        f.write("Wrong=1\n")
    core.shutil.rmtree(w.p("F/L6"))
    w.write("home/.config/zielen/profiles/stray", b"x")
    for link, target in (("toL1", "A/L1"), ("toA", "A"), ("toL2", "B/L2")):
        os.symlink(w.p(target), w.p(link))
    # Names of profiles are also those of files and directories here.
    w.write("A/" + n["two"] + "/x", b"x")
    os.symlink(w.p("B/L2"), w.p("home/" + n["one"]))
    w.advance()
    ctx.two = w.save()
    return ctx.two


def meant(w, arg, cwd):
    """The profile that is meant, None if none is."""
    n = names(w)
    for key in DIRS:
        if arg == n[key]:
            return key
    path = os.path.realpath(os.path.join(w.p(cwd), arg))
    if arg.startswith("~"):
        return None
    for key in ("one", "two", "three"):
        if path == w.p("{}/L{}".format(DIRS[key], NUM[key])):
            return key
    return None


def fingerprint(w, key):
    d = DIRS[key]
    out = {p: n for p, n in core.tree(w.p(d), ()).items()
           if not p.endswith(("-shm", "-wal"))}
    prof = w.p("home/.config/zielen/profiles/" + names(w)[key])
    out.update({"profile/" + p: n for p, n in core.tree(prof, ()).items()
                if not p.endswith(("-shm", "-wal"))})
    return out


def one_select(ctx, command, cwd, arg):
    w = ctx.world
    w.load(two_base(ctx))
    arg = arg.format(**names(w))
    title = "{} {!r} in {}".format(command, arg.replace(w.root, "W"), cwd)
    key = meant(w, arg, cwd)
    before = {k: fingerprint(w, k) for k in DIRS}
    os.chdir(w.p(cwd))
    try:
        r = run_cli([command, arg])
    finally:
        os.chdir(w.p("home"))
    after = {k: fingerprint(w, k) for k in DIRS}
    changed = [k for k in DIRS if before[k] != after[k]]
    ctx.stats["transitions"] += 1
    ctx.state((title, r.kind))
    ctx.outcomes["{}: {}".format(command, r.kind)] += 1
    if r.kind == "exc":
        ctx.fail("crash", "{}\n{}".format(r, title))
    if key in ("one", "two"):
        if not r.ok:
            ctx.fail("select-refused", "{}\n{}".format(r, title))
        if changed != [key]:
            ctx.fail("wrong-profile", "should act on {}, but changed {}"
                     "\n{}".format(key, changed, title))
        d, num = DIRS[key], NUM[key]
        done = {"sync": os.path.exists(w.p(d + "/R/added")),
                "empty-trash": not os.listdir(w.p(d + "/R/.zielen/Trash"))
                if command == "empty-trash" else None,
                "reset": not os.path.exists(w.p(
                    "home/.config/zielen/profiles/" + names(w)[key]))}
        if not done[command]:
            ctx.fail("select-undone", "it did nothing\n" + title)
        return
    if r.ok and not (key == "six" and changed in ([], ["six"])):
        ctx.fail("select-accepted", "no usable profile is meant\n" + title)
    if changed and key != "six":
        ctx.fail("refused-effect", "a refused command changed {}\n{}".format(
            changed, title))
