"""C17: every config file is either refused or means what it says."""
import itertools
import os
import sys

import core
from core import run_cli
from synclib import *

ID = "C17"
LEVEL = "model_checking"
RULE = ("every value of the alphabets of each option, every layout of a line, "
        "every ordered pair of configs read one after the other by one "
        "process, every template for init with every way to answer its "
        "prompts; the options as the program sees them against a reference. "
        "Distinct states are (config text, values of all options)")
ASSUMPTIONS = ["paths don't go up from a symlink"]

# ------------------------------------------------------------- alphabets

TRUE, FALSE = ("yes", "true"), ("no", "false")
BOOLS = ("UseTrash", "InflatePriority", "AccountForSize")
INTS = ("SyncInterval", "PriorityHalfLife", "TrashCleanupPeriod")
REQUIRED = ("LocalDir", "RemoteDir", "StorageLimit")
OPTIONAL = INTS + BOOLS
DEFAULTS = {"SyncInterval": "20", "PriorityHalfLife": "120",
            "TrashCleanupPeriod": "30", "UseTrash": "yes",
            "InflatePriority": "yes", "AccountForSize": "yes"}


def cases(word):
    return sorted({"".join(x) for x in itertools.product(
        *((c.lower(), c.upper()) for c in word))})


def bool_values():
    out = ["", "y", "n", "1", "0", "on", "off", "none", "yes no", "yess",
           "ye", "truefalse", "'yes'", "yes # really", "\u0131"]
    for word in TRUE + FALSE:
        out += cases(word)
    return out


def int_values():
    return ["", "0", "1", "7", "20", "007", "00", "-1", "-0", "-5", "-", "--1",
            "+1", "1.5", "1e3", "abc", "1 0", "1_0", "0x10", "10 # min",
            "\u0663", "\u00b2", "9" * 12, "10m", " 5 ", "5,", "1-2"]


def limit_values():
    nums = ["", "0", "1", "10", "007", "-1", "1.5", "1,5", "1 0", "\u0663",
            "9" * 15, "1_0"]
    units = ["", "B", "iB", "b", "T", "TB", "TiB", "Ki", "KBs", "KK", "KBiB",
             "Kib B", "%", "K B"]
    for p in "kmg":
        units += cases(p) + cases(p + "b") + cases(p + "ib")
    out = [""]
    for n, s, u in itertools.product(nums, ["", " ", "   ", "\t"], units):
        out.append(n + s + u)
    return sorted(set(out))


def path_values(w):
    r = w.root
    return ["", "/", "~", "~/", "relative", "./x", "../x", "x/" + r,
            "file://" + r, "$HOME/x",
            r + "/L1", r + "/L1/", r + "//L1", r + "/L1/.", r + "/./L1",
            r + "/R/../L1", r + "/L1/../L1//", "//" + r[1:] + "/L1",
            "///" + r[1:] + "/L1", "~/x", "~/x/", "~//x", "~/x/../y",
            "~/../L1", "~/..", "~/./", "~/../../x", "~~/x", "/~/x", "~x/y",
            r + "/a=b", r + "/=", r + "/a b", r + "/a  b/", r + "/a#b",
            r + "/#", r + "/'q'", r + '/"q"', r + "/%s{}", r + "/\u00e9",
            r + "/e\u0301", r + "/a\\b", r + "/a\\", r + "/*", r + "/-x",
            r + "/a;b", r + "/a\tb", r + "/...", r + "/a:b", r + "/$HOME",
            "/../x", "/..//x/.", r + "/\udcff", r + "/\udcc3(\u00e9"]


# ------------------------------------------------------------- reference

def digits(s):
    return bool(s) and all(c in "0123456789" for c in s)


def limit_of(v):
    n = 0
    while n < len(v) and v[n] in "0123456789":
        n += 1
    num, unit = v[:n], v[n:].strip().lower()
    if not num:
        return None
    for i, p in enumerate("kmg"):
        if unit in (p, p + "ib"):
            return int(num) * 1024 ** (i + 1)
        if unit == p + "b":
            return int(num) * 1000 ** (i + 1)
    return None


def path_of(w, v):
    if v.startswith("~/"):
        v = w.p("home") + v[1:]
    if not v.startswith("/"):
        return None
    out = []
    for c in v.split("/"):
        if c == "..":
            out = out[:-1]
        elif c not in ("", "."):
            out.append(c)
    return "/" + "/".join(out)


def parse(text):
    opts = {}
    for line in text.replace("\r\n", "\n").replace("\r", "\n").split("\n"):
        line = line.strip()
        if line.startswith("#") or "=" not in line:
            continue
        key, value = line.split("=", 1)
        opts[key.strip()] = value.strip()
    return opts


def meaning(w, opts):
    """The values of all options, None if the config must be refused."""
    if set(opts) - set(REQUIRED + OPTIONAL):
        return None
    out = {}
    for key in REQUIRED + OPTIONAL:
        v = opts.get(key)
        if v is None:
            v = DEFAULTS.get(key)
        if v is None:
            return None
        if key in BOOLS:
            v = v or DEFAULTS[key]
            if v.lower() not in TRUE + FALSE:
                return None
            out[key] = v.lower() in TRUE
        elif key == "StorageLimit":
            out[key] = limit_of(v)
            if out[key] is None:
                return None
        elif key in INTS:
            neg = key == "TrashCleanupPeriod" and v.startswith("-")
            if not digits(v[1:] if neg else v):
                return None
            if key == "PriorityHalfLife" and not int(v):
                return None
            out[key] = (None if neg else int(v) * {
                "SyncInterval": 60, "PriorityHalfLife": 3600,
                "TrashCleanupPeriod": 86400}[key])
        else:
            out[key] = path_of(w, v)
            if out[key] is None:
                return None
    return out


def same_dir(path):
    """Two leading slashes are the same as one here."""
    return path if not path.startswith("//") else path[1:]


def observed(profile):
    return {
        "LocalDir": same_dir(profile.local_path),
        "RemoteDir": same_dir(profile.remote_path),
        "StorageLimit": profile.storage_limit,
        "SyncInterval": profile.sync_interval,
        "PriorityHalfLife": profile.priority_half_life,
        "TrashCleanupPeriod": profile.cleanup_period,
        "UseTrash": profile.use_trash,
        "InflatePriority": profile.inflate_priority,
        "AccountForSize": profile.account_for_size}


# ------------------------------------------------------------------ jobs

PARTS = 8
LINE_STATES = ("set", "blank", "missing", "commented")
OPT_STATES = ("set", "blank", "missing", "commented")
ANSWERS = ("good", "retry", "eof")


def jobs(tier):
    out = [["values", k, 0] for k in OPTIONAL + REQUIRED[:2]]
    out += [["values", "StorageLimit", i] for i in range(PARTS)]
    out += [["layout", 0, 0]]
    out += [["pairs", 0, i] for i in range(PARTS)]
    out += [["commands", 0, i] for i in range(PARTS)]
    out += [["init", n, i] for n in (0, 1) for i in range(2 * PARTS)]
    out += [["default", 0, 0]]
    return out


def bound(tier):
    return ("{} limits, {} numbers for 3 options, {} booleans for 3 options, "
            "{} paths for 2 options; {} layouts; all ordered pairs and, for "
            "commands, all of {} configs; {} templates x {} ways to answer x "
            "last line complete or not, and all ways to answer without a "
            "template".format(
                len(limit_values()), len(int_values()), len(bool_values()),
                len(path_values(core.types.SimpleNamespace(root="/r"))),
                len(layouts()), len(configs(tier)),
                4 ** 3 * 16, len(ANSWERS)))


def layouts():
    """Functions from (key, value) to the lines for it."""
    return [
        lambda k, v: k + "=" + v, lambda k, v: k + " = " + v,
        lambda k, v: "  " + k + "=" + v + "  ",
        lambda k, v: "\t" + k + "\t=\t" + v + "\t",
        lambda k, v: k + "=" + v + "\r",
        lambda k, v: "#" + k + "=" + v, lambda k, v: "  # " + k + "=" + v,
        lambda k, v: k + "=wrong\n" + k + "=" + v,
        lambda k, v: k + "=" + v + "\n" + k + "=wrong",
        lambda k, v: k + "=" + v + "\n#" + k + "=wrong",
        lambda k, v: k.lower() + "=" + v, lambda k, v: k + "X=" + v,
        lambda k, v: k + "=" + v + "\nUnknown=1",
        lambda k, v: k + "=" + v + "\n=1", lambda k, v: k + "=" + v + "\n=",
        lambda k, v: k + "=" + v + "\n\n\n[section]\nnot an option\n",
        lambda k, v: k + "==" + v, lambda k, v: k + "=" + v + "=",
        lambda k, v: k + ":" + v, lambda k, v: "",
        lambda k, v: k + "=" + v + "#", lambda k, v: k + "='" + v + "'",
        lambda k, v: k[:2] + " " + k[2:] + "=" + v,
    ]


def configs(tier):
    """Changes to the base config (None: leave the option out)."""
    out = [{}, {"StorageLimit": None}, {"LocalDir": "wrong"}]
    for k, vs in (("SyncInterval", ("0", "5", "x", "")),
                  ("UseTrash", ("no", "TRUE", "2", "")),
                  ("TrashCleanupPeriod", ("-1", "0", "400", "y")),
                  ("PriorityHalfLife", ("1", "0")),
                  ("InflatePriority", ("No",)), ("AccountForSize", ("FALSE",)),
                  ("StorageLimit", ("0 kb", "5GiB", "2m", "12"))):
        out += [{k: v} for v in vs]
    out += [{"SyncInterval": "3", "UseTrash": "no", "AccountForSize": "no",
             "TrashCleanupPeriod": "3", "InflatePriority": "no",
             "PriorityHalfLife": "3", "StorageLimit": "3GB"}]
    if tier == "thorough":
        few = list(out)
        out += [dict(a, **b) for a, b in itertools.combinations(few, 2)
                if not set(a) & set(b) and a and b]
    return out


def base_opts(w):
    return {"LocalDir": w.p("L1"), "RemoteDir": w.p("R"),
            "StorageLimit": "12KiB"}


def text_of(w, changes):
    opts = dict(base_opts(w), **changes)
    return "".join("{}={}\n".format(k, v) for k, v in opts.items()
                   if v is not None)


def setup(ctx):
    w = ctx.world
    w.fresh()
    base_tree(w, "L1")
    w.advance()
    r = w.init(1, "12KiB")
    if not r.ok:
        ctx.fail("setup", "init failed: {}".format(r))
    w.advance()
    ctx.base = w.save()
    ctx.template = None
    path = os.path.join(os.path.dirname(os.path.dirname(
        core.zielen.__file__)), "config-template")
    if os.path.exists(path):
        with open(path) as f:
            ctx.template = f.read()


def set_text(w, text):
    with open(w.profile_dir(1) + "/config", "w", newline="",
              errors="surrogateescape") as f:
        f.write(text)


def look(profile):
    """("values", ...), ("refused", message) or ("crash", message)"""
    try:
        profile.read()
    except core.zielen.exceptions.ProgramError as e:
        return ("refused", "; ".join(str(x) for x in e.args))
    except Exception as e:
        return ("crash", "{}: {}".format(type(e).__name__, e))
    try:
        return ("values", observed(profile))
    except Exception as e:
        return ("crash", "{}: {}".format(type(e).__name__, e))


def judge(ctx, got, text, title):
    want = meaning(ctx.world, parse(text))
    ctx.stats["transitions"] += 1
    ctx.state((repr(text).replace(ctx.world.root, ""), repr(got).replace(
        ctx.world.root, "")))
    ctx.outcomes[got[0]] += 1
    if got[0] == "crash":
        ctx.fail("crash", "{}\n{}".format(got[1], title))
    if want is None and got[0] != "refused":
        ctx.fail("accepted", "should be refused: {}\n{}".format(
            {k: v for k, v in got[1].items()}, title))
    if want is not None and got[0] != "values":
        ctx.fail("refused", "{}\n{}".format(got[1], title))
    if want is not None and got[1] != want:
        ctx.fail("meaning", "{}\n{}".format("; ".join(
            "{}: {!r}, should be {!r}".format(k, got[1][k], want[k])
            for k in want if got[1][k] != want[k]), title))


def fresh_profile(w):
    return core.zielen.profile.Profile(w.name(1))


def run(ctx, job):
    w = ctx.world
    w.load(ctx.base)
    kind, key, part = job
    globals()["run_" + kind](ctx, key, part)


def run_values(ctx, key, part):
    w = ctx.world
    values = (limit_values()[part::PARTS] if key == "StorageLimit" else
              bool_values() if key in BOOLS else
              int_values() if key in INTS else path_values(w))
    for v in values:
        ctx.check_time()
        text = text_of(w, {key: v})
        set_text(w, text)
        judge(ctx, look(fresh_profile(w)), text, "{}={!r}".format(key, v))


GOOD = {"SyncInterval": "7", "PriorityHalfLife": "7", "UseTrash": "no",
        "TrashCleanupPeriod": "7", "InflatePriority": "no",
        "AccountForSize": "no", "StorageLimit": "7MB"}


def run_layout(ctx, key, part):
    w = ctx.world
    good = dict(GOOD, LocalDir=w.p("L1"), RemoteDir=w.p("R"))
    for k in REQUIRED + OPTIONAL:
        for n, layout in enumerate(layouts()):
            for last in (False, True):
                rest = text_of(w, {k: None} if k in REQUIRED else {})
                text = layout(k, good[k])
                # A line in the middle or an incomplete last line.
                text = rest + text if last else text + "\n" + rest
                set_text(w, text)
                judge(ctx, look(fresh_profile(w)), text,
                      "{} in layout {}: {!r}".format(
                          k, n, layout(k, "VALUE")))


def run_pairs(ctx, key, part):
    w = ctx.world
    for first in configs(ctx.tier)[part::PARTS]:
        for second in configs(ctx.tier):
            ctx.check_time()
            profile = fresh_profile(w)
            for changes in (first, second):
                text = text_of(w, changes)
                set_text(w, text)
                judge(ctx, look(profile), text,
                      "{} after {}".format(changes, first))


def command(ctx, argv, text, title):
    r = run_cli(argv)
    want = meaning(ctx.world, parse(text))
    if r.kind == "exc" or r.ok != (want is not None):
        ctx.fail("command", "{} ended with {}\n{}".format(argv[0], r, title))
    ctx.stats["traces"] += 1
    return r


def commands(w):
    return (["empty-trash", w.name(1)], ["sync", w.name(1)],
            ["reset", w.name(1)])


def run_commands(ctx, key, part):
    w = ctx.world
    for changes in configs(ctx.tier)[part::PARTS]:
        text = text_of(w, changes)
        for argv in commands(w):
            ctx.check_time()
            w.load(ctx.base)
            set_text(w, text)
            before = (scan(w.p("L1")), scan(w.p("R")))
            r = command(ctx, argv, text, str(changes))
            after = (scan(w.p("L1")), scan(w.p("R")))
            if not r.ok and before != after:
                ctx.fail("effect", "a refused {} changed files\n{}".format(
                    argv[0], changes))
            r = run_cli(["list"])
            if not r.ok:
                ctx.fail("list", "list ended with {}\n{}".format(r, changes))


def answers_for(w, asked, how):
    """The lines typed at the prompts."""
    values = {"LocalDir": w.p("L1"), "RemoteDir": w.p("R"),
              "StorageLimit": "12KiB"}
    bad = {"LocalDir": ["", "L1", "."], "RemoteDir": ["R"],
           "StorageLimit": ["12", "", "x KB"]}
    lines = []
    for k in asked:
        if how == "retry":
            lines += bad[k]
        lines.append("  " + values[k] + " " if how == "retry" else values[k])
    if how == "eof":
        lines = lines[:-1]
    return "".join(x + "\n" for x in lines)


def start_init(ctx, argv, asked, how, opts, title,
               refusable=False):
    """Run init and judge it by the options that the result must have."""
    w = ctx.world
    before = (scan(w.p("L1")), scan(w.p("R")))
    r = run_cli(argv, answers_for(w, asked, how))
    ctx.stats["traces"] += 1
    for k in asked:
        opts[k] = base_opts(w)[k]
    text = "".join("{}={}\n".format(*x) for x in opts.items())
    want = meaning(w, parse(text))
    eof = how == "eof" and asked
    if refusable and r.kind == "error":
        # A template without the line of a required option may be refused.
        want = None
    if eof or want is None:
        if r.ok:
            ctx.fail("init-accepted", "init should fail\n" + title)
        if r.kind == "exc" and not (eof and "EOFError" in r.detail):
            ctx.fail("init-crash", "{}\n{}".format(r, title))
        left = os.listdir(os.path.dirname(w.profile_dir(1)))
        after = (scan(w.p("L1")), scan(w.p("R")))
        if left or after != before:
            ctx.fail("init-left", "a failed init left {} and {}\n{}".format(
                left, "changed files" if before != after else "no change",
                title))
        ctx.outcomes["init refused"] += 1
        return None
    if not r.ok:
        ctx.fail("init-refused", "{}\n{}".format(r, title))
    with open(w.profile_dir(1) + "/config") as f:
        written = f.read()
    judge(ctx, look(fresh_profile(w)), text, title + "\n(as init wrote it)")
    w.advance()
    command(ctx, ["sync", w.name(1)], text, title)
    out = run_cli(["list"])
    for v in (w.name(1), w.p("L1"), w.p("R"), opts["StorageLimit"]):
        if v not in out.out:
            ctx.fail("list", "list doesn't show {!r}\n{}".format(v, title))
    ctx.outcomes["init done"] += 1
    return written


def template_line(k, v, state):
    return {"set": k + "=" + v, "blank": k + " =", "missing": None,
            "commented": "# " + k + "=" + v}[state]


def run_init(ctx, whole, part):
    w = ctx.world
    w.fresh()
    base_tree(w, "L1")
    w.advance()
    clean = w.save()
    combos = list(itertools.product(
        LINE_STATES, LINE_STATES, LINE_STATES, OPT_STATES, OPT_STATES))
    good = dict(GOOD, **base_opts(w))
    for combo in combos[part::2 * PARTS]:
        keys = REQUIRED + ("UseTrash", "SyncInterval")
        lines = ["# A template", ""]
        opts = {}
        for k, state in zip(keys, combo):
            lines.append("# About " + k)
            line = template_line(k, good[k], state)
            if line is not None:
                lines.append(line)
            if state in ("set", "blank"):
                opts[k] = good[k] if state == "set" else ""
        asked = [k for k in REQUIRED if not opts.get(k)]
        for how in ANSWERS:
            if how != "good" and not asked:
                continue
            ctx.check_time()
            w.load(clean)
            text = "\n".join(lines) + ("\n" if whole else "")
            with open(w.p("home/tpl"), "w") as f:
                f.write(text)
            title = "template {} answers {}".format(
                dict(zip(keys, combo)), how)
            written = start_init(
                ctx, ["init", "-t", w.p("home/tpl"), w.name(1)], asked, how,
                dict(opts), title, "missing" in combo[:3]
                or "commented" in combo[:3])
            if written is None:
                continue
            kept = [x for x in lines if "=" not in x or x.startswith("#")]
            left = iter(written.split("\n"))
            if not all(x in left for x in kept):
                ctx.fail("comments", "the config file lost lines\n" + title)


def run_default(ctx, key, part):
    """Without a template, everything is asked."""
    w = ctx.world
    if ctx.template is None:
        ctx.outcomes["no default template"] += 1
        return
    for how in ANSWERS:
        w.fresh()
        base_tree(w, "L1")
        w.advance()
        os.makedirs(w.p("home/prefix/share/zielen"))
        with open(w.p("home/prefix/share/zielen/config-template"), "w") as f:
            f.write(ctx.template)
        old, sys.prefix = sys.prefix, w.p("home/prefix")
        try:
            start_init(ctx, ["init", w.name(1)], list(REQUIRED), how, {},
                       "no template, answers " + how)
        finally:
            sys.prefix = old
