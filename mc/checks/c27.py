"""C27: a command line is refused without effect or does what it says, wherever
its output goes."""
import itertools
import os
import re
import shutil
import sys

import core
import faults
from core import run_cli
from synclib import *
from checks import c08

ID = "C27"
LEVEL = "model_checking"
RULE = ("every sequence of words of the alphabet up to the length, alone and "
        "after each command, against a reference that knows the synopsis of "
        "each command and what it has to do; and every scenario of edits x "
        "limit x command x width of the terminal that the output goes to, "
        "against the same without a terminal. Distinct states are (words, "
        "result) and the files after a command")
ASSUMPTIONS = [
    "options aren't abbreviated, and no name starts with a dash",
    "the terminal can show any character",
]

COMMANDS = {"init": "eta", "sync": "", "reset": "kn", "list": None,
            "empty-trash": ""}
GLOBALS = ["--help", "--version", "--debug", "-q", "--quiet"]
LONG = {"--keep-remote": "k", "--no-retrieve": "n", "--add-remote": "a",
        "--exclude": "e", "--template": "t"}
# The words of the sequences that aren't bound to a command.
WORDS = list(COMMANDS) + GLOBALS + [
    "-k", "--no-retrieve", "-a", "-t", "TPL", "OLD", "NEW", "-x", "nonsense"]
# Those of each command.
OWN = {
    "init": ["-e EX", "--exclude=EX", "-eEX", "-t TPL", "--template TPL",
             "-t TPLA", "-tTPL", "-a", "--add-remote", "NEW", "OLD", "-k",
             "--help", "-q", "-t", "-aeEX", "-t missing", "-e missing"],
    "sync": ["OLD", "L1", "NEW", "-q", "--help", "-k", "-a", "--debug",
             "sync", "-x"],
    "reset": ["OLD", "L1", "NEW", "-k", "-n", "-kn", "-nk", "--keep-remote",
              "--no-retrieve", "-a", "--help", "-t TPL", "-q"],
    "list": ["OLD", "-q", "--help", "-k", "--debug", "list"],
    "empty-trash": ["OLD", "L1", "NEW", "-k", "-n", "--help", "-q"],
}
BEFORE = [[], ["-q"], ["--debug"], ["--quiet", "--debug"]]

COLUMNS = [1, 20, 80, 200]
# What has no contents to copy.
BARE = {
    "empty files": lambda w, side, n: w.write(side + "/" + n, b""),
    "links": lambda w, side, n: os.symlink("x" + n, w.p(side + "/" + n)),
    "directories": lambda w, side, n: os.makedirs(w.p(side + "/" + n)),
}
TTY_COMMANDS = ["sync", "reset", "reset -k", "reset -n", "empty-trash", "list",
                "init", "init -a"]


def depth(tier):
    return (4, 4) if tier == "thorough" else (3, 3)


def bound(tier):
    a, b = depth(tier)
    return ("all sequences of up to {} of {} words; after each command all of "
            "up to {} of up to {} options and arguments, with {} sets of "
            "global options; {} scenarios x {} limits x {} commands x {} "
            "widths".format(
                a, len(WORDS), b, max(len(x) for x in OWN.values()),
                len(BEFORE), len(scenarios(tier)), len(c08.LIMITS),
                len(TTY_COMMANDS), len(COLUMNS)))


def scenarios(tier):
    """(edits, what else there is)"""
    out = [(list(ops), None) for ops in c08.scenarios(tier)]
    for kind, make in sorted(BARE.items()):
        for sides in (("L1",), ("R",), ("L1", "R")):
            ops = [Op("{} {}/bare{}".format(kind, side, side), bare(
                make, side)) for side in sides]
            out.append((ops, kind))
    return out


def bare(make, side):
    def f(w):
        make(w, side, "bare" + side)
        return True
    return f


def jobs(tier):
    a, b = depth(tier)
    out = []
    for i in range(len(WORDS)):
        for j in range(-1, len(WORDS)):
            if tier == "thorough" or j < 1:
                out.append(["words", a, i, j if tier == "thorough" else None])
    out = [x for n, x in enumerate(out) if x not in out[:n]]
    for c in COMMANDS:
        for i in range(-1, len(OWN[c])):
            for k in range(len(BEFORE)):
                out.append(["own", b, c, i, k])
    for s in range(len(scenarios(tier))):
        for i in range(len(c08.LIMITS)):
            out.append(["tty", s, i])
    return out


# ---------------------------------------------------------------- reference

class Refused(Exception):
    """This is no valid command line."""


def parse(words):
    """(command, options, name, quiet, debug) or Refused; command is "help" if
    it only prints something."""
    opts, names, command, shown = {}, [], None, False
    quiet = debug = False
    words = list(words)
    bad = False
    while words:
        word = words.pop(0)
        if command is None and not word.startswith("-"):
            if word not in COMMANDS:
                raise Refused()
            command = word
        elif command is None:
            if word in ("--help", "--version"):
                return ("help", word, None, quiet, debug)
            elif word in ("-q", "--quiet"):
                quiet = True
            elif word == "--debug":
                debug = True
            else:
                bad = True
        elif word == "--help":
            # Whether what comes before it is looked at doesn't matter.
            return ("help", command, None, quiet, debug)
        elif word.startswith("--"):
            key, eq, value = word.partition("=")
            key = LONG.get(key)
            if key is None or key not in (COMMANDS[command] or ""):
                bad = True
            elif key in "et":
                if not eq:
                    if not words or words[0].startswith("-"):
                        raise Refused()
                    value = words.pop(0)
                opts[key] = value
            else:
                opts[key] = True
        elif word.startswith("-"):
            rest = word[1:]
            while rest:
                key, rest = rest[0], rest[1:]
                if key not in (COMMANDS[command] or ""):
                    bad = True
                    break
                if key in "et":
                    if not rest:
                        if not words or words[0].startswith("-"):
                            raise Refused()
                        rest = words.pop(0)
                    opts[key] = rest
                    break
                opts[key] = True
        else:
            names.append(word)
    if command is None or bad:
        raise Refused()
    if len(names) != (0 if COMMANDS[command] is None else 1):
        raise Refused()
    return (command, opts, names[0] if names else None, quiet, debug)


def help_in(words):
    return "--help" in words or "--version" in words


# -------------------------------------------------------------------- world

EXCLUDES = "*.none\n"
PROMPTED = "70KiB"


def setup(ctx):
    w = ctx.world
    ctx.saved = None
    ctx.bases = {}
    ctx.plain = {}
    core.TTY = None


def base(ctx):
    """A profile with files to sync, stand-ins and a trash, and directories
    for another one."""
    w = ctx.world
    if ctx.saved is None:
        r = start(w, "20KiB")
        if not r.ok:
            ctx.fail("setup", "init/sync failed: {}".format(r))
        stand_in = next(p for p, n in sorted(local(w).items())
                        if n == ("r",))
        os.remove(w.p("L1/" + stand_in))
        r = w.sync(1)
        if not r.ok or not trash(w):
            ctx.fail("setup", "sync failed: {}".format(r))
        w.advance()
        op_replace("L1", "n").func(w)
        for d in ("L2", "RA"):
            w.write(d + "/x", b"x")
            w.write(d + "/d/y", b"y")
        w.advance()
        # Where the default template is.
        os.makedirs(w.p("home/prefix/share/zielen"))
        shutil.copy(os.path.join(os.path.dirname(os.path.dirname(
            core.zielen.__file__)), "config-template"),
            w.p("home/prefix/share/zielen/config-template"))
        for name, text in (
                ("EX", EXCLUDES),
                ("TPL", "LocalDir={}\nRemoteDir={}\nStorageLimit=50KiB\n"
                 .format(w.p("L2"), w.p("R2"))),
                ("TPLA", "LocalDir={}\nRemoteDir={}\nStorageLimit=60KiB\n"
                 .format(w.p("LA"), w.p("RA")))):
            w.write("home/" + name, text.encode())
        ctx.saved = w.save()
        ctx.before = observe(w)
        ctx.stats["transitions"] += 3
    return ctx.saved


def observe(w, times=True):
    """All that the user can see: every file, the trash, and the profiles."""
    out = {}
    for top in ("L1", "L2", "LA", "R", "R2", "RA"):
        t = scan(w.p(top), w.p("R" + top[1:].replace("1", "")),
                 (".zielen",)) if top[0] == "L" else scan(
                     w.p(top), None, (".zielen",))
        for p, n in t.items():
            if n[0] == "d":
                continue
            out[top + "/" + p] = n if times else n[:2]
    for top in ("R", "R2", "RA"):
        for p, n in scan(w.p(top + "/.zielen/Trash")).items():
            out["{}/.zielen/Trash/{}".format(top, p)] = n[:2]
    profiles = w.p("home/.config/zielen/profiles")
    for name in os.listdir(profiles) if os.path.isdir(profiles) else ():
        for p in ("config", "exclude"):
            path = os.path.join(profiles, name, p)
            if os.path.exists(path):
                with open(path) as f:
                    out["profile {} {}".format(name, p)] = f.read()
    for p in sorted(os.listdir(w.p("home"))):
        if not p.startswith(".") and os.path.isfile(w.p("home/" + p)):
            with open(w.p("home/" + p)) as f:
                out["home " + p] = f.read()
    return out


def part(state, *tops):
    return {p: n for p, n in state.items()
            if p.split("/")[0] in tops or p.split(" ")[0] in tops}


def content(state):
    return {n[1] for n in state.values() if n[0] == "f"}


def expected(w, words, old, new, before):
    """(does it succeed, what it prints, problems(before, after))"""
    try:
        command, opts, name, quiet, debug = parse(words)
    except Refused:
        if help_in(words):
            return None, "", None, False, True
        return False, "", None, False, "--debug" in words
    if command == "help":
        return True, "help", None, quiet, debug
    if command == "list":
        return True, old, None, quiet, debug
    if command == "init":
        files = [opts.get("e"), opts.get("t")]
        if name == old or any(f not in (None, "EX", "TPL", "TPLA")
                              for f in files):
            return False, "", None, quiet, debug and "trace"
        tpl = opts.get("t", "prompts")
        if tpl == "EX" or opts.get("e") in ("TPL", "TPLA") or (
                name not in (old, new)):
            # Files are read as something else.
            return None, "", "any", quiet, debug
        if (tpl == "TPLA") != bool(opts.get("a")):
            return False, "", None, quiet, debug and "trace"

        def done(after):
            out = []
            loc, rem = ("LA", "RA") if tpl == "TPLA" else ("L2", "R2")
            limit = {"TPL": "50KiB", "TPLA": "60KiB"}.get(tpl, PROMPTED)
            rest = {p: n for p, n in before.items()
                    if not p.startswith(loc + "/")}
            same = {p: n for p, n in after.items() if p in rest}
            if same != rest:
                out.append("other files changed: {}".format(
                    model_diff(rest, same)))
            config = after.get("profile {} config".format(new), "")
            for line in ("LocalDir=" + w.p(loc), "RemoteDir=" + w.p(rem),
                         "StorageLimit=" + limit):
                if line not in config.split("\n"):
                    out.append("{} isn't in the config".format(line))
            ex = after.get("profile {} exclude".format(new), "")
            if (EXCLUDES.strip() in ex.split("\n")) != ("e" in opts):
                out.append("exclude file: {!r}".format(ex))
            for p, text in (("x", b"x"), ("d/y", b"y")):
                for top in (loc, rem):
                    n = after.get(top + "/" + p)
                    if n is None or (n[:2] != ("f", text) and n != ("r",)):
                        out.append("{}/{}: {}".format(top, p, n))
            return out
        return True, "", done, quiet, debug
    if name not in (old, "L1") and not (
            command != "init" and name == w.p("L1")):
        return False, "", None, quiet, debug and "trace"

    def done(after):
        out = []
        rest = ("L2", "RA", "home")
        if part(before, *rest) != part(after, *rest):
            out.append("other files changed")
        was_r = {p[2:]: n for p, n in part(before, "R").items()
                 if "/.zielen/" not in p}
        now_r = {p[2:]: n for p, n in part(after, "R").items()
                 if "/.zielen/" not in p}
        was_t = {p for p in before if "/.zielen/" in p}
        now_t = {p for p in after if "/.zielen/" in p}
        was_l = {p[3:]: n for p, n in part(before, "L1").items()}
        now_l = {p[3:]: n for p, n in part(after, "L1").items()}
        exists = "profile {} config".format(old) in after
        if exists != (command != "reset"):
            out.append("does the profile exist: {}".format(exists))
        if command == "sync":
            want = dict(was_r, n=was_l["n"])
            if now_r != want or set(now_l) != set(want) or now_t != was_t:
                out.append("not synced: {}".format(sorted(now_r)))
        elif command == "empty-trash":
            if now_t or now_r != was_r or now_l != was_l:
                out.append("trash: {}".format(now_t))
        elif opts.get("n"):
            want = {p: n for p, n in was_l.items() if n != ("r",)}
            if now_l != want or now_r != was_r or now_t != was_t:
                out.append("local {} remote {} trash {}".format(
                    sorted(now_l), sorted(now_r), sorted(now_t)))
        else:
            want = {p: was_r[p] if n == ("r",) else n
                    for p, n in was_l.items()}
            if now_l != want:
                out.append("local {} instead of {}".format(
                    sorted(now_l.items()), sorted(want.items())))
            if opts.get("k"):
                if now_r != was_r or now_t != was_t:
                    out.append("remote {}".format(sorted(now_r)))
            elif now_r or now_t:
                out.append("remote {}".format(sorted(now_r)))
        return out
    return True, "files deleted" if command == "empty-trash" else "", (
        done), quiet, debug


def model_diff(a, b):
    return [(p, a.get(p), b.get(p)) for p in sorted(set(a) | set(b))
            if a.get(p) != b.get(p)][:5]


def check_words(ctx, words):
    w = ctx.world
    ctx.check_time()
    old, new = w.name(1), w.name(2)
    sub = {"OLD": old, "NEW": new, "L1": w.p("L1")}
    argv = [sub.get(x, x) for x in words]
    plain = [new if x == "NEW" else old if x == "OLD" else x for x in words]
    ok, prints, done, quiet, debug = expected(
        w, plain, old, new, ctx.before)
    trail = "zielen " + " ".join(words)
    if ctx.dirty:
        w.load(base(ctx))
    stdin = "{}\n{}\n{}\n".format(w.p("L2"), w.p("R2"), PROMPTED)
    prefix, sys.prefix = sys.prefix, w.p("home/prefix")
    try:
        res = run_cli(argv, stdin)
    finally:
        sys.prefix = prefix
    ctx.stats["evaluations"] += 1
    after = observe(w)
    ctx.dirty = True
    if done is None:
        if after != ctx.before:
            ctx.fail("effect", "{}\nthis shouldn't change anything: {}"
                     .format(trail, model_diff(ctx.before, after)))
        # Only databases could differ.
        if ok is False and res.kind == "error" and "NEW" not in words and (
                "init" not in words):
            ctx.dirty = False
    if ok is False:
        # With --debug it prints a stack trace of what would be a message,
        # unless it doesn't even understand the command line.
        refused = (res.kind == "error" and debug != "trace"
                   or (debug and res.kind == "exc"
                       and is_program_error(res.detail)))
        if not refused:
            ctx.fail("accepted", "{}\nthis should be refused: {}".format(
                trail, res))
        if not res.detail:
            ctx.fail("message", "{}\nno message".format(trail))
    elif ok is True:
        if not res.ok:
            ctx.fail("refused", "{}\nthis should work: {}".format(trail, res))
        if quiet and (res.out or res.err):
            ctx.fail("quiet", "{}\nprinted {!r}".format(
                trail, res.out + res.err))
        if prints == "help" and not quiet:
            shows_help(ctx, words, res, trail)
        elif prints and not quiet and prints not in res.out:
            ctx.fail("output", "{}\nprinted {!r}".format(trail, res.out))
        if callable(done):
            problems = done(after)
            if problems:
                ctx.fail("result", "{}\n{}".format(
                    "\n".join(problems), trail))
            ctx.stats["traces"] += 1
    elif res.kind == "exc" and not is_program_error(res.detail):
        ctx.fail("exception", "{}\n{}".format(trail, res))
    if callable(done):
        ctx.sample("{} -> {}".format(trail, res), 3)
    ctx.state((tuple(words), res.kind))
    ctx.stats["transitions"] += 1
    ctx.outcomes["{}: {}".format(
        "any" if ok is None else "valid" if ok else "invalid",
        res.kind)] += 1


def is_program_error(detail):
    return detail.split(":")[0] in (
        "InputError", "ProgramError", "StatusError", "FileParseError",
        "RemoteError", "FileTransferError", "AvailableSpaceError",
        "ServerError")


def shows_help(ctx, words, res, trail):
    first = next((n for n, x in enumerate(words) if x in COMMANDS), len(words))
    i = next(n for n, x in enumerate(words)
             if x == "--help" or x == "--version" and n < first)
    text = res.out
    if words[i] == "--version":
        if not re.match(r"zielen \S+\n$", text):
            ctx.fail("version", "{}\nprinted {!r}".format(trail, text))
        return
    command = next((x for x in words[:i] if x in COMMANDS), None)
    need = list(COMMANDS) + GLOBALS if command is None else (
        [command] + [x for x, key in LONG.items()
                     if key in (COMMANDS[command] or "")] + [
                         "-" + key for key in COMMANDS[command] or ""])
    missing = [x for x in need if x not in text]
    if missing:
        ctx.fail("help", "{}\n{} isn't in the help".format(trail, missing))
    others = [x for x in LONG if x in text and x not in need]
    if others:
        ctx.fail("help", "{}\n{} is in the help".format(trail, others))


def run(ctx, job):
    kind = job[0]
    if kind == "tty":
        return run_tty(ctx, *job[1:])
    base(ctx)
    ctx.dirty = True
    if kind == "words":
        n, i, j = job[1:]
        if j is None:
            for length in range(n):
                for rest in itertools.product(WORDS, repeat=length):
                    check_words(ctx, [WORDS[i]] + list(rest))
            if i == 0:
                check_words(ctx, [])
        elif j < 0:
            check_words(ctx, [WORDS[i]])
        else:
            for length in range(n - 1):
                for rest in itertools.product(WORDS, repeat=length):
                    check_words(ctx, [WORDS[i], WORDS[j]] + list(rest))
    else:
        n, command, i, k = job[1:]
        own = OWN[command]
        first = [] if i < 0 else own[i].split(" ")
        for length in range(n if i >= 0 else 1):
            if k >= 2 and length == n - 1 and ctx.tier != "thorough":
                continue
            for rest in itertools.product(own, repeat=length):
                words = " ".join(rest).split()
                check_words(ctx, BEFORE[k] + [command] + first + words)


# ----------------------------------------------------------------- terminal

def run_tty(ctx, s, i):
    w = ctx.world
    saved, client = c08.base(ctx, i)
    w.load(saved)
    ops, kind = scenarios(ctx.tier)[s]
    for op in ops:
        op.func(w)
        w.advance()
    if kind is None:
        for p in ("x", "d/y", "\u00e9\u65e5"):
            w.write("L2/" + p, p.encode())
            w.write("RA/" + p, p.encode())
        w.write("L2/empty", b"")
    else:
        for top in ("L2", "RA"):
            os.makedirs(w.p(top + "/d"))
            for n in ("x", "y", "d/z"):
                BARE[kind](w, top, n)
    here = w.save()
    for command in TTY_COMMANDS:
        seen = None
        for columns in [None] + COLUMNS:
            ctx.check_time()
            w.load(here)
            core.TTY = columns
            try:
                if command == "init":
                    res = w.init(2, "20KiB", local=w.p("L2"),
                                 remote=w.p("R2"))
                elif command == "init -a":
                    res = w.init(2, "20KiB", True, local=w.p("LA"),
                                 remote=w.p("RA"))
                else:
                    argv = command.split()
                    if command != "list":
                        argv.append(w.name(1))
                    res = run_cli(argv)
            finally:
                core.TTY = None
            ctx.stats["transitions"] += 1
            now = (res.kind, res.detail, observe(w, False))
            trail = "{}, limit {}: {} with {} columns".format(
                ops, c08.LIMITS[i], command, columns)
            check_progress(ctx, res, columns, trail)
            if columns is None:
                seen = now
                if res.kind == "exc":
                    ctx.fail("exception", "{}\n{}".format(trail, res))
            elif now != seen:
                ctx.fail("terminal", "{}\n{} instead of {}\n{}".format(
                    trail, now[:2], seen[:2], model_diff(seen[2], now[2])))
            ctx.state(sorted(now[2].items(), key=str))
        ctx.outcomes["terminal {}: {}".format(command, res.kind)] += 1
        ctx.stats["traces"] += 1


def check_progress(ctx, res, columns, trail):
    """What is shown of the transfer of files."""
    if columns is None:
        if "\r" in res.out or "%" in res.out:
            ctx.fail("progress", "there is no terminal, but: {!r}\n{}".format(
                res.out, trail))
        return
    last = 100
    for line in res.out.split("\r")[:-1]:
        line = line.split("\n")[-1]
        percent = line.split()[-1] if line.split() else ""
        if not re.match(r"[0-9]+%$", percent):
            ctx.fail("progress", "{!r}\n{}".format(line, trail))
        if columns >= 10 and len(line) != columns:
            ctx.fail("progress", "{} characters: {!r}\n{}".format(
                len(line), line, trail))
        percent = int(percent[:-1])
        if percent > 100 or last != 100 and percent < last:
            ctx.fail("progress", "{}% after {}%\n{}".format(
                percent, last, trail))
        last = percent
    if res.ok and ": init with" in trail and "%" not in res.out:
        ctx.fail("progress", "no progress is shown\n{}".format(trail))
    if res.ok and last != 100:
        ctx.fail("progress", "it ended at {}%\n{}".format(last, trail))
