"""C05: exclusion of files follows the patterns of each client."""
import itertools
import re

import core
from synclib import *

ID = "C05"
LEVEL = "model_checking"
RULE = ("(patterns) every pattern file over the bounded pattern grammar, used "
        "at initialization and, in another history, set after a sync with "
        "files that are only in the remote directory; (clients) every "
        "sequence of edits, changes of the exclude patterns and syncs of two "
        "clients up to the bound, each closed by syncing in turn. Distinct "
        "states are resulting trees")
ASSUMPTIONS = [
    "patterns are those of the man page: no character ranges, and a double "
    "asterisk is a whole path component",
    "names don't begin or end with white space",
]

# ----------------------------------------------------------------- patterns

FILES = ["b", "ab", ".a", "*", "#a", "[a]", "a/a", "a/b/a", "a/b/.a", "a/.a/b",
         "a/*", ".b/a", ".b/b/a", "ba/a", "ba/ab", "ba/a.b", "a.b/a"]
DIRS = ["ba/b", "e", "ba/.e"]
LINKS = {"s": "a", "t.b": "nope", "ba/u": "../b"}


def component_sets():
    one = ["a", "b", "*", "?", "[ab]", "[*]", "[#]", "[?]", "[[]"]
    two = [x + y for x in ["a", "b", ".", "*", "?", "[ab]", "#"]
           for y in ["a", "b", "*", "?", "[ab]", "[*]", "[.]"]]
    three = ["a.b", "*.b", "a.*", "?.?", "[[]a]", ".*", "*.*", "a?b", "[ab.]b"]
    return ["**"] + one + two + three


SMALL = ["a", "b", "*", "**", "?", "[ab]", ".*", "?a", "a*"]


def patterns(tier):
    comps = component_sets()
    out = []
    for c in comps:
        for lead in ("", "/"):
            for trail in ("", "/"):
                out.append(lead + c + trail)
    for x, y in itertools.product(SMALL, SMALL if tier == "quick" else comps):
        for lead in ("", "/"):
            for trail in ("", "/"):
                out.append(lead + x + "/" + y + trail)
    tiny = ["a", "*", "**", ".*"] + ([] if tier == "quick" else ["?", "b"])
    for x in itertools.product(tiny, repeat=3):
        for lead in ("", "/"):
            out.append(lead + "/".join(x))
    return [[p] for p in sorted(set(out))]


LINES = ["# a", "  # b", "#a", "", "   ", "  a  ", "b", "/a", "/b", "ba/", "*",
         "/a/b", "a.b", "[#]a", "nothing", "/ba/a"]


def pattern_files(tier):
    n = 2 if tier == "quick" else 3
    return patterns(tier) + [list(x) for k in range(n + 1)
                             for x in itertools.product(LINES, repeat=k)]


def component_regex(c):
    """The regular expression of one component of a pattern."""
    out, i = "", 0
    while i < len(c):
        if c[i] == "*":
            out += "[^/]*"
        elif c[i] == "?":
            out += "[^/]"
        elif c[i] == "[" and "]" in c[i + 2:]:
            j = c.index("]", i + 2)
            out += "[" + re.escape(c[i + 1:j]) + "]"
            i = j
        else:
            out += re.escape(c[i])
        i += 1
    return re.compile(out + r"\Z")


def match_components(pat, parts, is_dir):
    if not pat:
        return not parts
    if pat[0] == "**":
        for n in range(len(parts) + 1):
            if n and parts[n - 1].startswith("."):
                return False
            # There is nothing below a file.
            if n == len(parts) and n == 0 and not is_dir:
                return False
            if match_components(pat[1:], parts[n:], is_dir):
                return True
        return False
    if not parts:
        return False
    if parts[0].startswith(".") and not pat[0].startswith("."):
        return False
    return bool(component_regex(pat[0]).match(parts[0])) and match_components(
        pat[1:], parts[1:], is_dir)


def excluded_by(lines, tree_):
    """The paths that the man page says are excluded. tree_: {path: is_dir}"""
    hit = set()
    for line in lines:
        line = line.strip()
        if not line or line.startswith("#"):
            continue
        dirs_only = line.endswith("/")
        pat = line.strip("/").split("/")
        if not line.startswith("/"):
            pat = ["**"] + pat
        for p, is_dir in tree_.items():
            if dirs_only and not is_dir:
                continue
            if match_components(pat, p.split("/"), is_dir):
                hit.add(p)
        # The sync directory itself.
        if match_components(pat, [], True):
            return set(tree_)
    return hit | {p for p in tree_ for q in model.parents(p) if q in hit}


import model  # noqa: E402


def make(w, side):
    for f in FILES:
        w.write(side + "/" + f, b"the file " + f.encode())
    for d in DIRS:
        os.makedirs(w.p(side + "/" + d))
    for f, target in LINKS.items():
        os.symlink(target, w.p(side + "/" + f))


def shape():
    out = {}
    for f in FILES + list(LINKS):
        out[f] = False
        for q in model.parents(f):
            out[q] = True
    for d in DIRS:
        out[d] = True
        for q in model.parents(d):
            out[q] = True
    return out


SHAPE = shape()
assert all("/" in p or not p.startswith("/") for p in SHAPE)


def check_split(ctx, lines, ex, title):
    w = ctx.world
    loc, rem = local(w), remote(w)
    want_remote = set(SHAPE) - ex
    if set(rem) != want_remote:
        ctx.fail("pattern", "in the remote directory but excluded: {}; missing"
                 ": {}\n{}".format(sorted(set(rem) - want_remote),
                                   sorted(want_remote - set(rem)), title))
    if set(loc) != set(SHAPE):
        ctx.fail("pattern-local", "local files lost: {}, made: {}\n{}".format(
            sorted(set(SHAPE) - set(loc)), sorted(set(loc) - set(SHAPE)),
            title))
    for p in SHAPE:
        n = loc[p]
        if SHAPE[p]:
            continue
        want = (("l", LINKS[p]) if p in LINKS
                else ("f", b"the file " + p.encode()))
        if p in ex and n[:2] != want:
            ctx.fail("pattern-kept", "excluded {} is {}\n{}".format(
                p, n, title))
        if p not in ex and n != ("r",) and n[:2] != want:
            ctx.fail("pattern-kept", "{} is {}\n{}".format(p, n, title))
    ctx.state((tuple(sorted(ex)), tuple(sorted(
        (p, n[0]) for p, n in loc.items()))))


def run_patterns(ctx, lines):
    w = ctx.world
    if any(x.strip() in ("/", "//") for x in lines):
        return
    ex = excluded_by(lines, SHAPE)
    if ex != excluded_by(lines, dict(SHAPE, s=True)):
        # It's unspecified if a link to a directory is a directory.
        return
    ctx.stats["transitions"] += 5
    ctx.stats["traces"] += 2
    ctx.outcomes["{} of {} excluded".format(len(ex), len(SHAPE))] += 1
    # Excluded from the start.
    title = "{} (at initialization)".format(lines)
    w.load(ctx.fresh)
    r = w.init(1, "0KiB", exclude=lines)
    if not r.ok:
        ctx.fail("pattern-init", "{}\n{}".format(r, title))
    check_split(ctx, lines, ex, title)
    w.advance()
    for x in range(2):
        r = w.sync()
        if not r.ok:
            ctx.fail("pattern-sync", "{}\n{}".format(r, title))
        check_split(ctx, lines, ex, title + " after a sync")
        w.advance()
    # Excluded later on, when everything is remote.
    w.load(ctx.synced)
    w.set_exclude(1, lines)
    title = "{} (set after a sync)".format(lines)
    for x in range(2):
        r = w.sync()
        if not r.ok:
            ctx.fail("pattern-sync", "{}\n{}".format(r, title))
        check_split(ctx, lines, ex, title)
        w.advance()
    ctx.sample("{} excludes {}".format(lines, sorted(ex)[:6]), 4)


# ------------------------------------------------------------------ clients

PATTERNS = [(), ("*.x",), ("/d",)]


def set_pattern(n, lines):
    def f(w):
        path = w.profile_dir(n) + "/exclude"
        old = [x for x in open(path).read().splitlines()
               if x and not x.startswith("#")]
        if old == list(lines):
            return False
        w.set_exclude(n, lines)
        return True
    return Op("exclude{} {}".format(n, list(lines)), f)


def client_ops(tier):
    out = [set_pattern(n, p) for n in (1, 2) for p in PATTERNS]
    for n in (1, 2):
        out += [op_replace("L{}".format(n), "a.x"),
                op_rm("L{}".format(n), "a.x"),
                op_replace("L{}".format(n), "d/n.x"),
                op_rm("L{}".format(n), "d"), op_write("L{}".format(n), "d/b"),
                op_rm("L{}".format(n), "d/b")]
    return out


LIMITS2 = [("1000KiB", "0KiB"), ("0KiB", "1000KiB")]


def depth(tier):
    return {"quick": 3, "thorough": 4}[tier]


def bound(tier):
    return ("{} pattern files x (at initialization, set later); {} operations "
            "+ 2 syncs of two clients, limits {}, depth {}".format(
                len(pattern_files(tier)), len(client_ops(tier)), LIMITS2,
                depth(tier)))


CHUNK = 12


def jobs(tier):
    pf = pattern_files(tier)
    out = [["patterns", pf[i:i + CHUNK]] for i in range(0, len(pf), CHUNK)]
    n = len(client_ops(tier)) + 2
    for i in range(len(LIMITS2)):
        for x in range(n):
            for y in range(n):
                    out.append(["clients", i, x, y])
    for d in ROOTS:
        out.append(["root", d])
    return out


def setup(ctx):
    w = ctx.world
    w.fresh()
    os.makedirs(w.p("L1"))
    os.makedirs(w.p("R"))
    make(w, "L1")
    w.advance()
    ctx.fresh = w.save()
    for step in (lambda: w.init(1, "0KiB"), w.sync):
        r = step()
        if not r.ok:
            ctx.fail("setup", "init/sync failed: {}".format(r))
        w.advance()
    ctx.synced = w.save()
    ctx.bases = {}


def base(ctx, i):
    if i not in ctx.bases:
        w = ctx.world
        w.fresh()
        os.makedirs(w.p("L1"))
        os.makedirs(w.p("R"))
        w.write("L1/a.x", b"a0")
        w.write("L1/d/b", b"b0")
        w.write("L1/c", b"c0")
        w.advance()
        for step in (lambda: w.init(1, LIMITS2[i][0]), lambda: w.sync(1),
                     lambda: w.init(2, LIMITS2[i][1], add_remote=True),
                     lambda: w.sync(2)):
            r = step()
            if not r.ok:
                ctx.fail("setup", "init/sync failed: {}".format(r))
            w.advance()
        ctx.bases[i] = w.save()
    return ctx.bases[i]


def lines_of(w, n):
    with open(w.profile_dir(n) + "/exclude") as f:
        return [x for x in f.read().splitlines()]


def visible(w, n):
    """What the user of a client can read, stand-ins resolved."""
    out = {}
    rem = remote(w)
    for p, node in local(w, n).items():
        if node == ("r",):
            node = rem.get(p, ("broken",))
        out[p] = node[:2]
    return out


def all_contents(w):
    out = set()
    for t in (visible(w, 1), visible(w, 2), remote(w), trash(w)):
        out |= {n[1] for n in t.values() if n[0] == "f"}
    return out


def run_clients(ctx, i, first, second):
    w = ctx.world
    start_ = base(ctx, i)
    ops = client_ops(ctx.tier)

    def sync_(n, trail):
        ctx.check_time()
        ctx.stats["transitions"] += 1
        before = local(w, n)
        r = w.sync(n)
        if not r.ok:
            ctx.fail("clients-" + r.kind, "sync {} failed: {}\n{}".format(
                n, r, trail))
        w.advance()
        loc = local(w, n)
        shape_ = {p: x == ("d",) for p, x in loc.items()}
        for p in excluded_by(lines_of(w, n), shape_):
            # It stays in the local directory or is copied to it. (A file
            # that's new in the remote directory is only excluded the next
            # time.)
            # Neither is the winner of a conflict.
            if loc[p] == ("r",) and p in before and not any(
                    "_conflict-" in q and q not in before for q in loc):
                ctx.fail("clients-kept", "{} is excluded by client {} but not "
                         "kept locally\n{}".format(p, n, trail))
        shape0 = {p: x == ("d",) for p, x in before.items()}
        for p in excluded_by(lines_of(w, n), shape0):
            if before[p][0] == "f" and p not in loc:
                ctx.fail("clients-lost", "{} is excluded by client {} but was "
                         "deleted\n{}".format(p, n, trail))

    def close(live, trail):
        for k in range(3):
            for n in (1, 2):
                sync_(n, trail)
        state1 = (local(w, 1), local(w, 2), remote(w), trash(w))
        for n in (1, 2):
            sync_(n, trail)
        state2 = (local(w, 1), local(w, 2), remote(w), trash(w))
        if state1 != state2:
            ctx.fail("clients-unstable", "{}\n{}".format(
                [model.diff(a, b) for a, b in zip(state1, state2) if a != b],
                trail))
        rem = state2[2]
        ex, vis = {}, {}
        for n in (1, 2):
            vis[n] = visible(w, n)
            for p, node in vis[n].items():
                if node == ("broken",):
                    ctx.fail("clients-dangling", "{} of client {} points to "
                             "nothing\n{}".format(p, n, trail))
            ex[n] = excluded_by(
                lines_of(w, n),
                {p: x == ("d",) for p, x in list(vis[n].items())
                 + list(rem.items())})
        for p in rem:
            if p in ex[1] and p in ex[2]:
                ctx.fail("clients-remote", "{} is excluded by both clients but"
                         " still in the remote directory\n{}".format(
                             p, trail))
            for n in (1, 2):
                if vis[n].get(p) != rem[p][:2]:
                    ctx.fail("clients-differ", "{} of client {} is {} but {} "
                             "in the remote directory\n{}".format(
                                 p, n, vis[n].get(p), rem[p], trail))
        for n in (1, 2):
            for p in vis[n]:
                if p not in ex[n] and p not in rem:
                    ctx.fail("clients-unsynced", "{} of client {} isn't "
                             "excluded but not synced\n{}".format(p, n, trail))
        lost = live - all_contents(w)
        if lost:
            ctx.fail("clients-contents", "lost {}\n{}".format(lost, trail))
        ctx.stats["traces"] += 1
        ctx.outcomes["{} remote, {} and {} local".format(
            len(rem), len(vis[1]), len(vis[2]))] += 1

    def step(x, live, trail):
        """The live contents afterwards or None."""
        if x >= len(ops):
            sync_(x - len(ops) + 1, trail)
            return live
        label = ops[x].label
        gone = set()
        if not label.startswith("exclude"):
            side, _, path = label.split(" ")[1].partition("/")
            n = int(side[1])
            gone = {v[1] for p, v in visible(w, n).items()
                    if v[0] == "f" and (p + "/").startswith(path + "/")}
        if not ops[x].func(w):
            return None
        live = live - gone
        if not label.startswith(("exclude", "rm")):
            v = visible(w, n)[path]
            live = live | {v[1]}
        w.advance()
        ctx.stats["transitions"] += 1
        return live

    def label(x):
        return repr(ops[x]) if x < len(ops) else "sync {}".format(
            x - len(ops) + 1)

    def dfs(state, live, path, left, forced):
        for x in (forced[:1] or range(len(ops) + 2)):
            if path and path[-1] == x:
                continue
            # Two changes of the patterns of the same client in a row.
            if path and x < 6 and path[-1] < 6 and x // 3 == path[-1] // 3:
                continue
            # Operations of different clients commute: sync last.
            w.load(state)
            trail = "{} {}".format(LIMITS2[i], [label(y) for y in path + [x]])
            new = step(x, live, trail)
            if new is None:
                continue
            if forced[1:]:
                dfs(w.save(), new, path + [x], left - 1, forced[1:])
                continue
            key = (i, canonical(w), sorted(new))
            if not ctx.state(key):
                continue
            saved = w.save()
            close(new, trail)
            ctx.sample(trail, 6)
            if left > 1:
                dfs(saved, new, path + [x], left - 1, ())

    dfs(start_, {b"a0", b"b0", b"c0"}, [], depth(ctx.tier), (first, second))


def canonical(w):
    trees = [local(w, 1), local(w, 2), remote(w)]
    stamps = sorted({n[2] for t in trees for n in t.values() if n[0] in "fl"}
                    | {int(last_sync(w, n) * 1e9) for n in (1, 2)})
    rank = {s: k for k, s in enumerate(stamps)}
    return ([sorted((p, n[:2] + ((rank[n[2]],) if n[0] in "fl" else ()))
                    for p, n in t.items()) for t in trees],
            [rank[int(last_sync(w, n) * 1e9)] for n in (1, 2)],
            db_state(w, 1), db_state(w, 2), lines_of(w, 1)[-1:],
            lines_of(w, 2)[-1:],
            sorted((f, open(w.p("R/.zielen/exclude/" + f)).read()[-8:])
                   for f in os.listdir(w.p("R/.zielen/exclude"))))


# Names of local directories that look like patterns.
ROOTS = ["L[1]", "L*", "L?", "**", "[!L]", ".L", "L#", "#L"]


def run_root(ctx, name):
    w = ctx.world
    for lines in (["/a"], ["ab"], ["a/"], ["ba/*"], ["**/b"]):
        w.load(ctx.fresh)
        os.rename(w.p("L1"), w.p(name))
        r = w.init(1, "1000KiB", exclude=lines, local=w.p(name))
        if not r.ok:
            ctx.fail("root-init", "{}\n{}".format(r, name))
        ex = excluded_by(lines, SHAPE)
        for x in range(2):
            if set(remote(w)) != set(SHAPE) - ex:
                ctx.fail("root", "{} excluded with {} in {}".format(
                    sorted(set(SHAPE) - set(remote(w))), lines, name))
            w.advance()
            r = w.sync()
            if not r.ok:
                ctx.fail("root-sync", "{}\n{}".format(r, name))
        ctx.state((name, lines))
        ctx.stats["transitions"] += 3


def run(ctx, job):
    if job[0] == "root":
        return run_root(ctx, job[1])
    if job[0] == "patterns":
        for lines in job[1]:
            run_patterns(ctx, lines)
    else:
        run_clients(ctx, *job[1:])
