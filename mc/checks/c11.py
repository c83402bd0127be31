"""C11: reset brings the files back and loses none, even if it's interrupted."""
import errno
import itertools
import signal

import core
import faults
import model
from core import run_cli
from synclib import *
from checks import c01

ID = "C11"
LEVEL = "model_checking"
RULE = ("every pair of edits (one on each side, or two on one side) since the "
        "last sync x storage limits x options of reset, where the edits of the "
        "remote directory are made there directly or by another client's sync; "
        "for some of these, reset is also killed, signalled or made to fail at "
        "each of its operations and then run again, or followed by a sync. "
        "Distinct states are (local, remote) after reset; distinct cases are "
        "(scenario, fault, operation)")
ASSUMPTIONS = [
    "nothing changes the files while reset runs",
    "the process dies, the system doesn't: what was written stays written",
]

LIMITS = ["1000KiB", "0KiB", "20KiB"]
MODES = {"plain": [], "keep": ["-k"], "none": ["-n"]}
# Directories replaced with files and so on are part of these.
NAMES = ("a", "d/b.txt", "n", "d", "s", "z", "d/n", "t", "d/e/c", "d/e", "y")


def local_ops():
    out = [o for o in c01.ops_for("L1")
           if o.label.split("/", 1)[1].split()[0] in NAMES]
    return out


def remote_ops(side):
    out = [o for o in c01.ops_for(side)
           if o.label.split("/", 1)[1].split()[0] in NAMES]
    if side == "L2":
        out = [o for o in out if not o.label.startswith("ln L2/a")]
    return out


CRASH = [
    [op_replace("L1", "a"), op_replace("R", "d/b.txt"), op_replace("L1", "n")],
    [op_replace("R", "a"), op_replace("L1", "a"), op_rm("L1", "d/e")],
    [op_replace("L1", "a"), op_replace("R", "a"), op_rm("R", "d/e/c")],
    [op_dirify("L1", "a"), op_rm("R", "z"), op_link("L1", "t", "a")],
    [op_dirify("R", "a"), op_replace("L1", "s"), op_write("L1", "d/b.txt")],
    [op_replace("R", "n"), op_replace("L1", "n")],
]
PARTS = 3
LINKS = [("u1", "ROOT/R-old/x"), ("u2", "ROOT"), ("d/u3", "../../R-old"),
         ("d/e/u4", "../../../Rx")]


def bound(tier):
    a, b = len(local_ops()), len(remote_ops("R"))
    return ("{} limits x {} modes x ({}x{} pairs of direct edits + {}x{} pairs "
            "with another client{}); every operation of reset x (kill, "
            "SIGTERM, EIO) in {} scenarios x {} limits x 3 modes, then reset "
            "or sync".format(
                len(LIMITS), len(MODES), a + 1, b + 1, a + 1,
                len(remote_ops("L2")) + 1,
                " + all pairs on one side" if tier == "thorough" else "",
                len(CRASH), len(LIMITS)))


def jobs(tier):
    out = []
    for i in range(len(LIMITS)):
        for via in ("R", "L2"):
            for k in range(-1, len(remote_ops(via))):
                out.append(["pairs", i, via, k])
        for n in range(len(CRASH)):
            for mode in MODES:
                for part in range(PARTS):
                    out.append(["crash", i, n, mode, part])
        if tier == "thorough":
            for k in range(len(local_ops())):
                out.append(["local", i, k])
            for k in range(len(remote_ops("R"))):
                out.append(["remote", i, k])
    return out


def setup(ctx):
    ctx.bases = {}


def base(ctx, i, two):
    w = ctx.world
    key = (i, two)
    if key not in ctx.bases:
        r = start(w, LIMITS[i])
        if two:
            for step in (lambda: w.init(2, "1000KiB", add_remote=True),
                         lambda: w.sync(2), lambda: w.sync(1)):
                if r.ok:
                    r = step()
                    w.advance()
        if not r.ok:
            ctx.fail("setup", "init/sync failed: {}".format(r))
        cl = Client(w)
        # Links of the user that are never synced, to places that aren't in
        # the remote directory but look like it.
        for path, target in LINKS:
            os.symlink(target.replace("ROOT", w.root), w.p("L1/" + path))
        ctx.bases[key] = (w.save(), cl)
    return ctx.bases[key]


def reset(w, mode):
    return run_cli(["reset"] + MODES[mode] + [w.name(1)])


class Want:
    """What reset must make of the local directory."""

    def __init__(self, base, local, remote, known, retrieve):
        self.files, self.dirs, self.spare_dirs = {}, set(), set()
        self.conflicts = []       # (path, node) that must be there
        self.spare = []           # (path, node) that may be
        self.unretrieved = False
        for p in set(base) | set(local) | set(remote):
            b, l, r = base.get(p), local.get(p), remote.get(p)
            if l is not None and l[0] == "r":
                l = None
            if l == ("d",):
                self.dirs.add(p)
            if l is not None and l[0] == "u":
                self.files[p] = l
                continue
            if not retrieve:
                if model.is_file(l):
                    self.files[p] = l
                continue
            if r == ("d",):
                (self.dirs if p in known else self.spare_dirs).add(p)
            if model.is_file(r) and p not in known:
                self.unretrieved = True
            lf = l if model.is_file(l) else None
            rf = r if model.is_file(r) else None
            lc = lf is not None and lf != b
            rc = rf is not None and rf != b
            if lf is not None and r == ("d",):
                (self.conflicts if lc else self.spare).append((p, lf))
            elif rf is not None and l == ("d",):
                (self.conflicts if rc else self.spare).append((p, rf))
            elif rf is not None and p not in known:
                # It stays where it is.
                if lf is not None:
                    self.files[p] = None
                    self.conflicts.append((p, lf))
                    self.spare.append((p, rf))
            elif lf is None:
                if rf is not None:
                    self.files[p] = rf
            elif rf is None or (lc and not rc):
                self.files[p] = lf
            elif not lc:
                self.files[p] = rf
            elif lf[:2] == rf[:2]:
                self.files[p] = None
                self.conflicts.append((p, lf[:2]))
            else:
                lm, rm = lf[2] if len(lf) > 2 else 0, rf[2]
                win, lose = (rf, lf) if lm < rm else (lf, rf)
                self.files[p] = win
                self.conflicts.append((p, lose))
        for p in list(self.files):
            self.dirs.update(model.parents(p))

    def contents(self):
        out = {n[:2] for n in self.files.values()
               if n is not None and n[0] != "u"}
        return out | {n[:2] for p, n in self.conflicts}

    def match(self, actual):
        """Problems with the local directory."""
        problems = []
        left = dict(actual)
        for p, n in self.files.items():
            got = left.pop(p, None)
            if n is None:
                # One of these, or a file with a new name is.
                if got is not None and (p, got) in self.conflicts:
                    self.conflicts.remove((p, got))
                elif got is not None and (p, got[:2]) in self.conflicts:
                    self.conflicts.remove((p, got[:2]))
                elif got is not None and (p, got) not in self.spare:
                    problems.append("{}: found {}".format(p, model.short(got)))
            elif got != n:
                problems.append("{}: expected {}, found {}".format(
                    p, model.short(n), model.short(got)))
        for p in self.dirs:
            if left.pop(p, None) != ("d",):
                problems.append("{}: no directory".format(p))
        for p in self.spare_dirs:
            if left.get(p) == ("d",):
                del left[p]
        for need, pairs in ((True, self.conflicts), (False, self.spare)):
            for path, node in pairs:
                pattern = model.conflict_pattern(path)
                for p in sorted(left):
                    if left[p][:len(node)] == node and pattern.match(p):
                        del left[p]
                        break
                else:
                    if need:
                        problems.append("no conflict file for {} with {}"
                                        .format(path, model.short(node)))
        return problems + ["{}: unexpected {}".format(p, model.short(n))
                           for p, n in sorted(left.items())]


def known_paths(w, base):
    """What the program has synced, by this client or another one."""
    return set(base) & set(remote(w))


def all_files(*trees):
    return {n[:2] for t in trees for n in t.values() if n[0] in "fl"}


def check_reset(ctx, saved, cl, mode, known, trail):
    w = ctx.world
    ctx.check_time()
    w.load(saved)
    loc, rem = local(w), remote(w)
    want = Want(cl.base, loc, rem, known, mode != "none")
    res = reset(w, mode)
    ctx.stats["transitions"] += 1
    now, now_r = local(w), remote(w)
    trail = "{}\nreset {}".format(trail, mode)
    if mode == "plain" and want.unretrieved:
        # There are files it doesn't know about.
        if res.kind != "error" or "not retrieved" not in res.detail:
            ctx.fail("unretrieved", "reset with files it doesn't know: {}\n{}"
                     .format(res, trail))
        if now_r != rem:
            ctx.fail("remote", "{}\n{}".format(model.diff(rem, now_r), trail))
        lost = all_files(loc, rem) - all_files(now, now_r) - all_files({
            p: cl.base[p] for p in loc if p in cl.base and loc[p] ==
            cl.base[p]})
        if lost:
            ctx.fail("lost", "lost {}\n{}".format(lost, trail))
        w.advance()
        r = w.sync(1)
        if not r.ok:
            ctx.fail("sync-" + r.kind, "the sync after that failed: {}\n{}"
                     .format(r, trail))
        ctx.outcomes[mode + " not retrieved"] += 1
        return
    if not res.ok:
        ctx.fail("reset-" + res.kind, "reset failed: {}\n{}".format(
            res, trail))
    problems = want.match(now)
    if problems:
        ctx.fail("local", "{}\n{}".format("\n".join(problems), trail))
    if mode == "plain":
        if os.listdir(w.p("R")):
            ctx.fail("leftovers", "left in the remote directory: {}\n{}"
                     .format(os.listdir(w.p("R")), trail))
    elif now_r != rem:
        ctx.fail("remote", "{}\n{}".format(model.diff(rem, now_r), trail))
    gone(ctx, trail)
    ctx.state((now, now_r))
    ctx.stats["traces"] += 1
    ctx.outcomes["{}: {} files, {} conflicts".format(
        mode, len(want.files), len(want.conflicts))] += 1
    ctx.sample("{} -> {}".format(trail, sorted(now)), 2)


def gone(ctx, trail):
    """The profile doesn't exist anymore."""
    w = ctx.world
    if os.path.exists(w.profile_dir(1)):
        ctx.fail("profile", "the profile is still there\n" + trail)
    r = w.sync(1)
    if r.kind != "error":
        ctx.fail("profile", "sync with a profile that was reset: {}\n{}"
                 .format(r, trail))


def run(ctx, job):
    w = ctx.world
    kind, i = job[:2]
    if kind == "crash":
        return crash(ctx, *job[1:])
    via = job[2] if kind == "pairs" else "R"
    saved, cl = base(ctx, i, via == "L2")
    w.load(saved)
    if kind == "local":
        first, others = local_ops()[job[2]], local_ops()
    elif kind == "remote":
        first, others = remote_ops("R")[job[2]], remote_ops("R")
    else:
        k = job[3]
        first = remote_ops(via)[k] if k >= 0 else None
        others = [None] + local_ops()
    if first is not None:
        if not first.func(w):
            return
        w.advance()
    if via == "L2":
        r = w.sync(2)
        w.advance()
        if not r.ok:
            ctx.fail("other", "the sync of the other client failed: {}"
                     .format(r))
    known = known_paths(w, cl.base)
    if via == "L2":
        known = set(remote(w))
    saved = w.save()
    for second in others:
        w.load(saved)
        if second is not None:
            if not second.func(w):
                continue
            w.advance()
        # An edit of a stand-in is an edit of the remote file.
        here = w.save()
        for mode in MODES:
            check_reset(ctx, here, cl, mode, known, "{} {} then {}".format(
                LIMITS[i], first, second))


def crash(ctx, i, n, mode, part):
    w = ctx.world
    saved, cl = base(ctx, i, False)
    w.load(saved)
    for op in CRASH[n]:
        op.func(w)
        w.advance()
    known = known_paths(w, cl.base)
    name = "{} {}\nreset {}".format(LIMITS[i], CRASH[n], mode)
    saved = w.save()
    loc, rem = local(w), remote(w)
    want = Want(cl.base, loc, rem, known, mode != "none")
    fails = mode == "plain" and want.unretrieved
    # Whatever is superseded on one side by a change on the other.
    needed = want.contents()
    if fails or mode != "plain":
        needed |= all_files(rem)
    # What a sync would keep.
    m = model.Merge(cl.base, loc, rem, cl.placeholders)
    synced = all_files(m.expected(), dict(m.conflicts))
    code, text, ops = faults.op_log(w, lambda: reset(w, mode))
    if code or text.startswith("ok") == fails:
        ctx.fail("reset", "reset: {} {}\n{}".format(code, text, name))
    for k in range(1 + part, len(ops) + 1, PARTS):
        op, path = ops[k - 1]
        acts = [("kill", core.ACT_KILL, 0)]
        if not faults.is_db(path):
            acts.append(("SIGTERM", core.ACT_SIGNAL, signal.SIGTERM))
            acts.append(("EIO", core.ACT_ERRNO, errno.EIO))
        for label, act, arg in acts:
            ctx.check_time()
            w.load(saved)
            trail = "{}\n{} at operation {} of {}: {} {}".format(
                name, label, k, len(ops), op, path)
            code, text, fired = faults.run_faulted(
                w, lambda: reset(w, mode), k, act, arg)
            if not fired:
                ctx.stats["not_reached"] += 1
                continue
            ctx.outcomes["{} {} {}".format(label, op, (
                "database" if faults.is_db(path) else "file"))] += 1
            ctx.state((n, i, mode, label, k))
            w.advance()
            crashed = w.save()
            here(ctx, needed, trail, "right away")
            for then in ("reset", "sync"):
                w.load(crashed)
                there = os.path.exists(w.profile_dir(1) + "/info.json")
                res = reset(w, mode) if then == "reset" else w.sync(1)
                where = "then {}: {}".format(then, res)
                if there and not (fails and then == "reset"):
                    if not res.ok:
                        ctx.fail("again-" + res.kind, where + "\n" + trail)
                elif res.kind == "exc":
                    ctx.fail("again-exc", where + "\n" + trail)
                here(ctx, needed if then == "reset" or not there else synced,
                     trail, where)
                if then == "reset" and there and not fails:
                    gone(ctx, trail)
                    rest = [p for p, x in local(w).items() if x == ("r",)]
                    if rest:
                        ctx.fail("stand-ins", "left: {}\n{}".format(
                            rest, trail))
                if not there and not fails and mode == "plain":
                    lost = needed - all_files(local(w))
                    if lost:
                        ctx.fail("lost", "not in the local directory: {}\n{}"
                                 .format(lost, trail))
                ctx.stats["evaluations"] += 1


def here(ctx, needed, trail, where):
    w = ctx.world
    lost = needed - all_files(local(w), remote(w), trash(w))
    if lost:
        ctx.fail("lost", "lost {} {}\n{}".format(sorted(
            model.short(x) for x in lost), where, trail))
