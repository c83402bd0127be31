"""C24: what the user changes while a sync is running is not lost."""
import os
import re

import core
import faults
import model
import sched
from synclib import *
from checks import c08

ID = "C24"
LEVEL = "model_checking"
RULE = ("for every scenario (a set of edits on both sides and a storage limit) "
        "and every operation of the sync on the file system (including the "
        "opening of files and the listing of directories), the user makes an "
        "edit right before that operation; then another two syncs complete "
        "it. Distinct cases are (scenario, limit, edit, operation)")
ASSUMPTIONS = [
    "an edit right before the very system call that replaces or removes the "
    "edited file may be lost: no file system call can prevent that",
    "the user doesn't delete the conflict files",
]

MID = b"made during the sync"
setup = c08.setup


def mid_write(side, path):
    """Save in place; the edit of a stand-in goes to the remote file."""
    def f(w):
        full = w.p(side + "/" + path)
        if not os.path.isfile(full):
            return False
        with open(full, "wb") as fh:
            fh.write(MID)
        return True
    return Op("write {}/{}".format(side, path), f)


def mid_replace(side, path):
    """Save by replacing, or make a new file."""
    def f(w):
        full = w.p(side + "/" + path)
        if os.path.isdir(full) and not os.path.islink(full):
            return False
        temp = w.p("home/mid")
        with open(temp, "wb") as fh:
            fh.write(MID)
        try:
            os.makedirs(os.path.dirname(full), exist_ok=True)
            os.rename(temp, full)
        except (FileExistsError, NotADirectoryError):
            os.remove(temp)
            return False
        return True
    return Op("replace {}/{}".format(side, path), f)


def mid_move(side, src, dst):
    def f(w):
        full = w.p(side + "/" + src)
        if not os.path.isfile(full) or os.path.islink(full):
            return False
        if os.path.lexists(w.p(side + "/" + dst)):
            return False
        os.rename(full, w.p(side + "/" + dst))
        return True
    return Op("mv {0}/{1} {0}/{2}".format(side, src, dst), f)


EDITS = [mid_replace("L1", "a"), mid_replace("L1", "d/b.txt"),
         mid_replace("L1", "n"), mid_replace("L1", "d/x"),
         mid_write("L1", "a"), mid_write("R", "a"),
         mid_replace("R", "d/b.txt"), mid_replace("R", "n"), op_rm("L1", "a"),
         mid_move("L1", "a", "b"), mid_replace("R", "d/x"),
         mid_write("L1", "d/b.txt"), op_rm("R", "a"), op_rm("L1", "d"),
         op_mkdir("L1", "y"), mid_move("L1", "d/e/c", "d/c")]
QUICK = [0, 3, 4, 5, 7, 8]
QUICK_SCENARIOS = [1, 2, 3, 5, 8, 11]


def plan(tier):
    """(scenario, limit, edit)"""
    if tier == "thorough":
        return [(s, i, e) for s in range(len(c08.SCENARIOS))
                for i in range(len(c08.LIMITS)) for e in range(len(EDITS))]
    return [(s, (s + e) % len(c08.LIMITS), e) for s in QUICK_SCENARIOS
            for e in QUICK] + [
                (s, i, e) for s in (0, 4) for i in range(len(c08.LIMITS))
                for e in (0, 1)]


def bound(tier):
    p = plan(tier)
    return ("{} combinations of {} scenarios, limits {} and {} edits, x every "
            "operation of the sync".format(
                len(p), len({x[0] for x in p}), c08.LIMITS,
                len({x[2] for x in p})))


def jobs(tier):
    return [list(p) for p in plan(tier)]


def contents(tree_):
    return {n[:2] for n in tree_.values() if n[0] in "fl"}


def base_name(path):
    return re.sub(r"_conflict-\d{8}-\d{6}(\(\d+\))?", "", path)


def apply_edits(ctx, w, ops):
    for op in ops:
        op.func(w)
        w.advance()


def observe(w):
    """(what the client sees, remote tree, trash)"""
    rem = remote(w)
    return view(local(w, 1), rem), rem, trash(w)


def run(ctx, job):
    s, i, e = job
    w = ctx.world
    saved, client = c08.base(ctx, i)
    w.load(saved)
    apply_edits(ctx, w, c08.SCENARIOS[s])
    start_ = w.save()
    edit = EDITS[e]
    title = "{} {} during it: {}".format(
        c08.LIMITS[i], c08.SCENARIOS[s], edit)

    def must(n, trail):
        for x in range(n):
            r = w.sync(1)
            if not r.ok:
                ctx.fail("resync-" + r.kind, "a later sync failed: {}\n{}"
                         .format(r, trail))
            w.advance()

    # The edit before and after the sync.
    results = []
    for when in (0, 1):
        w.load(start_)
        if when == 0:
            if not edit.func(w):
                return
            w.advance()
        must(1, title)
        if when == 1:
            if not edit.func(w):
                return
            w.advance()
        must(2, title)
        results.append(observe(w))
    known = (contents(results[0][1]) | contents(results[0][2])) & (
        contents(results[1][1]) | contents(results[1][2]))
    either = contents(results[0][1]) | contents(results[1][1])
    paths = set(results[0][1]) | set(results[1][1])
    common = {p for p, n in results[0][1].items()
              if n[:2] == results[1][1].get(p, ("",))[:2]}

    k = -1
    while True:
        k += 1
        ctx.check_time()
        w.load(start_)
        state = {"done": None, "pending": None}

        def decide(procs, current):
            if state["done"] is None and len(procs[0].ops) == k:
                state["pending"] = procs[0].pending
                w.advance(0.5)
                state["done"] = edit.func(w)
                w.advance(0.5)
            return 0
        p = sched.run_all([lambda: w.sync(1)], decide, True)[0]
        if state["done"] is None:
            break
        name, path = state["pending"]
        trail = "{}\nbefore operation {}: {} {}; result {}".format(
            title, k, name, path, p.result)
        if not state["done"]:
            continue
        ctx.stats["evaluations"] += 1
        ctx.state((s, i, e, k, p.ops))
        w.advance()
        must(2, trail)
        v, rem, tr = observe(w)
        if v != rem:
            ctx.fail("diverged", "the directories differ: {}\n{}".format(
                model.diff(rem, v), trail))
        exempt = name in ("rename", "unlink", "rmdir") and any(
            path == "/" + l.partition(" ")[2] for l in edit.label.split("\n"))
        have = contents(rem) | contents(tr)
        lost = known - have
        if lost and not (exempt and lost == {("f", MID)}):
            ctx.fail("lost", "lost {}\nnow {}\n{}".format(
                lost, sorted(rem), trail))
        for path_ in common:
            if path_ not in rem or rem[path_][:2] != results[0][1][path_][:2]:
                want = results[0][1][path_][:2]
                if exempt and want in (("f", MID), ("d",)):
                    continue
                # It may have got the name of a conflict instead.
                if (want[0] in "fl" and path_ in rem
                        and rem[path_][:2] in either
                        and any(base_name(q) == path_ and n[:2] == want
                                for q, n in rem.items() if q != path_)):
                    continue
                ctx.fail("changed", "{} is {}\n{}".format(
                    path_, rem.get(path_), trail))
        for path_ in rem:
            # A deletion can be undone, which the user sees.
            if edit.label == "rm L1/" + path_:
                continue
            if path_ not in paths and base_name(path_) not in paths and (
                    base_name(path_) == path_):
                ctx.fail("extra", "{} shouldn't exist\n{}".format(
                    path_, trail))
        ctx.outcomes["{} {}".format(edit.label.split(" ")[0],
                                    p.result.split("(")[0])] += 1
        ctx.sample(trail, 3)
