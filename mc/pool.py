"""Worker pool, job bookkeeping and evidence.

A check is a module with
    ID, LEVEL, RULE, ASSUMPTIONS
    jobs(tier)            -> list of JSON-able jobs (a complete partition of
                             the bounded space), or
    levels(tier, results) -> the next list of jobs given the results of the
                             previous ones (None: done)
    setup(ctx)            -> called once per worker and level
    run(ctx, job)         -> explores one job completely
Jobs report violations through ctx.fail(key, message)."""
import collections
import fcntl
import json
import os
import pickle
import signal
import sys
import time
import traceback

import core

BUDGET = {"quick": 420.0, "thorough": 820.0}


class Violation(Exception):
    def __init__(self, key, message):
        super().__init__(key, message)
        self.key, self.message = key, message


class OutOfTime(Exception):
    pass


def digest(obj):
    import hashlib
    return int.from_bytes(
        hashlib.blake2b(repr(obj).encode("utf-8", "surrogateescape"),
                        digest_size=8).digest(), "big")


class Ctx:
    def __init__(self, job, worker, deadline, known):
        self.tier = job["tier"]
        self.seed = job["seed"]
        self.worker = worker
        self.deadline = deadline
        self.known = known
        self.keep_going = job.get("keep_going")
        self.stats = collections.Counter()
        self.states = set()
        self.outcomes = collections.Counter()
        self.samples = []
        self.violations = []
        self.known_hits = {}
        self.out = None          # result of the current job for levels()
        self.tag = "{}-{}".format(os.path.basename(
            os.path.dirname(job["work"])).replace("zmc-", ""), worker)
        self.world = core.World(
            os.path.join(job["work"], "w{}".format(worker)), self.tag)

    def fail(self, key, message):
        raise Violation(key, message)

    def check_time(self):
        if time.monotonic() > self.deadline:
            raise OutOfTime()

    def state(self, obj):
        """Count a distinct state; True if it is new to this worker."""
        d = digest(obj)
        if d in self.states:
            return False
        self.states.add(d)
        return True

    def sample(self, text, cap=4):
        if len(self.samples) < cap:
            self.samples.append(text)


def _attempt(check, ctx, job):
    """Run one job; return a Violation or None."""
    try:
        check.run(ctx, job)
    except Violation as v:
        return v
    except OutOfTime:
        raise
    except Exception as e:
        core.Shim.reset()
        return Violation("unexpected-" + type(e).__name__,
                         traceback.format_exc(limit=-12))
    return None


def _worker(check, job, index, jobs, counter_fd, out_fd, deadline):
    ctx = Ctx(job, index, deadline, job["known"])
    done, results, error, timed_out = 0, [], None, False
    try:
        if hasattr(check, "setup"):
            v = None
            try:
                check.setup(ctx)
            except Violation as exc:
                v = exc
            if v is not None:
                if v.key in ctx.known:
                    ctx.known_hits[v.key] = v.message
                else:
                    ctx.violations.append({
                        "property": check.ID, "key": v.key,
                        "message": v.message, "job": None})
                    jobs = []
        while True:
            # Claim the next job.
            fcntl.flock(counter_fd[index], fcntl.LOCK_EX)
            raw = os.pread(counter_fd[index], 32, 0).decode() or "0"
            n = int(raw)
            if n < len(jobs):
                os.pwrite(counter_fd[index], b"%-20d" % (n + 1), 0)
            fcntl.flock(counter_fd[index], fcntl.LOCK_UN)
            if n >= len(jobs):
                break
            if time.monotonic() > deadline:
                timed_out = True
                break
            ctx.out = None
            try:
                v = _attempt(check, ctx, jobs[n])
                while v is not None:
                    if v.key in ctx.known:
                        ctx.known_hits[v.key] = v.message
                        break
                    # A finding must be reproducible to count.
                    seen, ctx.states = ctx.states, set()
                    again = _attempt(check, ctx, jobs[n])
                    ctx.states |= seen
                    if again is None or again.key != v.key:
                        ctx.stats["unreproduced"] += 1
                        if again is None:
                            sys.stderr.write("unreproduced: {}\n{}\n".format(
                                v.key, v.message))
                        v = again
                        if ctx.stats["unreproduced"] > 50:
                            break
                        continue
                    ctx.violations.append({
                        "property": check.ID, "key": v.key,
                        "message": v.message, "job": jobs[n]})
                    if not ctx.keep_going:
                        # Stop everyone.
                        os.pwrite(counter_fd[index], b"%-20d" % len(jobs), 0)
                    break
            except OutOfTime:
                timed_out = True
                break
            done += 1
            if ctx.out is not None:
                results.append((n, ctx.out))
    except BaseException:
        error = traceback.format_exc()
    core.Shim.reset()
    payload = pickle.dumps({
        "done": done, "results": results, "error": error,
        "timed_out": timed_out, "stats": dict(ctx.stats),
        "states": ctx.states, "outcomes": dict(ctx.outcomes),
        "samples": ctx.samples, "violations": ctx.violations,
        "known": ctx.known_hits})
    view = memoryview(payload)
    while view:
        view = view[os.write(out_fd, view):]
    os.close(out_fd)


def run_level(check, job, jobs, deadline, total):
    count = job["workers"] or min(8, os.cpu_count() or 1)
    count = max(1, min(count, len(jobs)))
    path = os.path.join(job["work"], "counter")
    with open(path, "w"):
        pass
    fds = [os.open(path, os.O_RDWR) for _ in range(count)]
    pipes, pids = [], []
    for i in range(count):
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(rd)
                for r in pipes:
                    os.close(r)
                _worker(check, job, i, jobs, fds, wr, deadline)
                code = 0
            finally:
                os._exit(code)
        os.close(wr)
        pipes.append(rd)
        pids.append(pid)
    results, done, errors = [], 0, []
    import selectors
    sel = selectors.DefaultSelector()
    bufs = {}
    for rd in pipes:
        bufs[rd] = []
        sel.register(rd, selectors.EVENT_READ)
    open_fds = set(pipes)
    while open_fds:
        for key, _ in sel.select():
            b = os.read(key.fd, 1 << 20)
            if b:
                bufs[key.fd].append(b)
            else:
                sel.unregister(key.fd)
                open_fds.discard(key.fd)
    for pid in pids:
        os.waitpid(pid, 0)
    for rd in pipes:
        data = b"".join(bufs[rd])
        os.close(rd)
        if not data:
            errors.append("a worker died")
            continue
        r = pickle.loads(data)
        if r["error"]:
            errors.append(r["error"])
        done += r["done"]
        results += r["results"]
        total["timed_out"] |= r["timed_out"]
        total["stats"].update(r["stats"])
        total["states"] |= r["states"]
        total["outcomes"].update(r["outcomes"])
        total["samples"] += r["samples"]
        total["violations"] += r["violations"]
        total["known"].update(r["known"])
    for fd in fds:
        os.close(fd)
    if errors:
        raise RuntimeError("worker error:\n" + "\n".join(errors[:3]))
    total["jobs"] += len(jobs)
    total["done"] += done
    results.sort(key=lambda x: x[0])
    return [r for _, r in results]


def run_check(check, job):
    tier = job["tier"]
    deadline = time.monotonic() + getattr(check, "BUDGET", BUDGET)[tier]
    total = {"timed_out": False, "stats": collections.Counter(),
             "states": set(), "outcomes": collections.Counter(),
             "samples": [], "violations": [], "known": {}, "jobs": 0,
             "done": 0}
    if job["replay"] is not None:
        job["workers"] = 1
        run_level(check, job, [job["replay"]], deadline, total)
    elif hasattr(check, "levels"):
        results = None
        while True:
            jobs = check.levels(tier, results)
            if not jobs:
                break
            results = run_level(check, job, jobs, deadline, total)
            if total["violations"] or total["timed_out"]:
                break
    else:
        jobs = check.jobs(tier)
        if job["only"].startswith("//"):
            # Every nth of them, for trying something out.
            n = int(job["only"][2:])
            jobs = jobs[n // 2::n] or jobs
        elif job["only"]:
            jobs = [j for j in jobs if job["only"] in json.dumps(j)]
        run_level(check, job, jobs, deadline, total)

    exhaustive = (not total["timed_out"] and not total["violations"]
                  and total["done"] == total["jobs"])
    stats = total["stats"]
    cov = {}
    if check.LEVEL == "model_checking":
        cov["states"] = len(total["states"])
        cov["transitions"] = stats.pop("transitions", 0)
        cov["traces_validated_against_impl"] = stats.pop("traces", 0)
    else:
        cov["evaluations"] = stats.pop("evaluations", 0)
        cov["distinct_nontrivial"] = len(total["states"])
    cov["rule"] = check.RULE
    cov["exhaustive"] = exhaustive
    cov["bound"] = check.bound(tier) if hasattr(check, "bound") else ""
    cov["jobs"] = total["jobs"]
    cov["jobs_completed"] = total["done"]
    for k, v in sorted(stats.items()):
        cov[k] = v
    cov["outcomes"] = dict(
        sorted(total["outcomes"].items(), key=lambda x: -x[1])[:40])
    cov["samples"] = total["samples"][:6] or ["(none)"]
    evidence = {
        "property": check.ID, "tier": tier, "seed": job["seed"],
        "level": check.LEVEL, "coverage": cov,
        "assumptions": list(getattr(check, "ASSUMPTIONS", [])),
        "wall_s": 0.0, "violations": len(total["violations"])}
    return {"evidence": evidence, "violations": total["violations"],
            "known": sorted((k, job["known"][k]) for k in total["known"])}
