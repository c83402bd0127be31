#!/usr/bin/env python3
"""Launcher of the checks:  run.py <property> [--tier quick|thorough]
[--replay FILE].

Builds the shim and copies the program's working tree into a scratch directory,
runs the exploration there as an unprivileged user, and turns its result into
the exit status, the VIOLATION/KNOWN-FINDING lines and the evidence file."""
import argparse
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
UID = 61234
# A time zone in which daylight saving time ended shortly before the time at
# which everything happens, and in which the last twelve hours are repeated:
# local times are ambiguous.
TZ = "AAA-3:45BBB-15:45,M3.2.0,M9.2.0/17:15"
PYTHONS = ["/opt/venv/bin/python", sys.executable]


def scratch_dir():
    for base in ("/dev/shm", "/tmp"):
        try:
            path = tempfile.mkdtemp(prefix="zmc-", dir=base)
            os.chmod(path, 0o755)
            return path
        except OSError:
            continue
    raise SystemExit("no scratch directory")


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    with open(path) as f:
        data = json.load(f)
    return {e["key"]: e["what"] for e in data["findings"]
            if e["property"] == prop}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--workers", type=int, default=0)
    ap.add_argument("--keep-going", action="store_true")
    ap.add_argument("--only", default="")
    args = ap.parse_args()
    sys.stdout.reconfigure(errors="backslashreplace")
    prop = args.property
    tier = args.tier if args.tier in ("quick", "thorough") else "quick"
    t0 = time.monotonic()

    scratch = scratch_dir()
    proc = None

    def cleanup(*_):
        if proc is not None:
            try:
                os.killpg(proc.pid, signal.SIGKILL)
            except OSError:
                pass
            try:
                # Not proc.wait(), which a signal handler could have
                # interrupted.
                os.waitpid(proc.pid, 0)
            except ChildProcessError:
                pass
        shutil.rmtree(scratch, ignore_errors=True)

    def on_signal(signum, frame):
        cleanup()
        os._exit(2)
    signal.signal(signal.SIGTERM, on_signal)
    signal.signal(signal.SIGINT, on_signal)

    try:
        shutil.copytree(HERE, os.path.join(scratch, "mc"),
                        ignore=shutil.ignore_patterns("__pycache__"))
        # The program under test: the working tree as it is now.
        shutil.copytree(os.path.join(args.repo, "zielen"),
                        os.path.join(scratch, "repo", "zielen"),
                        ignore=shutil.ignore_patterns("__pycache__"))
        template = os.path.join(args.repo, "docs/templates/config-template")
        if os.path.isfile(template):
            shutil.copy(template, os.path.join(scratch, "repo"))
        shim = os.path.join(scratch, "libshim.so")
        subprocess.run(
            ["gcc", "-O2", "-fPIC", "-shared", "-w", "-o", shim,
             os.path.join(VERIF, "shim", "shim.c"), "-ldl"], check=True)
        subprocess.run(["chmod", "-R", "a+rX", scratch], check=True)
        work = os.path.join(scratch, "work")
        os.mkdir(work)
        job = {
            "property": prop, "tier": tier, "work": work,
            "repo": os.path.join(scratch, "repo"),
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "known": load_known(prop), "workers": args.workers,
            "keep_going": args.keep_going, "only": args.only,
            "replay": None}
        if args.replay:
            with open(args.replay) as f:
                job["replay"] = json.load(f)["job"]
        with open(os.path.join(work, "job.json"), "w") as f:
            json.dump(job, f)
        os.chown(work, UID, UID)
        os.chmod(work, 0o700)
        python = next(p for p in PYTHONS if os.path.exists(p))
        env = {
            "PATH": os.environ.get("PATH", "/usr/bin:/bin"),
            "LD_PRELOAD": shim, "TZ": TZ, "LANG": "C.UTF-8",
            "LC_ALL": "C.UTF-8", "PYTHONHASHSEED": "0",
            "PYTHONDONTWRITEBYTECODE": "1", "HOME": work}
        kwargs = {}
        if os.getuid() == 0:
            kwargs = dict(user=UID, group=UID, extra_groups=[])
        proc = subprocess.Popen(
            [python, "-W", "ignore", os.path.join(scratch, "mc", "main.py"),
             os.path.join(work, "job.json")],
            env=env, cwd=work, start_new_session=True,
            stdin=subprocess.DEVNULL, **kwargs)
        code = proc.wait()
        result_path = os.path.join(work, "result.json")
        if code != 0 or not os.path.exists(result_path):
            print("check {}: the explorer failed (status {})".format(
                prop, code))
            sys.stdout.flush()
            return 2
        with open(result_path) as f:
            result = json.load(f)
    finally:
        cleanup()

    result["evidence"]["wall_s"] = round(time.monotonic() - t0, 2)
    if not args.replay and not args.only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", prop + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(result["evidence"], f, indent=1)
            f.write("\n")
        os.replace(path + ".tmp", path)
    for key, what in result["known"]:
        print("KNOWN-FINDING: property={} {}".format(prop, what))
    replays = os.path.join(VERIF, "replays")
    if not args.replay and os.path.isdir(replays):
        for name in os.listdir(replays):
            if name.startswith(prop + "-"):
                os.unlink(os.path.join(replays, name))
    if result["violations"]:
        os.makedirs(replays, exist_ok=True)
        for n, v in enumerate(result["violations"]):
            path = os.path.join(replays, "{}-{}.json".format(prop, n))
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
                f.write("\n")
            print("VIOLATION property={} replay={}".format(prop, path))
            print("  key: {}\n  {}".format(
                v["key"], v["message"].replace("\n", "\n  ")))
        return 1
    cov = result["evidence"]["coverage"]
    print("{} {}: held; {} ({:.1f} s)".format(
        prop, tier, ", ".join(
            "{}={}".format(k, v) for k, v in cov.items()
            if isinstance(v, (int, bool))),
        result["evidence"]["wall_s"]))
    return 0


if __name__ == "__main__":
    sys.exit(main())
