"""The explorer process: runs one check's jobs over forked workers."""
import importlib
import json
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

import core          # noqa: E402
import pool          # noqa: E402


def main():
    with open(sys.argv[1]) as f:
        job = json.load(f)
    os.chdir(job["work"])
    core.import_program(job["repo"])
    check = importlib.import_module("checks." + job["property"].lower())
    result = pool.run_check(check, job)
    path = os.path.join(job["work"], "result.json")
    with open(path, "w") as f:
        json.dump(result, f, default=repr)
    return 0


if __name__ == "__main__":
    try:
        code = main()
    except BaseException:
        traceback.print_exc()
        code = 3
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
