#!/usr/bin/env python3
"""Make /verif/seeded/<id> from a definition file and confirm it.

usage: mkseed.py DEF.py   with ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file,
old, new)], DEMO (source of demo.py, which does `import zdemo`)."""
import json, os, runpy, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
d = runpy.run_path(sys.argv[1])
out = os.environ.get("SEEDED", "/verif/seeded") + "/" + d["ID"]
wt = "/tmp/x/seedwt"
shutil.rmtree(wt, ignore_errors=True)
subprocess.run(["cp", "-a", "/repo", wt], check=True)
for f, old, new in d["EDITS"]:
    s = open(wt + "/" + f).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(wt + "/" + f, "w").write(s.replace(old, new))
os.makedirs(out, exist_ok=True)
diff = subprocess.run(["git", "-C", wt, "diff"], capture_output=True, text=True, check=True).stdout
open(out + "/patch.diff", "w").write(diff)
# The changed lines must be those of the original repository.
base = {}
for f, old, new in d["EDITS"]:
    b = subprocess.run(["git", "-C", "/repo", "show", "127a041:" + f], capture_output=True, text=True).stdout
    base[f] = set(b.splitlines())
orig = cur = 0
f = None
for line in diff.splitlines():
    if line.startswith("--- a/"): f = line[6:]
    elif line.startswith("-") and not line.startswith("---"):
        cur += 1
        orig += line[1:] in base[f]
print("removed lines: {} ({} of them original)".format(cur, orig))
shutil.copy(HERE + "/seedlib/zdemo.py", out + "/zdemo.py")
open(out + "/demo.py", "w").write(d["DEMO"].lstrip("\n"))
open(out + "/demo.sh", "w").write('#!/bin/bash\n# Exit 0 if the property holds in this demonstration, 1 otherwise.\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
os.chmod(out + "/demo.sh", 0o755)
json.dump({"property": d["PROPERTY"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
good = subprocess.run(["bash", out + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
bad = subprocess.run(["bash", out + "/demo.sh"], cwd=wt, capture_output=True, text=True)
print("clean:", good.returncode, good.stderr[-1500:] if good.returncode else "")
print("patched:", bad.returncode, bad.stderr[-600:])
env = dict(os.environ)
if len(sys.argv) < 3:
    subprocess.run(["git", "-C", "/repo", "apply", out + "/patch.diff"], check=True)
    try:
        t = subprocess.run(["bash", "/opt/vp/test.sh", "/tmp/x/o.json"], capture_output=True, text=True)
        print("tests:", t.stdout.splitlines()[-1])
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
shutil.rmtree(wt)
