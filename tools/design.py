#!/usr/bin/env python3
"""Write DESIGN.md: the text of tools/design/*.md, and per property what its
check states about itself."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.dont_write_bytecode = True
sys.path[:0] = [HERE, os.path.join(VERIF, "mc")]
import properties  # noqa: E402


def part(name):
    with open(os.path.join(HERE, "design", name)) as f:
        return f.read().rstrip() + "\n"


out = [part("head.md"), "## Properties and their checks\n"]
notes = {}
for block in ("\n" + part("notes.md")).split("\n### ")[1:]:
    head, body = block.split("\n", 1)
    notes[head.strip()] = body.strip()
for p in properties.PROPERTIES:
    c = importlib.import_module("checks." + p["id"].lower())
    out.append("### {} {}\n".format(p["id"], p["title"]))
    out.append(p["statement"] + "\n")
    out.append("*Enumerated:* " + c.RULE + ".\n")
    out.append("*Bound, quick:* {}.\n".format(c.bound("quick")))
    if c.bound("thorough") != c.bound("quick"):
        out.append("*Bound, thorough:* {}.\n".format(c.bound("thorough")))
    out.append("*Assumed:* " + "; ".join(c.ASSUMPTIONS) + ".\n")
    out.append(notes[p["id"]] + "\n")
assert set(notes) == {p["id"] for p in properties.PROPERTIES}
out.append(part("tail.md"))
with open(os.path.join(VERIF, "known_findings.json")) as f:
    fixed = json.load(f)["fixed"]
out.append("## Repaired defects\n")
out.append("Each was found by the check named (or while its oracle was worked "
           "out), shown against the real program and repaired in a commit of "
           "/repo that starts with `fix:`.\n")
seen = set()
for e in fixed:
    _, prop, rest = e.split(" ", 2)
    commit, what = rest.split(" ", 1)
    if commit not in seen:
        out.append("* {} `{}` {}".format(prop.split("=")[1], commit, what))
        seen.add(commit)
out.append("")
out.append("## Planted bugs\n")
out.append(part("seeds.md"))
with open(os.path.join(VERIF, "DESIGN.md"), "w") as f:
    f.write("\n".join(out))
