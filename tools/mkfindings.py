#!/usr/bin/env python3
"""Writes known_findings.jsonl: lines 'fixed: property=<id> <commit> <what failed>' for repaired defects, taken from
the fix commits of /repo, and the JSON records (tools/findings.json) of the findings that are recorded instead."""
import json
import os
import re
import subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
PROPS = json.load(open(os.path.join(HERE, "fixed.json")))
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True,
                     text=True).stdout.splitlines()
out = []
for line in log:
    h, s = line.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    key = s[5:]
    what = [(p, w) for k, p, w in PROPS if key.startswith(k)]
    assert len(what) == 1, (key, what)
    out.append("fixed: property=%s %s %s" % (what[0][0], h, what[0][1] or key))
f = os.path.join(HERE, "findings.json")
if os.path.exists(f):
    for r in json.load(open(f)):
        out.append(json.dumps(r))
open(os.path.join(os.path.dirname(HERE), "known_findings.jsonl"), "w").write("\n".join(out) + "\n")
