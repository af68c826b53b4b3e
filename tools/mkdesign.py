#!/usr/bin/env python3
"""Writes DESIGN.md from DESIGN.in.md, properties.jsonl, known_findings.jsonl, seeded/ and tools/seeded_results.json."""
import json
import os
import glob
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from decide import D  # noqa: E402

m = json.load(open(VERIF + "/MANIFEST.json"))
na = {x["property"]: x["reason"] for x in m.get("not_applicable", [])}
props = []
for line in open(VERIF + "/properties.jsonl"):
    r = json.loads(line)
    if r["id"] in na:
        text = "Not applicable: " + na[r["id"]]
    else:
        text = D[r["id"]]
    props.append("**%s %s.** %s" % (r["id"], r["title"], text))
find = ["* " + l.strip() for l in open(VERIF + "/known_findings.jsonl") if l.startswith("fixed:")]
for l in open(VERIF + "/known_findings.jsonl"):
    if l.startswith("{"):
        r = json.loads(l)
        find.append("* recorded, not repaired: property=%s %s" % (r["property"], r["what"]))
res = {}
p = HERE + "/seeded_results.json"
if os.path.exists(p):
    res = json.load(open(p))
rows = ["| bug | property | breaks | needs | caught by |", "|---|---|---|---|---|"]
for d in sorted(glob.glob(VERIF + "/seeded/*/meta.json")):
    b = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    rows.append("| %s | %s | %s | %s | %s |" % (i, b["property"], b["what_it_breaks"], b["needs"],
                                              res.get(i, "not run yet")))
det = HERE + "/DETERMINISM.in.md"
s = open(HERE + "/DESIGN.in.md").read()
s = s.replace("@@PROPERTIES@@", "\n\n".join(props)).replace("@@FINDINGS@@", "\n".join(find))
s = s.replace("@@SEEDED@@", "\n".join(rows))
s = s.replace("@@DETERMINISM@@", open(det).read().strip() if os.path.exists(det) else "See `check.py --selftest`.")
open(VERIF + "/DESIGN.md", "w").write(s)
