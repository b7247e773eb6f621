#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "internal/pkg/tree/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
        why_tests_cant=why, anchors=dict(files=files, mechanism=mech), technique=technique, note=note, na=na))

exec(open(os.path.join(here, "tools", "table.py")).read())

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps({k: x[k] for k in ("id","title","statement","quantifier","why_tests_cant","anchors")}) + "\n")
checks, na = [], []
for x in P:
    if x["na"]:
        na.append(dict(property=x["id"], reason=x["na"]))
    else:
        checks.append(dict(property=x["id"], quick_cmd="./check.sh %s quick" % x["id"],
            thorough_cmd="./check.sh %s thorough" % x["id"], evidence_file="evidence/%s.json" % x["id"],
            technique=x["technique"], level="other", level_note=x["note"]))
m = dict(version=1,
    setup_cmd="./setup.sh", checks=checks, not_applicable=na,
    notes="All checks are one static analyser (sa/, Go, golang.org/x/tools SSA) that loads /repo's current source and never runs it. Known findings: known-findings.txt.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
