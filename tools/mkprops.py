#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that it stays readable)."""
import json, os
T = "include/fields2cover/types/"
S = "src/fields2cover/types/"
M = "src/fields2cover/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe, "hook_needed": None}})


exec(open(os.path.join(os.path.dirname(__file__), "props_data.py")).read())
out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
