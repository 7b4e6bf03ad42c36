#!/usr/bin/env python3
"""kf.py fixed PROP TEXT   record the last /repo commit as the repair
kf.py find PROP REPLAY TEXT   list a known finding"""
import json, subprocess, sys
p = "/verif/known_findings.json"
d = json.load(open(p))
if sys.argv[1] == "fixed":
    h = subprocess.check_output(["git", "-C", "/repo", "rev-parse", "--short", "HEAD"], text=True).strip()
    d["fixed"].append("fixed: property=%s %s %s" % (sys.argv[2], h, sys.argv[3]))
else:
    d["findings"].append({"property": sys.argv[2], "what": sys.argv[4], "replay": sys.argv[3]})
json.dump(d, open(p, "w"), indent=1)
