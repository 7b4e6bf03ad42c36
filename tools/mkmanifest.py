#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: a check for every property with a harness."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
exec(open(os.path.join(V, "tools", "notes_data.py")).read())
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "props", i + ".cpp")):
        t, n = NOTES[i]
        checks.append({
            "property": i, "quick_cmd": "python3 check.py " + i,
            "thorough_cmd": "python3 check.py " + i + " --tier thorough",
            "technique": "property-based testing: " + t,
            "level": "exploration",
            "level_note": n + " Randomised search, no proof: it covers the "
            "generated inputs reported in the evidence file. Trusts the "
            "independent oracle in /verif/harness and the sanitizers."})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "python3 check.py C01 --build-only",
           "hooks": {"guard": "none", "enable": "No hooks: the checks compile "
                     "/repo's sources unchanged, with sanitizers.",
                     "source_commits": []},
           "checks": checks, "not_applicable": na},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
