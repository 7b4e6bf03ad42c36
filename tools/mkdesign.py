#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from DESIGN.in.md and the data beside it."""
import glob, json, os, re
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.join(H, "..")
exec(open(os.path.join(H, "design_data.py")).read())
exec(open(os.path.join(H, "notes_data.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
out = []
for p in props:
    i = p["id"]
    f = os.path.join(V, "props", i + ".cpp")
    out.append("### %s %s\n" % (i, p["title"]))
    if not os.path.exists(f):
        out.append("Not claimed: %s\n" % NA.get(i, "check not built yet."))
        continue
    src = open(f).read()
    m = re.search(r"static Property p\{\"%s\",(.*?)\};\s*return p;" % i, src, re.S)
    body = m.group(1)
    rule = "".join(re.findall(r'"([^"]*)"', body.split("{", 1)[0]))
    fac = re.findall(r'\{"([\w-]+)", (\d+), (\d+), ', body)
    out.append("* Method: %s. %s" % (NOTES[i][0], D[i]))
    out.append("* Generated: %s." % rule)
    out.append("* Facets (cases quick/thorough, before fuzzing): %s." % ", ".join(
        "%s %s/%s" % x if x[1] != "0" else x[0] + " (replay of a finding only)" for x in fac))
    out.append("")
kf = json.load(open(os.path.join(V, "known_findings.json")))
fixed = "\n".join("* " + x.replace("fixed: property=", "") for x in kf["fixed"])
finds = "\n".join("* %s: %s (`%s`)" % (x["property"], x["what"], x["replay"]) for x in kf["findings"])
rows = []
res = {}
r = os.path.join(V, "tools", "seeded_results.json")
if os.path.exists(r):
    res = json.load(open(r))
for d in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    n = os.path.basename(os.path.dirname(d))
    rows.append("| %s | %s | %s | %s |" % (n, m["property"], m["what_it_breaks"].replace("|", "/"),
                                       ", ".join(res.get(n, [])) or "not run"))
t = open(os.path.join(H, "DESIGN.in.md")).read()
t = t.replace("@PROPS@", "\n".join(out)).replace("@FIXED@", fixed).replace("@FINDINGS@", finds)
t = t.replace("@SEEDED@", "| change | property | breaks | caught by |\n|---|---|---|---|\n" + "\n".join(rows))
open(os.path.join(V, "DESIGN.md"), "w").write(t)
