"""Writes DESIGN.md from design.in.md, the claims, the findings and the planted bugs."""
import json, os, re
B = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(B, "tools")
import sys
sys.path.insert(0, T)
from claims import NA
txt = open(os.path.join(T, "design.in.md")).read()
na = "\n".join("* **%s** %s" % (k, v) for k, v in sorted(NA.items()) if ("* **%s**" % k) not in txt)
fix = []
for l in open(os.path.join(B, "known_findings.jsonl")):
    l = l.strip()
    if l:
        try:
            d = json.loads(l)
            fix.append("* " + (d.get("text") or d.get("entry") or "%s %s" % (d.get("property", ""), d.get("what", json.dumps(d)))))
        except ValueError:
            fix.append("* " + l)
fa = open(os.path.join(T, "false_alarms.md")).read().rstrip()
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
C = json.load(open(os.path.join(T, "caught.json")))
for d in sorted(os.listdir(os.path.join(B, "seeded"))):
    m = json.load(open(os.path.join(B, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/"), C.get(d, "?")))
txt = txt.replace("@@NA@@", na).replace("@@FIX@@", "\n".join(fix)).replace("@@FA@@", fa).replace("@@SEED@@", "\n".join(rows))
open(os.path.join(B, "DESIGN.md"), "w").write(txt)
