"""writes MANIFEST.json from the checks present and the list of reasons below"""
import json, os, importlib, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from claims import CLAIMS, NA
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in NA:
        na.append({"property": p, "reason": NA[p]})
    elif p in CLAIMS and os.path.exists(os.path.join(V, "checks", p.lower() + ".py")):
        t, note = CLAIMS[p]
        checks.append({"property": p, "quick_cmd": "python3 checks/run.py %s quick" % p, "thorough_cmd": "python3 checks/run.py %s thorough" % p,
                       "evidence_file": "evidence/%s.json" % p, "technique": t, "level": "other", "level_note": note})
    else:
        na.append({"property": p, "reason": "no check built yet"})
json.dump({"version": 1, "setup_cmd": "python3 checks/run.py setup", "checks": checks, "not_applicable": na,
           "notes": "Static analysis on the compiler's MIR; see DESIGN.md."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
