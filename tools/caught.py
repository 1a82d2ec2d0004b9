"""Runs every check on every planted bug (scratch copies) and writes caught.json."""
import json, os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
B = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(B, "seeded")
ids = sys.argv[1:] or sorted(os.listdir(S))
F = os.path.join(B, "tools", "caught.json")
C = json.load(open(F)) if os.path.exists(F) else {}
def one(a):
    i, d = a
    own = json.load(open(os.path.join(S, d, "meta.json")))["property"]
    r = subprocess.run(["python3", os.path.join(B, "tools/mut.py"), "all", "-p", os.path.join(S, d, "patch.diff")],
        env=dict(os.environ, N="400", W="400", FBAS_EVIDENCE="/tmp/ev_c%d" % (i % 4)), stdout=subprocess.PIPE, text=True).stdout
    hits = sorted(set(re.findall(r"VIOLATION property=(P\d+)", r)))
    return d, (", ".join(hits) if own in hits else "not by %s%s" % (own, (" (but %s)" % ", ".join(hits)) if hits else ""))
for k in range(0, len(ids), 1):
    d, t = one((k, ids[k]))
    C[d] = t; print(d, t, flush=True)
C = {k: v for k, v in C.items() if os.path.isdir(os.path.join(S, k))}
json.dump(C, open(F, "w"), indent=1, sort_keys=True)
