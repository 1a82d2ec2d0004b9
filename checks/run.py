#!/usr/bin/env python3
"""run.py <property>... | all   [quick|thorough]"""
import sys, os, json, time, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import base
from base import VERIF, EVID


def known(prop):
    out = {}
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l:
                d = json.loads(l)
                if d.get("property") == prop and d.get("status") == "known":
                    out[d["key"]] = d
    return out


def run_one(prop, tier, prog, t0):
    m = importlib.import_module(prop.lower())
    ctx = base.Ctx(prop, tier, prog)
    t1 = time.time()
    try:
        m.check(ctx)
    except Exception:          # a construct the analysis cannot handle is no finding
        traceback.print_exc(limit=-6)
        ctx.undecided.append("analysis aborted: " + traceback.format_exc(limit=-1).strip().replace("\n", " "))
        ctx.samples = ctx.samples or ["aborted"]
    kf = known(prop)
    bad = []
    for key, (where, msg) in sorted(ctx.viol.items()):
        if key in kf:
            print("KNOWN-FINDING: property=%s %s" % (prop, kf[key]["what"]))
        else:
            bad.append((key, where, msg))
    os.makedirs(os.path.join(EVID), exist_ok=True)
    rep = os.path.join(EVID, prop + ".report.txt")
    with open(rep, "w") as f:
        for key, where, msg in bad:
            f.write("%s\n  at %s\n  %s\n" % (key, where, msg))
        for n in ctx.undecided:
            f.write("undecided: %s\n" % n)
    for key, where, msg in bad:
        print("%s: [%s] %s\n    at %s" % (prop, key, msg, where))
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
        "coverage": {
            "explanation": m.__doc__.strip(),
            "functions_analysed": len(ctx.functions),
            "functions": sorted(ctx.functions)[:400],
            "call_sites": ctx.callsites,
            "outcomes": ctx.paths,
            "obligations": ctx.obl,
            "discharged": ctx.disch,
            "undecided": ctx.undecided[:100],
            "rule_instances": ctx.rules,
            "samples": ctx.samples or ["none"],
            "notes": ctx.notes,
        },
        "assumptions": ["library functions behave as modelled in checks/models.py", "the compiler's MIR is faithful to the source"],
        "wall_s": round(time.time() - t1, 2), "violations": len(bad),
    }
    json.dump(ev, open(os.path.join(EVID, prop + ".json"), "w"), indent=1, ensure_ascii=False)
    print("%s %s: %d obligations, %d discharged, %d undecided, %d violations (%.1fs)" %
          (prop, tier, ctx.obl, ctx.disch, len(ctx.undecided), len(bad), time.time() - t1))
    if bad:
        print("VIOLATION property=%s replay=%s" % (prop, rep))
        return 1
    return 0


def main():
    a = [x for x in sys.argv[1:] if x not in ("quick", "thorough")]
    tier = next((x for x in sys.argv[1:] if x in ("quick", "thorough")), os.environ.get("VERIF_TIER", "quick"))
    t0 = time.time()
    prog = base.load_facts()
    if a == ["setup"]:
        return 0
    if a == ["all"]:
        a = sorted(f[:-3].upper() for f in os.listdir(os.path.dirname(os.path.abspath(__file__))) if f[0] == "p" and f[1:3].isdigit())
    rc = 0
    for p in a:
        rc |= run_one(p, tier, prog, t0)
    return rc


sys.exit(main())
