"""The command line report: every combination of options is followed through main, label by label."""
import itertools
from p11 import *

CLI = "bin_fbas_analyzer"
A = mk("call", "StructOpt::from_args", ())
FORMS = ("into_id_string", "into_pretty_string", "into_describe_string")
SETS = (("minimal_quorums", "minimal_quorums", "q"), ("minimal_blocking_sets", "minimal_blocking_sets", "b"), ("minimal_splitting_sets", "minimal_splitting_sets", "s"))
KNOWN = ("nodes_total", "nodes_total_merged", "symmetric_clusters", "minimal_quorums", "has_quorum_intersection", "nonintersecting_quorums",
         "minimal_blocking_sets", "minimal_splitting_sets", "top_tier")
FLAGS = ("all", "minimal_quorums", "minimal_blocking_sets", "minimal_splitting_sets", "alternative_quorum_intersection_check", "dont_check_quorum_intersection",
         "describe", "output_pretty", "results_only", "isp_merge", "ctry_merge")
WORDS = {"Analysis::new", "Fbas::from_json_file", "Fbas::from_json_stdin", "Groupings::countries_from_json_file", "Groupings::isps_from_json_file",
         "Groupings::organizations_from_json_file", "Groupings::merge_quorum_sets", "NodeIdSetResult::merged_by_group", "NodeIdSetVecResult::merged_by_group",
         "NodeIdSetVecResult::minimal_sets", "NodeIdSetVecResult::len", "NodeIdSetResult::len", "NodeIdSetVecResult::involved_nodes", "StructOpt::from_args",
         "NodeIdSetVecResult::is_empty", "NodeIdSetVecResult::min", "NodeIdSetVecResult::max", "NodeIdSetVecResult::mean", "NodeIdSetVecResult::describe",
         "NodeIdSetResult::without_nodes", "NodeIdSetVecResult::without_nodes", "NodeIdSetResult::is_empty"}


class Print(ai.Hook):
    """library apart; every line printed becomes a mark of the path"""

    def __init__(self, crate):
        self.crate, self.lines, self.clk = crate, [], {}

    def opaque(self, I, fn):
        return fn.crate != self.crate

    def call(self, I, st, fr, span, name, fn, args):
        if name.endswith("io::_print"):
            v = I.read(st, args[0])
            st.marks = frozenset(st.marks) | {(len(st.marks), v)}
        return None


def label(v):
    """(label, what follows) of a printed line; what follows is None if it is more than one value"""
    first = v.a[0][0] if v.op == "fmt" and v.a[0] else v
    if first.op != "str":
        return None, v
    m = re.match(r"^(\w+): ?", first.a[0])
    if not m:
        return None, v
    if v.op == "fmt" and m.end() == len(first.a[0]) and len(v.a[0]) == 3 and v.a[0][2].op == "str" and v.a[0][2].a[0] == "\n":
        return m.group(1), v.a[0][1]
    return m.group(1), mk("opaque", "line", v)


def form(x):
    """(which form, value, fbas, groupings) of what is printed after the label"""
    if x.op == "call" and x.a[0].split("::")[-1] in FORMS:
        a = x.a[1]
        return x.a[0].split("::")[-1], a[0], a[1] if len(a) > 1 else None, a[2] if len(a) > 2 else None
    if x.op in ("disp", "str", "int"):
        return "disp", x.a[0] if x.op == "disp" else x, None, None
    return None, x, None, None


def expected(o):
    """label -> (forms allowed, value) under options o"""
    nodes, orgs = o["nodes_path"], o["organizations_path"]
    np, op = S(F(A, "nodes_path")), S(F(A, "organizations_path"))
    fb = C("Fbas::from_json_file", np) if nodes else C("Fbas::from_json_stdin")
    g = None
    if o["ctry_merge"]:
        g = C("Groupings::countries_from_json_file", np, fb) if nodes else None
    elif o["isp_merge"]:
        g = C("Groupings::isps_from_json_file", np, fb) if nodes else None
    elif orgs:
        g = C("Groupings::organizations_from_json_file", op, fb)
    an = C("Analysis::new", fb)
    one = "into_describe_string" if o["describe"] else ("into_pretty_string" if o["output_pretty"] else "into_id_string")
    flat = "into_pretty_string" if o["output_pretty"] else "into_id_string"
    num = (one, "into_id_string", "into_describe_string", "into_pretty_string", "disp")
    out = {"nodes_total": (num, C("NodeIdSetResult::len", C("Analysis::all_nodes", an)))}
    if g is not None:
        out["nodes_total_merged"] = (num, C("NodeIdSetResult::len", C("NodeIdSetResult::merged_by_group", C("Analysis::all_nodes", an), g)))
    sc = C("Analysis::symmetric_clusters", an)
    # of quorum sets there are no statistics: describing prints the IDs
    flats = (flat, "into_describe_string") if flat == "into_id_string" else (flat,)
    out["symmetric_clusters"] = (flats, C("Groupings::merge_quorum_sets", g, sc) if g is not None else sc)
    any_ = False
    for lab, fn, opt in SETS:
        if o["all"] or o[lab]:
            any_ = True
            v = C("Analysis::" + fn, an)
            out[lab] = ((one,), C("NodeIdSetVecResult::minimal_sets", C("NodeIdSetVecResult::merged_by_group", v, g)) if g is not None else v)
    if not o["dont_check_quorum_intersection"]:
        alt = C("Analysis::has_quorum_intersection_via_alternative_check", an)
        if o["alternative_quorum_intersection_check"]:
            out["has_quorum_intersection"] = (num, F(alt, "0"))
            out["nonintersecting_quorums"] = ((one,), S(F(alt, "1")))
        else:
            out["has_quorum_intersection"] = (num, C("Analysis::has_quorum_intersection", an))
    if any_:
        tt = C("Analysis::top_tier", an)
        out["top_tier"] = ((flat,), C("NodeIdSetResult::merged_by_group", tt, g) if g is not None else tt)
    return out, fb, g


def words(t):
    return all(n in WORDS or n.startswith("Analysis::") or n == "StructOpt::from_args" for n in calls(t)) and clear(t) and not any(x.op in ("phi", "dyncall") for x in subterms(t))


def combos():
    opts = FLAGS + ("nodes_path", "organizations_path")
    todo = [("all",), ("minimal_quorums", "minimal_blocking_sets", "minimal_splitting_sets")]
    out = []
    for al, q, b, s in [(1, 0, 0, 0), (1, 1, 0, 1)] + [(0,) + x for x in itertools.product((0, 1), repeat=3)]:
        for gr in itertools.product((0, 1), repeat=4):
            for fo in itertools.product((0, 1), repeat=3):
                for qi in itertools.product((0, 1), repeat=2):
                    out.append(dict(zip(("all", "minimal_quorums", "minimal_blocking_sets", "minimal_splitting_sets", "ctry_merge", "isp_merge", "organizations_path", "nodes_path",
                                         "describe", "output_pretty", "results_only", "alternative_quorum_intersection_check", "dont_check_quorum_intersection"),
                                        (al, q, b, s) + gr + fo + qi)))
    return out


def describe(o):
    return "options " + ", ".join(k for k, v in sorted(o.items()) if v) if any(o.values()) else "no options"


def report(ctx):
    f = ctx.fn("main", CLI)
    if not ctx.anchor("main of the command line tool", f):
        return
    have = {x for x in ctx.prog.adts.get(CLI + "::Cli", {}).get("fields", [])} if hasattr(ctx.prog, "adts") else None
    R1 = "a label is printed exactly when its analysis is requested"
    R2 = "a labelled line holds the result its label names, merged as selected"
    R3 = "options select the form of the line: statistics, names or IDs"
    R4 = "results-only leaves out the commentary and nothing else"
    used = set()
    good = {r: set() for r in (R1, R2, R3, R4)}
    bad = {}
    n = 0

    def hold(rule, lab, ok, msg, key):
        if ok is True:
            good[rule].add(lab)
        else:
            k = (rule, lab)
            if k not in bad or bad[k][0] is None and ok is False:
                bad[k] = (ok, msg, key)

    for o in combos():
        st = ai.State()
        for k, v in o.items():
            t = F(A, k)
            if k.endswith("_path"):
                t = isS(t)
            st.facts[t] = bool(v)
        H = Print(CLI)
        I, outs, a = ctx.run(f, hooks=[H], st=st)
        want, fb, g = expected(o)
        d = describe(o)
        for s, v in outs:
            if not (v.op == "agg" and v.a[1] == "Ok"):
                continue
            n += 1
            lines = [x for _, x in sorted(s.marks, key=lambda m: m[0])]
            labelled = {}
            text = 0
            for x in lines:
                nm, r = label(x)
                if nm is None:
                    text += 1
                    if o["results_only"]:
                        hold(R4, "commentary", False if s.lossy is False and clear(x) else None, "with %s the line %s is printed" % (d, show(x, 3)[:80]), "text")
                else:
                    labelled.setdefault(nm, []).append(r)
            if o["results_only"]:
                if not text:
                    hold(R4, "commentary", True, "", "")
            for lab in KNOWN:
                got = labelled.get(lab, [])
                w = want.get(lab)
                if lab == "nonintersecting_quorums" and w is not None:
                    q = implied(s.facts, isS(w[1].a[0]))
                    if q is None:
                        # the line does not depend on whether there are such quorums
                        hold(R1, lab, None if got or s.lossy else False, "%s is not printed with %s, whatever the check finds" % (lab, d), "missing/" + lab)
                        continue
                    w = w if q else None
                if w is None:
                    hold(R1, lab, not got or (None if s.lossy else False), "%s is printed with %s" % (lab, d), "extra/" + lab)
                    continue
                if not got:
                    hidden = any(not clear(x) or label(x)[0] is None and x.op == "fmt" and any(FORM(y) for y in subterms(x)) for x in lines) or s.lossy
                    hold(R1, lab, None if hidden else False, "%s is not printed with %s" % (lab, d), "missing/" + lab)
                    continue
                hold(R1, lab, True if len(got) == 1 else False, "%s is printed %d times with %s" % (lab, len(got), d), "twice/" + lab)
                for x in got:
                    kind, val, fbx, gx = form(x)
                    used.add(lab)
                    val2, want2 = canon(val), canon(w[1])
                    ok = True if val2 is want2 else (False if words(val) and kind else None)
                    hold(R2, lab, ok, "%s shows %s with %s" % (lab, show(val, 12)[:300], d), "value/" + lab)
                    if ok is False:
                        continue
                    fo = None if kind is None else (True if kind in w[0] else False)
                    hold(R3, lab, fo, "%s is printed by %s with %s" % (lab, kind, d), "form/" + lab)
                    if fo and kind == "into_pretty_string":
                        wantg = ai.NONE if g is None else some(g)
                        gok = gx is wantg or gx is not None and gx.op == "agg" and wantg.op == "agg" and gx is wantg
                        fok = fbx is fb
                        hold(R3, lab, True if gok and fok else (False if gx is not None and words(gx) and fbx is not None and words(fbx) else None),
                             "%s is named by %s, %s with %s" % (lab, show(fbx, 5) if fbx else "-", show(gx, 6) if gx else "-", d), "names/" + lab)
    for r in (R1, R2, R3, R4):
        for lab in sorted(good[r]):
            if (r, lab) not in bad:
                ctx.hold(r, lab, True)
    for (r, lab), (ok, msg, key) in sorted(bad.items()):
        ctx.hold(r, lab, ok, where(f), msg, key="report/" + key)
    ctx.floor("labels of the report", len(used), 1)
    ctx.floor("paths through the tool", n, 1)


def FORM(y):
    return y.op == "call" and y.a[0].split("::")[-1] in FORMS


R, VR = "NodeIdSetResult::", "NodeIdSetVecResult::"


def json(f, v):
    return S_ok(C("serde_json::to_string" + ("_pretty" if f == "pretty" else ""), v))


def S_ok(t):
    return pay(t, "Ok", "0")


def texts(ctx):
    """the three forms of each kind of result"""
    rule = "IDs, names and statistics of a result are printed as such"
    opq = Opaque(VR + "into_vec_vec", R + "into_vec", VR + "minmaxmean", VR + "len", R + "len", VR + "histogram", VR + "involved_nodes", VR + "describe", VR + "minimal_sets", VR + "merged_by_group", R + "merged_by_group",
                 R + "into_pretty_vec", VR + "into_pretty_vec_vec", "QuorumSet::into_pretty_quorum_set", "NodeIdSetVecResult::min", "NodeIdSetVecResult::max", "NodeIdSetVecResult::mean")
    want = {
        "bool::into_id_string": lambda s: mk("disp", s), "bool::into_describe_string": lambda s: mk("disp", s),
        "usize::into_id_string": lambda s: mk("disp", s), "usize::into_describe_string": lambda s: mk("disp", s),
        R + "into_id_string": lambda s: json("line", C(R + "into_vec", s)),
        R + "into_pretty_string": lambda s, f, g: json("line", C(R + "into_pretty_vec", s, f, g)),
        R + "into_describe_string": lambda s: mk("disp", C(R + "len", s)),
        VR + "into_id_string": lambda s: json("line", C(VR + "into_vec_vec", s)),
        VR + "into_pretty_string": lambda s, f, g: json("line", C(VR + "into_pretty_vec_vec", s, f, g)),
        VR + "into_describe_string": lambda s: json("line", C(VR + "describe", s)),
        "Vec::into_id_string": lambda s: json("line", s), "Vec::into_describe_string": lambda s: json("line", s),
        "Vec::into_pretty_string": lambda s, f, g: json("pretty", seq(s, lambda x: C("QuorumSet::into_pretty_quorum_set", x, f, g))),
        "QuorumSet::into_id_string": lambda s: json("line", s), "QuorumSet::into_describe_string": lambda s: json("line", s),
        "QuorumSet::into_pretty_string": lambda s, f, g: json("pretty", C("QuorumSet::into_pretty_quorum_set", s, f, g)),
    }
    for n, w in want.items():
        f = ctx.fn(n)
        if f is None:
            continue
        I, outs, a = ctx.run(f, hooks=[opq])
        wt = w(*a)
        for st, v in outs:
            got, wnt = strip_form(v), strip_form(wt)
            ok = match(got, wnt, st.facts)
            if ok is None and got.op == wnt.op and set(calls(got)) != set(calls(wnt)):
                ok = False
            if ok is False and (I.lvdefs or st.lossy or not clear(v) or not all(c.split("::")[0] in ("serde_json", "NodeIdSetResult", "NodeIdSetVecResult", "QuorumSet") for c in calls(v))):
                ok = None
            ctx.hold(rule, n, ok, where(f), "gives " + show(v, 8), key="text/" + n)
    f = ctx.fn(VR + "describe")
    if ctx.anchor(VR + "describe", f):
        I, outs, a = ctx.run(f, hooks=[opq])
        s = a[0]
        mmm = C(VR + "minmaxmean", s)
        for st, v in outs:
            fs = fields(v) if v.op == "agg" else {}
            ws = (("0", (length(F(s, "node_sets")), C(VR + "len", s))), ("1", (length(C(VR + "involved_nodes", s)),)), ("2", (mmm, tup(C(VR + "min", s), C(VR + "max", s), C(VR + "mean", s)))),
                  ("3", (C(VR + "histogram", s),)))
            for i, w in ws:
                x = fs.get(i)
                ok = None if x is None else (True if x in w else (False if clear(x) and not st.lossy and all(c.startswith("NodeIdSet") for c in calls(x)) else None))
                ctx.hold("the description holds number, nodes, sizes and histogram, in this order", "part " + i, ok, where(f), show(x, 8) if x is not None else "", key="describe/" + i)
    histogram(ctx)
    involved(ctx)


def strip_form(v):
    """prettiness of JSON is of no interest"""
    if v.op == "pay" and v.a[0].op == "call" and v.a[0].a[0].startswith("serde_json::to_string"):
        return mk("call", "json", v.a[0].a[1])
    return v


def histogram(ctx):
    f = ctx.fn(VR + "histogram")
    rule = "the histogram counts the sets of each size up to the largest"
    if not ctx.anchor(VR + "histogram", f):
        return
    I, outs, a = ctx.run(f)
    L = F(a[0], "node_sets")
    e = elem(L)
    biggest = mk("max", V(each(L, lambda x: length(x)), kind="iter"))
    for st, v in outs:
        if v.op != "lv" or v not in I.lvdefs or len(I.lvdefs[v]["upd"]) != 1:
            ctx.hold(rule, "result", None)
            continue
        d = I.lvdefs[v]
        i = d["init"]
        ok = None
        if i is not None and i.op == "coll" and i.a[0] == "vec" and len(i.a[1]) == 1 and not i.a[2]:
            p = i.a[1][0]
            src = p.a[2][0][0] if len(p.a[2]) == 1 else None
            if p.a[0] is I_(0) and not p.a[1] and src is not None and src.op == "range" and src.a[0] is I_(0):
                want = I_(1) if implied(st.facts, eq0(length(L))) else add(biggest, I_(1))
                r = match(src.a[1], want, st.facts)
                ok = r if r is not False or clear(src.a[1]) else None
            elif p.a[0].op == "int" and p.a[0] is not I_(0):
                ok = False
        ctx.hold(rule, "entries", ok, where(f), "starts as " + show(i, 8) if i is not None else "", key="histogram/init")
        (u, gs), = d["upd"].items()
        ok = None
        if u.op == "coll" and len(u.a[2]) == 1 and len(u.a[1]) == 1:
            k, x, g, b = u.a[2][0]
            gg = [y for y in g if y[0].op != "fits"]
            src = b[0][0] if len(b) == 1 else None
            bs = [bb for _, bb in gs]
            if not b and len(gs) == 1 and len(bs[0]) == 1:
                src = bs[0][0][0]
            if src is L and not gg:
                old = getidx(v, length(e))
                inc = add(x, old, -1)
                if k is length(e):
                    ok = True if inc is I_(1) else (False if inc.op == "int" else None)
                elif clear(k) and mentions(k, e):
                    ok = False
            elif src is L and gg and all(clear(y[0]) and mentions(y[0], e) for y in gg) and not st.lossy:
                ok = False
            elif src is not None and src.op in ("rest", "slice") and src.a[0] is L and clear(src):
                ok = False
        ctx.hold(rule, "counting", ok, where(f), show(u, 8), key="histogram/count")


def I_(n):
    return mk("int", n)


def involved(ctx):
    """distinct nodes of all sets"""
    r = "the nodes involved are those in any of the sets, under their own IDs"
    f = ctx.fn(VR + "involved_nodes")
    if ctx.anchor(VR + "involved_nodes", f):
        def want(s):
            L, t = F(s, "node_sets"), F(s, "unshrink_table")
            e = elem(L)
            b = ((L, 0), (e, 0))
            return [({isS(t): False}, V(part(elem(e), (), b), kind="set")), ({isS(t): True}, V(part(getidx(S(t), elem(e)), (), b), kind="set"))]
        spec(ctx, r, f, want)
    f = ctx.fn(R + "involved_nodes")
    if ctx.anchor(R + "involved_nodes", f):
        spec(ctx, r, f, lambda s: [({}, F(s, "node_set"))])
    for n in ("is_empty",):
        for t, l in ((VR, "node_sets"), (R, "node_set")):
            f = ctx.fn(t + n)
            if f:
                spec(ctx, r, f, lambda s, l=l: [({}, eq0(length(F(s, l))))])


def check(ctx):
    if not __import__("os").environ.get("NOREP"): report(ctx)
    texts(ctx)
    statistics(ctx)
    pretty(ctx)
