"""Bulk output columns: the value of every column, as a term over the library's results, is the one its name promises."""
import re
from p20 import *
from p06 import schema, Ser

BULK, PERF = "bin_bulk_fbas_analyzer", "bin_bulk_performance_experiment"
VEC = "NodeIdSetVecResult::"
SETS = {"mq": "minimal_quorums", "mbs": "minimal_blocking_sets", "mss": "minimal_splitting_sets"}
STATS = ("min", "max", "mean", "number")


class Lib(ai.Hook):
    """library functions stay symbolic"""

    def __init__(self, crate, extra=()):
        self.crate, self.extra = crate, extra

    def opaque(self, I, fn):
        return fn.crate != self.crate or fn.short in self.extra


def canon(t):
    """one form for the different ways to ask the library for the same figure"""
    memo = {}

    def go(t):
        if t in memo:
            return memo[t]
        r = t
        if isinstance(t, T) and t.op not in ("sym", "int", "str", "bool"):
            r = rebuild(t, go)
        if r.op == "fld" and r.a[0].op == "call":
            c, n = r.a[0], r.a[1]
            if c.a[0] == VEC + "minmaxmean" and n in ("0", "1", "2"):
                r = mk("call", VEC + ("min", "max", "mean")[int(n)], c.a[1])
            elif c.a[0] == VEC + "describe" and n in ("0", "2", "3"):
                r = mk("call", VEC + {"0": "len", "2": "minmaxmean", "3": "histogram"}[n], c.a[1])
            elif c.a[0] == "Analysis::has_quorum_intersection_via_alternative_check" and n == "0":
                r = mk("call", "Analysis::has_quorum_intersection", c.a[1])
        memo[t] = r
        return r
    return go(t)


def rebuild(t, go):
    ch = False

    def arg(x):
        nonlocal ch
        if isinstance(x, T):
            y = go(x)
            ch |= y is not x
            return y
        if isinstance(x, tuple):
            return tuple(arg(y) for y in x)
        return x
    if t.op in ("fld", "call", "agg", "pay"):
        a = tuple(arg(x) for x in t.a)
        if not ch:
            return t
        if t.op == "fld":
            return fld(a[0], a[1])
        if t.op == "agg":
            return mk("agg", *a)
        return mk(t.op, *a)
    return t


def vocabulary(got, want):
    """got speaks only of what the library offers by the names we know"""
    ok = {c for w in want for c in calls(w)}
    for c in calls(got):
        p = c.split("::")
        if c in ok or p[0] in ("Analysis", "NodeIdSetVecResult", "NodeIdSetResult", "Groupings", "Fbas"):
            continue
        if p[-1] in ALTER or p[-1] in ("elapsed", "as_secs_f64", "as_secs", "as_millis", "now", "as_secs_f32"):
            continue
        return False
    return clear(got)


def C(n, *a):
    return mk("call", n, tuple(a))


def columns(ty, prog):
    a = prog.adts.get(ty)
    return [x[0] for x in a["v"][0][1]] if a and len(a["v"]) == 1 else None


def written(ctx, crate, cols):
    """field -> the column it is written to"""
    ser = [f for f in ctx.prog.fns.values() if f.crate == crate and f.short == "OutputDataPoint::serialize"]
    if len(ser) != 1:
        return {}
    H = Ser()
    ctx.run(ser[0], hooks=[H])
    s = mk("sym", ser[0].lnames[1] or "self")
    out = {}
    for n, vs in H.fields.items():
        n = n.a[0] if isinstance(n, T) else n
        for v in vs:
            for c in cols:
                if v is F(s, c):
                    out[c] = n
    return out


def stat(kind, sets):
    return C(VEC + ("len" if kind == "number" else kind), sets)


def merged(x, g):
    return C(VEC + "minimal_sets", C(VEC + "merged_by_group", x, g))


def column(n, an, groups):
    """the term that column n is to hold; (grouping or None, term)"""
    m = re.match(r"^(?:(orgs|isps|ctries)_)?(?:(mq|mbs|mss)_(min|max|mean|number)|(top_tier_size)|(has_quorum_intersection))$", n)
    if not m:
        return None
    g, s, k, tt, qi = m.groups()
    G = groups.get(g) if g else None
    if g and G is None:
        return None
    if s:
        x = C("Analysis::" + SETS[s], an)
        return g, stat(k, merged(x, G) if g else x)
    if tt:
        x = C("Analysis::top_tier", an)
        return g, C("NodeIdSetResult::len", C("NodeIdSetResult::merged_by_group", x, G) if g else x)
    return g, C("Analysis::has_quorum_intersection", an)


def instants(t):
    return [x for x in subterms(t) if x.op == "call" and x.a[0].endswith("Instant::now")]


def check(ctx):
    prog = ctx.prog
    bulk(ctx, prog)
    perf(ctx, prog)
    statistics(ctx)


def durations(ctx, crate, f, v, H, names, table):
    """what lies between the start of the clock and its reading"""
    rule = "a duration is measured around the computation it is named after"
    for n, want in table.items():
        fn = [x for x, y in names.items() if y == n]
        if len(fn) != 1:
            ctx.hold(rule, n, None)
            continue
        d = fld(v, fn[0])
        ks = instants(d)
        inst = "%s of %s" % (n, crate)
        if len(ks) != 1:
            r = False if not ks and d.op in ("f64", "float", "fc", "int", "fbin") and clear(d) else None
            ctx.hold(rule, inst, r, where(f), show(d, 6), key="duration/%s/%s" % (crate, n))
            continue
        k = ks[0]
        body = H.spans.get(k)
        if body is None:
            ctx.hold(rule, inst, None)
            continue
        first = H.first
        if want is None:
            # everything: all first computations lie within
            miss = [w for w in first.values() if k not in w]
            ctx.hold(rule, inst, not miss, where(f), "computations outside of the measured time", key="duration/%s/%s" % (crate, n))
            continue
        w = first.get(want)
        if w is None:
            ctx.hold(rule, inst, None)
            continue
        others = [o for o, x in first.items() if o != want and k in x]
        ctx.hold(rule, inst, k in w and not others, where(f), "the measured time contains %s" % ", ".join([o for o, x in first.items() if k in x]) , key="duration/%s/%s" % (crate, n))


class Clock(Lib):
    """which clocks were running when an analysis was first asked for"""

    def __init__(self, crate, extra=()):
        super().__init__(crate, extra)
        self.first = {}    # analysis -> clocks running (by the term of their start)
        self.spans = {}    # clock -> True once it was read

    def call(self, I, st, fr, span, name, fn, args):
        op = name.split("::")[-1]
        if op in ("elapsed", "duration_since"):
            for a in args:
                k = I.read(st, a)
                for x in instants(k):
                    self.spans[x] = True
                    c = ("clock", x)
                    st.cells[c] = FALSE
        elif name.startswith("Analysis::") and len(args) == 1 and op != "new":
            if ("asked", op) not in st.cells:
                st.cells[("asked", op)] = TRUE
                run = set()
                # clocks started so far and not read yet
                for c, x in st.cells.items():
                    if isinstance(x, T) and x.op == "call" and x.a[0].endswith("Instant::now") and st.cells.get(("clock", x)) is not FALSE:
                        run.add(x)
                if op not in self.first:
                    self.first[op] = run
                else:
                    self.first[op] &= run


def bulk(ctx, prog):
    cols = columns(BULK + "::OutputDataPoint", prog)
    f = ctx.fn("analyze", BULK)
    if not ctx.anchor("analyze (bulk analyzer)", f) or not cols:
        if not cols:
            ctx.hold("output record", BULK, None)
        return
    schema(ctx, "OutputDataPoint", cols, BULK)
    names = written(ctx, BULK, cols)
    for c in cols:
        if c not in names:
            ctx.hold("a column holds what its name says", "%s of %s" % (c, BULK), None)
    H = Clock(BULK)
    I, outs, a = ctx.run(f, hooks=[H])
    inp = a[0]
    fb = C("Fbas::from_json_file", F(inp, "nodes_path"))
    an = C("Analysis::new", fb)
    groups = {"orgs": C("Groupings::organizations_from_json_file", S(F(inp, "organizations_path")), fb),
              "isps": C("Groupings::isps_from_json_file", F(inp, "nodes_path"), fb),
              "ctries": C("Groupings::countries_from_json_file", F(inp, "nodes_path"), fb)}
    there = {"orgs": isS(F(inp, "organizations_path")),
             "isps": eq0(C("Groupings::number_of_groupings", groups["isps"])),
             "ctries": eq0(C("Groupings::number_of_groupings", groups["ctries"]))}
    rule = "a column holds what its name says"
    for st, v in outs:
        if v.op != "agg":
            ctx.hold(rule, "analyze", None)
            continue
        pres = {g: present(st.facts, k) for g, k in there.items()}
        fs = fields(v)
        for fn, n in names.items():
            inst = "%s of %s" % (n, BULK)
            got = canon(fs[fn]) if fn in fs else None
            if got is None:
                ctx.hold(rule, inst, None)
                continue
            if n == "label":
                want = F(inp, "label")
            elif n == "standard_form_hash":
                want = C("Fbas::to_json_string", C("Fbas::to_standard_form", fb))
                inner = [x for x in subterms(got) if x is want]
                other = [x for x in subterms(got) if x.op == "call" and x.a[0].startswith("Fbas::")]
                ctx.hold(rule, inst, True if inner else (False if vocabulary(got, [want, C("hex::encode", C("Digest::digest", want))]) else None), where(f), show(got, 7), key="column/%s/%s" % (BULK, n))
                continue
            elif n.startswith("analysis_duration_"):
                continue
            else:
                c = column(n, an, groups)
                if c is None:
                    ctx.hold("every column's name is understood", n, None)
                    continue
                g, want = c
                if g:
                    p = pres[g]
                    if p is None:
                        # decided by something else about the same figure, or not understood
                        num = there[g].a[0] if there[g].op == "eq0" else there[g]
                        about = any(mentions(k, num) for k in st.facts) and not st.lossy and all(clear(k) for k in st.facts)
                        ctx.hold("grouped columns are empty exactly when there is no such grouping", inst, False if about else None, where(f), "filled under other conditions", key="present/%s" % n)
                        continue
                    want = some(want) if p else NONE
            if got is want or same_option(got, want):
                ctx.hold(rule, inst, True)
            else:
                r = False if not st.lossy and vocabulary(got, [want]) else None
                ctx.hold(rule, inst, r, where(f), "%s instead of %s" % (show(got, 7), show(want, 7)), key="column/%s/%s" % (BULK, n))
        durations(ctx, BULK, f, v, H, names, {"analysis_duration_mq": "minimal_quorums", "analysis_duration_mbs": "minimal_blocking_sets",
                                       "analysis_duration_mss": "minimal_splitting_sets", "analysis_duration_total": None})
    ctx.floor("outcomes of analyze", len(outs), 8)
    pairing(ctx)


def present(facts, k):
    r = implied(facts, k)
    if k.op == "eq0":
        return None if r is None else not r
    return r


def same_option(a, b):
    if a.op == "agg" and b.op == "agg" and a.a[1] == b.a[1]:
        return all(x is y for (_, x), (_, y) in zip(sorted(fields(a).items()), sorted(fields(b).items()))) and len(fields(a)) == len(fields(b))
    return False


def pairing(ctx):
    """labels and files that belong together"""
    class O(ai.Hook):
        def opaque(self, I, fn):
            return fn.crate != BULK or fn.short in ("extract_label", "extract_file_name")
    f = ctx.fn("build_inputs", BULK)
    r = "label, nodes file and organizations file of an input belong together"
    if f is not None and f.argc == 3:
        I, outs, a = ctx.run(f, hooks=[O()])
        for st, v in outs:
            if v.op != "coll" or len(v.a[1]) != 1 or v.a[2]:
                ctx.hold(r, f.short, None)
                continue
            e, g, b = v.a[1][0].a
            p = elem(a[0])
            fs = fields(e) if e.op == "agg" else {}
            if len(b) != 1 or b[0][0] is not a[0] or set(fs) != {"label", "nodes_path", "organizations_path"}:
                ctx.hold(r, f.short, None)
                continue
            l = C("extract_label", p, a[2])
            o = fs["organizations_path"]
            ok = True
            if fs["nodes_path"] is not p:
                ok = False if clear(fs["nodes_path"]) else None
            elif fs["label"] is not l:
                ok = None if calls(fs["label"]) - {"extract_label"} else False
            elif not (o.op in ("get", "getopt") and o.a[0] is a[1] and o.a[1] is fs["label"]):
                ok = False if o.op in ("get", "getopt") and o.a[0] is a[1] and clear(o) or o is NONE or not mentions(o, p) and clear(o) else None
            if g and ok:
                ok = False if clear(*[k for k, _ in g]) else None
            ctx.hold(r, f.short, ok, where(f), show(e, 7), key="pairing")
    else:
        ctx.hold(r, "build_inputs", None)
    f = ctx.fn("extract_organizations_paths_by_label", BULK)
    if f is not None and f.argc == 2:
        I, outs, a = ctx.run(f, hooks=[O()])
        for st, v in outs:
            if v.op != "coll" or len(v.a[1]) != 1 or v.a[2]:
                ctx.hold(r, f.short, None)
                continue
            e, g, b = v.a[1][0].a
            p = elem(a[0])
            fs = fields(e)
            ok = True if e.op == "agg" and fs.get("0") is C("extract_label", p, a[1]) and fs.get("1") is p else None
            if ok is None and e.op == "agg" and clear(e) and not (calls(e) - {"extract_label", "extract_file_name"}):
                ok = False
            ctx.hold(r, f.short, ok, where(f), show(e, 6), key="orgpairing")
    else:
        ctx.hold(r, "extract_organizations_paths_by_label", None)


def perf(ctx, prog):
    cols = columns(PERF + "::OutputDataPoint", prog)
    f = ctx.fn("analyze", PERF)
    if not ctx.anchor("analyze (performance experiment)", f) or not cols:
        if not cols:
            ctx.hold("output record", PERF, None)
        return
    schema(ctx, "OutputDataPoint", cols, PERF)
    names = written(ctx, PERF, cols)
    for c in cols:
        if c not in names:
            ctx.hold("a column holds what its name says", "%s of %s" % (c, PERF), None)
    H = Clock(PERF, ("make_almost_ideal_fbas", "make_almost_ideal_stellarlike_fbas"))
    I, outs, a = ctx.run(f, hooks=[H])
    inp = a[0]
    rule = "a column holds what its name says"
    size = F(inp, "top_tier_size")
    for st, v in outs:
        if v.op != "agg":
            ctx.hold(rule, "analyze", None)
            continue
        fs = fields(v)
        like = implied(st.facts, a[1]) if f.argc > 1 else None
        fb = {True: C("make_almost_ideal_stellarlike_fbas", size), False: C("make_almost_ideal_fbas", size)}.get(like)
        for fn, n in names.items():
            inst = "%s of %s" % (n, PERF)
            if fn not in fs:
                ctx.hold(rule, inst, None)
                continue
            got = canon(fs[fn])
            if n in ("top_tier_size", "run"):
                want = F(inp, n)
                if got is not want and n == "top_tier_size":
                    # the FBAS was checked to have that size
                    ns = [k for k, w in st.facts.items() if w is True and k.op in ("eq", "eq0") and mentions(k, got) and mentions(k, want)]
                    if ns:
                        want = got
            elif n.startswith("analysis_duration_"):
                continue
            else:
                if fb is None:
                    ctx.hold(rule, inst, None)
                    continue
                c = column(n, C("Analysis::new", fb), {})
                if c is None:
                    ctx.hold("every column's name is understood", n, None)
                    continue
                want = c[1]
            r = True if got is want else (False if not st.lossy and vocabulary(got, [want]) else None)
            ctx.hold(rule, inst, r, where(f), "%s instead of %s" % (show(got, 7), show(want, 7)), key="column/%s/%s" % (PERF, n))
        durations(ctx, PERF, f, v, H, names, {"analysis_duration_mq": "minimal_quorums", "analysis_duration_mbs": "minimal_blocking_sets",
                                       "analysis_duration_mss": "minimal_splitting_sets",
                                       "analysis_duration_hqi_after_mq": "has_quorum_intersection",
                                       "analysis_duration_hqi_alt_check": "has_quorum_intersection_via_alternative_check",
                                       "analysis_duration_total": None})


def statistics(ctx):
    """the figures themselves"""
    r = "the figures of a result are what their names say"

    def mm(op):
        def w(s):
            L = F(s, "node_sets")
            it = V(each(L, lambda x: length(x)), kind="iter")
            return [({eq0(length(L)): True}, I(0)), ({eq0(length(L)): False}, mk(op, it))]
        return w

    def mean(s):
        L = F(s, "node_sets")
        it = V(each(L, lambda x: length(x)), kind="iter")
        return [({eq0(length(L)): True}, mk("float", "0.0")), ({eq0(length(L)): False}, mk("fbin", "Div", mk("f64", mk("sum", it)), mk("f64", length(L))))]
    for n, w in (("min", mm("min")), ("max", mm("max")), ("mean", mean)):
        f = ctx.fn(VEC + n)
        if ctx.anchor(VEC + n, f):
            spec(ctx, r, f, w)
    f = ctx.fn(VEC + "minmaxmean")
    if ctx.anchor(VEC + "minmaxmean", f):
        spec(ctx, r, f, lambda s: [({}, tup(C(VEC + "min", s), C(VEC + "max", s), C(VEC + "mean", s)))], hooks=[Opaque(VEC + "min", VEC + "max", VEC + "mean")])
    for t, l in ((VEC, "node_sets"), ("NodeIdSetResult::", "node_set")):
        f = ctx.fn(t + "len")
        if ctx.anchor(t + "len", f):
            spec(ctx, r, f, lambda s, l=l: [({}, length(F(s, l)))])
