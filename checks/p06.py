"""Conversions between the JSON form and the internal form, field by field, and the names under which the derived code writes and reads each field."""
from p20 import *
from qsets import resolve
from terms import agg as agg_


def agg(name, var, fs):
    return agg_(name, var, sorted(fs.items()))

ALT = ("rev", "reord", "hashorder", "perm", "random", "sorted")


def inorder(t):
    """the elements come in the order of the source"""
    if t.op != "coll":
        return True
    bad = [x for x in t.a[3] if x in ALT or isinstance(x, tuple) and x[0] == "by"]
    return not bad


def shapes(ctx):
    r = "each part of the JSON form is taken over into the part meant for it"
    w = "each part is written to the field of the JSON form meant for it"
    conv = {}

    def known(m, x):
        return ((contains(m, x), True),)
    qf, q2 = resolve(ctx, "QuorumSet::from_raw")
    qf2 = (q2 or qf)
    if qf2:
        spec(ctx, r, qf2, lambda q, m: [({}, agg("QuorumSet", None, {
            "threshold": F(q, "threshold"),
            "validators": V(each(F(q, "validators"), lambda x: mapval(m, x), lambda x: known(m, x))),
            "inner_quorum_sets": V(each(F(q, "inner_quorum_sets"), lambda x: mk("call", qf2.short, (x, m))))}))], inst="QuorumSet::from_raw")
    else:
        ctx.hold(r, "QuorumSet::from_raw", None)
    tf, t2 = resolve(ctx, "QuorumSet::to_raw")
    tf2 = t2 or tf
    if tf2:
        def want(q, fb):
            N = F(fb, "nodes")
            ins = lambda x: (lt(x, length(N)), True)
            out = lambda x: (lt(x, length(N)), False)
            v = F(q, "validators")
            return [({}, agg("RawQuorumSet", None, {
                "threshold": F(q, "threshold"),
                "validators": V(each(v, lambda x: F(getidx(N, x), "public_key"), lambda x: (ins(x),)), each(v, lambda x: mk("missing", x), lambda x: (out(x),))),
                "inner_quorum_sets": V(each(F(q, "inner_quorum_sets"), lambda x: mk("call", tf2.short, (x, fb))))}))]

        def nameless(st, v, av):
            # what is written for IDs without a node is not part of the property
            fs = fields(v)
            if v.op != "agg" or "validators" not in fs or fs["validators"].op != "coll":
                return v
            c = fs["validators"]
            N = F(av[1], "nodes")
            ps = []
            for p in c.a[1]:
                e, g, b = p.a
                if b and implied(dict(g), lt(elem(*b[-1]), length(N))) is False:
                    p = part(mk("missing", elem(*b[-1])), g, b)
                ps.append(p)
            return agg(v.a[0], v.a[1], dict(fs, validators=coll(c.a[0], ps, c.a[2], c.a[3])))
        spec(ctx, w, tf2, want, inst="QuorumSet::to_raw", get=nameless)
    else:
        ctx.hold(w, "QuorumSet::to_raw", None)
    op = Opaque("QuorumSet::from_raw", "QuorumSet::to_raw")
    # whole lists, nodes and groups inlined
    f = ctx.fn("Fbas::from_raw")
    if f:
        def nodes(st, v, a):
            return F(v, "nodes")

        def want(raw):
            s = F(raw, "0")
            x = elem(s)
            y = elem(s, 1)
            m = V(part(tup(F(x, "public_key"), pos(s, x)), (), ((s, 0),)), kind="hmap")
            return [({}, V(part(agg("Node", None, {"public_key": F(x, "public_key"), "quorum_set": sym("qs")}), (), ((s, 0),))))]

        def get(st, v, a):
            # the map which is handed down is the key index (decided in P15)
            n = F(v, "nodes")
            if n.op != "coll":
                return n
            ps = []
            for p in n.a[1]:
                e, g, b = p.a
                if e.op == "agg" and "quorum_set" in fields(e) and len(b) == 1:
                    fs = fields(e)
                    q = fs["quorum_set"]
                    if q.op == "call" and q.a[0] == "QuorumSet::from_raw" and q.a[1][0] is F(elem(*b[0]), "quorum_set"):
                        e = agg(e.a[0], e.a[1], dict(fs, quorum_set=sym("qs")))
                ps.append(part(e, g, b))
            return coll(n.a[0], ps, n.a[2], n.a[3])
        spec(ctx, r, f, want, hooks=[op], get=get)
        order(ctx, f, op, lambda v: F(v, "nodes"), "nodes")
    else:
        ctx.hold(r, "Fbas::from_raw", None)
    f = ctx.fn("Fbas::to_raw")
    if f:
        def want(s):
            N = F(s, "nodes")
            return [({}, V(each(N, lambda x: tup(F(x, "public_key"), mk("call", "QuorumSet::to_raw", (F(x, "quorum_set"), s))))))]

        def get(st, v, a):
            n = F(v, "0")
            if n.op != "coll":
                return n
            return coll(n.a[0], [part(tup(F(p.a[0], "public_key"), F(p.a[0], "quorum_set")), p.a[1], p.a[2]) for p in n.a[1]], n.a[2], n.a[3])
        spec(ctx, w, f, want, hooks=[op], get=get)
        order(ctx, f, op, lambda v: F(v, "0"), "nodes")
    else:
        ctx.hold(w, "Fbas::to_raw", None)
    f = ctx.fn("Groupings::to_raw")
    if f:
        def want(s):
            G = F(s, "groupings")
            x = elem(G)
            return [({}, V(part(agg("RawGrouping", None, {"name": F(x, "name"), "validators": seq(F(x, "validators"), lambda y: F(getidx(F(s, "fbas", "nodes"), y), "public_key"))}), (), ((G, 0),))))]
        spec(ctx, w, f, want, get=lambda st, v, a: F(v, "0"))
        order(ctx, f, op, lambda v: F(v, "0"), "groups")
    else:
        ctx.hold(w, "Groupings::to_raw", None)
    f = ctx.fn("Groupings::from_raw")
    if f:
        def want(raw, fb):
            s = F(raw, "0")
            x = elem(s)
            m = F(fb, "pk_to_id")
            ms = F(x, "validators")
            return [({}, tup(V(part(agg("Grouping", None, {"name": F(x, "name"), "validators": V(each(ms, lambda y: mapval(m, y), lambda y: known(m, y)))}), (), ((s, 0),))), fb))]

        def get(st, v, a):
            if v.op == "call" and v.a[0] == "Groupings::new":
                return tup(*v.a[1])
            return tup(F(v, "groupings"), F(v, "fbas"))
        spec(ctx, r, f, want, hooks=[Opaque("Groupings::new")], get=get)
        order(ctx, f, Opaque("Groupings::new"), lambda v: v.a[1][0] if v.op == "call" and v.a[0] == "Groupings::new" else F(v, "groupings"), "groups")
    else:
        ctx.hold(r, "Groupings::from_raw", None)


def every(t):
    """repeated elements of the source are kept"""
    return t.op != "coll" or not (t.a[3] & {"uniq", "deduped"}) and t.a[0] in ("vec", "iter", "deque")


def order(ctx, f, op, get, what):
    I_, outs, a = ctx.run(f, hooks=[op])
    for st, v in outs:
        c = get(v)
        if c.op != "coll":
            ctx.hold("the order of %s is kept" % what, f.short, None)
            continue
        r = inorder(c)
        if r is False and (st.lossy or not clear(c)):
            r = None
        ctx.hold("the order of %s is kept" % what, f.short, r, where(f), show(c, 5), key="order/" + f.short)


def repeats(ctx):
    for n in ("QuorumSet::from_raw", "QuorumSet::to_raw"):
        f, g = resolve(ctx, n)
        g = g or f
        if g is None:
            continue
        I_, outs, a = ctx.run(g)
        for st, v in outs:
            for k in ("validators", "inner_quorum_sets"):
                c = fields(v).get(k) if v.op == "agg" else None
                if c is None or c.op != "coll":
                    ctx.hold("repeated entries are kept", n, None)
                    continue
                r = every(c)
                ctx.hold("repeated entries are kept", "%s of %s" % (k, n), None if not r and (st.lossy or not clear(c)) else r, where(g), show(c, 5), key="repeats/%s/%s" % (n, k))


def frame(ctx):
    """the way between text and raw form"""
    r = "text and files are converted as a whole"
    ok = lambda t: pay(t, "Ok", "0")
    js = lambda n, *a: ok(mk("call", "serde_json::" + n, a))
    rd = lambda p: ok(mk("call", "fs::read_to_string", (p,)))
    raw = lambda t, fb: mk("call", "Groupings::from_raw", (t, fb))
    cases = {
        "Fbas::from_json_str": lambda s: js("from_str", s),
        "Fbas::from_json_file": lambda p: js("from_str", rd(p)),
        "Fbas::from_json_stdin": lambda: js("from_reader", mk("call", "io::stdin", ())),
        "Fbas::to_json_string": lambda s: js("to_string", s),
        "Fbas::to_json_string_pretty": lambda s: js("to_string_pretty", s),
        "Groupings::from_json_str": lambda s, fb: raw(js("from_str", s), fb),
        "Groupings::organizations_from_json_str": lambda s, fb: raw(js("from_str", s), fb),
        "Groupings::from_json_file": lambda p, fb: raw(js("from_str", rd(p)), fb),
        "Groupings::organizations_from_json_file": lambda p, fb: raw(js("from_str", rd(p)), fb),
    }
    for n, w in cases.items():
        f = ctx.fn(n)
        if ctx.anchor(n, f):
            spec(ctx, r, f, lambda *a, w=w: [({}, w(*a))], hooks=[Opaque("Groupings::from_raw")])
    for n, w in (("Fbas", "RawFbas"), ("Groupings", "RawGroupings")):
        fs = [f for f in ctx.prog.fns.values() if f.crate == "fbas_analyzer" and f.short == n + "::serialize"]
        for f in fs:
            spec(ctx, "the JSON form is what is serialized", f, lambda s, x, n=n, w=w: [({}, mk("call", w + "::serialize", (mk("call", n + "::to_raw", (s,)), x)))], hooks=[Opaque(n + "::to_raw", "Fbas::to_standard_form")])
        if not fs:
            ctx.hold("the JSON form is what is serialized", n, None)
    fs = [f for f in ctx.prog.fns.values() if f.crate == "fbas_analyzer" and f.short == "Fbas::deserialize" and not f.derived]
    for f in fs:
        I_, outs, a = ctx.run(f, hooks=[Opaque("Fbas::from_raw", "Fbas::to_standard_form")])
        d = mk("call", "RawFbas::deserialize", (a[0],))
        for st, v in outs:
            k = isvar(d, "Ok")
            s = implied(st.facts, k)
            if s is None:
                ctx.hold("what was deserialized is converted", f.short, None)
                continue
            if s:
                x = agg("Result", "Ok", {"0": mk("call", "Fbas::from_raw", (pay(d, "Ok", "0"),))})
                ctx.hold("what was deserialized is converted", f.short, match(v, x, st.facts), where(f), show(v, 6), key="deserialize")
            else:
                ctx.hold("what was deserialized is converted", f.short, True if v.op == "agg" and v.a[1] == "Err" else None, where(f))
    if not fs:
        ctx.hold("what was deserialized is converted", "Fbas", None)


class Ser(ai.Hook):
    def __init__(self):
        self.fields, self.skips = {}, {}

    def call(self, I_, st, fr, span, name, fn, args):
        op = name.split("::")[-1]
        if op in ("serialize_field", "skip_field", "serialize_entry"):
            n = I_.read(st, args[1])
            if op == "skip_field":
                self.skips.setdefault(n, []).append(dict(st.facts))
            else:
                self.fields.setdefault(n, set()).add(I_.read(st, args[2]))


def depth(t):
    """number of the sequence element that t is, counting from 0"""
    n = -1
    while True:
        if t.op == "pay":
            t = t.a[0]
        elif t.op == "call" and t.a[0].endswith("next_element"):
            n += 1
            t = t.a[1][0]
        elif t.op == "out":
            t = t.a[0]
        elif t.op == "sym":
            return n if n >= 0 else None
        else:
            return None


def schema(ctx, ty, need, crate="fbas_analyzer"):
    """the names written for the fields of ty lead back to the same fields"""
    r = "the name under which a field is written is the name under which it is read"
    fns = [f for f in ctx.prog.fns.values() if f.crate == crate]
    ser = [f for f in fns if f.short == ty + "::serialize"]
    de = [f for f in fns if f.short == ty + "::deserialize"]
    if not ser or not de or not ser[0].derived or not de[0].derived:
        ctx.hold(r, ty, None)
        return
    H = Ser()
    ctx.run(ser[0], hooks=[H])
    s = mk("sym", ser[0].lnames[1] or "self")
    pre = de[0].id + "::"
    sub = {f.name: f for f in fns if f.id.startswith(pre)}
    if "visit_str" not in sub or "visit_seq" not in sub:
        ctx.hold(r, ty, None)
        return
    names = {}
    cap, ai.CAP = ai.CAP, 256  # one case per name
    try:
        I_, outs, a = ctx.run(sub["visit_str"])
    finally:
        ai.CAP = cap
    for st, v in outs:
        x = fields(v).get("0") if v.op == "agg" and v.a[1] == "Ok" else None
        for k, w in st.facts.items():
            if w is True and k.op == "eq" and a[1] in k.a:
                c = [y for y in k.a if y is not a[1]][0]
                if x is not None and x.op == "agg":
                    names[c] = x.a[1]
    seqf, defaults = {}, {}
    I_, outs, a = ctx.run(sub["visit_seq"])
    for st, v in outs:
        x = fields(v).get("0") if v.op == "agg" and v.a[1] == "Ok" else None
        if x is None or x.op != "agg":
            continue
        for n, y in fields(x).items():
            d = depth(y)
            if d is not None:
                seqf[n] = d
            elif clear(y) and not any(z.op == "call" for z in subterms(y)):
                defaults.setdefault(n, set()).add(y)
    written = {}
    for n, vs in H.fields.items():
        for v in vs:
            written.setdefault(v, set()).add(n)
    for fld_ in need:
        v = F(s, fld_)
        ns = written.get(v)
        inst = "%s.%s" % (ty, fld_)
        if not ns:
            # not written at all, or in another form
            other = any(mentions(x, v) for x in written)
            ctx.hold(r, inst, None if other or not written else False, where(ser[0]), "the field is not written", key="name/" + inst)
            continue
        for n in ns:
            if n not in names:
                ctx.hold(r, inst, False if names else None, where(de[0]), "written as %s, which is not read" % show(n), key="name/" + inst)
                continue
            k = names[n]
            i = int(k[7:]) if str(k).startswith("__field") and str(k)[7:].isdigit() else None
            got = [m for m, d in seqf.items() if d == i] if i is not None else []
            ctx.hold(r, inst, None if not got else got == [fld_], where(de[0]), "written as %s, which is read into %s" % (show(n), got), key="name/" + inst)
            if n in H.skips:
                rule = "a field that is left out when writing is read as the value it had"
                for facts in H.skips[n]:
                    ds = defaults.get(fld_, set())
                    ctx.hold(rule, inst, skipok(ctx, v, facts, ds, ser[0]), where(ser[0]), "left out, but reading %s" % ("fills in " + show(sorted(ds, key=lambda x: x.n)[0], 5) if ds else "requires it"), key="skip/" + inst)


def skipok(ctx, v, facts, ds, f):
    """under facts the field v equals the default"""
    about = [(k, w) for k, w in facts.items() if mentions(k, v) and all(mentions(k, v) or True for _ in (0,))]
    isnone = any(k is isvar(v, "Some") and w is False for k, w in about)
    if not ds:
        return True if isnone else (False if about and all(clear(k) for k, _ in about) and not any(k.op == "is" for k, _ in about) else None)
    d = sorted(ds, key=lambda x: x.n)[0]
    if len(ds) != 1:
        return None
    if d.op == "coll":
        empty = not d.a[1] and not d.a[2]
        e = implied(facts, eq0(length(v)))
        return True if e and empty else (False if e and not empty or e is False and not about else None)
    if d.op in ("int", "bool", "str"):
        e = implied(facts, eq(v, d))
        return e if e is not None else None
    if isnone:
        return True if d is NONE else False
    return None


def check(ctx):
    shapes(ctx)
    repeats(ctx)
    frame(ctx)
    schema(ctx, "RawNode", ["public_key", "quorum_set"])
    schema(ctx, "RawQuorumSet", ["threshold", "validators", "inner_quorum_sets"])
    schema(ctx, "RawGrouping", ["name", "validators"])
