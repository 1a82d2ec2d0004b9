"""Canonical order: entries of quorum sets are sorted at every level after they were converted; the standard form is ordered by public key."""
from p20 import *
from qsets import resolve

RULE = "entries are in ascending order"


def way(by, key=lambda z: z):
    """True: a comparison that orders ascending by key; False: descending"""
    if len(by) != 1:
        return None
    c = by[0]
    u, v = (c.a[1] if c.op == "call" and c.a[0].split("::")[-1] == "cmp" else c.a[:2] if c.op == "cmp" else (None, None))[:2]
    x, y = key(sym("x")), key(sym("y"))
    return True if (u, v) == (x, y) else False if (u, v) == (y, x) else None


def sorted_(t, st, ctx):
    """True / False / None: t is in ascending order whatever the order of the input"""
    if t.op == "coll":
        if not t.a[1] and not t.a[2]:
            return True
        if "sorted" in t.a[3]:
            return True
        w = way([x[1] for x in t.a[3] if isinstance(x, tuple) and x[0] == "by"])
        if w is not None:
            return w is ("rev" not in t.a[3]) if not t.a[3] & {"perm", "reord", "hashorder"} else None
        if t.a[2] or not clear(t):
            return None
        if len(t.a[1]) == 1 and not t.a[1][0].a[2]:
            return True  # a single element
        if calls(t) - {c for c in calls(t) if c.split("::")[-1] in ("from_raw", "shrunken")}:
            return None
        return False
    if t.op in ("fld", "elem", "pay") and clear(t):
        return False  # taken over from the input
    return None


def fieldcheck(ctx, name, f, g):
    """both lists of what g makes"""
    I_, outs, a = ctx.run(g, hooks=[Rest(g)])
    for st, v in outs:
        if v.op != "agg" or "validators" not in fields(v):
            ctx.hold(RULE, name, None)
            continue
        fs = fields(v)
        for n in ("validators", "inner_quorum_sets"):
            if n in fs:
                r = sorted_(fs[n], st, ctx)
                if r is False and (I_.lvdefs and not clear(fs[n]) or st.lossy):
                    r = None
                ctx.hold(RULE, "%s of %s" % (n, name), r, where(g), show(fs[n], 6), key="order/%s/%s" % (name, n))
        # inner quorum sets are themselves converted
        c = fs.get("inner_quorum_sets")
        if c is not None and c.op == "coll" and not c.a[2] and c.a[1]:
            for p in c.a[1]:
                e = p.a[0]
                if e.op == "call":
                    r = True if e.a[0] == g.short else None
                elif e.op == "elem" or e.op == "fld":
                    r = False if clear(e) else None
                elif e.op == "agg":
                    r = None
                    x = fields(e)
                    rs = [sorted_(x[n], st, ctx) for n in ("validators", "inner_quorum_sets") if n in x]
                    if False in rs and clear(e):
                        r = False
                else:
                    r = None
                ctx.hold("inner quorum sets are in this form themselves", name, None if r is False and st.lossy else r, where(g), show(e, 6), key="inner/" + name)


class Rest(ai.Hook):
    def __init__(self, f):
        self.f = f


def derivedorder(ctx):
    """order and equality of quorum sets look at all fields"""
    for op in ("eq", "cmp"):
        c = [f for f in ctx.prog.fns.values() if f.crate == "fbas_analyzer" and f.short == "QuorumSet::" + op]
        r = True if c and all(f.derived for f in c) else None
        ctx.hold("quorum sets are compared in all their parts", op, r)


def check(ctx):
    n = 0
    for name in ("QuorumSet::from_raw", "QuorumSet::shrunken"):
        f, g = resolve(ctx, name)
        if f is None:
            ctx.hold(RULE, name, None)
            continue
        n += 1
        fieldcheck(ctx, name, f, g or f)
    derivedorder(ctx)
    users(ctx)
    standard(ctx)


def users(ctx):
    """nodes read or reduced get their quorum sets from these conversions"""
    r = "nodes get the converted quorum set"
    for name, conv in (("Fbas::from_raw", "QuorumSet::from_raw"), ("Fbas::shrunken", "QuorumSet::shrunken")):
        f = ctx.fn(name)
        if f is None:
            ctx.hold(r, name, None)
            continue
        I_, outs, a = ctx.run(f, hooks=[Opaque(conv, "Fbas::new_generic_unconfigured")])
        for st, v in outs:
            c = v if v.op == "agg" and "nodes" in fields(v) else fields(v).get("0") if v.op == "agg" else None
            N = F(c, "nodes") if c is not None else None
            if N is None or N.op != "coll":
                ctx.hold(r, name, None)
                continue
            es = [x[1] for x in N.a[2]] or [p.a[0] for p in N.a[1]]
            for e in es:
                q = F(e, "quorum_set")
                ok = True if q.op == "call" and q.a[0] == conv else (False if q.op in ("fld", "elem", "pay", "agg") and clear(q) and partsunsorted(q) else None)
                ctx.hold(r, name, None if ok is False and st.lossy else ok, where(f), show(q, 6), key="conv/" + name)


def partsunsorted(q):
    """one of the lists is not in order"""
    for n in ("validators", "inner_quorum_sets"):
        x = F(q, n)
        if x.op == "coll" and x.a[1] and not x.a[2] and "sorted" not in x.a[3] or x.op in ("fld", "elem", "pay"):
            return True
    return False


def standard(ctx):
    f = ctx.fn("Fbas::to_standard_form")
    if not ctx.anchor("Fbas::to_standard_form", f):
        return
    op = ("Fbas::shrunken", "Fbas::relevant_nodes", "Fbas::to_raw", "Fbas::from_raw", "Fbas::satisfiable_nodes", "Fbas::strongly_connected_components", "Fbas::all_nodes")
    I_, outs, a = ctx.run(f, hooks=[Opaque(*op)])
    S_ = a[0]
    for st, v in outs:
        sh = [x for x in subterms(v) if x.op == "call" and x.a[0] == "Fbas::shrunken"]
        r = None
        if sh:
            keep = sh[0].a[1][1]
            rel = mk("call", "Fbas::relevant_nodes", (S_,))
            r = match(keep, rel, st.facts)
            if r is None and keep.op == "call" and keep.a[0] in op and keep.a[0] != "Fbas::relevant_nodes":
                r = False
            if sh[0].a[1][0] is not S_:
                r = None
        elif v.op == "call" and clear(v) and not any(c.split("::")[-1] not in ("from_raw", "to_raw", "relevant_nodes") for c in calls(v)):
            r = None if any(x.op == "contains" for x in subterms(v)) else False
        ctx.hold("the standard form contains exactly the relevant nodes", f.short, None if r is False and st.lossy else r, where(f), show(v, 7), key="standard/nodes")
        rule = "the standard form is ordered by public key"
        r = None
        if v.op == "call" and v.a[0] == "Fbas::from_raw":
            x = F(v.a[1][0], "0")
            if x.op == "coll" and not x.a[2]:
                by = [t for t in x.a[3] if isinstance(t, tuple) and t[0] == "by"]
                key = F(sym("x"), "public_key")
                if by:
                    w = way([t[1] for t in by], lambda z: F(z, "public_key"))
                    ln = by[0][1].op == "cmp" and all(z.op == "len" for z in by[0][1].a[:2])
                    r = w if w is not None and "rev" not in x.a[3] else False if ln and len(by) == 1 else True if any(t[1].op == "fld" and t[1].a[-1] == "public_key" for t in by) and len(by) == 1 else (False if clear(by[0][1]) and (by[0][1].op == "len" or not calls(by[0][1])) else None)
                    if r is False and w is None and not ln and by[0][1].op != "len" and any(x2.op == "fld" and x2.a[-1] == "public_key" for x2 in subterms(by[0][1])):
                        r = None
                elif "sorted" in x.a[3]:
                    r = None
                else:
                    r = False if clear(x) and x.a[0] not in ("map", "set") else None
                if r is True and x.a[3] & {"rev", "perm", "hashorder"}:
                    r = None
            elif clear(x):
                r = False
        elif v.op == "fld" and v.a[0].op == "call" and v.a[0].a[0] == "Fbas::shrunken":
            r = False  # IDs in the original order
        ctx.hold(rule, f.short, None if r is False and st.lossy else r, where(f), show(v, 7), key="standard/order")
