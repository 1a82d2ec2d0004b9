"""The node list and the key index of an FBAS are kept in step by everything that builds or changes an FBAS."""
from p20 import *

RULE = "the key index leads from each node's key to that node's position"


def quorumonly(N, base):
    """N is `base` with changes to quorum sets only"""
    if N is base:
        return True
    if N.op != "coll":
        return None
    if N.a[3] - {"uniq", "deduped"}:
        return False  # another order
    if N.a[2]:
        for k, v, g, b in N.a[2]:
            r = elemonly(v, getidx(base, k))
            if r is not True:
                return r
        return quorumonly(coll(N.a[0], N.a[1], (), N.a[3]), base)
    if len(N.a[1]) != 1:
        return None
    e, g, b = N.a[1][0].a
    if g or len(b) != 1 or b[0][0] is not base:
        return None
    return True if e is elem(*b[0]) else elemonly(e, elem(*b[0]))


def elemonly(v, old):
    r = match(F(v, "public_key"), F(old, "public_key"))
    return r


def derived(N):
    """the index that belongs to N"""
    e0 = elem(N)
    out = [V(part(tup(F(e0, "public_key"), pos(N, e0)), (), ((N, 0),)), kind="hmap")]
    if N.op == "coll" and not N.a[2] and len(N.a[1]) == 1:
        e, g, b = N.a[1][0].a
        if not g and len(b) == 1 and not (N.a[3] - {"uniq", "deduped"}):
            out.append(V(part(tup(F(e, "public_key"), pos(b[0][0], elem(*b[0]))), (), b), kind="hmap"))
    return out


def agree(N, P, bases, facts):
    if N.op == "coll" and not N.a[1] and not N.a[2] or N.op in ("int",):
        if P.op == "coll" and not P.a[1] and not P.a[2]:
            return True
        return False if clear(P) and P.op == "coll" else None
    for n0, p0 in bases:
        q = quorumonly(N, n0)
        if q is True:
            r = match(P, p0, facts)
            return r
        if q is False and P is p0:
            return False
        if q is None and P is p0 and n0.op == "fld" and n0.a[0].op == "call" and N.op == "coll" and N.a[2]:
            # nodes of a fresh FBAS were replaced by others with keys of their own
            ks = [F(v, "public_key") for _, v, _, _ in N.a[2]]
            if all(k.op == "fld" and clear(k) and not mentions(k, n0.a[0]) for k in ks):
                return False
        # appended nodes
        if N.op == "coll" and not N.a[2]:
            own = [p for p in N.a[1] if p.a[2] and p.a[2][0][0] is n0 and p.a[0] is elem(*p.a[2][0])]
            rest = [p for p in N.a[1] if p not in own]
            if len(own) == 1 and len(rest) == 1:
                e, g, b = rest[0].a
                if P is p0:
                    return False
                if N.a[1][0] is not own[0] or N.a[3] - {"uniq", "deduped"}:
                    return False if clear0(N, n0, p0) else None
                if P.op != "coll" or P.a[2]:
                    return None
                own2 = [p for p in P.a[1] if p.a[2] and p.a[2][0][0] is p0]
                rest2 = [p for p in P.a[1] if p not in own2]
                if len(rest2) == 1 and rest2[0].a[0].op == "agg":
                    f2 = fields(rest2[0].a[0])
                    rs = [match(f2.get("0"), F(e, "public_key"), facts), match(f2.get("1"), length(n0), facts)]
                    if len(own2) != 1:
                        rs.append(False if len(own2) == 0 else None)
                    return False if False in rs and clear0(rest2[0].a[0], n0, p0) else (True if rs[:2] == [True, True] and len(rs) == 2 else None)
                return None
    # the same nodes, in another order
    if N.op == "coll" and P.op == "coll" and not P.a[2] and len(P.a[1]) == 1 and len(P.a[1][0].a[2]) == 1:
        src, t = P.a[1][0].a[2][0]
        if src.op == "coll" and src.a[1:3] == N.a[1:3] and src is not N and P.a[1][0].a[0].op == "agg":
            order = lambda c: c.a[3] - {"uniq", "deduped"}
            p1 = fields(P.a[1][0].a[0]).get("1")
            if order(src) == order(N):
                P = subst(P, {src: N})
            elif p1 is pos(src, elem(src, t)) and len(order(src) | order(N)) == 1:
                return False
    rs = []
    X = mk("sym", "new nodes")
    for w in derived(N):
        p = subst(P, {N: X}) if mentions(P, N) else P
        w = subst(w, {N: X}) if mentions(w, N) else w
        r = match(p, w, facts)
        if r is True:
            return True
        rs.append(False if r is False and clear(p) else None)
    return False if all(r is False for r in rs) and rs else None


def clear0(t, *ok):
    m = {x: mk("sym", "base%d" % i) for i, x in enumerate(ok)}
    return clear(subst(t, m))


def fb_of(v):
    """FBAS values inside a result"""
    out = []
    if v.op == "agg":
        fs = fields(v)
        if "pk_to_id" in fs or "nodes" in fs and (v.a[0] == "Fbas" or v.a[3] is not None):
            return [v]
        for n in sorted(fs):
            out += fb_of(fs[n])
    return out


ROOTS = ["Fbas::new", "Fbas::new_generic_unconfigured", "Fbas::from_raw", "Fbas::add_node", "Fbas::add_generic_node",
         "Fbas::swap_quorum_set", "Fbas::shrunken"]
MUST = ROOTS
HIDE = {"Fbas::shrunken": ("Fbas::new_generic_unconfigured", "QuorumSet::shrunken"), "Fbas::from_raw": ("QuorumSet::from_raw",)}


def touches(f):
    """f builds an FBAS or has mutable access to one of its two parts"""
    for i, bb in enumerate(f.blocks):
        for s in bb["stmts"]:
            if "Fbas" in str(s) and any(x in str(s) for x in ("pk_to_id",)):
                return True
    return False


def roots(ctx):
    out = [(n, ctx.fn(n)) for n in ROOTS]
    seen = {f.id for _, f in out if f}
    for f in sorted(ctx.prog.fns.values(), key=lambda f: f.short):
        if f.crate != "fbas_analyzer" or f.id in seen or f.kind == "Closure" or f.derived or f.trait:
            continue
        muts = [t for t in f.argtys() if t.k == "ref" and t.a[1] and tystr(strip_refs(t)) == "Fbas"]
        gives = tystr(f.retty()) == "Fbas"
        if muts and f.short.startswith("Fbas::"):
            out.append((f.short, f))
    return out


def check(ctx):
    n = 0
    for name, f in roots(ctx):
        if f is None:
            if name in ("Fbas::from_raw", "Fbas::shrunken"):
                ctx.hold(RULE, name, None)
            else:
                ctx.anchor(name, f)
            continue
        n += 1
        try:
            I_, outs, a = ctx.run(f, hooks=[Opaque(*HIDE.get(name, ()))])
        except RecursionError:
            ctx.hold(RULE, name, None)
            continue
        bases = []
        for t in f.argtys():
            pass
        for x in a:
            s = x if x.op == "sym" else (mk("sym", x.a[0][1]) if x.op == "ref" else None)
            if s is not None:
                bases.append((F(s, "nodes"), F(s, "pk_to_id")))
        gen = mk("call", "Fbas::new_generic_unconfigured", ())
        for st, v in outs:
            for x in subterms(v):
                if x.op == "call" and x.a[0] == "Fbas::new_generic_unconfigured":
                    bases.append((F(x, "nodes"), F(x, "pk_to_id")))
        # loops: the pair agrees before the first round and after every round if it did before
        lvs = {}
        for lv in I_.lvdefs:
            key = tuple(map(str, lv.a[:2]))
            if key[-1].endswith("nodes)") or "nodes" in key[-1]:
                lvs.setdefault(str(lv.a[0]), {})["n"] = lv
            if "pk_to_id" in key[-1]:
                lvs.setdefault(str(lv.a[0]), {})["p"] = lv
        for d in lvs.values():
            if "n" in d and "p" in d:
                bases.append((d["n"], d["p"]))
                loop(ctx, name, f, I_, d["n"], d["p"], bases)
            elif "n" in d:
                # the index is not changed by the loop
                pass
        for st, v in outs:
            vals = fb_of(v)
            for x in a:
                if x.op == "ref" and x.a[0] in st.cells:
                    c = st.cells[x.a[0]]
                    if c.op == "agg" and ({"nodes", "pk_to_id"} & set(fields(c))):
                        vals.append(c)
            if not vals and name in MUST:
                if any(x.op == "ref" for x in a):
                    ctx.hold(RULE, name, False if name in ("Fbas::add_node", "Fbas::add_generic_node") and not st.lossy else None, where(f), "nothing is added", key="index/" + name)
                else:
                    ctx.hold(RULE, name, None)
            for c in vals:
                r = agree(F(c, "nodes"), F(c, "pk_to_id"), bases, st.facts)
                if st.lossy and r is False:
                    r = None
                ctx.hold(RULE, name, r, where(f), "nodes %s, index %s" % (show(F(c, "nodes"), 6)[:250], show(F(c, "pk_to_id"), 6)[:250]), key="index/" + name)
    ctx.floor("functions that build or change an FBAS", n, 5)
    adding(ctx)
    lookup(ctx)
    standard(ctx)


def loop(ctx, name, f, I_, N, P, bases):
    dn, dp = I_.lvdefs[N], I_.lvdefs[P]
    ctx.hold(RULE, name + " before the loop", agree(dn["init"], dp["init"], bases[:-1], {}), where(f), "", key="loop/" + name)
    for n2, gn in dn["upd"].items():
        for p2, gp in dp["upd"].items():
            ctx.hold(RULE, name + " after a round", agree(n2, p2, bases, {}), where(f), "nodes %s, index %s" % (show(n2, 6)[:250], show(p2, 6)[:250]), key="loop/" + name)
    if bool(dn["upd"]) != bool(dp["upd"]):
        ctx.hold(RULE, name + " after a round", None)


def adding(ctx):
    f = ctx.fn("Fbas::add_node")
    if f:
        spec(ctx, "adding a node returns its ID", f, lambda *a: [({}, length(F(sym(f.lnames[1]), "nodes")))])
        I_, outs, a = ctx.run(f)
        s, n = sym(f.lnames[1]), a[1]
        for st, v in outs:
            c = st.cells.get(a[0].a[0]) if a[0].op == "ref" else None
            N = F(c, "nodes") if c is not None else None
            r = None
            if N is not None and N.op == "coll" and not N.a[2]:
                own = [p for p in N.a[1] if p.a[2] and p.a[2][0][0] is F(s, "nodes")]
                rest = [p for p in N.a[1] if p not in own]
                if len(own) == 1 and len(rest) == 1:
                    r = match(rest[0].a[0], n, st.facts)
            ctx.hold("a node with a new key is added as it is", f.short, r, where(f), show(N, 6) if N is not None else "", key="added")
            if not st.lossy:
                k = contains(F(s, "pk_to_id"), F(n, "public_key"))
                ctx.hold("a second node with the same key is refused", f.short, {False: True, None: False, True: False}[implied(st.facts, k)] if not st.lossy else None,
                         where(f), "a node whose key is already there is accepted", key="duplicate")


def lookup(ctx):
    f = ctx.fn("Fbas::get_node_id")
    if not ctx.anchor("Fbas::get_node_id", f):
        return
    r = "the ID of a key is read from the key index"
    I_, outs, a = ctx.run(f)
    m = F(a[0], "pk_to_id")
    for st, v in outs:
        if mentions(v, F(a[0], "nodes")):
            N = F(a[0], "nodes")
            p = part(pos(N, elem(N)), ((eq(a[1], F(elem(N), "public_key")), True),), ((N, 0),))
            w = mk("getopt", any_([part(TRUE, p.a[1], p.a[2])]), mk("find", p))
            res = True if match(v, w, st.facts) is True else None
            ctx.hold(r, f.short, res)
            continue
        for wf, wv in [({contains(m, a[1]): True}, some(mapval(m, a[1]))), ({contains(m, a[1]): False}, NONE)]:
            if compat(st.facts, wf):
                res = match(v, wv, dict(st.facts, **{}) | wf)
                ctx.hold(r, f.short, None if res is False and st.lossy else res, where(f), "yields %s" % show(v, 8), key="lookup")


def standard(ctx):
    f = ctx.fn("Fbas::to_standard_form")
    if not ctx.anchor("Fbas::to_standard_form", f):
        return
    I_, outs, a = ctx.run(f, hooks=[Opaque("Fbas::shrunken", "Fbas::relevant_nodes", "Fbas::to_raw", "Fbas::from_raw", "QuorumSet::shrunken", "QuorumSet::to_raw")])
    for st, v in outs:
        if v.op == "call" and v.a[0] in ("Fbas::from_raw", "Fbas::shrunken") or v.op == "fld" and v.a[0].op == "call":
            ctx.hold(RULE, "Fbas::to_standard_form", True)
        elif v.op == "agg":
            for c in fb_of(v):
                b = []
                for x in subterms(v):
                    if x.op == "call":
                        for y in (x, F(x, "0")):
                            b.append((F(y, "nodes"), F(y, "pk_to_id")))
                N, P = F(c, "nodes"), F(c, "pk_to_id")
                r = agree(N, P, b, st.facts)
                if r is None and not st.lossy and N.op == "coll" and N.a[3] and any(P is p0 and sortof(N, n0) for n0, p0 in b):
                    r = False
                ctx.hold(RULE, "Fbas::to_standard_form", r, where(f), "nodes %s, index %s" % (show(N, 6)[:250], show(P, 6)[:250]), key="index/to_standard_form")
        else:
            ctx.hold(RULE, "Fbas::to_standard_form", None)


def sortof(N, n0):
    """N is n0 put into another order"""
    return len(N.a[1]) == 1 and not N.a[2] and N.a[1][0].a[2] and N.a[1][0].a[2][0][0] is n0 and N.a[1][0].a[0] is elem(*N.a[1][0].a[2][0])
