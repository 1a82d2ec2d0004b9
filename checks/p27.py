"""Ranking: what a node passes on to whom in a round, what is summed up, and the order made of it."""
from p29 import *

PSC = "partition_into_strongly_connected_components"


def fb(t, op):
    return t.op == "fbin" and t.a[0] == op


def f64of(t):
    """x of `x as f64`"""
    if t.op == "f64":
        return t.a[0]
    if t.op == "cast" and len(t.a) >= 3:
        return t.a[-1]
    if t.op == "call" and t.a[0] == "f64":
        return t.a[1][0]
    return None


def show_(t):
    return show(t, 7)


def scores(ctx, f, opaque, source, targets, cond, count):
    """source(a): node that passes on; targets(a, s): whom it trusts; cond(a, k): conditions for a part to be counted"""
    I_, outs, a = ctx.run(f, hooks=[Opaque(*opaque)])
    name = f.short
    r = "every node passes on its last score in equal parts"
    n = 0
    inner = {}
    for L, d in I_.lvdefs.items():
        for u, ws in d["upd"].items():
            if u.op == "coll" and u.a[2]:
                for k, val, g, bd in u.a[2]:
                    inner.setdefault(L, []).append((k, val, g, ws))
    starts, zeros = set(), set()
    for L, us in inner.items():
        for k, val, g, ws in us:
            t = "%s := %s" % (show(k, 5), show_(val))
            c, d = lin_parts(val)
            cur = getidx(L, k)
            parts = [x for x in d if x is not cur]
            if cur not in d:
                ctx.hold("parts are added up", name, False if clear(subst(val, {L: sym("#")})) or fb(val, "Div") else None, where(f), t, key=name + "/sum")
                continue
            if len(parts) != 1 or c or d[cur] != 1 or d[parts[0]] != 1:
                ctx.hold("parts are added up", name, None, where(f), t, key=name + "/sum")
                continue
            p = parts[0]
            s = source(a)
            T = targets(a, s)
            n += 1
            if not fb(p, "Div"):
                ctx.hold(r, name, False if p.op in ("idx", "elem") or fb(p, "Mul") else None, where(f), t, key=name + "/share")
                continue
            last, m = p.a[1], f64of(p.a[2])
            whole = {length(T)}
            ok = None
            if m is not None:
                ok = True if count(m, T, a) else (False if clear(m) else None)
            ctx.hold(r, name + " (parts)", ok, where(f), t, key=name + "/parts")
            ok = None
            if last.op == "idx":
                ok = True if last.a[1] is s else (False if clear(last.a[1]) else None)
                base = last.a[0]
                if base is L or base.op == "lv" and I_.lvdefs.get(base, {}).get("init") is L:
                    ok = False
                if base.op == "coll":
                    for q in base.a[1]:
                        e = q.a[0]
                        if not any(x.op == "lv" for x in subterms(e)):
                            starts.add(e)
            ctx.hold(r, name + " (score of the round before)", ok, where(f), show_(last), key=name + "/last")
            ctx.hold(r, name + " (to whom)", True if k.op == "elem" and k.a[0] is T else (False if clear(k) else None), where(f), t, key=name + "/target")
            lits = set(g)
            want = cond(a, k)
            for gs, _ in ws:
                have = {x for x in lits | set(gs) if x not in want}
                miss = {x for x in want if x not in lits | set(gs)}
                have = {(kk, w) for kk, w in have if not bound_atom(kk) and kk.op != "fits" and not (kk.op in ("eq0", "le0") and w is False and set(lin_parts(kk.a[0])[1]) == {length(T)})}
                ok = True if not have and not miss else (False if miss and not have or all(clear(kk) for kk, _ in have) else None)
                ctx.hold("parts are passed on to all trusted nodes considered, and to no others", name, ok, where(f), ", ".join(("" if w else "not ") + show(kk, 5) for kk, w in lits | set(gs)), key=name + "/condition")
        i = I_.lvdefs[L]["init"]
        seen = set()
        while i.op == "lv" and i not in seen and i in I_.lvdefs:
            seen.add(i)
            i = I_.lvdefs[i]["init"]
        if i.op == "coll" and not any(x.op == "lv" for x in subterms(i)):
            ok = None
            if len(i.a[1]) == 1 and not i.a[2]:
                z = i.a[1][0].a[0]
                zeros.add(z)
                ok = True if z.op in ("float", "flt", "fl", "const", "f") and str(z.a[0]) in ("0.0", "0", "0.") or show(z, 3) in ("0.0", "0") else (False if clear(z) else None)
            ctx.hold("each round starts from nothing", name, ok, where(f), show(i, 5), key=name + "/zero")
    if not n:
        ctx.hold(r, name, None)
    for e in starts:
        m = f64of(e.a[2]) if fb(e, "Div") else None
        ok = None
        if m is not None:
            ok = True if m.op == "len" and show(e.a[1], 2) in ("1.0", "1") else None
        elif e.op in ("float", "flt", "fl", "const", "f", "int") or show(e, 3).replace(".", "").isdigit():
            ok = False
        ctx.hold("scores start as equal shares", name, ok, where(f), show(e, 5), key=name + "/start")
    return I_, outs, a


def ranks(ctx):
    f = ctx.fn("rank_nodes")
    if ctx.anchor("rank_nodes", f):
        scores(ctx, f, (CN,), lambda a: elem(a[0]), lambda a, s: call(CN, F(getidx(F(a[1], "nodes"), s), "quorum_set")),
               lambda a, k: {(contains(a[0], k), True)}, lambda m, T, a: m is length(T))
    f = ctx.fn("Graph::get_rank_scores")
    if ctx.anchor("Graph::get_rank_scores", f):
        def src(a):
            o = F(a[0], "outlinks")
            return mk("pos", o, elem(o))
        scores(ctx, f, (), src, lambda a, s: elem(F(a[0], "outlinks")), lambda a, k: set(), lambda m, T, a: m is length(T))


def order(ctx):
    f = ctx.fn("sort_by_rank")
    r = "sorting by rank keeps every node once, highest score first"
    if ctx.anchor("sort_by_rank", f) and ctx.fn("rank_nodes"):
        I_, outs, a = ctx.run(f, hooks=[Opaque("rank_nodes")])
        src, fbas = a
        sc = call("rank_nodes", src, fbas)
        for st, v in outs:
            if v is src:
                ok = True if short_list(st, src) else (False if not st.lossy and all(clear(k) for k in st.facts) else None)
                ctx.hold(r, f.short, ok)
                continue
            if v.op != "coll":
                gone = v.op == "out" and v.a[0].op == "call" and v.a[0].a[0].split("::")[-1] in ("dedup_by", "dedup_by_key", "truncate", "pop", "drain", "remove", "swap_remove")
                ctx.hold(r, f.short, False if gone and not st.lossy and clear(*st.facts) else None, where(f), show_(v), key="order")
                continue
            ok = match(v, seq(src), st.facts)
            ctx.hold(r, f.short + " (nodes)", None if ok is False and st.lossy else ok, where(f), show_(v), key="order/nodes")
            by = [t[1] for t in v.a[3] if isinstance(t, tuple) and t[0] == "by"]
            ok = None
            if len(by) == 1:
                x, y = getidx(sc, sym("x")), getidx(sc, sym("y"))
                b = by[0]
                up = b.op == "cmp" and b.a[0] is x and b.a[1] is y
                down = b.op == "cmp" and b.a[0] is y and b.a[1] is x
                rev = "rev" in v.a[3]
                ok = True if down and not rev or up and rev else (False if up or down else None)
                if not up and not down and b.op == "cmp" and clear(b) and all(not mentions(z, sc) for z in b.a[:2]):
                    ok = False
            elif not by and not (set(v.a[3]) - {"sorted"}) and clear(v) and not st.lossy:
                ok = False
            ctx.hold(r, f.short + " (order)", ok, where(f), str([show(b, 6) for b in by]), key="order/order")
    f = ctx.fn("Fbas::rank_nodes")
    if ctx.anchor("Fbas::rank_nodes", f) and ctx.fn("rank_nodes"):
        I_, outs, a = ctx.run(f, hooks=[Opaque("rank_nodes")])
        ns = F(a[0], "nodes")
        for st, v in outs:
            ok = None
            if v.op == "call" and v.a[0] == "rank_nodes" and v.a[1][1] is a[0]:
                s = v.a[1][0]
                if s.op == "coll" and len(s.a[1]) == 1 and not s.a[2]:
                    e, g, b = s.a[1][0].a
                    full = not g and (e.op == "pos" and len(b) == 1 and b[0][0] is ns or e.op == "elem" and b[0][0].op == "range" and b[0][0].a[0] is I(0) and b[0][0].a[1] is length(ns))
                    ok = True if full else (False if clear(s) else None)
            ctx.hold("all nodes are ranked", f.short, ok, where(f), show_(v), key="all nodes")


def short_list(st, src):
    for k, w in st.facts.items():
        if k.op in ("eq0", "le0") and set(lin(k)[1]) == {length(src)}:
            c, d = lin(k)
            if all((((c + d[length(src)] * m) == 0) if k.op == "eq0" else (c + d[length(src)] * m <= 0)) is not w for m in (2, 3, 4)):
                return True
    return False


def components(ctx):
    f = ctx.fn(PSC)
    r = "components come from the links to all nodes in a quorum set and lose no node"
    if not ctx.anchor(PSC, f):
        return
    I_, outs, a = ctx.run(f, hooks=[Opaque(CN)])
    nodes, fbas = a
    for st, v in outs:
        cs = {x for x in subterms(v) if x.op == "call" and x.a[0].endswith("strongly_connected_components")}
        if len(cs) != 1 or st.lossy:
            ctx.hold(r, f.short, None)
            continue
        c, = cs
        start, succ = c.a[1][0], c.a[1][1]
        ok = True if start is nodes else (match(start, seq(nodes), st.facts) if start.op == "coll" else None)
        ctx.hold(r, "starting nodes", ok, where(f), show(start, 6), key="components/start")
        ok = None
        if succ.op == "lam":
            t = succ.a[0]
            ar = [x for x in subterms(t) if x.op == "arg"]
            if len(set(ar)) == 1:
                x = ar[0]
                q = F(getidx(F(fbas, "nodes"), x), "quorum_set")
                cn = call(CN, q)
                if t is cn:
                    ok = True
                elif t.op == "coll":
                    ok = match(t, seq(cn), st.facts)
                    if ok is not True and len(t.a[1]) == 1 and not t.a[2]:
                        e, g, b = t.a[1][0].a
                        if e.op == "elem" and b[0][0] is cn:
                            # links to nodes outside the set may be left out
                            ok = True if all(k is contains(nodes, e) and w is True for k, w in g) else (False if all(clear(k) for k, _ in g) and all(k.op in ("contains", "eq0", "le0", "eq") for k, _ in g) and not any(k is contains(nodes, e) for k, _ in g) else None)
                elif t.op in ("fld", "idx") and clear(t):
                    ok = False
        ctx.hold(r, "links", ok, where(f), show(succ, 7), key="components/links")
        comp = elem(c)
        ok = None
        if v is c:
            # nodes outside the set stay in
            ok = None
        elif v.op == "coll" and len(v.a[1]) == 1 and not v.a[2]:
            e, g, b = v.a[1][0].a
            if len(b) == 1 and b[0][0] is c and e.op == "coll" and len(e.a[1]) == 1 and not e.a[2]:
                e2, g2, b2 = e.a[1][0].a
                if e2.op == "elem" and len(b2) == 1 and b2[0][0] is comp:
                    right = {(contains(nodes, e2), True)}
                    extra = [k for k, _ in g if not (k.op == "eq0" and mentions(k, comp))]
                    if set(g2) == right and not extra:
                        ok = True
                    elif set(g2) <= right and clear(*extra) and extra or not set(g2) <= right and all(clear(k) for k, _ in g2):
                        ok = False
        ctx.hold(r, "components", ok, where(f), show(v, 6), key="components/whole")


def check(ctx):
    ranks(ctx)
    order(ctx)
    components(ctx)
