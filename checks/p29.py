"""Symmetric clusters: quorum sets that exactly the nodes in them have.

The count kept per quorum set, the number it is compared with and what is reported are read off the
values the loop computes; the symmetric top tier and the shortcut of the searches off their results."""
from p20 import *

CN = "QuorumSet::contained_nodes"
FS = "find_symmetric_clusters_in_node_set"


def additions(I_, L):
    """what a list that starts empty gets per round: [(value, literals, binders)], or None"""
    d = I_.lvdefs.get(L)
    if not d or d["init"].op != "coll" or d["init"].a[1] or d["init"].a[2]:
        return None
    out = {}
    for u, where_ in d["upd"].items():
        if u.op != "coll" or u.a[2]:
            return None
        own = [p for p in u.a[1] if not p.a[1] and len(p.a[2]) == 1 and p.a[2][0][0] is L and p.a[0] is elem(*p.a[2][0])]
        if len(own) != 1:
            return None
        for p in u.a[1]:
            if p not in own:
                for e, g, b in expand([p.a]):
                    out[(e, g, b)] = True
    return list(out)


def known_size(k, ln):
    return ln in lin_parts(k.a[0])[1]


def lin(k):
    """constant and terms of a comparison, signed"""
    c, d = lin_parts(k.a[0])
    sg = lambda n: n - (1 << 64) if n >= 1 << 63 else n
    return sg(c), {x: sg(n) for x, n in d.items()}


def counting(ctx):
    f = ctx.fn(FS)
    if not ctx.anchor(FS, f):
        return
    I_, outs, a = ctx.run(f, hooks=[Opaque(CN)])
    nodes, fb = a
    n = elem(nodes)
    q = F(getidx(F(fb, "nodes"), n), "quorum_set")
    cn = call(CN, q)
    member = contains(cn, n)
    ln = length(cn)
    R = "a quorum set is reported when as many nodes in it have it as it contains"
    r2 = "nodes are counted per quorum set, if their quorum set contains them"
    for st, v in outs:
        if v.op == "coll" and not v.a[1] and not v.a[2]:
            ok = True if st.facts.get(eq0(length(nodes))) is True else (None if st.lossy or not st.facts or not all(clear(k) for k in st.facts) else False)
            ctx.hold(R, "nothing", ok, where(f), "nothing is reported under " + ", ".join(("" if w else "not ") + show(k, 6) for k, w in st.facts.items()), key="symmetric/nothing")
            continue
        ps = additions(I_, v)
        if ps is None:
            ctx.hold(R, FS, None)
            continue
        seen = set()
        maps = set()
        for e, g, b in ps:
            t = "%s under %s" % (show(e, 5), ", ".join(("" if w else "not ") + show(k, 6) for k, w in g))
            plain = not st.lossy and all(clear(src) for src, _ in b)
            if tuple(b) != ((nodes, 0),):
                ctx.hold(R, "push", None, where(f), t, key="symmetric/source")
                continue
            ctx.hold(R, "what is reported", True if e is q else (False if clear(e) and plain else None), where(f), t, key="symmetric/value")
            lits = dict(g)
            known, goal, extra, memb = None, None, [], None
            for k, w in lits.items():
                if k is member:
                    memb = w
                elif k.op == "contains" and k.a[0].op == "lv":
                    known = (k.a[0], k.a[1], w)
                elif k.op in ("eq0", "le0") and goal is None and (known_size(k, ln) or any(x.op == "lv" for x in subterms(k))):
                    goal = (k, w)
                else:
                    extra.append(k)
            ctx.hold(r2, "reported", memb if memb is not None else (False if plain and not any(mentions(k, cn) and k is not (goal or (0,))[0] for k in extra) else None), where(f), t, key="symmetric/member")
            if extra:
                ctx.hold(R, "further condition", False if plain and all(clear(k) and not mentions(k, cn) for k in extra) else None, where(f), t, key="symmetric/extra")
            ok = None
            if known and goal:
                M, key, w = known
                maps.add(M)
                ctx.hold("one count per quorum set", "key", True if key is q else (False if clear(key) else None), where(f), show(key, 6), key="symmetric/key")
                c, d = lin(goal[0])
                if not w:
                    # first node with it
                    seen.add("first")
                    if set(d) == {ln}:
                        ok = c == -1 and d[ln] == 1 and goal[1] is True or (c == 1 and d[ln] == -1 and goal[1] is True and goal[0].op == "eq0") or False
                else:
                    seen.add("more")
                    i = mapval(M, key)
                    x0, x1 = F(i, "0"), F(i, "1")
                    if set(d) <= {x0, x1, ln} and x0 in d and len(d) == 2:
                        y = [z for z in d if z is not x0][0]
                        s = d[x0]
                        ok = (abs(s) == 1 and d[y] == -s and c == s and goal[0].op == "eq0" and goal[1] is True
                              or goal[0].op == "le0" and goal[1] is True and s == -1 and d[y] == 1 and c == -1
                              or goal[0].op == "le0" and goal[1] is False and s == 1 and d[y] == -1 and c in (2, 1) and c == 2)
                        ok = bool(ok)
            elif not goal and plain and not extra:
                ok = False
            ctx.hold(R, "count", ok if ok is not False or plain else None, where(f), t, key="symmetric/count")
        if not ps:
            ctx.hold(R, FS, None)
        elif maps and seen == {"first"} or seen == {"more"}:
            ctx.hold(R, "both cases", None)
        for M in maps:
            counts(ctx, f, I_, M, q, n, nodes, member, ln, r2, cn)


def counts(ctx, f, I_, M, q, n, nodes, member, ln, rule, cn):
    d = I_.lvdefs.get(M)
    i0 = d["init"]
    ctx.hold(rule, "starts empty", True if i0.op == "coll" and not i0.a[1] and not i0.a[2] else None)
    fresh = False
    for u, ws in d["upd"].items():
        if u.op != "coll":
            ctx.hold(rule, "count", None)
            continue
        for k, v, g, b in u.a[2]:
            i = mapval(M, q)
            t = "%s := %s" % (show(k, 5), show(v, 6))
            ok = None
            if k is q:
                x = F(v, "0")
                if x is I(1) and any(F(p.a[0], "0") is q and F(F(p.a[0], "1"), "0") is I(0) for p in u.a[1] if p.a[0].op in ("tup", "agg")):
                    continue        # put in with 0 just before
                ok = True if x is add(F(i, "0"), I(1)) else (False if clear(subst(x, {i: sym("old")})) else None)
            ctx.hold(rule, "one more", ok, where(f), t, key="symmetric/add")
            for gs, _ in ws:
                m = dict(gs).get(member)
                if m is None:
                    m = dict(g).get(member)
                ctx.hold(rule, "counted", m if m is not None else (None if any(mentions(k, cn) and mentions(k, n) for k, _ in gs) else False), where(f), t, key="symmetric/counted")
        for e, g, b in [p.a for p in u.a[1]]:
            if len(b) == 1 and b[0][0] is M:
                continue
            fresh = True
            k, v = F(e, "0"), F(e, "1")
            again = [v2 for k2, v2, g2, b2 in u.a[2] if k2 is k and F(v2, "0").op == "int"]
            v = again[0] if again else v
            ctx.hold("one count per quorum set", "first", True if k is q else (False if clear(k) else None), where(f), show(k, 6), key="symmetric/key")
            t = "%s := %s" % (show(k, 5), show(v, 6))
            m = dict(g).get(member)
            ctx.hold(rule, "first", m if m is not None else (None if any(mentions(k, cn) and mentions(k, n) for k, _ in g) else False), where(f), t, key="symmetric/first counted")
            a, z = F(v, "0"), F(v, "1")
            ctx.hold(rule, "starts with one", True if a is I(1) else (False if a.op == "int" else None), where(f), t, key="symmetric/one")
            ctx.hold(rule, "out of the nodes contained", True if z is ln else (False if clear(z) and z.op in ("len", "int", "lin", "fld") else None), where(f), t, key="symmetric/goal")
    ctx.hold(rule, "first nodes are counted", True if fresh else None)


def finder(ctx):
    f = ctx.fn("symmetric_clusters_finder")
    r = "the clusters of every component are reported"
    if ctx.anchor("symmetric_clusters_finder", f):
        I_, outs, a = ctx.run(f, hooks=[Opaque(FS)])
        cc, fb = a
        src = call(FS, elem(cc), fb)
        want = V(part(elem(src), (), ((cc, 0), (src, 0))))
        for st, v in outs:
            if v.op == "lv":
                ps = additions(I_, v)
                v = coll("vec", [part(*p) for p in ps]) if ps else v
            if v.op != "coll":
                ctx.hold(r, f.short, False if clear(v) and v.op in ("elem", "idx", "first") and not st.lossy else None, where(f), show(v, 6), key="finder")
                continue
            ok = match(v, want, st.facts)
            if ok is False and st.lossy:
                ok = None
            ctx.hold(r, f.short, ok, where(f), show(v, 7), key="finder")
    f = ctx.fn("find_symmetric_clusters")
    if ctx.anchor("find_symmetric_clusters", f) and ctx.fn("find_sets"):
        I_, outs, a = ctx.run(f, hooks=[Opaque("find_sets")])
        for st, v in outs:
            ok = None
            if v.op == "call" and v.a[0] == "find_sets":
                ok = True if v.a[1][0] is a[0] and v.a[1][1].op == "fn" and "symmetric_clusters_finder" in str(v.a[1][1].a) else None
            elif v.op == "coll" and clear(v):
                ok = False
            ctx.hold("symmetric clusters are looked for in all components with quorums", f.short, ok, where(f), show(v, 6), key="clusters")


def toptier(ctx):
    f = ctx.fn("find_symmetric_top_tier")
    r = "a symmetric top tier is the only cluster, with no quorum outside"
    if not ctx.anchor("find_symmetric_top_tier", f) or not ctx.fn("find_symmetric_clusters") or not ctx.fn("complement_contains_quorum"):
        return
    I_, outs, a = ctx.run(f, hooks=[Opaque("find_symmetric_clusters", "complement_contains_quorum", "contains_quorum", CN)])
    fb = a[0]
    cl = call("find_symmetric_clusters", fb)
    one = eq0(add(length(cl), I(-1)))
    for st, v in outs:
        facts = {}
        for k, w in st.facts.items():
            while k.op == "not":
                k, w = k.a[0], not w
            facts[k] = w
        outside = single = None
        other = []
        for k, w in facts.items():
            if k.op == "call" and k.a[0] == "complement_contains_quorum":
                x = k.a[1][0]
                good = x.op == "call" and x.a[0] == CN and firstof(x.a[1][0], cl) and k.a[1][1] is fb
                outside = w if good else ("?" if not clear(x) else "other")
            elif k.op == "call" and k.a[0] == "contains_quorum" and k.a[1][0].op == "call" and k.a[1][0].a[0] == CN:
                outside = outside if outside is not None else "other"
            elif k is one:
                single = w
            elif k.op in ("eq0", "le0") and set(lin(k)[1]) == {length(cl)}:
                c, d = lin(k)
                n = d[length(cl)]
                yes = [m for m in range(0, 4) if ((c + n * m == 0) if k.op == "eq0" else (c + n * m <= 0)) is w]
                if 1 not in yes:
                    single = False
                other.append(yes)
            elif k.op == "is" and any(mentions(k, x) for x in (cl,)):
                yes = [0] if (k.a[1] == "None") == w else [1, 2, 3]
                other.append(yes)
            else:
                other.append(None)
        if single is None and other and all(y is not None for y in other):
            s = set(range(4))
            for y in other:
                s &= set(y)
            single = True if s == {1} else (False if 1 not in s else ("many" if s else None))
        plain = not st.lossy and not I_.lvdefs and None not in other
        desc = "%s under %s" % (show(v, 5), ", ".join(("" if w else "not ") + show(k, 6) for k, w in st.facts.items()))
        y = st.known(isvar(v, "Some"))
        if v.op == "call" or y is None and v.op != "agg":
            y = None
        if y is True:
            x = pay(v, "Some", "0")
            ctx.hold(r, "which one", True if firstof(x, cl) or single is True and lastof(x, cl) else (False if clear(x) and plain else None), where(f), desc, key="toptier/which")
            ctx.hold(r, "only one", True if single is True else (False if plain and (single in (False, "many") or single is None) else None), where(f), desc, key="toptier/one")
            ctx.hold(r, "no quorum outside", True if outside is False else (None if outside == "?" else (False if plain else None)), where(f), desc, key="toptier/outside")
        elif y is False:
            ok = True if single is False or outside is True else (False if plain and outside != "?" and (single is True or single is None or single == "many") and not (single == "many") else None)
            ctx.hold(r, "none", ok, where(f), desc, key="toptier/none")
        else:
            ctx.hold(r, "result", None)


def firstof(x, cl):
    return x.op == "first" and x.a[0] is cl or x is getidx(cl, I(0))


def lastof(x, cl):
    return x.op in ("last",) and x.a[0] is cl


def some(st, cl):
    """these facts are compatible with a cluster having been found"""
    for m in (1, 2):
        for k, w in st.facts.items():
            if k.op not in ("eq0", "le0") or set(lin(k)[1]) != {length(cl)}:
                return False
            c, d = lin(k)
            x = c + d[length(cl)] * m
            if ((x == 0) if k.op == "eq0" else (x <= 0)) is not w:
                break
        else:
            return True
    return False


def shortcut(ctx):
    name = "find_symmetric_cluster_in_consensus_cluster"
    f = ctx.fn(name)
    r = "the cluster used for a component is one of the component"
    if not ctx.anchor(name, f):
        return
    I_, outs, a = ctx.run(f, hooks=[Opaque(FS, CN)])
    cl = call(FS, a[0], a[1])
    for st, v in outs:
        y = st.known(isvar(v, "Some"))
        if y is True:
            x = pay(v, "Some", "0")
            ok = True if firstof(x, cl) or lastof(x, cl) else (False if clear(x) and not st.lossy else None)
        elif y is False:
            ok = True if st.known(eq0(length(cl))) is True else (False if not st.lossy and (not st.facts or some(st, cl)) else None)
        else:
            ok = None
        ctx.hold(r, name, ok, where(f), "%s under %s" % (show(v, 5), ", ".join(("" if w else "not ") + show(k, 6) for k, w in st.facts.items())), key="shortcut")


def check(ctx):
    counting(ctx)
    finder(ctx)
    toptier(ctx)
    shortcut(ctx)
