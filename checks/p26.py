"""Graphs: which links the constructors enter, and what the queries about them answer."""
from p29 import *

G_ = "Graph::"


def live(I_, *vs):
    """loop values a result depends on"""
    seen, todo = [], list(vs)
    while todo:
        for x in subterms(todo.pop()):
            if x.op == "lv" and x not in seen:
                seen.append(x)
                d = I_.lvdefs.get(x)
                if d:
                    todo += [d["init"]] + list(d["upd"])
    return seen


def at(L, k, s):
    """the source is (some version of) entry k of table L"""
    return s.op == "idx" and s.a[1] is k


def entries(I_, vs):
    """what loops do to tables of lists or of bits: [(table, what, index, value, guards, binders)]
    what: add, drop, write; None if an update is not understood"""
    out, odd = [], False
    for L in live(I_, *vs):
        d = I_.lvdefs.get(L)
        if not d:
            odd = True
            continue
        for u, ws in d["upd"].items():
            if u.op != "coll":
                continue
            cond = frozenset.intersection(*[frozenset(fs) for fs, _ in ws]) if ws else frozenset()
            for k, val, g, bd in u.a[2]:
                g = frozenset(x for x in frozenset(g) | cond if x[0].op != "fits")
                alts = val.a[0] if val.op == "phi" else (val,)
                for v in alts:
                    if v.op != "coll":
                        out.append((L, "set", k, v, g, bd))
                        continue
                    own = [p for p in v.a[1] if p.a[2] and at(L, k, p.a[2][-1][0]) and p.a[0] is elem(*p.a[2][-1])]
                    for p in own:
                        for c, w in p.a[1]:
                            if c.op == "eq0" and w is False and p.a[0] in lin_parts(c.a[0])[1]:
                                rest = [x for x in lin_parts(c.a[0])[1] if x is not p.a[0]]
                                if len(rest) == 1:
                                    out.append((L, "drop", k, rest[0], frozenset(), ()))
                                    continue
                            odd = True
                    if not own and v.a[1]:
                        odd = True
                    for p in v.a[1]:
                        if p not in own:
                            out.append((L, "add", k, p.a[0], p.a[1] | g, p.a[2]))
                    for k2, v2, g2, b2 in v.a[2]:
                        out.append((L, "write", k, (k2, v2), frozenset(g2) | g, b2))
    return list(dict.fromkeys(out)), odd


def others(ps, i, lo, hi):
    """the parts are the whole range without i: True, False, None"""
    rs = []
    for e, g, b in ps:
        if not b or e is not elem(*b[-1]) or b[-1][0].op != "range":
            return None
        s = b[-1][0]
        g = [x for x in g if x[0].op != "fits"]
        if not all(clear(k) for k, _ in g):
            return None
        rs.append((s.a[0], s.a[1], g, e))
    if len(rs) == 2 and not rs[0][2] and not rs[1][2]:
        got = {(a, b) for a, b, _, _ in rs}
        return got == {(lo, i), (add(i, I(1)), hi)}
    if len(rs) == 1:
        a, b, g, e = rs[0]
        if len(g) == 1 and g[0][0].op == "eq0" and set(lin_parts(g[0][0].a[0])[1]) == {e, i} and not lin_parts(g[0][0].a[0])[0]:
            return g[0][1] is False and (a, b) == (lo, hi)
        if not g:
            return False
        return None
    return False if all(not g for _, _, g, _ in rs) else None


def outlinks(v):
    return F(v, "outlinks")


def fullmesh(ctx):
    f = ctx.fn(G_ + "new_full_mesh")
    r = "in a complete graph every node is linked to all others and not to itself"
    if not ctx.anchor(G_ + "new_full_mesh", f):
        return
    I_, outs, a = ctx.run(f)
    n = a[0]
    for st, v in outs:
        o = outlinks(v)
        ok, t = None, show(o, 9)
        if o.op == "coll" and not o.a[2] and len(o.a[1]) == 1 and not o.a[1][0].a[1] and len(o.a[1][0].a[2]) == 1:
            e, _, b = o.a[1][0].a
            src = b[0][0]
            i = elem(*b[0])
            if src.op == "range" and e.op == "coll" and not e.a[2]:
                ok = others([p.a for p in e.a[1]], i, I(0), n)
                if ok and (src.a[0] is not I(0) or src.a[1] is not n):
                    ok = False if clear(src) else None
        ctx.hold(r, f.short, None if ok is False and st.lossy else ok, where(f), t, key="full mesh")


def counter(I_, s, size):
    """s counts the nodes of the tiers before"""
    d = I_.lvdefs.get(s)
    if not d:
        return None
    if d["init"] is not I(0):
        return False if clear(d["init"]) else None
    if set(d["upd"]) == {add(s, size)}:
        return True
    return False if all(u.op in ("add", "int") or clear(u) for u in d["upd"]) and all(clear(subst(u, {s: sym("#")})) for u in d["upd"]) else None


def tiered(ctx):
    f = ctx.fn(G_ + "new_tiered_full_mesh")
    if not ctx.anchor(G_ + "new_tiered_full_mesh", f):
        return
    I_, outs, a = ctx.run(f)
    sizes = a[0]
    size = elem(sizes)
    r1 = "the nodes of a tier follow those of the tiers before"
    r2 = "every node of a tier is linked to all others of its tier"
    r3 = "every node of a tier is linked to all of the next higher tier, and to no other tier"
    for st, v in outs:
        es, odd = entries(I_, [outlinks(v)])
        adds = [x for x in es if x[1] == "add"]
        keys = {x[2] for x in adds}
        if odd or not adds or any(x[1] != "add" for x in es):
            ctx.hold(r2, f.short, None, where(f), show(v, 6))
            continue
        for i in keys:
            if i.op != "elem" or i.a[0].op != "range":
                ctx.hold(r1, f.short, None, where(f), show(i, 6))
                continue
            lo, hi = i.a[0].a
            t = show(i.a[0], 8)
            if lo.op == "int":
                # tables indexed from the same node in every round
                ctx.hold(r1, f.short, False, where(f), "a tier starts at node %s whatever tiers came before: %s" % (show(lo), t), key="tiered/start")
                continue
            cnt = counter(I_, lo, size)
            cc = None if cnt is None else (cnt and hi is add(lo, size))
            if cc is False and cnt and not clear(subst(hi, {lo: sym("#")})):
                cc = None
            if cnt is None and lo.op != "lv":
                c, d = lin_parts(lo)
                ls = [x for x in d if x.op == "last"]
                if ls and c == 1 and len(d) == 1 and d[ls[0]] == 1:
                    cc = False  # nothing to be the last after a tier without nodes
            ctx.hold(r1, f.short, cc, where(f), t, key="tiered/start")
            mine, higher = [], []
            for L, w, k, e, g, b in adds:
                if k is not i:
                    continue
                if b and b[-1][0].op == "range" and e is elem(*b[-1]) and (mentions(b[-1][0], i) or mentions(b[-1][0], lo) and b[-1][0].a[0] in (lo, i, add(i, I(1)))):
                    mine.append((e, g, b))
                else:
                    higher.append((e, g, b))
            ctx.hold(r2, f.short, others(mine, i, lo, hi), where(f), ", ".join(show(b[-1][0], 6) for _, _, b in mine if b), key="tiered/own")
            ok = False if not higher else None
            t = ""
            if len(higher) == 1:
                e, g, b = higher[0]
                g = [x for x in g if x[0].op != "fits"]
                t = show(e, 6) + " of " + show(b[-1][0] if b else e, 6)
                H = b[-1][0] if b else None
                if H is not None and e is elem(*b[-1]) and not g:
                    ok = prev(I_, H, lo, hi, size)
            elif higher and all(not [x for x in g if x[0].op != "fits"] for _, g, _ in higher):
                ok = None
            ctx.hold(r3, f.short, ok, where(f), t, key="tiered/higher")
        inits = [d["init"] for L, d in I_.lvdefs.items() if L in live(I_, outlinks(v)) and d["init"].op == "coll" and d["init"].a[1]]
        for t in dict.fromkeys(inits):
            p = t.a[1][0].a
            n = p[2][0][0] if len(p[2]) == 1 else None
            if len(t.a[1]) == 1 and n is not None and n.op == "range" and p[0].op == "coll" and not p[0].a[1]:
                s = n.a[1]
                ctx.hold("there is a node for every one that the tiers have", f.short, True if n.a[0] is I(0) and s.op == "sum" and s.a[0] is sizes else (False if clear(s) and not mentions(s, sizes) else None), where(f), show(n, 5), key="tiered/size")


def prev(I_, H, lo, hi, size):
    """H is the tier before the one from lo to hi"""
    d = I_.lvdefs.get(H)
    if d:
        if d["init"].op != "coll" or d["init"].a[1]:
            return False if clear(d["init"]) else None
        rs = []
        for u, ws in d["upd"].items():
            cond = [x for fs, _ in ws for x in fs if x[0].op != "fits"]
            if cond:
                rs.append(False if clearish(*[k for k, _ in cond]) else None)
            if u.op != "coll" or u.a[2]:
                return None
            ps = expand([p.a for p in u.a[1]])
            for e, g, b in ps:
                if b and b[-1][0] is H:
                    rs.append(False)  # tiers pile up
                elif b and e is elem(*b[-1]) and b[-1][0].op == "range":
                    rs.append((b[-1][0].a[0] is lo and b[-1][0].a[1] is hi) if not [x for x in g if x[0].op != "fits"] else None)
                else:
                    rs.append(None)
        return worst_(rs)
    if H.op == "range":
        x, y = H.a
        if y is lo:
            dx = I_.lvdefs.get(x)
            if dx and dx["init"] is I(0) and set(dx["upd"]) == {lo}:
                return True
            if x is I(0):
                return False
        return False if clear(subst(subst(x, {lo: sym("#")}), {hi: sym("##")})) and clear(subst(y, {lo: sym("#")})) else None
    return None


def worst_(rs):
    return None if not rs or None in rs else all(rs)


def scalefree(ctx):
    f = ctx.fn(G_ + "new_random_scale_free")
    if not ctx.anchor(G_ + "new_random_scale_free", f):
        return
    I_, outs, a = ctx.run(f)
    n, m0, m = a
    for st, v in outs:
        es, odd = entries(I_, [outlinks(v)])
        tab = [x for x in es if x[1] == "add"]
        r = "every link of a random graph is entered in both directions"
        if odd or not tab or len(tab) != len(es):
            ctx.hold(r, f.short, None, where(f), show(v, 5))
            continue
        pairs = {(k, e) for _, _, k, e, _, _ in tab}
        norm = lambda p: tuple(drop_lv(x) for x in p)
        np = {norm(p) for p in pairs}
        for k, e in pairs:
            ok = norm((e, k)) in np
            if ok:
                g1, g2 = ({(drop_lv(c), w) for _, _, k2, e2, g, _ in tab for c, w in g if norm((k2, e2)) == norm(p) and not (c.op == "is" and w)} for p in ((k, e), (e, k)))
                if g1 != g2:
                    ok = False if clear(*[c for c, _ in g1 ^ g2]) else None
            ctx.hold(r, "%s - %s" % (show(k, 4), show(e, 4)), ok, where(f), "%s is linked to %s, but not the other way round" % (show(k, 6), show(e, 6)), key="scale free/both ways")
        # the first nodes
        r = "the first m0 nodes of a scale-free graph are linked to one another"
        init, grow = [], []
        for L, w, k, e, g, b in tab:
            if any(x.op == "chosen" for x in subterms(k)) or any(x.op == "chosen" for x in subterms(e)):
                grow.append((L, k, e, g, b))
            else:
                init.append((L, k, e, g, b))
        ok, t = (False if not init else None), ""
        for L, k, e, g, b in init:
            if k.op == "elem" and e.op == "elem" and k.a[0].op == "range" and e.a[0].op == "range":
                for i, j in ((k, e), (e, k)):
                    A, B_ = i.a[0].a, j.a[0].a
                    if mentions(j.a[0], i) and not g:
                        t = "%s, %s" % (show(i.a[0], 6), show(j.a[0], 6))
                        whole = A == (I(0), m0) or A == (I(0), add(m0, I(1), -1)) and B_[0] is add(i, I(1)) or A == (I(1), m0) and B_ == (I(0), i)
                        x = whole and (B_ == (add(i, I(1)), m0) or B_ == (I(0), i))
                        ok = bool(x) if ok is not True and clear(*A, *B_) else ok
        ctx.hold(r, f.short, ok, where(f), t, key="scale free/first")
        # growth
        r = "every further node is linked to m different earlier ones"
        r2 = "nodes are picked with a chance in proportion to their number of links"
        if not grow:
            ctx.hold(r, f.short, None)
        for ch in {x for _, k, e, _, _ in grow for y in (k, e) for x in subterms(y) if x.op == "chosen"}:
            src, wt = ch.a[0], ch.a[1]
            ends = {y for _, k, e, _, _ in grow for x, y in ((k, e), (e, k)) if ch in subterms(x)}
            ends = {x for x in ends if ch not in subterms(x)}
            i = next(iter(ends)) if len(ends) == 1 else None
            d = I_.lvdefs.get(src)
            if i is None or i.op != "elem" or i.a[0].op != "range":
                ctx.hold(r, f.short, None, where(f), show(ch, 6))
                continue
            first = i.a[0].a == (m0, n)
            ctx.hold(r, f.short + ": all further nodes", True if first else (False if clear(*i.a[0].a) else None), where(f), show(i.a[0], 5), key="scale free/further")
            cand = d["init"] if d else src
            ok = None
            if cand.op == "coll" and len(cand.a[1]) == 1 and not cand.a[2]:
                e, g, b = cand.a[1][0].a
                if len(b) == 1 and b[0][0].op == "range" and e is elem(*b[0]) and not g:
                    x, y = b[0][0].a
                    ok = True if x is I(0) and y is i else (False if clear(x, y) else None)
            ctx.hold(r, f.short + ": earlier ones", ok, where(f), show(cand, 6), key="scale free/earlier")
            pick = drop_lv(ch)
            if not d:
                ok = False if clear(src) else None
                t = "picked nodes stay in the list: " + show(src, 6)
            else:
                oks = []
                for u, ws in d["upd"].items():
                    t = show(u, 8)
                    one = None
                    if u.op == "coll" and not u.a[2] and len(u.a[1]) == 1:
                        e, g, b = u.a[1][0].a
                        if e is elem(*b[-1]) and b[-1][0] is src and len(g) == 1:
                            (c, w), = g
                            one = c.op == "eq0" and w is False and {drop_lv(z) for z in lin_parts(c.a[0])[1]} == {drop_lv(e), drop_lv(pay(ch, "Ok", "0"))}
                            one = one or None
                            if c.op in ("le0",) and clearish(c):
                                one = False
                        elif e is elem(*b[-1]) and b[-1][0] is src and not g:
                            one = False
                    # only some of the picked nodes are taken off the list
                    for g, _ in ws if one else ():
                        more = [c for c, w in g if not (c.op == "is" and drop_lv(c.a[0]) is pick)]
                        if any(c.op in ("le0", "eq0") for c in more):
                            one = False if all(clearish(c) and set(lin_parts(c.a[0])[1]) <= {length(src), n, m0, m, i} and mentions_any(c, (n, m0, m, i)) for c in more) and one else None
                            t += " under " + ", ".join(show(c, 6) for c in more)
                    oks.append(one)
                ok = worst_(oks)
            ctx.hold(r, f.short + ": different ones", ok, where(f), t, key="scale free/different")
            ok = None
            if wt.op == "len" and wt.a[0].op == "idx":
                ok = True if wt.a[0].a[0].op == "lv" and wt.a[0].a[0] in live(I_, outlinks(v)) else None
            elif clear(wt) and not mentions_tab(wt):
                ok = False
            elif clearish(wt) and any(x.op == "len" and x.a[0].op == "idx" and x.a[0].a[0] in live(I_, outlinks(v)) for x in subterms(wt)):
                ok = False
            ctx.hold(r2, f.short, ok, where(f), show(wt, 5), key="scale free/chance")
            rounds = {s for _, k, e, g, b in grow for s, _ in b if s.op == "range"}
            ok = None
            if len(rounds) == 1:
                s = next(iter(rounds))
                if clear(*s.a):
                    ok = add(s.a[1], s.a[0], -1) is m
            ctx.hold(r, f.short + ": how many", ok, where(f), ", ".join(show(x) for x in rounds), key="scale free/number")


def mentions_any(t, xs):
    return any(mentions(t, x) for x in xs)


def mentions_tab(t):
    return any(x.op in ("idx", "len") for x in subterms(t))


def clearish(*ts):
    """nothing unknown but values from other rounds"""
    return clear(*[drop_lv(t) for t in ts])


def drop_lv(t):
    """the term whatever round the loop values in it are from"""
    return subst(t, {x: sym("~") for x in subterms(t) if x.op == "lv"})


def smallworld(ctx):
    f = ctx.fn(G_ + "new_random_small_world")
    if not ctx.anchor(G_ + "new_random_small_world", f):
        return
    I_, outs, a = ctx.run(f)
    n, k_, beta = a
    name = f.short
    for st, v in outs:
        es, odd = entries(I_, [outlinks(v)])
        fin = [x for x in es if x[1] == "add" and any(c.op == "idx" and w for c, w in x[4]) and x[0] in live0(I_, outlinks(v))]
        writes = [x for x in es if x[1] == "write"]
        rest = [x for x in es if x[1] in ("add", "drop") and x not in fin]
        drops = [x for x in rest if x[1] == "drop"]
        adds = [x for x in rest if x[1] == "add"]
        r = "every link of a random graph is entered in both directions"
        if odd or not writes or not fin or any(x[1] == "set" and x[3].op in ("bool",) for x in es):
            ctx.hold(r, name, None, where(f), show(v, 5))
            continue
        N = drop_lv
        W = {(N(k), N(kv[0]), kv[1]) for _, _, k, kv, _, _ in writes}
        for x in writes:
            k, (j, val) = x[2], x[3]
            ctx.hold(r, "%s - %s: %s" % (show(k, 3), show(j, 3), show(val)), (N(j), N(k), val) in W, where(f), "%s to %s becomes %s, but not the other way round" % (show(k, 5), show(j, 5), show(val)), key="small world/both ways")
        # outcome
        r = "the links of a small-world graph are those marked at the end"
        for L, w, i, j, g, b in fin:
            marks = [(c, w2) for c, w2 in g if c.op == "idx"]
            more = [c for c, _ in g if c.op != "idx"]
            ok = None
            if more and clearish(*more):
                ok = False
            elif more:
                pass
            elif len(marks) == 1 and marks[0][1]:
                c = marks[0][0]
                if c.op == "idx" and c.a[0].op == "idx":
                    ends = {c.a[0].a[1], c.a[1]}
                    ok = True if ends == {i, j} else (False if clear(*ends) else None)
                    if ok and j.op == "elem" and j.a[0].op == "range" and i.op == "elem" and i.a[0].op == "range":
                        for s in (i.a[0], j.a[0]):
                            if s.a != (I(0), n):
                                ok = False if clear(*s.a) else None
            ctx.hold(r, name, ok, where(f), "%s to %s under %s" % (show(i, 4), show(j, 4), [(show(c, 5), w2) for c, w2 in g]), key="small world/outcome")
        # ring
        r = "a small-world graph starts as a ring in which every node is linked to the k/2 next ones"
        start = {(x[2], x[3][0]) for x in writes if not any(z.op == "chosen" for y in (x[2], x[3][0]) for z in subterms(y)) and x[3][1] is TRUE}
        ok, t = (False if not start else None), ""
        for i, j in start:
            if i.op == "elem" and i.a[0].op == "range" and j.op == "rem":
                e = j.a[0]
                t = "%s to %s" % (show(i, 5), show(j, 7))
                if e.op == "elem" and e.a[0].op == "range" and clear(*i.a[0].a, *e.a[0].a):
                    half = mk("div", k_, I(2))
                    lo, hi = e.a[0].a
                    ok = i.a[0].a == (I(0), n) and j.a[1] is n and lo is add(i, I(1)) and hi is add(add(i, half), I(1))
                    break
        ctx.hold(r, name, ok, where(f), t, key="small world/ring")
        # moved links
        off = {(N(x[2]), N(x[3][0])) for x in writes if x[3][1] is FALSE}
        on = {(N(x[2]), N(x[3][0])) for x in writes if x[3][1] is TRUE and any(z.op == "chosen" for y in (x[2], x[3][0]) for z in subterms(y))}
        r = "a link is moved by removing it and adding one from the same node to a node picked from those not linked to it"
        if len(off) != 2 or len(on) != 2:
            ctx.hold(r, name, None if off and on else False, where(f), "%d removed, %d added" % (len(off), len(on)), key="small world/moved")
            continue
        common = {x for p in off for x in p} & {x for p in on for x in p}
        picks = {z for x in writes for y in (x[2], x[3][0]) for z in subterms(y) if z.op == "chosen"}
        ok = None
        t = ", ".join(show(x, 5) for x in picks)
        if len(common) == 1 and len(picks) == 1:
            c = next(iter(picks))
            src = c.a[0]
            if src.op == "idx" and src.a[0].op == "lv":
                ok = N(src.a[1]) in common
            elif clear(src):
                ok = False
        elif not common:
            ok = False
        ctx.hold(r, name, ok, where(f), t, key="small world/moved")
        r = "links are moved with the chance asked for, if they are still there"
        for x in writes:
            if x[3][1] is FALSE:
                rnd = [c for c, w in x[4] if c.op == "random"]
                ok = None
                if len(rnd) == 1 and (rnd[0], True) in x[4]:
                    ok = True if rnd[0].a[1] is beta or beta in rnd[0].a[1] else (False if clear(*rnd[0].a[1]) else None)
                elif len(rnd) == 1:
                    ok = False
                still = [c for c, w in x[4] if c.op == "idx" and c.a[0].op == "idx" and w and {N(c.a[0].a[1]), N(c.a[1])} == {N(x[2]), N(x[3][0])}]
                ctx.hold(r, name, ok, where(f), ", ".join(show(c, 5) for c, w in x[4]), key="small world/chance")
                ctx.hold(r, name + " (still there)", True if still else None, where(f), "", key="small world/still there")
        # nodes not linked
        r = "the nodes not linked to a node are kept up to date"
        first = [x for x in adds if not any(c.op in ("random", "chosen") for c, w in x[4] for c in subterms(c)) and (N(x[2]), N(x[3])) not in off]
        freed = {(N(x[2]), N(x[3])) for x in adds if x not in first}
        words = {x for p in off | on for x in p}
        taken = {(N(x[2]), N(x[3])) for x in drops}
        ctx.hold(r, name + ": a removed link", True if freed == off else (False if freed < off or not odd and {x for p in freed for x in p} <= words else None), where(f), "", key="small world/freed")
        ctx.hold(r, name + ": an added link", True if taken == on else (False if taken < on or not odd and {x for p in taken for x in p} <= words else None), where(f), "", key="small world/taken")
        for x in first:
            i, j, g = x[2], x[3], x[4]
            marks = [(c, w) for c, w in g if c.op == "idx" and c.a[0].op == "idx" and {c.a[0].a[1], c.a[1]} == {i, j}]
            self_ = [(c, w) for c, w in g if c.op in ("eq0", "le0") and set(lin_parts(c.a[0])[1]) == {i, j}]
            more = [y for y in g if y not in marks and y not in self_]
            ok = None
            if not more and i.op == "elem" and j.op == "elem" and i.a[0].op == j.a[0].op == "range":
                ok = bool(marks) and all(not w for _, w in marks) and len(self_) == 1 and self_[0][0].op == "eq0" and self_[0][1] is False
                for s in (i.a[0], j.a[0]):
                    if s.a != (I(0), n) and ok:
                        ok = False if clear(*s.a) else None
            ctx.hold(r, name + ": at first", ok, where(f), "%s for %s under %s" % (show(j, 3), show(i, 3), [(show(c, 4), w) for c, w in g]), key="small world/free at first")


def live0(I_, v):
    """loop values a table is built in (not those it is only compared with)"""
    seen, todo = [], [v]
    while todo:
        t = todo.pop()
        if t.op == "lv" and t not in seen:
            seen.append(t)
            d = I_.lvdefs.get(t)
            if d:
                todo += [d["init"]] + list(d["upd"])
        elif t.op == "coll":
            todo += [p.a[2][0][0] for p in t.a[1] if p.a[2]]
    return seen


def queries(ctx):
    f = ctx.fn(G_ + "is_undirected")
    if ctx.anchor(G_ + "is_undirected", f):
        I_, outs, a = ctx.run(f)
        o = outlinks(a[0])
        x = elem(o)
        r = "a graph is undirected if every link has its reverse"
        for st, v in outs:
            ok = undirected(v, o, x) if v.op not in ("bool",) else None
            ctx.hold(r, f.short, None if ok is False and st.lossy else ok, where(f), show(v, 9), key="undirected")
    f = ctx.fn(G_ + "number_of_nodes")
    if ctx.anchor(G_ + "number_of_nodes", f):
        spec(ctx, "the number of nodes is that of the lists of links", f, lambda g: [({}, length(outlinks(g)))])
    f = ctx.fn(G_ + "get_out_degrees")
    if ctx.anchor(G_ + "get_out_degrees", f):
        spec(ctx, "out-degrees are the numbers of links from a node", f, lambda g: [({}, V(each(outlinks(g), length)))])
    f = ctx.fn(G_ + "get_connected_nodes")
    if ctx.anchor(G_ + "get_connected_nodes", f):
        I_, outs, a = ctx.run(f)
        o = outlinks(a[0])
        x = elem(o)
        r = "connected nodes are those with a link and those that one leads to"
        for st, v in outs:
            ok = None
            if v.op == "coll" and not v.a[2]:
                some = (eq0(length(x)), False)
                got = set()
                for e, g, b in expand([p.a for p in v.a[1]]):
                    if e is pos(o, x) and b == ((o, 0),):
                        got.add(("from", g if g != frozenset({some}) else "some"))
                    elif b == ((o, 0), (x, 0)) and (eq0(length(x)), True) in g:
                        continue
                    elif e is elem(x) and b == ((o, 0), (x, 0)):
                        got.add(("to", "any" if g <= {some} else g))
                    elif e is pos(o, x) and b == ((o, 0), (x, 0)) and g <= {some}:
                        got.add(("from", "some"))
                    else:
                        got.add(None)
                if None not in got:
                    ok = got == {("from", "some"), ("to", "any")}
                    if not ok and not all(isinstance(g, str) or all(clear(k) for k, _ in g) for _, g in got):
                        ok = None
            ctx.hold(r, f.short, None if ok is False and st.lossy else ok, where(f), show(v, 8), key="connected")
    f = ctx.fn(G_ + "get_in_degrees")
    if ctx.anchor(G_ + "get_in_degrees", f):
        I_, outs, a = ctx.run(f)
        o = outlinks(a[0])
        x = elem(o)
        r = "in-degrees count the links that lead to a node"
        for st, v in outs:
            ls = live(I_, v)
            ups = [(L, k, val, g, bd, ws) for L in ls for u, ws in I_.lvdefs[L]["upd"].items() if u.op == "coll" for k, val, g, bd in u.a[2]]
            ok, t = None, show(v, 6)
            if len(ups) == 1:
                L, k, val, g, bd, ws = ups[0]
                t = "%s := %s" % (show(k, 6), show(val, 6))
                g = [y for y in g if y[0].op != "fits"]
                cur = getidx(L, k)
                once = add(cur, I(1))
                cond = [y for fs, bs in ws for y in fs if y[0].op != "fits"]
                if k is elem(x) and not g and not cond:
                    ok = True if val is once else (False if clear(subst(val, {L: sym("#")})) else None)
                elif clear(k) and not g and not cond and val is once:
                    ok = False
                elif (g or cond) and clear(*[subst(y[0], {L: sym("#")}) for y in list(g) + cond]) and val is once:
                    ok = False
            z = [I_.lvdefs[L]["init"] for L in ls if I_.lvdefs[L]["init"].op == "coll"]
            if len(z) == 1:
                ctx.hold(r, f.short + ": at first", match(z[0], V(each(o, lambda _: I(0))), st.facts), where(f), show(z[0], 5), key="in degrees/start")
            ctx.hold(r, f.short, None if ok is False and st.lossy else ok, where(f), t, key="in degrees")


def undirected(v, o, x):
    """not any(link without a reverse one)"""
    if v.op != "not" or v.a[0].op != "any" or len(v.a[0].a[0]) != 1:
        return None
    p = next(iter(v.a[0].a[0]))
    e, g, b = p.a
    if e is TRUE and b == ((o, 0),) and len(g) == 1:
        (c, w), = g
        if c.op == "any" and not w and clear(c) and all(q.a[2] and q.a[2][0] == (x, 0) for q in c.a[0]):
            return False        # one reversed link per node is enough
    if e is not TRUE or b[:2] != ((o, 0), (x, 0)) or len(g) != 1:
        ops = {c.op for c in subterms(v)}
        return False if clear(v) and ops <= {"not", "any", "part", "eq0", "add", "int", "bool", "pos", "elem", "idx", "fld", "sym", "len"} else None
    (c, w), = g
    back = getidx(o, elem(x))
    me = pos(o, x)
    if c is contains(back, me):
        return not w
    if c.op == "any" and len(c.a[0]) == 1:
        q = next(iter(c.a[0]))
        if q.a[0] is TRUE and len(q.a[2]) == 1 and len(q.a[1]) == 1:
            (c2, w2), = q.a[1]
            s = q.a[2][0][0]
            y = elem(*q.a[2][0])
            if c2.op == "eq0" and set(lin_parts(c2.a[0])[1]) == {y, me} and not lin_parts(c2.a[0])[0]:
                return s is back and w2 and not w
    if clear(c) and c.op in ("contains", "any", "eq0"):
        return False
    return None


def shuffle(ctx):
    f = ctx.fn(G_ + "shuffled")
    if not ctx.anchor(G_ + "shuffled", f):
        return
    I_, outs, a = ctx.run(f)
    o = outlinks(a[0])
    r = "shuffling renames every node the same way wherever it occurs"
    for st, v in outs:
        w = outlinks(v)
        ok = None
        if w.op == "coll" and not w.a[2] and len(w.a[1]) == 1:
            e, g, b = w.a[1][0].a
            if not g and len(b) == 1 and e is getidx(o, elem(*b[0])):
                ok = False  # not renamed
            elif not g and len(b) == 1 and e.op == "coll" and not e.a[2] and len(e.a[1]) == 1:
                X = b[0][0]
                oi = elem(*b[0])
                e2, g2, b2 = e.a[1][0].a
                if not g2 and len(b2) == 1:
                    ok = False if clear(b2[0][0]) and clear(e2) else None
                    if b2[0][0] is getidx(o, oi):
                        oj = elem(*b2[0])
                        if e2.op == "idx" and e2.a[1] is oj:
                            P = e2.a[0]
                            ok = inverse(X, P, o)
                        elif e2 is oj:
                            ok = False
        ctx.hold(r, f.short, None if ok is False and st.lossy else ok, where(f), show(w, 9), key="shuffled")


def ident(c, o):
    """list of 0, 1, ... for every node"""
    if c.op != "coll" or c.a[2] or len(c.a[1]) != 1:
        return False
    e, g, b = c.a[1][0].a
    if g or len(b) != 1:
        return False
    return b[0][0] is o and e is pos(o, elem(*b[0])) or b[0][0].op == "range" and b[0][0].a == (I(0), length(o)) and e is elem(*b[0])


def inverse(X, P, o):
    """X leads back from what P says"""
    if P is X:
        return False
    if not (P.op == X.op == "coll"):
        return None
    for A, B_, turned in ((X, P, False), (P, X, True)):
        if "perm" in B_.a[3] and ident(coll(B_.a[0], list(B_.a[1]), B_.a[2]), o):
            if A is B_:
                return False
            if len(A.a[2]) != 1:
                return False if not A.a[2] and clear(A) else None
            k, val, g, bd = A.a[2][0]
            if g:
                return None
            e = B_.a[1][0].a[0]
            if k is e and val.op == "ordinal" and val.a[1] is e:
                return True
            if val is e and k.op == "ordinal":
                return False
            return None
    if "perm" not in P.a[3] and "perm" not in X.a[3] and ident(P, o) and not X.a[2] and ident(X, o):
        return None
    return None


def check(ctx):
    fullmesh(ctx)
    tiered(ctx)
    scalefree(ctx)
    smallworld(ctx)
    shuffle(ctx)
    queries(ctx)
