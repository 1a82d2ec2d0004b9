"""Thresholds that configurators set are computed from the validators they set; neighbor-based quorum sets are complete and in order."""
from fractions import Fraction as Q
from math import floor, ceil
from p09 import *

RULE = "the threshold is computed from the number of validators put into the quorum set"
RULE_R = "a configured relative threshold is used, else the two-thirds rule"


# ---- quasi-linear normal forms: a*n + b with a, b per residue class of n ----------------------
def rlin(t, n):
    """(a, b) with t = a*n + b over the reals, or None"""
    if t.op == "float":
        try:
            return Q(0), Q(str(t.a[0]))
        except (ValueError, ZeroDivisionError):
            return None
    if t.op == "f64":
        return ilin(t.a[0], n)
    if t.op == "fbin":
        x, y = rlin(t.a[1], n), rlin(t.a[2], n)
        if x is None or y is None:
            return None
        if t.a[0] == "Add":
            return x[0] + y[0], x[1] + y[1]
        if t.a[0] == "Sub":
            return x[0] - y[0], x[1] - y[1]
        if t.a[0] == "Mul" and x[0] == 0:
            return x[1] * y[0], x[1] * y[1]
        if t.a[0] == "Mul" and y[0] == 0:
            return y[1] * x[0], y[1] * x[1]
        if t.a[0] == "Div" and y[0] == 0 and y[1]:
            return x[0] / y[1], x[1] / y[1]
    return None


def ilin(t, n):
    c, d = lin_parts(t)
    c0, d0 = lin_parts(n)
    if not d:
        return Q(0), Q(c)
    if len(d) != len(d0) or set(d) != set(d0):
        return None
    ks = {Q(d[x], d0[x]) for x in d}
    if len(ks) != 1:
        return None
    k = ks.pop()
    return k, Q(c) - k * c0


def quasi(t, n):
    """{residue: (a, b)}, period, for an integer term in n (n >= 1), or None"""
    l = ilin(t, n)
    if l is not None:
        return (1, {0: l})
    if t.op == "cast" and t.a[0] == "FloatToInt":
        return quasi(t.a[1], n)
    if t.op == "call" and str(t.a[0]) in ("f64::floor", "f64::ceil", "f64::trunc"):
        r = rlin(t.a[1][0], n)
        return None if r is None else rounded(r, ceil if str(t.a[0]).endswith("ceil") else floor)
    if t.op in ("fbin", "f64"):
        r = rlin(t, n)
        return None if r is None else rounded(r, floor)
    if t.op == "div" and t.a[1].op == "int":
        x = t.a[0]
        if x.op == "sat" and x.a[0] == "sub" and x.a[2] is I(1) and x.a[1] is n:
            x = add(n, I(-1))  # n >= 1
        r = ilin(x, n)
        return None if r is None else rounded((r[0] / t.a[1].a[0], r[1] / t.a[1].a[0]), floor)
    if t.op == "call" and str(t.a[0]).endswith("div_ceil") and t.a[1][1].op == "int":
        r = ilin(t.a[1][0], n)
        k = t.a[1][1].a[0]
        return None if r is None else rounded((r[0] / k, r[1] / k), ceil)
    if t.op == "sat" and t.a[0] == "sub":
        x, y = quasi(t.a[1], n), quasi(t.a[2], n)
        return None if x is None or y is None else comb(x, y, -1)
    if t.op == "lin":
        c, d = lin_parts(t)
        # the terms that make up n count as one
        c0, d0 = lin_parts(n)
        rest = dict(d)
        acc = (1, {0: (Q(0), Q(c))})
        if d0 and all(x in d for x in d0):
            k = Q(d[next(iter(d0))], d0[next(iter(d0))])
            if all(Q(d[x], d0[x]) == k for x in d0):
                acc = (1, {0: (k, Q(c) - k * c0)})
                rest = {x: v for x, v in d.items() if x not in d0}
        for x, k in rest.items():
            q = quasi(x, n)
            if q is None:
                return None
            acc = comb(acc, q, k)
        return acc
    return None


def rounded(r, f):
    a, b = r
    D = a.denominator
    return D, {i: (a, Q(f(a * i + b)) - a * i) for i in range(D)}


def comb(x, y, k):
    from math import lcm
    D = lcm(x[0], y[0])
    return D, {i: (x[1][i % x[0]][0] + k * y[1][i % y[0]][0], x[1][i % x[0]][1] + k * y[1][i % y[0]][1]) for i in range(D)}


def qeq(x, y):
    d = comb(x, y, -1)
    return all(v == (0, 0) for v in d[1].values())


def two_thirds():
    """ceil((2n+1)/3)"""
    return rounded((Q(2, 3), Q(1, 3)), ceil)


def is67(t, n):
    q = quasi(t, n)
    return None if q is None else qeq(q, two_thirds())


def fbn(op, a, b):
    if op in ("Add", "Mul") and b.n < a.n:
        a, b = b, a
    return mk("fbin", op, a, b)


def relforms(n, x):
    """max(1, ceil(n*x)), in its ways of being written"""
    p = fbn("Mul", mk("f64", n), x)
    return p


def isrel(t, n, x):
    """t = max(1, ceil(n*x))"""
    if t.op == "max2":
        o = [y for y in t.a if y is not I(1)]
        if len(o) != 1:
            return False if all(y.op != "int" or y.a[0] != 1 for y in t.a) and clear(t) and not any(y.op == "int" for y in t.a) else None
        t = o[0]
    elif t.op == "cast" and t.a[1].op == "call" and str(t.a[1].a[0]) == "f64::max":
        o = [y for y in t.a[1].a[1] if not (y.op == "float" and float(y.a[0]) == 1.0)]
        if len(o) != 1:
            return None
        t = mk("cast", "FloatToInt", o[0])
    elif clear(t) and t.op in ("cast", "lin", "len", "int"):
        return False  # may be zero
    else:
        return None
    if t.op == "cast" and t.a[1].op == "call" and str(t.a[1].a[0]) in ("f64::ceil",):
        y = t.a[1].a[1][0]
        if y.op == "fbin" and y.a[0] == "Mul" and set(y.a[1:]) == {mk("f64", n), x}:
            return True
        return False if clear(y) and y.op == "fbin" else None
    if t.op == "cast" and t.a[1].op == "call" and str(t.a[1].a[0]) in ("f64::floor", "f64::round", "f64::trunc") and clear(t):
        return False
    if t.op == "cast" and t.a[1].op == "fbin" and clear(t):
        return False  # rounded down
    if t.op == "int":
        return False
    return None


# ---- what a quorum set consists of ----------------------------------------------------------
def count(V_, st, old):
    n = I(0)
    if V_.op == "coll":
        for p in V_.a[1]:
            n = add(n, length(coll(V_.a[0], [p])))
        return n
    return length(V_)


def plain(t, keepn=None):
    """order forgotten inside len()"""
    m = {}
    for x in subterms(t):
        if x.op == "len" and x.a[0].op == "coll":
            m[x] = count(coll(x.a[0].a[0], x.a[0].a[1], x.a[0].a[2], frozenset()), None, None) if not x.a[0].a[2] else x
    return subst(t, {k: v for k, v in m.items() if k is not v}) if m else t


RELATIVE = ("AllNeighborsQsc", "HigherTierNeighborsQsc", "GlobalRankQsc")


def outcomes(ctx, f):
    I_, outs, a = ctx.run(f)
    node, key = a[1], a[2].a[0]
    fb = sym(key[1])
    N0 = F(fb, "nodes")
    old = F(getidx(N0, node), "quorum_set")
    for st, v in outs:
        cell = st.cells.get(key, fb)
        if cell is fb:
            continue
        r, q = touched(F(cell, "nodes"), N0, node, I_.lvdefs)
        yield st, q, old, a, I_


def thresholds(ctx):
    fs = impls(ctx, "QuorumSetConfigurator", "configure")
    ctx.anchor("QuorumSetConfigurator::configure", fs)
    for f in fs:
        kind = f.short.split("::")[0]
        for st, q, old, a, I_ in outcomes(ctx, f):
            S_ = deref(a[0])
            if q is None:
                ctx.hold(RULE, f.short, None)
                continue
            vs, t = F(q, "validators"), F(q, "threshold")
            if kind == "RandomQsc":
                random_one(ctx, f, st, q, S_, I_)
                continue
            n = count(vs, st, old)
            t2, n2 = plain(t), plain(n)
            rel = S_ if kind == "?" else F(S_, "relative_threshold")
            x = S(rel)
            has = {w for k, w in st.facts.items() if k is isS(rel)}
            if kind in RELATIVE and not has and clear(t2, n2) and not st.lossy and not mentions(t2, x):
                r = False
            elif has == {True}:
                r = isrel(t2, n2, x)
            elif kind == "SuperSafeQsc":
                r = t2 is n2 or (False if clear(t2, n2) and quasi(t2, n2) is not None else None)
            else:
                r = is67(t2, n2)
                if r is None and (clear(t2, n2) and not mentions(t2, x)) and t2.op in ("lin", "len", "int", "cast", "max2"):
                    # in terms of some other number than that of the validators
                    r = False if not set(counts(t2)) & set(counts(n2)) and n2 not in counts(t2) and other_base(t2, n2) else None
            if st.lossy and r is False:
                r = None
            ctx.hold(RULE_R if has else RULE, f.short, r, where(f), "threshold %s for validators %s" % (show(t, 7)[:220], show(vs, 5)[:160]), key=f.short + "/threshold")


def other_base(t, n):
    for y in counts(t):
        if quasi(t, y) is not None:
            return True
    return t.op in ("int", "len", "lin") and not any(x is y for x in counts(t) for y in counts(n))


def counts(t):
    """numbers a threshold may be a function of"""
    out = []
    for x in subterms(t):
        if x.op == "f64":
            out.append(x.a[0])
        if x.op in ("len", "min2"):
            out.append(x)
    return [x for x in dict.fromkeys(out) if x.op in ("len", "lin", "min2", "fld", "sym")]


def random_one(ctx, f, st, q, S_, I_):
    t = F(q, "threshold")
    want = F(S_, "desired_threshold")
    has = [w for k, w in st.facts.items() if k is isS(want)]
    lvs = [x for x in subterms(q) if x.op == "lv" and x in I_.lvdefs]
    his = {src.a[1] for lv in lvs for gs in I_.lvdefs[lv]["upd"].values() for g, b in gs for src, _ in b if src.op == "range"}
    if not has and clear(t) and not mentions(t, want) and t.op != "phi":
        ctx.hold(RULE_R, f.short, False, where(f), show(t, 6), key=f.short + "/desired")
        return
    if has == [True]:
        ctx.hold(RULE_R, f.short, t is S(want) or (False if clear(t) and not st.lossy else None), where(f), show(t, 6), key=f.short + "/desired")
        return
    if has != [False] or len(his) != 1:
        ctx.hold(RULE, f.short, None)
        return
    hi = his.pop()
    r = is67(t, hi)
    if r is None and clear(t, hi) and hi not in counts(t):
        r = False if any(quasi(t, y) is not None for y in counts(t)) or t.op == "int" else None
    ctx.hold(RULE, f.short, r, where(f), show(t, 6), key=f.short + "/threshold")


def neighbors(ctx):
    for kind in ("AllNeighborsQsc", "HigherTierNeighborsQsc"):
        f = ctx.fn(kind + "::configure")
        if not ctx.anchor(kind + "::configure", f):
            continue
        for st, q, old, a, I_ in outcomes(ctx, f):
            S_, node = deref(a[0]), a[1]
            if q is None:
                continue
            vs = F(q, "validators")
            bad = not st.lossy
            rule = "neighbor-based quorum sets are in ascending order"
            if vs.op != "coll" or vs.a[2]:
                r = False if clear(vs) and bad and vs.op in ("idx", "fld", "elem") else None
                ctx.hold(rule, kind, r, where(f), show(vs, 6), key=kind + "/order")
                ctx.hold("neighbor-based quorum sets contain the node itself once", kind, None if vs.op == "coll" else r, where(f), show(vs, 6), key=kind + "/self")
                continue
            tg = vs.a[3]
            if "rev" in tg or any(isinstance(t, tuple) and t[0] == "by" and isinstance(t[1], T) and t[1].op == "cmp" and t[1].a[:2] == (sym("y"), sym("x")) for t in tg):
                r = False
            elif "sorted" in tg:
                r = True
            elif any(isinstance(t, tuple) for t in tg) or vs.a[0] == "set" or "perm" in tg:
                r = None
            else:
                r = False if bad and clear(vs) else None
            ctx.hold(rule, kind, r, where(f), show(vs, 6)[:200], key=kind + "/order")
            own = [p for p in vs.a[1] if not p.a[2] and p.a[0] is node]
            rest = [p for p in vs.a[1] if p not in own]
            R = coll(vs.a[0], rest)
            inside = inside_(R, node, st.facts) if R.op == "coll" else None
            for k, w in st.facts.items():
                for c, x in members(k, node):
                    ok = sameset(c, R, st.facts)
                    if ok is True:
                        inside = w if x else (not w)
            rule = "neighbor-based quorum sets contain the node itself once"
            if own and len(own) == 1 and not own[0].a[1]:
                r = True if inside is False else (False if inside is True else (False if bad and clear(vs) and not any(asks(k, node, S_) for k in st.facts) else None))
            elif not own:
                r = True if inside is True else (False if inside is False else (False if bad and clear(vs) and not any(asks(k, node, S_) for k in st.facts) else None))
            elif len(own) > 1:
                r = None
            else:
                g = own[0].a[1]
                r = None
                if len(g) == 1:
                    (k, w), = g
                    ms = [(c, x) for c, x in members(k, node) if sameset(c, R, st.facts) is True]
                    r = True if ms and (w is False) == ms[0][1] else None
            blind = [k for k in list(st.facts) + [k for p in own for k, _ in p.a[1]] for x in subterms(k)
                     if x.op == "bsearch" and x.a[1] is node and any(y.op == "fld" and y.a[1] == "outlinks" for y in subterms(x.a[0]))]
            if blind:
                r = False  # binary search in a list that need not be sorted
            ctx.hold(rule, kind, r, where(f), "%s under %s" % (show(vs, 6)[:200], [(show(k, 6)[:120], w) for k, w in st.facts.items() if mentions(k, node)][:4]), key=kind + "/self")
            members_of(ctx, f, kind, st, R, S_, node, bad)
            c = st.facts.get(contains(F(S_, "connected_nodes"), node))
            ctx.hold("nodes without any link in the graph get no neighbor-based quorum set", kind, True if c is True else (False if c is False or bad and clear(*[k for k in st.facts if not mentions(k, vs)]) and not any(mentions(k, F(S_, "connected_nodes")) for k in st.facts) else None),
                     where(f), str([show(k, 5) for k in st.facts])[:200], key=kind + "/connected")


def members(k, node):
    """(collection, positive) if the atom k asks whether the node is in a collection"""
    if k.op == "any" and len(k.a[0]) == 1:
        e, g, b = next(iter(k.a[0])).a
        if len(b) == 1 and len(g) == 1:
            (c, w), = g
            if w is True and c in (eq0(add(node, elem(*b[0]), -1)), ieq_(node, elem(*b[0]))):
                return [(b[0][0], True)]
    return [(k.a[0], True)] if k.op == "contains" and k.a[1] is node else []


def ieq_(a, b):
    return eq(a, b)


def asks(k, node, S_):
    """the atom may be a test for membership of the node in a list"""
    if k.op == "contains":
        return k.a[1] is node and k.a[0] is not F(S_, "connected_nodes")
    if k.op == "any":
        return any(c.op in ("eq0", "eq") and mentions(c, node) for p in k.a[0] for c, _ in p.a[1])
    if k.op in ("and", "not"):
        return any(asks(x, node, S_) for x in k.a)
    return k.op == "is" and mentions(k, node) and any(x.op in ("find", "call") for x in subterms(k))


def inside_(R, node, facts):
    """membership of the node in a filtered list, from facts on the list and the conditions"""
    res = []
    for p in R.a[1]:
        e, g, b = p.a
        if len(b) != 1 or e is not elem(*b[0]):
            return None
        lits = [contains(b[0][0], node)]
        for k, w in g:
            k2 = subst(k, {e: node})
            lits.append(k2 if w is True else not_(k2))
        r = implied(facts, and_(*lits)) if len(lits) > 1 else implied(facts, lits[0])
        if r is None:
            rs = [implied(facts, x) for x in lits]
            r = False if False in rs else (None if None in rs else True)
        res.append(r)
    return True if True in res else (None if None in res or not res else False)


def sameset(c, R, facts):
    if c is R:
        return True
    if c.op == "coll" and R.op == "coll":
        return match(coll("bag", c.a[1], c.a[2]), coll("bag", R.a[1], R.a[2]), facts)
    i = R
    return match(c, i, facts)


def members_of(ctx, f, kind, st, R, S_, node, bad):
    outl = getidx(F(S_, "graph", "outlinks"), node)
    e = elem(outl)
    if kind == "AllNeighborsQsc":
        want = V(part(e, (), ((outl, 0),)))
        rule = "the all-neighbors quorum set consists of the node and its neighbors in the graph"
    else:
        if st.facts.get(F(S_, "symmetry_enforcing")) is not False:
            return
        sc = F(S_, "rank_scores")
        own, oth = getidx(sc, node), getidx(sc, e)
        hi = mk("fbin", "Le", fbn("Mul", own, two_()), oth)
        lo = mk("fbin", "Le", fbn("Mul", oth, two_()), own)
        A = any_([part(TRUE, {(hi, True)}, ((outl, 0),))])
        w = st.facts.get(A)
        rule = "the higher-tier quorum set consists of the node and its neighbors of higher tier, or of the same tier if there are none"
        hi_, same_ = V(part(e, {(hi, True)}, ((outl, 0),))), V(part(e, {(hi, False), (lo, False)}, ((outl, 0),)))
        if w is None and implied(st.facts, eq0(length(hi_))) is not None:
            w = not implied(st.facts, eq0(length(hi_)))
        if w is None:
            # neither of the two lists, or chosen by another condition on their lengths
            rs = [sameset(R, x, st.facts) for x in (hi_, same_)]
            r = False if bad and (rs == [False, False] and clear(R) or True in rs and any(k.op == "le0" and lin_diff(k.a[0], length(hi_)) is not None or k.op == "le0" and lin_diff(k.a[0], mul(I(-1), length(hi_))) is not None for k in st.facts)) else None
            ctx.hold(rule, kind, r, where(f), "got %s" % show(R, 8)[:250], key=kind + "/members")
            return
        want = V(part(e, {(hi, True)}, ((outl, 0),))) if w else V(part(e, {(hi, False), (lo, False)}, ((outl, 0),)))
    r = match(coll("bag", R.a[1], R.a[2]), coll("bag", want.a[1]) if want.op == "coll" else want, st.facts)
    if r is False and not bad:
        r = None
    ctx.hold(rule, kind, r, where(f), "got %s" % show(R, 8)[:250], key=kind + "/members")


def two_():
    return mk("float", "2.0")


def ranks(ctx):
    f = ctx.fn("GlobalRankQsc::new")
    if ctx.anchor("GlobalRankQsc::new", f):
        h = Opaque("Graph::get_rank_scores")
        I_, outs, a = ctx.run(f, hooks=[h])
        g = a[0]
        rule = "the global-rank quorum set consists of the nodes with a rank above average"
        for st, v in outs:
            tt = F(v, "top_tier_nodes")
            ol = F(g, "outlinks")
            rs = [x for x in subterms(tt) if x.op == "call" and str(x.a[0]).endswith("get_rank_scores")]
            if not rs or len(set(rs)) != 1 or tt.op != "coll":
                ctx.hold(rule, f.short, False if clear(tt) and not rs and not st.lossy else None, where(f), show(tt, 8), key="rank/top_tier")
                continue
            r = above_average(tt, ol, rs[0])
            ctx.hold(rule, f.short, r if not (st.lossy and r is False) else None, where(f), show(tt, 8)[:250], key="rank/top_tier")
    f = ctx.fn("GlobalRankQsc::configure")
    if ctx.anchor("GlobalRankQsc::configure", f):
        for st, q, old, a, I_ in outcomes(ctx, f):
            if q is None:
                continue
            vs = F(q, "validators")
            want = F(deref(a[0]), "top_tier_nodes")
            r = vs is want or match(vs, want, st.facts)
            ctx.hold("the global-rank quorum set consists of the nodes with a rank above average", f.short, r, where(f), show(vs, 6), key="rank/validators")


def above_average(tt, ol, R):
    if tt.a[2] or len(tt.a[1]) != 1:
        return None
    e, g, b = tt.a[1][0].a
    if len(b) != 1 or len(g) != 1:
        return False if len(b) == 1 and not g and clear_of(tt, R) else None
    (k, w), = g
    src = b[0][0]
    if src is ol or src.op == "range":
        i = pos(ol, elem(*b[0])) if src is ol else elem(*b[0])
        own = getidx(R, i)
        if src.op == "range" and src.a[1] in (length(ol), length(R)) and src.a[0].op == "int" and src.a[0].a[0] > 0:
            return False
        if e is not i:
            return None
    elif src is R:
        i = pos(R, elem(*b[0]))
        own = elem(*b[0])
        if e is not i:
            return None
    else:
        return False if src.op in ("rest", "slice") and clear_of(src, R) else None
    if k.op != "fbin" or k.a[0] not in ("Lt", "Le"):
        return None
    x, y = k.a[1], k.a[2]
    avg = lambda t: t.op == "fbin" and t.a[0] == "Div" and t.a[1].op in ("sum", "call") and mentions(t.a[1], R) and t.a[2].op == "f64" and t.a[2].a[0] in (length(ol), length(R))
    if avg(x) and y is own:
        return k.a[0] == "Lt" and w is True
    if avg(y) and x is own:
        return k.a[0] == "Le" and w is False
    return False if own in (x, y) and clear_of(k, R) else None


def clear_of(t, R):
    return not any(x.op in HAZY for x in subterms(t))


def formulas(ctx):
    f = ctx.fn("calculate_67p_threshold")
    if f:
        I_, outs, a = ctx.run(f)
        for st, v in outs:
            r = is67(v, a[0])
            ctx.hold("two-thirds rule: more than two thirds, ceil((2n+1)/3)", f.short, r if not st.facts else None, where(f), show(v, 8), key="formula/67p")
    else:
        ctx.anchor("calculate_67p_threshold", None)
    f = ctx.fn("calculate_x_threshold")
    if f:
        I_, outs, a = ctx.run(f)
        for st, v in outs:
            r = isrel(v, a[0], a[1])
            ctx.hold("relative threshold: the given share, rounded up, at least one", f.short, r if not st.facts else None, where(f), show(v, 8), key="formula/relative")
    else:
        ctx.anchor("calculate_x_threshold", None)


def connected(ctx):
    """connected nodes are the nodes with a link from or to them"""
    f = ctx.fn("Graph::get_connected_nodes")
    rule = "connected nodes are the nodes with links from or to them"
    if ctx.anchor("Graph::get_connected_nodes", f):
        I_, outs, a = ctx.run(f)
        ol = F(deref(a[0]), "outlinks")
        e = elem(ol)
        z = eq0(length(e))
        want = coll("set", [part(pos(ol, e), {(z, False)}, ((ol, 0),)), part(elem(e), (), ((ol, 0), (e, 0)))])
        want2 = coll("set", [part(pos(ol, e), {(z, False)}, ((ol, 0),)), part(elem(e), {(z, False)}, ((ol, 0), (e, 0)))])
        for st, v in outs:
            rs = [match(v, x, st.facts) for x in (want, want2)]
            r = True if True in rs else (None if None in rs or st.lossy else False)
            ctx.hold(rule, f.short, r, where(f), show(v, 7), key="graph/connected")
    for kind in ("AllNeighborsQsc", "HigherTierNeighborsQsc"):
        f = ctx.fn(kind + "::new")
        if not f:
            continue
        h = Opaque("Graph::get_connected_nodes", "Graph::get_rank_scores")
        I_, outs, a = ctx.run(f, hooks=[h])
        for st, v in outs:
            for fld_, fn_ in (("connected_nodes", "get_connected_nodes"), ("rank_scores", "get_rank_scores")):
                if fld_ == "rank_scores" and kind[0] == "A":
                    continue
                t = F(v, fld_)
                r = t.op == "call" and str(t.a[0]).endswith(fn_) and a[0] in t.a[1]
                ctx.hold(rule if fld_[0] == "c" else "ranks are those of the given graph", f.short, r or (False if clear0_(t) else None), where(f), show(t, 6), key="%s/%s" % (kind, fld_))
            for n in ("graph", "relative_threshold"):
                ctx.hold("settings are kept as given", "%s.%s" % (f.short, n), match(F(v, n), sym(n), st.facts), where(f), show(F(v, n), 5), key="%s/%s" % (kind, n))


def clear0_(t):
    return t.op == "coll" and not t.a[1]


def constructors(ctx):
    for kind in ("AllNeighborsQsc", "HigherTierNeighborsQsc", "GlobalRankQsc"):
        for n in ("new_67p", "new_relative"):
            f = ctx.fn("%s::%s" % (kind, n))
            if not f:
                continue
            h = Opaque("Graph::get_connected_nodes", "Graph::get_rank_scores")
            I_, outs, a = ctx.run(f, hooks=[h])
            for st, v in outs:
                t = F(v, "relative_threshold")
                if n == "new_67p":
                    r = isvar(t, "None")
                    r = True if r is TRUE else (False if r is FALSE else None)
                else:
                    r = True if isvar(t, "Some") is TRUE and S(t) is a[1] else (False if clear(t) else None)
                ctx.hold("constructors set the kind of threshold their name says", f.short, r, where(f), show(t), key="%s/%s" % (kind, n))


def check(ctx):
    formulas(ctx)
    thresholds(ctx)
    neighbors(ctx)
    ranks(ctx)
    connected(ctx)
    constructors(ctx)
