"""Merging by group: every member is mapped to the one representative of its group."""
from spec import *


class Opaque(ai.Hook):
    def __init__(self, *names):
        self.names = names

    def opaque(self, I, fn):
        return fn.short in self.names


def tables(ctx):
    f = ctx.fn("Groupings::new")
    if not ctx.anchor("Groupings::new", f):
        return
    I_, outs, a = ctx.run(f)
    G, fb = a[0], a[1]
    g = elem(G)
    for st, v in outs:
        if v.op != "agg":
            ctx.hold("the groupings hold a table for every node", "Groupings::new", None)
            continue
        fs = fields(v)
        for n, s in (("groupings", G), ("fbas", fb)):
            if n in fs:
                ctx.hold("the groupings are kept as given", n, match(fs[n], s, st.facts), where(f), show(fs[n], 6), key="new/" + n)
        mem = F(g, "validators")
        mi = [x for n, x in fs.items() if n == "merged_ids"]
        rule = "every member of a group is mapped to one representative, a member of the group, other nodes to themselves"
        if not mi or mi[0].op != "coll" or I_.lvdefs:
            ctx.hold(rule, "Groupings::new", None)
        else:
            ctx.hold(rule, "Groupings::new", reptable(mi[0], G, mem, fb, I_, st), where(f), show(mi[0], 12), key="new/representatives")
        ix = [x for n, x in fs.items() if n == "node_id_to_org_idx"]
        rule = "the member index leads from every member of a group to that group"
        if not ix or ix[0].op != "coll" or I_.lvdefs:
            ctx.hold(rule, "Groupings::new", None)
        else:
            ctx.hold(rule, "Groupings::new", index(ix[0], G, mem, st), where(f), show(ix[0], 12), key="new/index")


def stripg(gs, mem):
    """conditions other than the group having members"""
    out = []
    for k, w in gs:
        if w is False and k is eq0(length(mem)):
            continue
        if w is True and k.op == "any" and all(not p.a[1] and p.a[2] and p.a[2][0][0] is mem for p in k.a[0]):
            continue
        if k.op == "is" and k.a[0].op == "call":
            continue
        out.append((k, w))
    return out


def covers(srcs, mem):
    """which members of the group the keys range over: 'all', 'rest', 'first' or None"""
    if srcs == ["all"] or "first" in srcs and "rest" in srcs or "all" in srcs:
        return "all"
    return srcs[0] if len(srcs) == 1 else None


def keykind(k, b, G, mem):
    """how a key ranges over the members: ('all' | 'rest' | 'first'), else None"""
    if len(b) == 1 and b[0] == (G, 0) or b == ():
        if k.op == "call" or k.op == "first" or k.op == "idx":
            if k is first_(mem):
                return "first"
            if k is getidx(mem, I(0)):
                return "first"
    if b and b[-1][0] is mem and k is elem(*b[-1]):
        return "all"
    if b and b[-1][0].op == "rest" and b[-1][0].a[0] is mem and k is elem(*b[-1]):
        return "rest"
    if b and b[-1][0].op == "slice" and b[-1][0].a[0] is mem and k is elem(*b[-1]) and b[-1][0].a[2].op == "end":
        return "rest" if b[-1][0].a[1] is I(1) else ("all" if b[-1][0].a[1] is I(0) else ("fewer" if b[-1][0].a[1].op == "int" else None))
    return None


def first_(mem):
    return mk("first", mem)


def reptable(t, G, mem, fb, I_, st):
    nodes = F(fb, "nodes")
    base = coll(t.a[0], t.a[1], (), t.a[3])
    ident = V(part(pos(nodes, elem(nodes)), (), ((nodes, 0),)))
    r = match(base, ident, st.facts)
    if r is not True:
        return r
    if not t.a[2]:
        return False
    kinds = []
    rep = None
    for k, v, g, b in t.a[2]:
        if not clear(k, v):
            return None
        if stripg(g, mem):
            return False if all(clear(x) for x, _ in g) and not any(bad_atom(x) for x, _ in g) else None
        kk = keykind(k, b, G, mem)
        if kk is None:
            return None
        kinds.append(kk)
        if b and mentions(v, elem(*b[-1])) and b[-1][0] is not G:
            return False  # the representative depends on the member
        c = repkind(v, mem)
        if c is None:
            return None if not v.op in ("pos", "elem", "int", "len") else False
        if rep is None:
            rep = c
        elif rep != c:
            return None
    cov = covers(kinds, mem)
    if cov == "all":
        return True
    if cov == "rest" and rep == "first":
        return True
    if cov == "rest" and rep == "last":
        return False
    if cov in ("fewer", "first"):
        return False
    return None


def bad_atom(k):
    return bound_atom(k) or not clear(k)


def repkind(v, mem):
    if v is first_(mem) or v is getidx(mem, I(0)):
        return "first"
    if v.op == "last" and v.a[0] is mem:
        return "last"
    if v.op in ("min", "max") and v.a[0] is mem:
        return v.op
    return None


def index(t, G, mem, st):
    if t.a[2]:
        ents = [(k, v, g, b) for k, v, g, b in t.a[2]]
    else:
        ents = []
    for p in t.a[1]:
        e, g, b = p.a
        if e.op != "agg":
            return None
        f = fields(e)
        ents.append((f.get("0"), f.get("1"), g, b))
    kinds = []
    for k, v, g, b in ents:
        if not clear(k, v):
            return None
        if stripg(g, mem):
            return False if all(clear(x) for x, _ in g) and not any(bad_atom(x) for x, _ in g) else None
        if v is not pos(G, elem(G)):
            return False if clear(v) and not calls(v) else None
        kk = keykind(k, b, G, mem)
        if kk is None:
            return None
        kinds.append(kk)
    cov = covers(kinds, mem)
    if cov == "all":
        return True
    return False if cov in ("rest", "first", "fewer") else None


def lookups(ctx):
    r = "a group is found by any of its members and by its name"

    def bymember(s, n):
        m = F(s, "node_id_to_org_idx")
        return [({contains(m, n): True}, some(getidx(F(s, "groupings"), mapval(m, n)))), ({contains(m, n): False}, NONE)]

    def byname(s, n):
        G = F(s, "groupings")
        p = part(elem(G), ((eq(n, F(elem(G), "name")), True),), ((G, 0),))
        return [({}, mk("getopt", any_([part(TRUE, p.a[1], p.a[2])]), mk("find", p)))]
    for n, w in (("get_by_member", bymember), ("get_by_name", byname)):
        f = ctx.fn("Groupings::" + n)
        if ctx.anchor("Groupings::" + n, f):
            spec(ctx, r, f, w)
    f = ctx.fn("Groupings::number_of_groupings")
    if ctx.anchor("Groupings::number_of_groupings", f):
        spec(ctx, r, f, lambda s: [({}, length(F(s, "groupings")))])


def rep(s, n):
    return getidx(F(s, "merged_ids"), n)


def mapping(ctx):
    r = "members are mapped one by one to their representatives"
    N = lambda n: ctx.fn("Groupings::" + n)
    qs = "Groupings::merge_quorum_set"
    rm = ctx.fn("remove_non_minimal_node_sets")
    op = Opaque(qs, "remove_non_minimal_node_sets")
    wants = {
        "merge_node": lambda s, n: [({}, rep(s, n))],
        "merge_node_set": lambda s, x: [({}, seq(x, lambda n: rep(s, n)))],
        "merge_node_sets": lambda s, x: [({}, seq(x, lambda y: seq(y, lambda n: rep(s, n))))],
        "merge_minimal_node_sets": lambda s, x: [({}, seq(x, lambda y: seq(y, lambda n: rep(s, n))))],
        "merge_quorum_sets": lambda s, x: [({}, seq(x, lambda q: call(qs, s, q)))],
    }
    for n, w in wants.items():
        f = N(n)
        if not ctx.anchor("Groupings::" + n, f):
            continue
        get = (lambda st, v, av: v.a[1][0] if v.op == "call" and v.a[0] == "remove_non_minimal_node_sets" else (mk("wrong", v) if clear(v) else mk("opaque", "?"))) if "minimal" in n else None
        if "minimal" in n and rm is None:
            ctx.hold(r, n, None)
            continue
        spec(ctx, r, f, w, hooks=[op], get=get)


def quorumset(ctx):
    f = ctx.fn("Groupings::merge_quorum_set")
    if not ctx.anchor("Groupings::merge_quorum_set", f):
        return
    qs = f.short
    I_, outs, a = ctx.run(f, hooks=[Opaque(qs)])
    s, q = a
    vs, inner = F(q, "validators"), F(q, "inner_quorum_sets")
    x = call(qs, s, elem(inner))
    singles = (eq0(add(length(F(x, "validators")), I(-1))), eq0(length(F(x, "inner_quorum_sets"))))
    single = and_(eq0(add(length(F(x, "validators")), I(-1))), eq0(length(F(x, "inner_quorum_sets"))))
    r = "validators of a quorum set are mapped one by one, groups of one validator become that validator"
    allv = V(each(vs, lambda n: rep(s, n)), part(getidx(F(x, "validators"), I(0)), ((single, True),), ((inner, 0),)))
    rest = V(part(x, ((single, False),), ((inner, 0),)))
    if I_.lvdefs:
        ctx.hold(r, qs, None)
        return
    for st, v in outs:
        vv, vi, th = F(v, "validators"), F(v, "inner_quorum_sets"), F(v, "threshold")
        inst = qs
        ctx.hold("inner quorum sets are merged and kept, except those that became validators", inst, split(vi, rest, st), where(f), show(vi, 10), key="quorum set/inner")
        if vv.op == "coll" and len(vv.a[1]) == 1 and not vv.a[1][0].a[2] and not vv.a[1][0].a[1]:
            one = vv.a[1][0].a[0]
            # collapsed to one validator
            c = th is I(1)
            ctx.hold("a quorum set of a single group asks for its one validator", inst, True if c else (False if clear(th) else None), where(f), show(th, 6), key="quorum set/one of one")
            c2 = None
            if one.op in ("idx", "first"):
                src = one.a[0]
                c2 = split(src, allv, st)
            ctx.hold("a quorum set of a single group asks for its one validator", inst + " (validator)", c2, where(f), show(one, 10), key="quorum set/one validator")
            # only if all are the same, and nothing else is left
            none_left = same = None
            for k, w in st.facts.items():
                if k.op == "any" and w is False:
                    bag = coll("bag", sorted(k.a[0], key=lambda p: p.n))
                    if split(bag, V(*[part(TRUE, p.a[1], p.a[2]) for p in rest.a[1]]), st) is True:
                        none_left = True
                    if any(mentions(p, one) for p in k.a[0]):
                        bs = {p.a[2] for p in k.a[0]}
                        same = True if len(bs) >= 2 else None
                if k.op == "any" and w is True and any(mentions(p, one) for p in k.a[0]) and same is None:
                    same = False
                if w is True and k is eq0(length(vi)):
                    none_left = True
            ok_ = True if none_left and same else (False if not st.lossy and not (none_left and same is not False) and all(clear(k) for k in st.facts) and not any(mentions(k, inner) and k.op != "any" for k in st.facts) else None)
            if ok_ is None and not st.lossy and not none_left:
                ok_ = leftover(st, vi, F(q, "threshold"), inner, singles)
            ctx.hold("a quorum set is collapsed only if nothing but one group is in it", inst, ok_, where(f), "collapsed under: " + ", ".join(("" if w else "not ") + show(k, 8)[:200] for k, w in st.facts.items()), key="quorum set/collapse")
        else:
            ctx.hold(r, inst, split(vv, allv, st), where(f), show(vv, 10), key="quorum set/validators")
            c = match(th, F(q, "threshold"))
            ctx.hold("merging keeps the threshold", inst, c if not (c is False and not clear(th)) else None, where(f), show(th, 8), key="quorum set/threshold")


def leftover(st, vi, thr, inner, single):
    """False if the conditions of a collapse, being about sizes only, allow for inner quorum sets that are left"""
    n = length(vi)
    lits = []
    for k, w in st.facts.items():
        if not mentions(k, inner):
            continue
        if k.op == "any" and all(all((g, True) in p.a[1] for g in single) for p in k.a[0] if any(mentions(y, inner) for y, _ in p.a[2])):
            continue        # about those that became validators
        if k.op not in ("le0", "eq0"):
            return None
        c, d = lin_parts(k.a[0])
        e = []
        for x, m in d.items():
            m = m - (1 << 64) if m >= 1 << 63 else m
            if x is n or x is thr:
                e.append((x, m))
            else:
                return None
        lits.append((k.op, w, c - (1 << 64) if c >= 1 << 63 else c, e))
    for t in range(4):
        for left in range(1, 4):
            v = {n: left, thr: t}
            if all(((s <= 0) if op == "le0" else (s == 0)) is w for op, w, s in ((op, w, c + sum(v[x] * m for x, m in e)) for op, w, c, e in lits)):
                return False
    return None


def split(got, want, st):
    """compare without the conditions of this path (they may be about the parts themselves)"""
    if got.op == "coll" and got.a[2]:
        return None
    r = match(got, want, {})
    return r


def results(ctx):
    r = "members of results are mapped one by one, after translation to the caller's numbering"
    ctx_fn = lambda n: ctx.fn(n)

    def conv(s):
        t = F(s, "unshrink_table")
        return [({isS(t): True}, lambda n: getidx(S(t), n)), ({isS(t): False}, lambda n: n)]

    def vec(s, f=None, keep=None):
        out = []
        for facts, c in conv(s):
            def one(y):
                x = elem(y)
                return V(part(f(c(x)) if f else c(x), ((keep(c(x)), True),) if keep else (), ((y, 0),)))
            out.append((facts, seq(F(s, "node_sets"), one)))
        return out
    both = (("NodeIdSetResult", "node_set"), ("NodeIdSetVecResult", "node_sets"))
    for ty_, fl in both:
        many = fl == "node_sets"
        get = lambda st, v, av, fl=fl: F(v, fl)
        f = ctx_fn(ty_ + "::merged_by_group")
        if ctx.anchor(ty_ + "::merged_by_group", f):
            w = (lambda s, g: vec(s, lambda n: rep(g, n))) if many else (lambda s, g: [({}, seq(F(s, "node_set"), lambda n: rep(g, n)))])
            spec(ctx, r, f, w, get=get)
        rm = "removing nodes removes exactly the nodes named"
        f = ctx_fn(ty_ + "::without_nodes")
        if ctx.anchor(ty_ + "::without_nodes", f):
            w = (lambda s, x: vec(s, None, lambda n: not_(contains(x, n)))) if many else \
                (lambda s, x: [({}, V(each(F(s, "node_set"), None, lambda n: ((contains(x, n), False),))))])
            spec(ctx, rm, f, pos_guards(w), get=get)
        f = ctx_fn(ty_ + "::without_nodes_pretty")
        if ctx.anchor(ty_ + "::without_nodes_pretty", f):
            def w(s, x, fb, g, many=many):
                out = []
                pk = lambda n: F(fb, "pk_to_id")
                ids = V(part(mapval(F(fb, "pk_to_id"), elem(x)), ((contains(F(fb, "pk_to_id"), elem(x)), True),), ((x, 0),)))
                for gf, named in (({isS(g): False}, ids), ({isS(g): True}, byname(x, fb, S(g)))):
                    base = vec(s, None, lambda n: not_(contains(named, n))) if many else [({}, V(each(F(s, "node_set"), None, lambda n: ((contains(named, n), False),))))]
                    for facts, v in base:
                        d = dict(facts)
                        d.update(gf)
                        out.append((d, v))
                return out
            spec(ctx, rm, f, pos_guards(w), get=get, unclear=lambda v, av: mk("fld", av[2], "nodes") in subterms(v))
    f = ctx_fn("NodeIdSetVecResult::minimal_sets")
    if ctx.anchor("NodeIdSetVecResult::minimal_sets", f) and ctx_fn("remove_non_minimal_node_sets"):
        spec(ctx, "reduction to minimal sets is the one of the library, on all sets", f,
             lambda s: [({}, call("remove_non_minimal_node_sets", F(s, "node_sets")))], hooks=[Opaque("remove_non_minimal_node_sets")],
             get=lambda st, v, av: F(v, "node_sets"))


def pos_guards(w):
    """guards written as (not k, True) in canonical form"""
    def fix(t):
        if t.op == "coll":
            ps = []
            for p in t.a[1]:
                e, g, b = p.a
                ps.append(part(fix(e), {(k.a[0], not v) if k.op == "not" else (k, v) for k, v in g}, b))
            return coll(t.a[0], ps, t.a[2], t.a[3])
        return t
    return lambda *a: [(f, fix(v)) for f, v in w(*a)]


def byname(x, fb, g):
    """the nodes meant by names: members of the group of that name, else the node with that key"""
    G, e = F(g, "groupings"), elem(x)
    p = part(elem(G), ((eq(e, F(elem(G), "name")), True),), ((G, 0),))
    has = any_([part(TRUE, p.a[1], p.a[2])])
    vs = F(mk("find", p), "validators")
    m = F(fb, "pk_to_id")
    return V(part(elem(vs), ((has, True),), ((x, 0), (vs, 0))),
             part(mapval(m, e), ((has, False), (contains(m, e), True)), ((x, 0),)))


def pretty(ctx):
    r = "pretty output shows the group's name for members of a group and the public key for other nodes"

    def names(g, fb, n):
        m = F(g, "node_id_to_org_idx")
        return ((contains(m, n), True), F(getidx(F(g, "groupings"), mapval(m, n)), "name")), ((contains(m, n), False), F(getidx(F(fb, "nodes"), n), "public_key"))

    def plist(src, g, fb, c=lambda n: n):
        n = c(elem(src))
        return V(*[part(e, (k,), ((src, 0),)) for k, e in names(g, fb, n)])

    def keys(src, fb, c=lambda n: n):
        return V(part(F(getidx(F(fb, "nodes"), c(elem(src))), "public_key"), (), ((src, 0),)))
    f = ctx.fn("NodeIdSetResult::into_pretty_vec")
    if ctx.anchor("NodeIdSetResult::into_pretty_vec", f):
        spec(ctx, r, f, lambda s, fb, g: [({isS(g): False}, keys(F(s, "node_set"), fb)), ({isS(g): True}, plist(F(s, "node_set"), S(g), fb))])
    f = ctx.fn("NodeIdSetVecResult::into_pretty_vec_vec")
    if ctx.anchor("NodeIdSetVecResult::into_pretty_vec_vec", f):
        def w(s, fb, g):
            t = F(s, "unshrink_table")
            out = []
            for tf in (True, False):
                c = (lambda n: getidx(S(t), n)) if tf else (lambda n: n)
                for gf in (True, False):
                    out.append(({isS(t): tf, isS(g): gf}, seq(F(s, "node_sets"), (lambda y: plist(y, S(g), fb, c)) if gf else (lambda y: keys(y, fb, c)))))
            return out
        spec(ctx, r, f, w)


def bynode(ctx):
    """ISP and country groups: what is put under which name"""
    r = "%s groups contain exactly the nodes with that %s"
    for fn, what, path in (("RawGroupings::isps_from_raw_nodes", "ISP", ("isp",)), ("RawGroupings::countries_from_raw_nodes", "country", ("geo_data", "country_name"))):
        f = ctx.fn(fn)
        if f is None:
            ctx.hold(r % (what, what), fn, None)
            continue
        clean = "remove_special_chars_from_grouping_name"
        I_, outs, a = ctx.run(f, hooks=[Opaque(clean)])
        nodes = a[0]
        n = elem(nodes)
        v = n
        need = set()
        for x in path:
            v = F(v, x)
            need.add((isS(v), True))
            v = S(v)
        hasclean = ctx.fn(clean) is not None
        key = call(clean, v) if hasclean else None
        ups = []
        for lv, d in I_.lvdefs.items():
            for u, gs in d["upd"].items():
                ups.append((lv, d["init"], u, gs))
        rule = r % (what, what)
        if not ups or key is None:
            ctx.hold(rule, fn, None)
            continue
        pushed = None
        for lv, init, u, gs in ups:
            if u.op != "coll" or u is lv:
                continue
            # values that are put into the lists kept under a name
            for k, vv, g, b in u.a[2]:
                if vv.op != "coll":
                    continue
                kept = any(p.a[0].op == "elem" and any(x is lv for x in subterms(p.a[0].a[0])) for p in vv.a[1])
                fresh = any(x.op == "contains" and x.a[0] is lv and x.a[1] is k and w is False for p in vv.a[1] for x, w in p.a[1])
                if not kept and not fresh:
                    ctx.hold("members collected before are kept", fn, False if not calls(k) - {clean} and all(clear(p.a[0]) for p in vv.a[1]) else None, where(f), show(vv, 8), key=fn + "/kept")
                for p in vv.a[1]:
                    e, pg, pb = p.a
                    if e.op == "elem" and any(x is lv for x in subterms(e.a[0])):
                        continue
                    if not mentions(e, n):
                        continue
                    ok_ = e is F(n, "public_key") and k is key
                    if not ok_:
                        known = lambda t: all(c == clean or c.split("::")[-1] in ALTER for c in calls(t))
                        ok_ = False if clear(e) and clear(k) and known(k) and known(e) else None
                    ctx.hold(rule, fn, ok_, where(f), "%s under %s" % (show(e, 6), show(k, 6)), key=fn + "/member")
                    pushed = True
                    extra = [(x, w) for x, w in pg if (x, w) not in need and not anylv(x, lv)]
                    miss = [x for x in need if x not in pg]
                    c = True if not extra else (False if all(clear(x) for x, _ in extra) else None)
                    ctx.hold(rule, fn + " (every node)", c, where(f), "only if " + ", ".join(("" if w else "not ") + show(x, 6) for x, w in extra), key=fn + "/every node")
        if not pushed:
            ctx.hold(rule, fn, None)
        for st, v in outs:
            l = F(v, "0")
            c = None
            if l.op == "coll" and len(l.a[1]) == 1:
                e, g, b = l.a[1][0].a
                nm, vs = F(e, "name"), F(e, "validators")
                if vs.op == "idx" and vs.a[1] is nm:
                    c = True
                elif vs.op == "idx" and not calls(vs.a[1]) and vs.a[1].op != "lv":
                    c = False
                for k, w in g:
                    if not (k.op == "contains" and w):
                        c = False if not calls(k) and not any(x.op in ("phi", "opaque", "undef", "out") for x in subterms(k)) else None
            ctx.hold("each %s group carries the members collected under its name" % what, fn, c, where(f), show(l, 8), key=fn + "/result")


def cleaning(ctx):
    f = ctx.fn("remove_special_chars_from_grouping_name")
    r = "names of ISP and country groups lose nothing but commas and one dot at their end"
    if f is None:
        ctx.hold(r, "no such function", None)
        return
    I_, outs, a = ctx.run(f)
    for st, v in outs:
        popped = False
        if v.op == "out" and v.a[0].op == "call" and v.a[0].a[0].split("::")[-1] == "pop":
            popped, v = True, v.a[0].a[1][0]
        c = None
        if v is a[0]:
            c = True
        elif v.op == "coll" and len(v.a[1]) == 1 and v.a[1][0].a[2] == ((a[0], 0),) and v.a[1][0].a[0] is elem(a[0]):
            c = True
            for k, w in v.a[1][0].a[1]:
                if not (w is False and k is eq0(add(elem(a[0]), I(-44)))):
                    c = False if clear(k) and not calls(k) else None
        ctx.hold(r, f.short, c, where(f), show(v, 8), key="name/commas")
        if popped:
            c = False if not st.lossy else None
            for k, w in st.facts.items():
                if w and k.op == "eq" and I(46) in k.a and any(x.op == "last" and v in subterms(x) for x in k.a):
                    c = True
                if w and k.op == "call" and k.a[0].split("::")[-1] == "ends_with":
                    c = True if k.a[1][0] is v and k.a[1][1] is I(46) else (False if k.a[1][1].op in ("int", "str") and k.a[1][1] is not mk("str", ".") else None)
            if c is False and not all(clear(k) and calls(k) <= {"str::ends_with"} and not any(x.op == "last" for x in subterms(k)) for k in st.facts):
                c = None
            ctx.hold(r, f.short + " (dot)", c, where(f), ", ".join(("" if w else "not ") + show(k, 8) for k, w in st.facts.items()), key="name/dot")


def anylv(k, lv):
    return any(x is lv for x in subterms(k)) or k.op == "contains" and any(x.op == "lv" for x in subterms(k))


def check(ctx):
    tables(ctx)
    lookups(ctx)
    mapping(ctx)
    quorumset(ctx)
    results(ctx)
    pretty(ctx)
    bynode(ctx)
    cleaning(ctx)
    ctx.floor("obligations", ctx.obl, 15)
