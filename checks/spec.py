"""Case-wise comparison of result terms with the terms a rule asks for.

`match(got, want, facts)` answers True (same value in every case), False (positively different: both
sides are understood completely and differ) or None (not understood)."""
from base import *

# functions of the standard library that change the text or number they are given
ALTER = ("to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "trim", "trim_start",
         "trim_end", "trim_matches", "trim_end_matches", "trim_start_matches", "replace", "replacen", "truncate",
         "saturating_sub", "saturating_add", "wrapping_add", "wrapping_sub", "pow", "min", "max", "clamp",
         "abs_diff", "rev", "to_string", "format", "to_standard_form", "u8", "u16", "u32", "i8", "i16", "i32")
HAZY = ("lv", "phi", "opaque", "undef", "out", "unk")


def clear(*ts):
    return not any(x.op in HAZY for t in ts for x in subterms(t))


def sym(n):
    return mk("sym", n)


def F(v, *names):
    """field path"""
    for n in names:
        v = fld(v, n)
    return v


def S(v):
    return pay(v, "Some", "0")


def isS(v):
    return isvar(v, "Some")


def V(*parts, kind="vec", tags=()):
    return coll(kind, list(parts), (), frozenset(tags))


def each(src, e=None, g=(), t=0):
    """one element e(x) for every x of src (under g)"""
    x = elem(src, t)
    g = g(x) if callable(g) else g
    return part(x if e is None else (e(x) if callable(e) else e), frozenset(g), ((src, t),))


def seq(src, f=None):
    return V(each(src, f))


def calls(t):
    return {x.a[0] for x in subterms(t) if x.op == "call"}


def bound_atom(k):
    """a bounds check: comparison of a position or index with a length"""
    if k.op != "le0":
        return False
    c, d = lin_parts(k.a[0])
    return any(x.op == "len" for x in d) and any(x.op != "len" for x in d)


def empties(facts):
    """sources that the facts say are empty"""
    out = set()
    for k, w in facts.items():
        if w is True and k.op == "eq0" and k.a[0].op == "len":
            out.add(k.a[0].a[0])
        if w is False and k.op == "any":
            for p in k.a[0]:
                if not p.a[1] and len(p.a[2]) == 1:
                    out.add(p.a[2][0][0])
    return out


def restrict(t, facts):
    """t under the facts"""
    s = ai.State()
    s.facts = dict(facts)
    m = {}
    for k, w in facts.items():
        m[k] = B(w) if isinstance(w, bool) else k
    return subst(t, m) if any(mentions(t, k) for k in m) else t


def norm_parts(c, facts):
    """parts with their binders in canonical numbering, decided guards removed"""
    s = ai.State()
    s.facts = dict(facts)
    em = empties(facts)
    out = []
    for p in c.a[1]:
        e, g, b = p.a
        if any(src in em for src, _ in b):
            continue
        seen, m, nb = {}, {}, []
        for src, t in b:
            s2 = subst(src, m) if m else src
            n = ("b", seen.get(s2, 0))
            seen[s2] = seen.get(s2, 0) + 1
            if t != n:
                m[elem(src, t)] = elem(s2, n)
            nb.append((s2, n))
        if m:
            e = subst(e, m)
            g = frozenset((subst(k, m), v) for k, v in g)
        ng, dead = set(), False
        for k, v in g:
            r = s.known(k)
            if r is None:
                ng.add((k, v))
            elif r != v:
                dead = True
        if not dead:
            out.append((e, frozenset(ng), tuple(nb)))
    # the order of independent binders does not matter for what is collected
    return out


def expand(ps):
    """parts whose conditions are single tests: conjunctions and joint searches taken apart"""
    todo, out = list(ps), []
    while todo:
        e, g, b = todo.pop()
        for k, v in g:
            if k.op == "not" and isinstance(v, bool):
                todo.append((e, (g - {(k, v)}) | {(k.a[0], not v)}, b))
                break
            if k.op == "and":
                lits, all_ = list(k.a), v is True
            elif k.op == "any" and len(k.a[0]) > 1:
                lits, all_ = [any_([q]) for q in sorted(k.a[0], key=lambda q: q.n)], v is False
            else:
                continue
            g0 = g - {(k, v)}
            w = k.op == "and"  # value of the single tests in the joint case
            if all_:
                todo.append((e, g0 | {(x, w) for x in lits}, b))
            else:
                prior = set()
                for x in lits:
                    todo.append((e, g0 | prior | {(x, not w)}, b))
                    prior.add((x, w))
            break
        else:
            if not any((k, not v) in g for k, v in g if isinstance(v, bool)):
                out.append((e, g, b))
        if len(todo) + len(out) > 60:
            return list(ps)
    return out


def member_atoms(ps):
    """membership in a collection that was built, as a search for the element"""
    def at(k):
        if k.op == "contains" and k.a[0].op == "coll" and not k.a[0].a[2] and k.a[0].a[0] not in ("hmap", "map"):
            x = k.a[1]
            qs = []
            for p in k.a[0].a[1]:
                q = rename_part(p, {y for y in subterms(x) if y.op == "elem"})
                qs.append(part(TRUE, q.a[1] | {(eq(x, q.a[0]), True)}, q.a[2]))
            return any_(qs)
        return k
    return [(e, frozenset((at(k), v) for k, v in g), b) for e, g, b in ps]


def present(pa, pb):
    """m[k] is only there if m contains k"""
    cs = {k for _, g, _ in pa + pb for k, v in g if k.op == "contains"}
    if not cs:
        return pa, pb

    def add_(ps):
        out = []
        for e, g, b in ps:
            more = set()
            for c in cs:
                i = mapval(c.a[0], c.a[1])
                if not any(k is c for k, _ in g) and (mentions(e, i) or any(mentions(k, i) for k, _ in g)):
                    more.add((c, True))
            out.append((e, g | more, b))
        return out
    return add_(pa), add_(pb)


def unify(pa, pb, facts, depth):
    """conditions of pa that mean the same as conditions of pb, written alike"""
    ka = {k for _, g, _ in pa for k, v in g if isinstance(v, bool)}
    kb = {k for _, g, _ in pb for k, v in g if isinstance(v, bool)}
    m = {}
    for x in ka - kb:
        for y in kb - ka:
            if x.op == y.op and match(x, y, facts, depth + 1) is True:
                m[x] = y
                break
    return [(e, frozenset((m.get(k, k), v) for k, v in g), b) for e, g, b in pa] if m else pa


def bkey(b):
    return tuple(sorted(((src.n, t) for src, t in b)))


def assignments(atoms):
    atoms = sorted(atoms, key=lambda a: a.n)
    if len(atoms) > 8:
        return None
    out = [{}]
    for a in atoms:
        out = [dict(d, **{}) | {a: w} for d in out for w in (True, False)]
    return out


def holds_in(g, d):
    for k, v in g:
        if k in d:
            if d[k] is not v:
                return False
        elif isinstance(v, bool):
            return None
        else:
            return None
    return True


def worst(rs):
    r = True
    for x in rs:
        if x is None:
            return None if r is not False else None
        if x is False:
            r = False
    return r


def collmatch(a, b, facts, depth):
    pa, pb = norm_parts(a, facts), norm_parts(b, facts)
    if a.a[2] or b.a[2]:
        if len(a.a[2]) != len(b.a[2]):
            return None  # single entries were replaced; not compared
        r = True
        if pa != pb:
            r = collmatch(coll(a.a[0], a.a[1]), coll(b.a[0], b.a[1]), facts, depth)
        if r is not True:
            return r
        left = list(b.a[2])
        for k, v, g, bd in a.a[2]:
            x = coll("bag", [part(tup(k, v), g, bd)])
            rs = [collmatch(x, coll("bag", [part(tup(k2, v2), g2, b2)]), facts, depth) for k2, v2, g2, b2 in left]
            if True not in rs:
                return None if None in rs else False
            del left[rs.index(True)]
        return True
    pa, pb = expand(member_atoms(pa)), expand(member_atoms(pb))
    pa, pb = present(pa, pb)
    pa = unify(pa, pb, facts, depth)
    keys = {}
    for side, ps in ((0, pa), (1, pb)):
        for e, g, bnd in ps:
            keys.setdefault(bkey(bnd), ([], []))[side].append((e, g, bnd))
    res = []
    for k, (xa, xb) in keys.items():
        if not xa or not xb:
            # sources that only one side reads
            res.append(False if clear(a, b) and calls(a) <= calls(b) else None)
            continue
        aa = {c for _, g, _ in xa for c, v in g if isinstance(v, bool)}
        ab = {c for _, g, _ in xb for c, v in g if isinstance(v, bool)}
        # conditions which only one side has: if they are bounds checks they hold anyway
        base_ = {}
        for c in aa ^ ab:
            if bound_atom(c) and not any(bound_atom(d) for d in ab):
                ws = {v for _, g, _ in xa + xb for cc, v in g if cc is c}
                if len(ws) == 1:
                    base_[c] = ws.pop()
        ds = assignments((aa | ab) - set(base_))
        if ds is None:
            res.append(None)
            continue
        for d in ds:
            d.update(base_)
            ea = [e for e, g, _ in xa if holds_in(g, d)]
            eb = [e for e, g, _ in xb if holds_in(g, d)]
            if any(holds_in(g, d) is None for _, g, _ in xa + xb):
                res.append(None)
                continue
            f2 = dict(facts)
            f2.update(d)
            res.append(setmatch(ea, eb, f2, depth, [c for c in (aa ^ ab)]))
    if False in res:
        # one understood case that differs suffices
        return False
    return None if None in res else True


def setmatch(ea, eb, facts, depth, extra):
    left = list(eb)
    hazy = False
    for x in ea:
        rs = [match(x, y, facts, depth + 1) for y in left]
        if True in rs:
            del left[rs.index(True)]
        elif None in rs:
            hazy = True
        else:
            # an element the other side does not have (possibly there already)
            if any(match(x, y, facts, depth + 1) is True for y in eb):
                continue
            return False if clear(x, *extra) else None
    if hazy:
        return None
    if left:
        left = [y for y in left if not any(match(x, y, facts, depth + 1) is True for x in ea)]
        if left:
            return False if all(clear(k) for k in extra) else None
    return True


def match(a, b, facts=None, depth=0):
    """a (found) against b (wanted)"""
    facts = facts or {}
    if a is b:
        return True
    if a.op == "wrong":
        return False
    if depth > 12:
        return None
    a, b = restrict(a, facts), restrict(b, facts)
    if a is b:
        return True
    a, b = [mk("getopt", contains(*x.a), mapval(*x.a)) if x.op == "get" and len(x.a) == 2 else x for x in (a, b)]
    for x, y in ((a, b), (b, a)):
        if x.op == "getopt" and y.op == "agg":
            s = ai.State()
            s.facts = dict(facts)
            r = s.known(x.a[0])
            if r is not None:
                x2 = some(x.a[1]) if r else NONE
                return match(x2, y, facts, depth + 1) if x is a else match(y, x2, facts, depth + 1)
    if a.op == "coll" or b.op == "coll":
        ca = a if a.op == "coll" else V(each(a)) if a.op not in ("int", "bool", "str", "float", "agg") else None
        cb = b if b.op == "coll" else V(each(b)) if b.op not in ("int", "bool", "str", "float", "agg") else None
        if ca is None or cb is None:
            return False if clear(a, b) else None
        if (ca.a[0] in ("hmap", "map")) != (cb.a[0] in ("hmap", "map")) and (a.op == b.op):
            return None
        return collmatch(ca, cb, facts, depth)
    if a.op == "agg" and b.op == "agg":
        if a.a[1] and b.a[1] and a.a[1] != b.a[1]:
            return False
        fa, fb = fields(a), fields(b)
        names = set(fa) | set(fb)
        if a.a[3] is not b.a[3] and (a.a[3] is None or b.a[3] is None) and set(fa) != set(fb):
            pass
        rs = [match(fld(a, n) if n not in fa else fa[n], fld(b, n) if n not in fb else fb[n], facts, depth + 1) for n in sorted(names)]
        if a.a[3] is not None and b.a[3] is not None and a.a[3] is not b.a[3]:
            rs.append(match(a.a[3], b.a[3], facts, depth + 1))
        return False if False in rs else (None if None in rs else True)
    if a.op == "agg" or b.op == "agg":
        g = a if a.op == "agg" else b
        if g.a[2] and g.a[3] is None or g.a[3] is not None:
            fs = fields(g)
            rs = [match(fs[n] if g is a else fld(a, n), fld(b, n) if g is a else fs[n], facts, depth + 1) for n in sorted(fs)]
            if g.a[3] is not None:
                rs.append(match(g.a[3], b, facts, depth + 1) if g is a else match(a, g.a[3], facts, depth + 1))
            return False if False in rs and clear(a, b) else (None if None in rs or False in rs else True)
        return False if clear(a, b) and calls(a) <= calls(b) else None
    if a.op == b.op and a.op in ("idx", "elem", "fld", "pay", "pos", "contains", "getopt", "eq", "any", "find", "not", "len") and len(a.a) == len(b.a):
        if a.op in ("any", "find"):
            x, y = [coll("bag", sorted(t.a[0], key=lambda p: p.n) if t.op == "any" else [t.a[0]]) for t in (a, b)]
            return collmatch(x, y, facts, depth + 1)
        if a.op == "elem" and a.a[0] is not b.a[0]:
            r = match(a.a[0], b.a[0], facts, depth + 1)
            return r if r is not True or a.a[1] == b.a[1] else True
        rs = []
        for x, y in zip(a.a, b.a):
            if isinstance(x, T) and isinstance(y, T):
                rs.append(match(x, y, facts, depth + 1))
            else:
                rs.append(x == y)
        if a.op == "eq" and False in rs:
            r2 = [match(a.a[0], b.a[1], facts, depth + 1), match(a.a[1], b.a[0], facts, depth + 1)]
            if r2 == [True, True]:
                return True
            if None in r2:
                return None
        return False if False in rs else (None if None in rs else True)
    if a.op == "call" and b.op == "call" and a.a[0] == b.a[0] and len(a.a[1]) == len(b.a[1]):
        rs = [match(x, y, facts, depth + 1) if isinstance(x, T) and isinstance(y, T) else x == y for x, y in zip(a.a[1], b.a[1])]
        return False if False in rs else (None if None in rs else True)
    if not clear(a, b):
        return None
    new = calls(a) - calls(b)
    if new and not all(n.split("::")[-1] in ALTER for n in new):
        return None
    return False


def compat(f, g):
    s = ai.State()
    s.facts = dict(f)
    for k, w in g.items():
        r = s.known(k)
        if r is not None and r != w:
            return False
    return True


def spec(ctx, rule, f, want, hooks=(), args=None, key=None, get=None, inst=None, unclear=None):
    """every outcome of f has the value wanted under its conditions.
    want: list of (facts, value) over the argument terms"""
    if f is None:
        ctx.hold(rule, inst or "function not found", None)
        return None
    I_, outs, av = ctx.run(f, args=args, hooks=hooks)
    if callable(want):
        want = want(*av)
    res = []
    for st, v in outs:
        if get:
            v = get(st, v, av)
        for wf, wv in want:
            if not compat(st.facts, wf):
                continue
            facts = dict(st.facts)
            facts.update(wf)
            r = match(v, wv, facts)
            if r is False and (st.lossy or not all(clear(k) for k in st.facts) or I_.lvdefs and not clear(v)):
                r = None
            if r is False and unclear and unclear(v, av):
                r = None
            if r is False and any(x.op == "find" for x in subterms(v)) and not any(x.op == "find" for x in subterms(wv)):
                r = None  # a search in place of a lookup
            res.append(r)
            ctx.hold(rule, inst or f.short, r, where(f), "yields %s, expected %s" % (show(v, 9)[:300], show(wv, 9)[:300]), key=(key or rule) + "/" + (inst or f.short))
    if not outs:
        ctx.hold(rule, inst or f.short, None)
    return res
