"""Reduction to minimal sets drops nothing but repetitions and sets that contain a kept set."""
from p29 import *

DED = ("Vec::dedup", "Itertools::unique", "Itertools::dedup")


class Seen(Opaque):
    """notes where repetitions are removed"""
    def __init__(self):
        super().__init__()
        self.good, self.other, self.unsorted, self.rev = [], False, False, []

    def call(self, I_, st, fr, span, name, fn, args):
        if name in DED and args:
            v = I_.read(st, args[0])
            if name == "Itertools::unique" or v.op == "coll" and "sorted" in v.a[3]:
                self.good.append(v)
            elif v.op == "coll" and not v.a[3] or v.op == "sym":
                self.unsorted = True
            else:
                self.other = True
        elif name in ("Iterator::rev", "Vec::reverse", "slice::reverse") and args:
            self.rev.append(I_.read(st, args[0]))
        elif name and ("dedup" in name or "unique" in name or name.startswith(("BTreeSet", "HashSet", "BTreeMap", "HashMap")) or name.endswith(("::contains", "::group_by", "::is_superset"))):
            self.other = True
        return None


def notsub(x, y):
    """atom: some element of x is not in y"""
    return any_([part(TRUE, frozenset({(contains(y, elem(x)), False)}), ((x, 0),))])


def subsetof(k, w, x):
    """(kept list, direction) if the literal says that no set of a list is in x (or the wrong way round)"""
    if k.op == "not":
        return subsetof(k.a[0], not w, x)
    if k.op != "any" or w is not False or len(k.a[0]) != 1:
        return None
    p = next(iter(k.a[0]))
    if len(p.a[2]) != 1 or p.a[0] is not TRUE:
        return None
    y = elem(*p.a[2][0])
    lits = set(p.a[1])
    L = p.a[2][0][0]
    for d, (a, b) in (("right", (y, x)), ("wrong", (x, y))):
        for k2, w2 in lits:
            if k2.op == "any" and len(k2.a[0]) == 1 and w2 is False:
                q = next(iter(k2.a[0]))
                if len(q.a[2]) == 1 and q.a[2][0][0] is a:
                    z = elem(*q.a[2][0])
                    if q.a[1] == frozenset({(contains(b, z), False)}):
                        if len(lits) == 1:
                            return L, d
        a, b = sorted((x, y), key=lambda t: t is not y)
        pure = frozenset(lits)
        for d in (x, y):
            o = y if d is x else x
            for w1 in (True, False):
                for w2 in (True, False):
                    if (w1, w2) != (False, False) or d is x:
                        t = any_([part(TRUE, frozenset({(contains(o, elem(d)), w1)}), ((d, 0),))])
                        if pure == {(t, w2)}:
                            return L, "wrong"
    more = [k2 for k2, _ in lits if k2.op == "within"]
    core = [(k2, w2) for k2, w2 in lits if k2.op != "within"]
    if more and core == [(notsub(y, x), False)]:
        return L, "wrong"
    if (notsub(y, x), False) in lits:
        rest = lits - {(notsub(y, x), False)}
        if all(k2.op in ("le0", "eq0") and set(dict(lin(k2)[1])) <= {length(x), length(y)} for k2, _ in rest):
            # comparisons of the sizes: a kept set that is part of the other one is smaller
            def holds(i, j):
                for k2, w2 in rest:
                    c, dd = lin(k2)
                    z = c + sum(n * (i if t is length(y) else j) for t, n in dict(dd).items())
                    if ((z == 0) if k2.op == "eq0" else (z <= 0)) is not w2:
                        return False
                return True
            return L, "right" if all(holds(i, j) for j in range(1, 40) for i in range(1, j)) else "wrong"
    return L, None


def some_member(k, w, x):
    """the wrong way: a search for a kept set and a node in it that is, or is not, in x"""
    if k.op == "any" and len(k.a[0]) == 1:
        p = next(iter(k.a[0]))
        b = p.a[2]
        if len(b) == 2 and b[1][0] is elem(*b[0]) and len(p.a[1]) == 1:
            (c, _), = p.a[1]
            if c is contains(x, elem(*b[1])):
                return b[0][0], "wrong"
    return None


def short_enough(st, t):
    for m in (2, 3):
        for k, w in st.facts.items():
            if k.op not in ("eq0", "le0") or set(lin(k)[1]) != {length(t)}:
                continue
            c, d = lin(k)
            x = c + d[length(t)] * m
            if ((x == 0) if k.op == "eq0" else (x <= 0)) is not w:
                break
        else:
            return False
    return True


def rounds(I_, L):
    """[(value, literals, binders)] added to a list per round, its own elements left out; None if not understood"""
    return additions(I_, L)


def reduction(ctx, f, sets, given=False):
    """sets: the list to be reduced"""
    h = Seen()
    I_, outs, a = ctx.run(f, hooks=[h])
    src = a[0]
    name = f.short
    r = "a set is dropped only if a kept set is part of it"
    d = "repetitions are dropped"
    for st, v in outs:
        facts = ", ".join(("" if w else "not ") + show(k, 6) for k, w in st.facts.items())
        plain_ = not st.lossy and all(clear(k) for k in st.facts)
        if v is src or v.op == "coll" and not any(x.op == "lv" for x in subterms(v)):
            if v is not src and not v.a[1]:
                ok = True if st.known(eq0(length(src))) is True else (False if plain_ and not any(mentions(k, src) for k in st.facts) else None)
                ctx.hold(r, name + " (nothing)", ok, where(f), "nothing is left under " + facts, key=name + "/empty")
            else:
                whole = match(v, seq(src), st.facts)
                # a list of at most one set is its own reduction; duplicates of one set are handled as two
                ok = True if short_enough(st, src) else (False if plain_ and whole is True and (not h.other or True) and all(k.op in ("eq0", "le0") for k in st.facts) else None)
                ctx.hold(r, name + " (as given)", ok, where(f), "left as it is under " + facts, key=name + "/as given")
            continue
        if v.op == "coll":
            summed(ctx, f, st, v, r, src)
            continue
        ps = additions(I_, v) if v.op == "lv" else None
        if ps is None:
            ctx.hold(r, name, None, where(f), show(v, 6))
            continue
        main = []
        for e, g, b in ps:
            # lists that are empty at the end of every round
            if any(empty_list(I_, s) for s, _ in b):
                continue
            main.append((e, g, b))
        if not main:
            ctx.hold(r, name, None, where(f), show(v, 6))
            continue
        buckets = set()
        for e, g, b in main:
            t = "%s under %s" % (show(e, 5), ", ".join(("" if w else "not ") + show(k, 7) for k, w in g))
            ctx.hold("sets are kept as they are", name, True if e.op == "elem" and b and e is elem(*b[-1]) else None, where(f), t, key=name + "/kept as is")
            for s, _ in b:
                for x in subterms(s):
                    if x.op == "lv" and x is not v:
                        buckets.add(x)
            tests = [(k, w, subsetof(k, w, e) or some_member(k, w, e)) for k, w in g]
            found = [x for x in tests if x[2]]
            rest = [x for x in tests if not x[2]]
            if not found:
                ok = False if clear(*[k for k, _, _ in rest]) and not st.lossy and not rest else None
                ctx.hold("a set is kept only if no kept set is part of it", name, ok, where(f), t, key=name + "/kept")
            for k, w, (L, way) in found:
                kept = L is v or L.op == "lv" and same_list(I_, L, v)
                cur = L.op == "lv" and not kept and empty_list(I_, L)
                ok = True if way == "right" and kept else (False if way == "wrong" and kept or way == "right" and cur else None)
                ctx.hold("a set is kept only if no kept set is part of it", name, ok, where(f), t, key=name + "/kept")
            if rest:
                hide = {x: mk("sym", "#list%d" % x.n) for k, _, _ in rest for x in subterms(k) if x.op == "lv" and (x in buckets or x is v)}
                ok = False if clear(*[subst(k, hide) for k, _, _ in rest]) and not st.lossy and found else None
                ctx.hold(r, name, ok, where(f), "further condition: " + t, key=name + "/dropped")
            else:
                ctx.hold(r, name, True)
        if given:
            continue
        # the buckets hold every set, by number of nodes
        back = [x for t in h.rev for x in subterms(t) if x in buckets]
        ctx.hold("sets are looked at in order of size", name + " (direction)", False if back else True, where(f), "from the largest to the smallest", key=name + "/direction")
        for B_ in buckets:
            bd = I_.lvdefs.get(B_)
            ok = None
            if bd and len(bd["upd"]) == 1:
                (u, ws), = bd["upd"].items()
                if u.op == "coll" and len(u.a[2]) == 1 and len(ws) == 1:
                    k, w, g, _ = u.a[2][0]
                    gs, b = ws[0]
                    if tuple(b) == ((src, 0),):
                        x = elem(src)
                        new = [p for p in w.a[1] if p.a[0] is x] if w.op == "coll" else []
                        old = [p for p in w.a[1] if p not in new] if w.op == "coll" else []
                        okk = k is length(x)
                        from p24 import number
                        at = [number(subst(k, {length(x): I(i)})) for i in sorted({*range(1, 33), *(y.a[0] + j for y in subterms(k) if y.op == "int" and 0 < y.a[0] < 10**9 for j in (0, 1, 2))})]
                        if not okk and None not in at:
                            # sets of different sizes in one bucket are not compared with one another
                            okk = True if all(a < b for a, b in zip(at, at[1:])) else okk
                            if any(a >= b for a, b in zip(at, at[1:])):
                                ctx.hold("sets are looked at in order of size", name, False, where(f), "sets of different sizes share a place: %s" % show(k, 6), key=name + "/bucket")
                                continue
                        ctx.hold("sets are looked at in order of size", name, True if okk else (False if clear(k) and k.op in ("int", "lin", "len") else None), where(f), show(k, 6), key=name + "/bucket")
                        cond = [kk for kk, _ in list(gs) + list(g) + [y for p in new for y in p.a[1]]]
                        ok = True if len(new) == 1 and not cond and old else (False if cond and all(clear(c) for c in cond) and len(new) <= 1 else None)
            ctx.hold("every set is looked at", name, ok, where(f), key=name + "/all")
    k = bykey(*[b[0] for L in I_.lvdefs.values() for gs in L["upd"].values() for _, bs in gs for b in bs])
    if k:
        ctx.hold("only repetitions are dropped", name, False, where(f), "sets of the same %s count as repetitions" % k, key=name + "/by key")
    elif not given:
        ctx.hold(d, name, True if h.good else (None if h.other else False), where(f), "repetitions are removed from a list that is not sorted" if h.unsorted else "repetitions are not removed", key=name + "/repetitions")


def summed(ctx, f, st, v, r, src):
    """the result without its order"""
    for p in v.a[1]:
        e, g, b = p.a
        if e.op != "elem" or not b or e is not elem(*b[-1]):
            continue
        own = b[-1][0]
        for k, w in g:
            if k.op == "within" and w is True and any(x.op == "lv" for x in subterms(k.a[1])) and not st.lossy:
                ctx.hold("every set is looked at", f.short, False, where(f), show(k, 5), key=f.short + "/all")
            if k.op != "any" and mentions(k, e) and any(x.op == "any" for x, _ in g) and not st.lossy and (k.op in ("eq0", "le0") and set(lin(k)[1]) == {length(e)}):
                ctx.hold(r, f.short, False, where(f), "further condition: %s%s" % ("" if w else "not ", show(k, 5)), key=f.short + "/dropped")
            if k.op == "any" and w is False and len(k.a[0]) == 1:
                q = next(iter(k.a[0]))
                if len(q.a[2]) == 1 and q.a[2][0][0] is own and q.a[1] == frozenset({(notsub(elem(*q.a[2][0]), e), False)}) and not st.lossy:
                    ctx.hold("a set is kept only if no kept set is part of it", f.short, False, where(f), "compared with sets of the same group only", key=f.short + "/kept")
    ctx.hold(r, f.short, None, where(f), show(v, 6))


def empty_list(I_, L):
    """a list that is empty whenever a round begins and ends"""
    if L.op != "lv":
        return False
    d = I_.lvdefs.get(L)
    return bool(d) and d["init"].op == "coll" and not d["init"].a[1] and all(u.op == "coll" and not u.a[1] and not u.a[2] for u in d["upd"])


def same_list(I_, L, v):
    """the list as seen in an inner loop"""
    d = I_.lvdefs.get(L)
    return bool(d) and d["init"] is v


def bykey(*ts):
    """repetitions were judged by less than the sets themselves"""
    for t in ts:
        for x in subterms(t):
            if x.op == "call" and x.a[0].endswith("dedup_by_key") and len(x.a[1]) > 1 and x.a[1][1].op == "lam" and x.a[1][1].a[0].op in ("len", "first", "int"):
                return show(x.a[1][1], 6)
    return None


def filtering(ctx):
    f = ctx.fn("remove_non_minimal_x")
    r = "the test for minimality alone decides which sets stay"
    if ctx.anchor("remove_non_minimal_x", f):
        h = Seen()
        I_, outs, a = ctx.run(f, hooks=[h])
        src, test, fb = a
        want = V(each(src, None, lambda x: frozenset({(call("dyncall", test, x, fb), True)})))
        for st, v in outs:
            if v.op == "lv":
                ps = additions(I_, v)
                v = coll("vec", [part(*p) for p in ps]) if ps else v
            ok = match(v, want, st.facts) if v.op == "coll" else None
            if v.op == "coll" and not v.a[1] and st.known(eq0(length(src))) is True:
                ok = True
            ctx.hold(r, f.short, None if ok is False and (st.lossy or h.other) else ok, where(f), show(v, 7), key="filter")
        ctx.hold("repetitions are dropped", f.short, True if h.good else (None if h.other else False), where(f), "repetitions are removed from a list that is not sorted" if h.unsorted else "repetitions are not removed", key="filter/repetitions")
    f = ctx.fn("is_set_of_minimal_node_sets")
    if ctx.anchor("is_set_of_minimal_node_sets", f):
        I_, outs, a = ctx.run(f)
        S_ = a[0]
        r = "sets are minimal if none is part of another one"
        for st, v in outs:
            # the same answer for all lists
            ok = False if v.op == "bool" and not st.facts and not st.lossy and len(outs) == 1 else None
            w, n = v, True
            while w.op == "not":
                w, n = w.a[0], not n
            if w.op == "any" and not n and len(w.a[0]) == 1:
                p = next(iter(w.a[0]))
                b = p.a[2]
                if len(b) == 2 and all(s is S_ for s, _ in b) and not st.lossy:
                    x, y = elem(*b[0]), elem(*b[1])
                    sub = diff = False
                    other = []
                    for k, kw in p.a[1]:
                        if k.op == "any" and kw is False and k in (notsub(x, y), notsub(y, x)):
                            sub = True
                        elif k.op == "eq0" and kw is False and {z for z in lin_parts(k.a[0])[1]} == {mk("pos", S_, x), mk("pos", S_, y)}:
                            diff = True
                        else:
                            other.append(k)
                    ok = True if sub and diff and not other else (False if sub and all(clear(k) for k in other) and not any(k.op in ("le0", "eq0") and any(z.op == "pos" for z in subterms(k)) for k in other) else None)
                    if ok is None and sub and not diff and len(other) == 1 and other[0].op == "le0" and {z for z in lin_parts(other[0].a[0])[1]} == {mk("pos", S_, x), mk("pos", S_, y)}:
                        ok = False      # one of two is never compared with the other
                    if ok is None and not sub and all(k.op in ("eq", "eq0") for k in other) and all(clear(k) for k in other):
                        ok = False
            ctx.hold(r, f.short, ok, where(f), show(v, 9), key="recognize")
    f = ctx.fn("find_minimal_sets")
    if ctx.anchor("find_minimal_sets", f) and ctx.fn("find_sets"):
        I_, outs, a = ctx.run(f, hooks=[Opaque("find_sets", "is_set_of_minimal_node_sets")])
        src = call("find_sets", *a)
        for st, v in outs:
            ok = None
            if v is src:
                ok = True
            elif v.op == "coll":
                ok = match(v, seq(src), st.facts)
            elif bykey(v):
                ok = False
            ctx.hold("all sets found are handed out", f.short, None if ok is False and st.lossy else ok, where(f), show(v, 6), key="handed out")


def check(ctx):
    f = ctx.fn("remove_non_minimal_node_sets")
    if ctx.anchor("remove_non_minimal_node_sets", f):
        reduction(ctx, f, None)
    filtering(ctx)
