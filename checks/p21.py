"""Quorum intersection verdict, splitting sets and the alternative check, as terms over the search
results, in every reachable state of the analysis object.  Each answer is evaluated under the cases
"no quorum", "quorums, not all intersecting" and "quorums, all intersecting"."""
from labels import *
from p02 import norm, cond, clear

MQ, FNQ, AI, MSS = "find_minimal_quorums", "find_nonintersecting_quorums", "all_intersect", "find_minimal_splitting_sets"
SAT, REL = "Fbas::satisfiable_nodes", "Fbas::relevant_nodes"
# sets (or lists) that are empty exactly if there is no quorum
QUORATE = (MQ, SAT, REL)


def atoms(ts):
    return {x for t in ts for x in subterms(t)}


def isq(t, fb):
    if t.op == "call" and t.a[0] == SAT + " among":
        return t.a[1][0] is fb      # a reduced FBAS has satisfiable nodes exactly if the original has some
    return t.op == "call" and t.a[0] in QUORATE and t.a[1] == (fb,)


def under_case(ts, quorum, inter, fb):
    """terms with the case put in"""
    ai_, mp = [], {}
    for x in atoms(ts):
        if x.op == "len" and isq(x.a[0], fb) and quorum is False:
            mp[x] = I(0)
        if x.op == "eq0" and x.a[0].op == "len" and isq(x.a[0].a[0], fb):
            mp[x] = B(not quorum)
        if x.op == "call" and x.a[0] == AI and x.a[1] and isq(x.a[1][0], fb) and (inter is not None or not quorum):
            mp[x] = B(inter if quorum else True)
        if x.op == "any" and quorum is False and all(p.a[2] and any(isq(b[0], fb) for b in p.a[2]) for p in x.a[0]):
            mp[x] = FALSE
    return [subst(t, mp) if mp else t for t in ts]


def counted(v):
    """the number of nodes of a shrunken FBAS is the number of nodes it was shrunken to"""
    mp = {}
    for x in subterms(v):
        if x.op == "len" and x.a[0].op == "fld" and x.a[0].a[1] == "nodes":
            y = x.a[0].a[0]
            if y.op == "fld" and y.a[1] == "0" and y.a[0].op == "call" and y.a[0].a[0] == "Fbas::shrunken":
                mp[x] = length(y.a[0].a[1][1])
    return subst(v, mp) if mp else v


def all_nodes(t, fb):
    """a condition on nothing but the number of nodes of the FBAS"""
    while t.op == "not":
        t = t.a[0]
    if t.op not in ("le0", "eq0"):
        return False
    d = dict(lin_parts(t.a[0])[1])
    return len(d) == 1 and all(x.op == "len" and x.a[0].op == "fld" and x.a[0].a == (fb, "nodes") for x in d)


def outcomes(outs, fb, quorum, inter):
    """(residual facts, value) of the outcomes compatible with the case"""
    for st, v in outs:
        c = sorted(cond(st), key=lambda x: x[0].n)
        ks = under_case([k for k, _ in c] + [norm(counted(v), st)], quorum, inter, fb)
        v = ks.pop()
        s = ai.State()
        res = []
        ok = True
        for k, (_, w) in zip(ks, c):
            if k.op == "bool":
                if k.a[0] != w:
                    ok = False
                    break
                continue
            if not s.assume(k, w):
                ok = False
                break
            res.append((k, w))
        if ok and feasible([(k, w) for k, w in res], fb, quorum, inter):
            x = s.known(v) if v.op not in ("bool", "agg", "call", "coll", "tup") else None
            if x is None and numeric(v, fb):
                both = [w for w in (True, False) if feasible(res + [(v, w)], fb, quorum, inter)]
                x = both[0] if len(both) == 1 else None
            yield res, (B(x) if x is not None else v), st


def feasible(res, fb, quorum, inter):
    """whether some number of nodes / quorums satisfies the numeric conditions"""
    per = {}
    for k, w in res:
        if numeric(k, fb):
            while k.op == "not":
                k, w = k.a[0], not w
            c, d = lin_parts(k.a[0])
            (x, m), = dict(d).items()
            per.setdefault(x, []).append((k.op, c, m, w))
    for x, l in per.items():
        # two quorums at least if they don't all intersect
        lo = 2 if inter is False and x.a[0].a[0] == MQ else 1 if quorum else 0
        m = 2 + lo + max(abs(c) for _, c, _, _ in l)
        if m < 5000 and not any(all(((c + k * n <= 0) if op == "le0" else (c + k * n == 0)) == w for op, c, k, w in l) for n in range(lo, m)):
            return False
    return True


def free(res, fb):
    """the remaining conditions leave the case open: they say nothing about the minimal quorums except
    how many there are (more or fewer than some number)"""
    return all(clear(k) and (numeric(k, fb) or not any(isq(x, fb) or (x.op == "call" and x.a[0] == AI) for x in subterms(k))) for k, _ in res)


def numeric(k, fb):
    while k.op == "not":
        k = k.a[0]
    if k.op not in ("le0", "eq0"):
        return False
    c, d = lin_parts(k.a[0])
    return len(dict(d)) == 1 and all(x.op == "len" and isq(x.a[0], fb) for x in dict(d))


def check(ctx):
    ex = Explorer(ctx)
    if not ex.explore():
        return
    fb = ex.fbas
    byq = {}
    for q, hist, st, v in ex.results:
        if st is not None:
            byq.setdefault(q, []).append((hist, st, v))
    CASES = ((False, None, "without quorums"), (True, False, "with disjoint quorums"), (True, True, "with pairwise intersecting quorums"))
    seen = {}
    for name in ("has_quorum_intersection", "minimal_splitting_sets"):
        f = ctx.fn("Analysis::" + name)
        if not f:
            continue
        hists = {}
        for h, st, v in byq.get(name, []):
            hists.setdefault(h, []).append((st, v))
        for h, outs in hists.items():
            hs = " after ".join([name] + (list(reversed(h)) or ["new"]))
            for quorum, inter, cname in CASES:
                good = bool(quorum and inter)
                bad = []
                n = und = 0
                for res, v, st in outcomes(outs, fb, quorum, inter):
                    n += 1
                    if name == "has_quorum_intersection":
                        r = v.a[0] is good if v.op == "bool" else None
                        if r is None and v.op == "call" and v.a[0] == AI and clear(v) and inter is False and part_of_list(v.a[1][0]):
                            r = False
                        if r is None and numeric(v, fb):
                            r = False
                    else:
                        r = splits(v, fb, good)
                    if r is False and (st.lossy or not free(res, fb)):
                        r = None
                    if r is None:
                        und += 1
                    if r is False:
                        bad.append((res, v))
                ctx.hold("verdict" if name == "has_quorum_intersection" else "splitting sets fit the verdict", "%s, %s" % (hs, cname),
                         False if bad else None if und or not n else True, where(f),
                         "%s %s answers %s" % (name, cname, show(bad[0][1], 6)) if bad else "", key="%s/%s" % (name, cname))
    name = "has_quorum_intersection_via_alternative_check"
    f = ctx.fn("Analysis::" + name)
    found = call(FNQ, fb)
    hists = {}
    for h, st, v in byq.get(name, []):
        hists.setdefault(h, []).append((st, v))
    for h, outs in hists.items():
        if not f:
            break
        hs = " after ".join([name] + (list(reversed(h)) or ["new"]))
        for quorum, cname in ((False, "without quorums"), (True, "with quorums")):
            n = 0
            for res, v, st in outcomes(outs, fb, quorum, None):
                n += 1
                some_ = [w for k, w in res if k.op == "is" and k.a[0] is found and k.a[1] == "Some"]
                if v.op != "agg" or len(fields(v)) != 2 or not some_:
                    okk = None
                    ctx.hold("alternative check", "%s, %s" % (hs, cname), okk)
                    continue
                b, o = fields(v)["0"], fields(v)["1"]
                s = ai.State()
                for k, w in res:
                    s.assume(k, w)
                bv = b.a[0] if b.op == "bool" else s.known(b)
                ov = True if isagg(o) and o.a[1] == "Some" else False if isagg(o) and o.a[1] == "None" else None
                if o is found or (o.op == "map" and o.a[0] is found):
                    ov = some_[0]
                fr = not st.lossy and all(clear(k) for k, _ in res)
                if some_[0]:
                    g = True if bv is False else (False if bv is True or (b.a[0] if b.op == "not" else b).op in ("le0", "eq0") and clear(b) else None)
                    ctx.hold("alternative check denies intersection when disjoint quorums were found", hs, g if g is not False or fr else None, where(f), "answers %s" % show(b, 5), key="alt/some/verdict")
                    p = True if ov and any(x is found or (x.op in ("fld", "pay") and x.a[0] is found) for x in subterms(o)) else (False if ov is False or ov and clear(o) else None)
                    ctx.hold("the disjoint quorums found are handed out", hs, p if p is not False or fr else None, where(f), "hands out %s" % show(o, 5), key="alt/some/quorums")
                else:
                    g = (False if numeric(b, fb) and quorum or all_nodes(b, fb) and not quorum else None) if bv is None else bv is quorum
                    ctx.hold("alternative check confirms intersection only if there is a quorum", "%s, %s" % (hs, cname), g if g is not False or (fr and free([(k, w) for k, w in res], fb)) else None,
                             where(f), "answers %s %s" % (show(b, 5), cname), key="alt/none/" + cname)
                    ctx.hold("no quorums are handed out when none were found disjoint", hs, True if ov is False else (False if ov and fr else None), where(f), show(o, 5), key="alt/none/quorums")
    # the search for disjoint quorums answers with at least two sets or with nothing
    f = ctx.fn(FNQ)
    if ctx.anchor(FNQ, f):
        class H(ai.Hook):
            def opaque(self, I_, fn):
                return fn.short == "find_sets" and fn.crate == "fbas_analyzer"
        I_, outs, a = ctx.run(f, hooks=[H()])
        for st, v in outs:
            okk = None
            if isagg(v) and v.a[1] in ("Some", "None"):
                ss = [x for x in subterms(tup(v, *st.facts)) if x.op == "call" and x.a[0] == "find_sets"]
                if len(ss) and not st.lossy:
                    few = ai.State()
                    few.facts = dict(st.facts)
                    n = length(ss[0])
                    if v.a[1] == "Some":
                        okk = not few.assume(le(n, I(1)), True) and fields(v)["0"] is ss[0]
                        if fields(v)["0"] is not ss[0] and not (isagg(fields(v)["0"]) or clear(v)):
                            okk = None
                    else:
                        okk = not few.assume(le(I(2), n), True)
            ctx.hold("disjoint quorums are reported exactly if two sets were found", "outcome %s" % show(v, 2), okk, where(f), show(v, 5), key="fnq/" + (v.a[1] or "?" if isagg(v) else "?"))
    ctx.floor("abstract states", ex.states, 8)


def part_of_list(t):
    """some of the minimal quorums only"""
    return t.op in ("slice", "rest") or t.op == "coll" and any(p.a[1] for p in t.a[1])


def splits(v, fb, good):
    """v is the list of minimal splitting sets for an FBAS with / without quorum intersection"""
    if v.op == "call" and v.a[0] == MSS:
        if not good:
            return False
        q = v.a[1][1] if len(v.a[1]) == 2 else None
        if v.a[1][0] is fb and q is not None and q.op == "call" and q.a[0] == MQ and q.a[1] == (fb,):
            return True
        return False if clear(v) else None
    if v.op == "coll":
        p = v.a[1]
        single = len(p) == 1 and not p[0].a[1] and not p[0].a[2]
        if single and p[0].a[0].op == "coll" and not p[0].a[0].a[1]:
            return not good
        return False if clear(v) else None
    return None
