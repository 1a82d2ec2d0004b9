"""How many members count.  One level of each operation on quorum sets (value flow on MIR, recursive
calls opaque) is brought into a normal form: the numbers that are compared or combined are linear
expressions over the threshold, the number of validators and the number of (satisfiable) inner quorum
sets, and are compared with the ones the operations are defined by."""
from qsets import *


def over(o, b):
    return "v" if o.isfield(b, "validators") else "i" if o.isfield(b, "inner_quorum_sets") else None


def kindof(o, x):
    """what a counted collection consists of: 'v', 'i', 'isat', 'split', ..."""
    w = over(o, x)
    if w:
        return w
    if x.op != "coll" or x.a[2] or len(x.a[1]) != 1:
        return None
    e, g, b = x.a[1][0].a
    if len(b) != 1:
        return None
    w = over(o, b[0][0])
    el = elem(*b[0])
    if w is None:
        return None
    lits = [strip(k, v) for k, v in g]
    out = []
    for k, v in lits:
        if satlit(k, v, el):
            out.append("sat")
        elif k.op == "any" and v and o.selfcalls(k):
            out.append("split")
        elif k.op == "any" and not v and o.selfcalls(k):
            out.append("solid")
        elif k.op == "contains" and v and k.a[1] is el:
            out.append("in")
        elif k.op == "contains" and k.a[1] is el:
            out.append("notin")
        elif k.op == "call" and k.a[0] == o.name:
            out.append("rec" if v else "norec")
        elif k.op == "within" and k.a[0] == "take":
            out.append(("take", k.a[2]))
        else:
            return None
    return (w,) + tuple(sorted(out, key=str)) if out else w


def lin(o, t):
    """{kind: coefficient}, constant; None if something else occurs"""
    thr = mk("fld", o.q, "threshold")
    t = subst(t, {mk("sat", "mul", thr, I(2)): mul(thr, I(2)), mk("sat", "mul", I(2), thr): mul(thr, I(2))})
    c, d = lin_parts(t)
    r = {}
    for x, n in d.items():
        if x is mk("fld", o.q, "threshold"):
            k = "t"
        elif x.op == "len":
            k = kindof(o, x.a[0])
            if k is None:
                return None
        else:
            return None
        r[k] = r.get(k, 0) + n
    return {k: n for k, n in r.items() if n}, c


def unsat(o, t):
    """nested saturating subtractions as (minuend, subtrahend)"""
    if t.op == "sat" and t.a[0] == "sub":
        m, s = unsat(o, t.a[1])
        return m, add(s, t.a[2])
    return t, I(0)


def twice(o, m):
    thr = mk("fld", o.q, "threshold")
    if m.op == "sat" and m.a[0] == "mul" and set(m.a[1:]) == {thr, I(2)}:
        return True
    if m is mul(thr, I(2)):
        return True
    return False if clear(m) and lin(o, m) is not None and not any(x.op == "sat" for x in subterms(m)) else None


def say(d):
    names = {"t": "threshold", "v": "validators", "i": "inner quorum sets", ("i", "sat"): "satisfiable inner quorum sets", ("i", "sat", "split"): "inner quorum sets split already"}
    m, c = d
    return " ".join("%+d*%s" % (n, names.get(k, str(k))) for k, n in m.items()) + (" %+d" % c if c else "")


def check(ctx):
    for name in (SL, SI):
        f, g = resolve(ctx, name)
        if f is None:
            if name == SL:
                ctx.anchor(name, False)
            continue
        if g is None:
            ctx.hold("counting", name, None)
            continue
        counting(ctx, name, Op(ctx, g))
    for name in (QS, BS, PS):
        f, g = resolve(ctx, name)
        if g is None:
            ctx.hold("combining", name, None)
            continue
        combining(ctx, name, Op(ctx, g))


def intersection_threshold(o, t, facts):
    """2t - n, but not below 0"""
    m, s = unsat(o, t)
    if s is not I(0):
        tw = twice(o, m)
        l = lin(o, s)
        if l is None or tw is None:
            return None
        return tw and l == ({"v": 1, "i": 1}, 0)
    l = lin(o, t)
    if l is None:
        return None
    return l == ({"t": 2, "v": -1, "i": -1}, 0)


def early(o, lits, answer):
    """an answer given because of the sizes alone: True if it is the only possible one under these facts"""
    thr = mk("fld", o.q, "threshold")
    names = {thr: "t"}
    facts = []
    for k, w in lits.items():
        k, w = strip(k, w)
        if k.op not in ("le0", "eq0"):
            return None
        c, d = lin_parts(k.a[0])
        e = []
        for x, n in d.items():
            n = n - (1 << 64) if n >= 1 << 63 else n
            if x is thr:
                e.append(("t", n))
            elif x.op == "len" and over(o, x.a[0]):
                e.append((over(o, x.a[0]), n))
            elif x.op == "len" and x.a[0] in o.args and x.a[0] is not o.q:
                e.append(("n", n))
            else:
                return None
        c = c - (1 << 64) if c >= 1 << 63 else c
        facts.append((k.op, w, c, e))
    for t in range(5):
        for v in range(4):
            for i in range(4):
                for n in range(8):
                    m = {"t": t, "v": v, "i": i, "n": n}
                    if all(((s <= 0) if op == "le0" else (s == 0)) is w for op, w, s in ((op, w, c + sum(m[x] * k for x, k in e)) for op, w, c, e in facts)):
                        # inner quorum sets may all be satisfied by one node, validators are different nodes
                        can = t >= 1 and t <= v + i and n >= max(1, t - i)
                        if answer or can:
                            return False
    return True


def counting(ctx, name, o):
    w = where(o.f)
    thr = mk("fld", o.q, "threshold")

    def ob(rule, cond, msg=""):
        ctx.hold(rule, name, cond, w, msg, key="%s/%s" % (name, rule))
    zero = None
    for st, v in o.outs:
        lits = dict(st.facts)
        if v.op == "bool":
            z = [k for k, x in lits.items() if k.op == "eq0" and x]
            if name == SL:
                if v is FALSE and lits.get(eq0(thr)) is True:
                    zero = True
                    ob("threshold 0 is never satisfied", True)
                elif v is TRUE and lits.get(eq0(thr)) is True:
                    zero = False
                    ob("threshold 0 is never satisfied", False, "true for threshold 0")
                else:
                    ob("no answers without counting", None if st.lossy or o.I.lvdefs else early(o, lits, v is TRUE), "%s if %s" % (show(v), ", ".join(show(k, 4) for k in lits)))
            else:
                okk = None
                for f, x in lits.items():
                    l = lin(o, f.a[0]) if f.op == "le0" and v is TRUE else None
                    if l and x and l == ({"t": 2, "v": -1, "i": -1}, 0) or l and not x and l == ({"t": -2, "v": 1, "i": 1}, 1):
                        okk = True
                if v is TRUE and len(z) == 1 and okk is None:
                    okk = intersection_threshold(o, z[0].a[0], lits)
                ob("splits what is split already", okk, "true if %s" % ", ".join(show(k, 6) for k in z))
            continue
        conj = list(v.a) if v.op == "and" else [v]
        main = None
        for k in conj:
            kk, x = strip(k, True)
            if kk is eq0(thr):
                if name == SL:
                    zero = x is False
                continue
            main = (kk, x) if main is None else False
        if not main:
            ob("enough members", None)
            continue
        k, x = main
        if k.op == "le0" and not x:
            k, x = mk("le0", add(I(1), k.a[0], -1)), True
        if k.op not in ("eq0", "le0") or not x:
            ob("enough members", False if k.op == "eq0" and not x and lin(o, k.a[0]) else None, show(v, 6))
            continue
        c, d = lin_parts(k.a[0])
        val = inn = None
        rest = k.a[0]
        for a, n in d.items():
            kd = kindof(o, a.a[0]) if a.op == "len" else None
            if isinstance(kd, tuple) and kd[0] == "v" and "in" in kd:
                val = (a, n, kd)
            elif isinstance(kd, tuple) and kd[0] == "i" and "rec" in kd:
                inn = (a, n, kd)
        if not val or not inn:
            neg = any(y.op == "len" and set(kindof(o, y.a[0]) or ()) & {"notin", "norec"} for y in d)
            ob("enough members", False if neg or clear(v) and not any(y.op == "call" and y.a[0] != o.name for y in subterms(v)) and lin(o, k.a[0]) else None, show(v, 6))
            continue
        if val[1] != inn[1]:
            ob("validators and inner quorum sets count alike", False, show(v, 6))
            continue
        ob("validators and inner quorum sets count alike", True)
        s = val[1]
        if abs(s) != 1 or (k.op == "le0" and s > 0):
            ob("enough members", False, "satisfied when %s" % show(v, 6))
            continue
        V, N = val[0], inn[0]
        T = add(add(k.a[0], V, -s), N, -s)
        if s > 0:
            T = neg_lin(T)
        # T - V - N  = 0  or  <= 0
        if name == SL:
            l = lin(o, T)
            okk = True if T is thr else (False if l is not None else None)
            ob("as many members as the threshold", okk, "compared with %s" % (say(l) if l else show(T, 5)))
        else:
            okk = intersection_threshold(o, T, lits)
            ob("as many members as two slices have in common at least", okk, "compared with %s" % show(T, 6))
        tv = [y[1] for y in val[2] if isinstance(y, tuple)]
        tn = [y[1] for y in inn[2] if isinstance(y, tuple)]
        if k.op == "eq0":
            less = lambda x: (add(T, x, -1), mk("sat", "sub", T, x))
            okk = (tv == [T] and len(tn) == 1 and tn[0] in less(V)) or (tn == [T] and len(tv) == 1 and tv[0] in less(N))
            ob("more members than needed are fine", okk or (False if len(tv) < 2 and len(tn) < 2 else None), "the numbers must be equal, but counting isn't limited accordingly")
        else:
            okk = all(y is T for y in tv) and all(y is T or y is add(T, V, -1) for y in tn)
            ob("more members than needed are fine", okk or None)
        if name == SL and zero is None:
            zero = lits.get(eq0(thr)) is False
    if name == SL:
        ob("threshold 0 is handled", zero if zero is not None else None, "threshold 0 counts as satisfied")


def combining(ctx, name, o):
    w = where(o.f)

    def ob(rule, cond, msg=""):
        ctx.hold(rule, name, cond, w, msg, key="%s/%s" % (name, rule))
    n = 0
    for st, v in o.outs:
        lits = dict(st.facts)
        cs = [x for x in subterms(v) if x.op == "call" and x.a[0] == "combs" or x.op == "combs"]
        if not cs:
            if not st.lossy:
                special(ob, name, o, lits, v)
            continue
        n += 1
        if len(set(cs)) != 1:
            ob("members combined", None)
            continue
        c, k = (cs[0].a[1] if cs[0].op == "call" else cs[0].a)[:2]
        # the groups: one per member
        groups = {}
        for p in parts_of(c):
            e, g, b = p.a
            x = over(o, b[0][0]) if len(b) == 1 else None
            if x is None:
                groups = None
                break
            groups.setdefault(x, []).append(p)
        if groups is None or any(len(x) != 1 for x in groups.values()):
            ob("one group per member", None)
        else:
            okk = "v" in groups and "i" in groups
            ob("one group per member", okk or (False if clear(c) else None), "only %s are combined" % " and ".join({"v": "validators", "i": "inner quorum sets"}[x] for x in groups))
            if "v" in groups:
                e, g, b = groups["v"][0].a
                el = elem(*b[0])
                okk = not g and e is coll("vec", [part(coll("set", [part(el)]))])
                ob("validators stand for themselves", okk or (False if clear(e) and all(clear(y) for y, _ in g) else None), show(groups["v"][0], 5))
        number(ob, name, o, k, {} if st.lossy else lits)
        # the result
        if v.op == "coll" and len(v.a[1]) == 1:
            e, g, b = v.a[1][0].a
            okk = not g and e.op == "coll" and e.a[0] == "set" and len(e.a[1]) == 1 and not e.a[1][0].a[1]
            ob("all combinations, each joined", okk or (False if g and all(clear(y) for y, _ in g) else None), "only if %s" % ", ".join(show(y, 5) for y, _ in g))
        else:
            ob("all combinations, each joined", None)
    ctx.hold("members are combined", name, True if n else None, w)


def number(ob, name, o, k, lits):
    rule = "number of members combined"
    if name == QS:
        l = lin(o, k)
        ob(rule, True if l == ({"t": 1}, 0) else (False if l is not None else None), "%s instead of the threshold" % (say(l) if l else show(k, 5)))
    elif name == BS:
        m, s = unsat(o, k)
        S = ("i", "sat")
        if s is not I(0) and lin(o, m) and lin(o, s):
            k = add(m, s, -1)
        l = lin(o, k)
        if l == ({}, 0):
            ok_ = None
            for f, x in lits.items():
                if f.op == "le0":
                    m = lin(o, f.a[0])
                    if m is not None and x is False and m == ({"t": 1, "v": -1, S: -1}, 0):
                        ok_ = True
                    elif m is not None and m[0] == {"t": -1, "v": 1, S: 1} and x is True and m[1] == 1:
                        ok_ = True
                    elif m is not None:
                        ok_ = False if ok_ is None else ok_
            ob("nothing left to block", ok_, "no member is needed if %s" % ", ".join(show(f, 5) for f in lits))
        else:
            ob(rule, True if l == ({"v": 1, S: 1, "t": -1}, 1) else (False if l is not None else None), "%s instead of validators + satisfiable inner quorum sets - threshold + 1" % (say(l) if l else show(k, 5)))
    else:
        m, s = unsat(o, k)
        tw = twice(o, m)
        l = lin(o, s)
        want = {"v": 1, ("i", "sat"): 1, ("i", "sat", "split"): 1}, 0
        okk = None
        if tw is not None and l is not None:
            okk = tw and l == want
        ob(rule, okk, "%s - (%s)" % (show(m, 4), say(l) if l else show(s, 5)))


def special(ob, name, o, lits, v):
    """results without combinations"""
    if v.op != "coll" or v.a[2]:
        ob("special cases", None)
        return
    facts = list(lits.items())
    if name == QS:
        # nothing, if the threshold is out of reach
        okk = None
        if not v.a[1]:
            for f, x in facts:
                if f.op == "le0":
                    l = lin(o, f.a[0])
                    if l is None:
                        continue
                    c = ({k: n for k, n in l[0].items()}, l[1])
                    if x is False and c == ({"t": 1, "v": -1, "i": -1}, 0) or x is True and c == ({"t": -1, "v": 1, "i": 1}, 1):
                        okk = True
                    elif okk is None:
                        okk = False
                elif f.op == "eq0" and x and lin(o, f.a[0]) == ({"t": 1}, 0):
                    okk = True
        ob("no slices only if the threshold is out of reach", okk, "no slices if %s" % ", ".join(("" if x else "not ") + show(f, 5) for f, x in facts))
    elif name == PS:
        okk = None
        if len(v.a[1]) == 1 and v.a[1][0].a[0].op == "coll" and not v.a[1][0].a[0].a[1]:
            for f, x in facts:
                if f.op == "eq0" and x:
                    m, s = unsat(o, f.a[0])
                    tw, l = twice(o, m), lin(o, s)
                    if tw is not None and l is not None:
                        okk = tw and l == ({"v": 1, ("i", "sat"): 1, ("i", "sat", "split"): 1}, 0)
        ob("split already only if slices need nothing in common", okk, ", ".join(show(f, 6) for f, x in facts))
    else:
        ob("special cases", None)
