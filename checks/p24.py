"""The pairwise intersection test: the shortcut fires only if every set holds more than half of all
nodes involved, and otherwise every pair is compared."""
from base import *

FN = "all_intersect"


def clear(t):
    return not any(x.op in ("lv", "phi", "opaque", "undef", "out") for x in subterms(t))


def union_of(u, S):
    """u counts the nodes involved in the sets S"""
    if u.op != "len" or u.a[0].op != "coll":
        return False
    ps = u.a[0].a[1]
    if len(ps) != 1:
        return False
    e, g, b = ps[0].a
    return not g and e.op == "elem" and e.a[0].op == "elem" and e.a[0].a[0] is S


def number(t):
    """the value of a term of numbers"""
    if t.op == "int":
        return t.a[0]
    if t.op == "div":
        x, y = number(t.a[0]), number(t.a[1])
        return x // y if x is not None and y and x >= 0 and y > 0 else (0 if x is not None and y else None)
    if t.op == "sat" and t.a[0] == "sub":
        x, y = number(t.a[1]), number(t.a[2])
        return max(x - y, 0) if x is not None and y is not None else None
    if t.op in ("min2", "max2"):
        x, y = number(t.a[0]), number(t.a[1])
        return (min if t.op == "min2" else max)(x, y) if x is not None and y is not None else None
    c, d = lin_parts(t)
    for k, m in dict(d).items():
        if k is t:
            return None
        x = number(k)
        if x is None:
            return None
        c += m * x
    return c


def halves(t, S):
    """1 if t (assumed <= 0) says a set of S holds at most half the involved nodes or is weaker,
    0 if some set may hold half or less while t is positive, None if unknown"""
    n = length(elem(S))
    us = {u for u in subterms(t) if union_of(u, S)}
    if mentions(t, n) and len(us) <= 1:
        # the sizes say it: h nodes in a set, U nodes in all
        other = None if us else length(S)
        vals = []
        for U in range(1, 11):
            for h in range(0, U + 1):
                if us:
                    vals.append((2 * h <= U, number(subst(t, {n: I(h), **{u: I(U) for u in us}}))))
                else:
                    vals.append((True, number(subst(t, {n: I(h), other: I(U)}))))
        if all(x is not None for _, x in vals):
            return 0 if any(few and x > 0 for few, x in vals) else 1
    c, d = lin_parts(t)
    d = dict(d)
    if len(d) != 2 or n not in d:
        return None
    k = d.pop(n)
    (u, m), = d.items()
    if u.op == "div" and union_of(u.a[0], S) and (u.a[1].a[0] if u.a[1].op == "int" else 0) >= 2:
        # len + c <= U div 2
        if k == 1 and m == -1:
            return 1 if c <= 0 and u.a[1] is I(2) else 0
        return None
    if union_of(u, S):
        if k == 2 and m == -1:
            return 1 if c <= 0 else 0
        if k == 1 and m == -1:
            return 1 if c <= 0 else None
    return None


def check(ctx):
    f = ctx.fn(FN)
    if not ctx.anchor(FN, f):
        return
    I_, outs, a = ctx.run(f)
    S = a[0]
    T = elem(S)
    n = 0
    for st, v in outs:
        v_, neg = v, False
        while v_.op == "not":
            v_, neg = v_.a[0], not neg
        if v.op == "bool" and v.a[0]:
            # shortcut
            okk, msg = (None, "") if st.lossy or I_.lvdefs else (False, "answers true under the condition %s" % ", ".join(("" if w else "not ") + show(k, 7) for k, w in st.facts.items()))
            for k, w in st.facts.items():
                if w is False and k.op == "any":
                    for p in k.a[0]:
                        e, g, b = p.a
                        if len(b) == 1 and b[0][0] is S and len(g) == 1:
                            (gk, gw), = g
                            if gk.op == "le0":
                                h = halves(gk.a[0] if gw else neg_lin(gk.a[0]), S)
                                if h == 1:
                                    okk = True
                                elif h is None:
                                    okk = None
                                else:
                                    msg = "sets that hold no more than half of the nodes may pass: %s" % show(gk, 8)
                    if pairs(k, S) is True:
                        okk = True
                    elif pairs(k, S) is None and okk is False and not any(p.a[2] and len(p.a[2]) == 1 for p in k.a[0]):
                        okk = None
                if not clear(k) or k.op == "le0" and okk is False:
                    if k.op == "le0" and w and isfew(k, S):
                        okk = True
                    elif not clear(k):
                        okk = None
            ctx.hold("sets pass without comparison only if each holds more than half of all nodes", "outcome %d" % n, okk, where(f), msg, key="shortcut")
        elif v.op == "bool":
            ok2 = None
            for k, w in st.facts.items():
                if w and pairs(k, S) is True:
                    ok2 = True
            if ok2 is None and not st.lossy and not I_.lvdefs and all(clear(k) for k in st.facts) and not any(k.op == "any" and w and mentions_two(k, S) for k, w in st.facts.items()):
                ok2 = False
            ctx.hold("intersection is denied only for two sets without a common node", "outcome %d" % n, ok2, where(f), "", key="denied")
        else:
            r = pairs(v_, S) if neg else None
            ctx.hold("every two sets are compared for a common node", "outcome %d" % n, r, where(f), show(v, 10), key="pairs")
        n += 1
    ctx.floor("outcomes", n, 1)


def isfew(k, S):
    c, d = lin_parts(k.a[0])
    return dict(d) == {length(S): 1} and c >= -1


def mentions_two(k, S):
    return any(len(p.a[2]) > 1 for p in k.a[0])


def pairs(t, S):
    """t: some two sets of S have no common node.  True / False / None"""
    if t.op != "any" or len(t.a[0]) != 1:
        return None
    p, = t.a[0]
    e, g, b = p.a
    b = list(b)
    dis = rng = None
    if len(b) == 1 and b[0][0] is S and len(g) == 1:
        (k, w), = g
        if k.op == "any" and w is False and clear(k) and all(len(q.a[2]) == 2 and S in (q.a[2][0][0], q.a[2][1][0]) for q in k.a[0]):
            return False  # for each set, one other set is enough
    if len(b) == 2 and b[0][0] is S and b[1][0].op == "slice" and b[1][0].a[0] is S and b[1][0].a[2].op == "end":
        c, d = lin_parts(b[1][0].a[1])
        if dict(d) == {pos(S, elem(*b[0])): 1}:
            rng = True if c == 1 else (False if c > 1 else None)
    elif len(b) == 3 and [x[0] for x in b[:2]] == [S, S] and b[2][0] in (elem(*b[0]), elem(*b[1])) and \
            any(k.op == "contains" and k.a[0] in (elem(*b[0]), elem(*b[1])) and k.a[1] is elem(*b[2]) for k, _ in g):
        # a node of one set that is, or is not, in the other: not what disjoint sets are about
        return False if all(clear(k) for k, _ in g) else None
    elif [x[0] for x in b] != [S, S]:
        return None
    x, y = elem(*b[0]), elem(*b[1])
    other = True
    for k, w in g:
        if k.op == "any" and w is False and len(k.a[0]) == 1:
            q, = k.a[0]
            e2, g2, b2 = q.a
            good = wrong = False
            if len(g2) == 1 and len(b2) == 1 and b2[0][0] in (x, y):
                (gk, gw), = g2
                o = y if b2[0][0] is x else x
                good = gw is True and gk is contains(o, elem(*b2[0]))
                wrong = not good
            if good or wrong and dis is None and len(g) <= 2:
                dis = good
            elif not good:
                other = False if clear(k) and other is not None else None
        elif k.op == "le0" and mentions(k, length(x)) and mentions(k, length(y)):
            other = None  # large sets cannot be disjoint
        elif k.op == "within" and w and k.a[0] == "skip" and k.a[1] is S and k.a[3] in (x, y):
            o = y if k.a[3] is x else x
            c, d = lin_parts(k.a[2])
            d = dict(d)
            if len(d) == 1 and list(d.items())[0] == (pos(S, o), 1):
                # the same set compared with itself differs for empty sets only
                rng = True if c == 1 else (False if c > 1 else None)
        else:
            other = False if clear(k) and other is not None else None
    if other is False and dis and rng:
        return False  # further conditions leave pairs out
    if other is not True:
        return None
    if dis and rng:
        return True
    if rng is False or dis is False:
        return False
    return None
