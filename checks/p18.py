"""The loops that remove unsatisfied nodes are analysed by value flow on MIR (fixpoint with symbolic
loop variables): (a) initially every node of the given set is in exactly one of the two parts, and
only nodes found unsatisfied by the set are in the unsatisfiable one; (b) whatever an iteration takes
out of the satisfiable part was found unsatisfied by that part as it was then, and is put into the
other part; (c) the loop is only left when no node of the satisfiable part is unsatisfied by it, and
that part is the result; the containment test follows the same rule, and a set is a quorum if it is
not empty and satisfies all its nodes.  (d) The public queries and the searches apply this to all
nodes, and keep exactly the strongly connected components of the satisfiable nodes that contain a
quorum."""
from finders import *

SL = "QuorumSet::is_quorum_slice"
OP = {SL, "find_satisfiable_nodes", "contains_quorum", "partition_into_strongly_connected_components"}


class H(ai.Hook):
    def __init__(self, but):
        self.but = but

    def opaque(self, I_, fn):
        return fn.short in OP and fn.short != self.but


def slices(t):
    return [x for x in subterms(t) if x.op == "call" and x.a[0] == SL]


def unsat_lit(k, v, x, S):
    """literal k=v says: x is not satisfied by S / satisfied: returns False/True/None, other args -> 'other'"""
    if k.op == "call" and k.a[0] == SL:
        q, s = k.a[1]
        if not mentions(q, x):
            return None
        return (v, s)
    return None


def stripmust(k, v):
    while k.op == "not":
        k, v = k.a[0], not v
    return k, v


def removed(ctx, ob, S, upd, w, tag):
    """upd = S without some nodes; each of them was found unsatisfied by S.  Returns the guards that
    describe the removal (for the counterpart)"""
    if upd is S:
        return "same"
    if upd.op != "coll" or upd.a[2] or len(upd.a[1]) != 1:
        ob("only unsatisfied nodes are taken out", tag, None, show(upd, 6), w)
        return None
    e, g, b = upd.a[1][0].a
    if e.op != "elem" or e.a[0] is not S or len(b) != 1:
        ob("only unsatisfied nodes are taken out", tag, None, show(upd, 6), w)
        return None
    res = []
    for k, v in g:
        k, v = stripmust(k, v)
        if k.op == "eq" and e in k.a and v is False:
            u = k.a[1] if k.a[0] is e else k.a[0]
            okk, msg = choice(u, S)
            ob("only unsatisfied nodes are taken out", tag, okk, msg, w)
            res.append(("one", u))
            continue
        if k.op == "call" and k.a[0] == SL and mentions(k.a[1][0], e):
            okk = v is True and k.a[1][1] is S
            ob("only unsatisfied nodes are taken out", tag, okk, "nodes are judged by %s" % show(k.a[1][1], 4), w)
            res.append(("all", k))
            continue
        k2 = subst(k, {x: mk("sym", "chosen%d" % x.n) for x in subterms(k) if x.op == "find"})
        bare = clear_but_lv(k) and mentions(k2, e) and not any(mentions(x, e) for x in slices(k2))
        ob("only unsatisfied nodes are taken out", tag, False if bare else None, "nodes are taken out without test (%s%s)" % ("" if not v else "not ", show(k, 5)), w)
        return None
    return res


def choice(u, S):
    """u is a node of S that S does not satisfy"""
    if u.op == "find":
        e, g, b = u.a[0].a
        for k, v in g:
            k, v = stripmust(k, v)
            if k.op == "call" and k.a[0] == SL and mentions(k.a[1][0], e):
                if v is False and k.a[1][1] is S:
                    return True, ""
                if v is True:
                    return False, "a satisfied node is taken out"
                return False, "the node is judged by %s" % show(k.a[1][1], 4)
        if not slices(u) and clear_but_lv(u):
            return False, "the node taken out was not tested"
    return None, show(u, 5)


def clear_but_lv(t):
    return not any(x.op in ("phi", "opaque", "undef", "out", "dyncall") for x in subterms(t))


def fix(t):
    """the loop variable inside a result (through wrappers that keep all elements)"""
    s = identity(t)
    return s if s is not None else t


def loop(ctx, name):
    f = ctx.fn(name)
    if f is None:
        ctx.hold("functions", name, None)
        return
    w = where(f)
    I_, outs, args = ctx.run(f, hooks=[H(name)])
    two = tystr(f.retty()).startswith("(")

    def ob(rule, inst, cond, msg="", ww=None):
        ctx.hold(rule, "%s: %s" % (name, inst), cond, w, msg, key="%s/%s" % (name, rule))
    nset = args[0]
    for st, v in outs:
        lits = list(st.facts.items())
        if two:
            if v.op != "agg":
                ob("result", "pair", None)
                continue
            sat, uns = fix(fields(v)["0"]), fix(fields(v)["1"])
        else:
            uns = None
            x = v
            negd = False
            while x.op == "not":
                x, negd = x.a[0], not negd
            if x.op == "bool":
                # decided before or inside the loop
                emp = [(k, vv) for k, vv in lits if k.op == "eq0" and k.a[0].op == "len"]
                if x is FALSE and any(k is eq0(length(nset)) and vv is True for k, vv in lits):
                    ob("result", "no quorum in the empty set", True)
                    continue
                s = [k.a[0].a[0] for k, vv in emp if k.a[0].a[0].op == "lv" and vv is (x is FALSE)]
                if not s:
                    sizes = not st.lossy and not st.open and lits and all(sizelit(k) or exitlit(k) for k, _ in lits)
                    ob("result", "no constant answers", False if sizes else None, "%s without %s" % ("true" if x is TRUE else "false", "a remaining node" if x is TRUE else "all nodes having been removed"))
                    continue
                sat = s[0]
            elif x.op == "eq0" and x.a[0].op == "len":
                ob("result", "not empty", negd, "true when no node remains")
                sat = fix(x.a[0].a[0])
            elif x.op == "le0" and len(szs := {y for y in subterms(x) if y.op == "len"}) == 1:
                # a comparison of the number of remaining nodes
                y, = szs
                at = [subst(x, {y: I(i)}) for i in range(0, 7)]
                says = [(r.a[0] is not negd) if r.op == "bool" else None for r in at]
                ob("result", "not empty", None if None in says else says == [False] + [True] * 6, "with 0, 1, ... nodes left: %s" % says)
                sat = fix(y.a[0])
            else:
                ob("result", "recognised", None, show(v, 5))
                continue
        # (c) the exit
        if sat.op != "lv":
            calls = [x for x in subterms(sat) if x.op == "call" and x.a[0] != SL]
            ob("loop", "satisfiable part", False if clear(sat) and not calls else None, "result is %s, which is not tested again" % show(sat, 5))
            continue
        got = None
        for k, vv in lits:
            if k.op == "any" and len(k.a[0]) == 1:
                p, = k.a[0]
                e, g, b = p.a
                ss = [(stripmust(a, c)) for a, c in g if slices(a)]
                more = [a for a, c in g if not slices(a)]
                if len(ss) == 1 and more and len(b) == 1 and vv is False and b[0][0] is sat:
                    if all(clear_but_lv(a) and not [x for x in subterms(a) if x.op == "lv" and x is not sat] for a in more) and got is None:
                        got = (False, "left although only some of the remaining nodes were tested (%s)" % show(more[0], 4))
                if len(ss) == 1 and len(g) == 1 and len(b) == 1 and vv is False:
                    kk, pol = ss[0]
                    if b[0][0] is sat and kk.op == "call" and kk.a[1][1] is sat and pol is False:
                        got = True
                    elif got is None and (b[0][0] is sat or kk.a[1][1] is sat) and kk.op == "call":
                        got = (False, "left when the nodes of %s are %s by %s" % (show(b[0][0], 3), "satisfied" if pol is False else "unsatisfied", show(kk.a[1][1], 3)))
            elif k.op == "eq0" and vv is True and k.a[0].op == "len":
                # no node to take out
                c = k.a[0].a[0]
                if c.op == "coll" and len(c.a[1]) == 1 and not c.a[2]:
                    e, g, b = c.a[1][0].a
                    if len(b) == 1 and b[0][0] is sat and len(g) == 1:
                        (kk, pol), = g
                        kk, pol = stripmust(kk, pol)
                        if kk.op == "call" and kk.a[0] == SL and kk.a[1][1] is sat and pol is False:
                            got = True
        if isinstance(got, tuple):
            ob("left only when all remaining nodes are satisfied", "exit", False, got[1])
        elif got:
            ob("left only when all remaining nodes are satisfied", "exit", True)
        else:
            known = all(clear_but_lv(k) for k, _ in lits) and not any(mentions(k, sat) and slices(k) for k, _ in lits)
            other = any(mentions(k, sat) for k, _ in lits) and all(clear_but_lv(k) for k, _ in lits)
            ob("left only when all remaining nodes are satisfied", "exit", False if known and not [x for x in subterms(sat) if x.op == "phi"] and no_lv_facts(lits, sat) else None,
               "the loop can end without this test")
        # (a) initially
        d = I_.lvdefs.get(sat)
        if d is None:
            ob("loop", "definition", None)
            continue
        a = initial(d["init"], nset)
        du = I_.lvdefs.get(uns) if uns is not None and uns.op == "lv" else None
        if two:
            ui = initial(du["init"], nset) if du else (initial(uns, nset) if uns.op == "coll" else None)
            okk, msg = complement(a, ui)
            ob("initially every node is in one part", "two parts", okk, msg or "%s / %s" % (show(d["init"], 5), show(du["init"] if du else uns, 5)))
        else:
            okk = True if a == "all" or (isinstance(a, tuple) and a[0] is True) else (False if clear(d["init"]) else None)
            ob("initially every node is in one part", "all nodes", okk, show(d["init"], 5))
        # (b) every iteration
        for upd, g in d["upd"].items():
            r = removed(ctx, ob, sat, upd, w, "iteration")
            if not two or r is None or r == "same":
                continue
            if du is None:
                ob("nodes taken out become unsatisfiable", "counterpart", False if uns.op == "coll" and clear(uns) else None, "they are in neither part")
                continue
            adds = []
            rec = True
            for uu in du["upd"]:
                if uu is uns:
                    continue
                if uu.op != "coll" or uu.a[2]:
                    rec = False
                    continue
                for p in uu.a[1]:
                    if isid(p) is uns:
                        if p.a[1]:
                            rec = False
                        continue
                    adds.append(p)
            for kind, x in r:
                if kind == "one":
                    okk = any(p.a[0] is x for p in adds)
                    if not okk and (not rec or any(mentions(p, x) or not clear_but_lv(p) for p in adds)):
                        okk = None
                    ob("nodes taken out become unsatisfiable", "counterpart", okk, "the node taken out is not put into the unsatisfiable part")
                else:
                    okk = any(any(kk is x and vv is False for kk, vv in p.a[1]) for p in adds) or None
                    ob("nodes taken out become unsatisfiable", "counterpart", okk)


def sizelit(k):
    return k.op in ("eq0", "le0") and clear_but_lv(k) and all(x.op == "len" for x in lin_parts(k.a[0])[1])


def exitlit(k):
    return k.op == "any" and bool(slices(k)) and clear_but_lv(k)


def no_lv_facts(lits, sat):
    return True


def initial(t, nset):
    """'all' / 'none' / (polarity, literal): the nodes of nset that are (un)satisfied by nset"""
    if t is nset or identity(t) is nset:
        return "all"
    if t.op == "coll" and not t.a[1] and not t.a[2]:
        return "none"
    if t.op == "coll" and len(t.a[1]) == 1 and not t.a[2]:
        e, g, b = t.a[1][0].a
        if e.op == "elem" and e.a[0] is nset and len(b) == 1 and len(g) == 1:
            (k, v), = g
            k, v = stripmust(k, v)
            if k.op == "call" and k.a[0] == SL and k.a[1][1] is nset and mentions(k.a[1][0], e):
                return (v, k)
            if clear(k):
                return ("other", k, v)
    return None


def complement(a, u):
    if a is None or u is None:
        return None, ""
    if a == "all" and u == "none":
        return True, ""
    if isinstance(a, tuple) and isinstance(u, tuple) and a[0] is True and u[0] is False and a[1] is u[1]:
        return True, ""
    if "other" in (a[0], u[0]):
        if a[0] == "other" and u[0] == "other" and a[1] is u[1] and a[2] is not u[2]:
            return None, ""
        return False, "the initial parts are not complementary, or not decided by whether a node is satisfied"
    return False, "satisfiable part starts as %s, unsatisfiable part as %s" % (word(a), word(u))


def word(a):
    return a if isinstance(a, str) else "the satisfied nodes" if a[0] is True else "the unsatisfied nodes"


def allnodes(fb):
    n = mk("fld", fb, "nodes")
    return coll("set", [part(pos(n, elem(n)), (), ((n, 0),))])


def norm(t):
    """kinds and tags do not matter"""
    if t.op == "coll":
        return coll("set", t.a[1], t.a[2])
    return t


def eqset(t, e):
    if t is e or norm(t) is norm(e):
        return True
    return False if clear(t) else None


def nset_all(t, fb):
    """t stands for all nodes of fb"""
    n = mk("fld", fb, "nodes")
    if t.op == "coll" and len(t.a[1]) == 1 and not t.a[2] and not t.a[1][0].a[1]:
        e, g, b = t.a[1][0].a
        if e is pos(n, elem(n)) or (e.op == "elem" and e.a[0].op == "range" and e.a[0].a[0] == I(0) and e.a[0].a[1] is length(n)):
            return True
    if t.op == "call" and t.a[0] == "Fbas::all_nodes":
        return True
    return False if clear(t) else None


def simple(ctx):
    """(d)"""
    def run(name):
        f = ctx.fn(name)
        if f is None:
            ctx.hold("functions", name, None)
            return None, [], []
        I_, outs, a = ctx.run(f, hooks=[H(name)])
        return f, outs, a
    for name, i in (("Fbas::satisfiable_nodes", "0"), ("Fbas::unsatisfiable_nodes", "1")):
        if not ctx.anchor(name, ctx.fn(name)):
            continue
        f, outs, a = run(name)
        for st, v in outs:
            v = fix(v)
            okk = None
            if v.op == "fld" and v.a[0].op == "call" and v.a[0].a[0] == "find_satisfiable_nodes":
                okk = v.a[1] == i and nset_all(v.a[0].a[1][0], a[0])
                if v.a[1] == i and okk is None:
                    okk = None
            elif clear(v):
                okk = False if v.op == "coll" and not v.a[1] else None
            ctx.hold("queries report the parts of all nodes", name, okk, where(f), show(v, 5), key=name)
    f, outs, a = run("Fbas::is_quorum")
    if f:
        fb, S = a
        for st, v in outs:
            lits = dict(st.facts)
            emp = lits.get(eq0(length(S)))
            if v is FALSE and emp is True:
                ctx.hold("a quorum is not empty and satisfies all its nodes", "empty set", True)
                continue
            parts = [v]
            if v.op == "and":
                parts = list(v.a)
            found = {}
            for x in parts:
                n = False
                while x.op == "not":
                    x, n = x.a[0], not n
                if x is eq0(length(S)):
                    found["nonempty"] = n
                elif x.op == "any" and len(x.a[0]) == 1:
                    p, = x.a[0]
                    e, g, b = p.a
                    if len(b) == 1 and len(g) == 1:
                        (k, vv), = g
                        k, vv = stripmust(k, vv)
                        if k.op == "call" and k.a[0] == SL:
                            found["sat"] = (n and vv is False and b[0][0] is S and k.a[1][1] is S and mentions(k.a[1][0], mk("fld", fb, "nodes")) and mentions(k.a[1][0], elem(*b[0])), show(x, 6))
            ne = found.get("nonempty", None if emp is None else not emp)
            ctx.hold("a quorum is not empty and satisfies all its nodes", "not empty", ne if ne is not None else (False if clear(v) and v.op != "call" else None), where(f), "the empty set counts as quorum", key="is_quorum/empty")
            s = found.get("sat")
            ctx.hold("a quorum is not empty and satisfies all its nodes", "all nodes satisfied by the set", s[0] if s else (False if v.op == "bool" else None), where(f), s[1] if s else "", key="is_quorum/sat")
    # components
    PSC = "partition_into_strongly_connected_components"
    for name in ("Fbas::relevant_nodes", "find_sets"):
        f, outs, a = run(name)
        if not f:
            continue
        fb = a[0]
        for st, v in outs:
            t = v
            if name == "find_sets":
                cs = [x for x in subterms(v) if x.op == "call" and x.a[0] == "dyncall"]
                if len(cs) != 1:
                    ctx.hold("components that contain a quorum", name, None)
                    continue
                cc = [x for x in cs[0].a[1] if x.op == "coll"] or [x for x in cs[0].a[1] if any(y.op == "call" and y.a[0] == PSC for y in subterms(x))]
                if not cc:
                    ctx.hold("components that contain a quorum", name, None)
                    continue
                t = cc[0]
                v2 = v
                ctx.hold("searches get the given FBAS", name, True if any(x is fb for x in cs[0].a[1]) else None)
            parts = parts_of(t)
            srcs = [x for x in subterms(t) if x.op == "call" and x.a[0] == PSC]
            if len(srcs) != 1 or len(parts) != 1:
                ctx.hold("components that contain a quorum", name, False if clear(t) and not srcs and t.op == "coll" else None, where(f), show(t, 5), key=name + "/components")
                continue
            src = srcs[0]
            nodes = fix(src.a[1][0])
            okk = None
            if nodes.op == "fld" and nodes.a[0].op == "call" and nodes.a[0].a[0] == "find_satisfiable_nodes":
                okk = nodes.a[1] == "0" and nset_all(nodes.a[0].a[1][0], fb)
            elif nset_all(nodes, fb):
                okk = False
            ctx.hold("components of the satisfiable nodes", name, okk, where(f), "components of %s" % show(nodes, 4), key=name + "/satisfiable")
            e, g, b = parts[0].a
            c = elem(src)
            want = mk("call", "contains_quorum", (c, fb))
            gs = {stripmust(k, vv) for k, vv in g}
            if not gs:
                okk, msg = False, "components without quorums are kept"
            elif (want, True) in gs and len(gs) == 1:
                okk, msg = True, ""
            elif any(k.op == "call" and k.a[0] == "contains_quorum" and vv is False for k, vv in gs):
                okk, msg = False, "components without quorums are kept"
            elif all(clear(k) for k, _ in gs):
                # further conditions lose components
                okk, msg = False, "components are kept under the condition %s" % ", ".join(("" if vv else "not ") + show(k, 5) for k, vv in gs)
            else:
                okk, msg = None, ""
            ctx.hold("components that contain a quorum", name, okk, where(f), msg, key=name + "/components")
            inner = e is c if name == "find_sets" else (e.op == "elem" and e.a[0] is c)
            ctx.hold("components are kept whole", name, True if inner else None, where(f), show(e, 4), key=name + "/whole")
    f, outs, a = run("complement_contains_quorum")
    if f:
        for st, v in outs:
            okk = None
            if v.op == "call" and v.a[0] == "contains_quorum":
                t = v.a[1][0]
                n = mk("fld", a[1], "nodes")
                if t.op == "coll" and len(t.a[1]) == 1:
                    e, g, b = t.a[1][0].a
                    okk = len(g) == 1 and {stripmust(k, x) for k, x in g} == {(contains(a[0], e), False)}
                    if not okk and not clear(t):
                        okk = None
                elif clear(t):
                    okk = False
            ctx.hold("the complement is all other nodes", "complement_contains_quorum", okk, where(f), show(v, 6), key="complement")


def check(ctx):
    for n in ("find_satisfiable_nodes", "contains_quorum"):
        if n == "find_satisfiable_nodes":
            ctx.anchor(n, ctx.fn(n))
        loop(ctx, n)
    simple(ctx)
