"""For every place where a set is put on the result list of a search, the facts established on the
path to it (value flow on MIR, conditions kept as terms) are compared with what the report claims:
(a) exhaustive searches: a quorum is reported only after a positive quorum test of the very set and a
negative test for smaller quorums inside it; a blocking set only after a negative quorum test of the
nodes that are left (untaken, processed or not) and a test that putting back any of its nodes makes a
quorum possible; a splitting set only if it is not empty and the quorum remainders were tested not to
intersect; two quorums only if one was tested and the other is the non-empty satisfiable part of the
nodes not taken; (b) from the entry points down to the searches, everything that ends up in the
result comes from such a search or from a symmetric cluster; sets extracted from a symmetric cluster
that may contain a node more than once pass a minimality test with the same criterion (for
blocking sets relative to the cluster) and repetitions are removed; (c) splitting sets of a search
are reduced to minimal ones, and non-intersecting quorums are reported only if there are two."""
from finders import *
import p03

TEST = {"Fbas::is_quorum": "quorum", "contains_quorum": "contains", "all_intersect": "intersect"}


def literals(fs):
    """facts with conjunctions that hold and disjunctions that fail taken apart"""
    out = []
    todo = list(fs.items())
    while todo:
        k, v = todo.pop()
        if k.op == "not":
            todo.append((k.a[0], not v))
        elif k.op == "and" and v:
            todo += [(x, True) for x in k.a]
        else:
            out.append((k, v))
    return out


def allsub(k, v, X, want):
    """k=v says: for every x in X, contains_quorum(T(x)) is `want`; returns [(T, x)] or None"""
    if k.op != "any" or v or len(k.a[0]) != 1:
        return None
    p, = k.a[0]
    e, g, b = p.a
    if len(b) != 1 or b[0][0] is not X:
        return None
    ls = literals(dict(g))
    cs = [(t, w) for t, w in ls if t.op == "call" and t.a[0] == "contains_quorum"]
    if len(cs) != 1 or cs[0][1] is want:
        return None
    T = cs[0][0].a[1][0]
    alone = True
    for t, w in ls:
        if t is cs[0][0] or t is eq0(length(T)) and w is False and not want:
            continue
        alone = False if leaves_out(t, w, T, X) else (alone and None)
    return T, elem(*b[0]), alone


def leaves_out(t, w, T, X):
    """does the condition t=w on testing an element fail for some elements?"""
    if t.op == "within" and mentions(t, X):
        return True
    for n in (length(T), length(X)):
        vals = [sizes(t, n, i) for i in range(1, 7)]
        if None not in vals:
            return any(x is not w for x in vals)
    return False


def sizes(t, n, i):
    """the comparison t of the size n with a constant, for size i"""
    if t.op not in ("le0", "eq0"):
        return None
    r = subst(t, {n: I(i)})
    return r.a[0] if r.op == "bool" else None


LVDEFS = {}
SURE = []


def piled(T, X):
    """T is made from a copy of X that loses more and more nodes as the loop goes on"""
    if T.op != "coll" or T.a[2]:
        return False
    for p in T.a[1]:
        e, g, b = p.a
        if len(b) == 1 and b[0][0].op == "lv" and e is elem(*b[0]):
            L = b[0][0]
            d = LVDEFS.get(L)
            if d and (d["init"] is X or isid_coll(d["init"], X)) and len(d["upd"]) == 1:
                (u, _), = d["upd"].items()
                if u.op == "coll" and not u.a[2] and len(u.a[1]) == 1:
                    e2, g2, b2 = u.a[1][0].a
                    if len(b2) == 1 and b2[0][0] is L and e2 is elem(*b2[0]) and g2 and all(k is contains(X, e2) and v is False for k, v in g2):
                        return True
    return False


def isid_coll(c, X):
    return c.op == "coll" and not c.a[2] and len(c.a[1]) == 1 and isid(c.a[1][0]) is X and not c.a[1][0].a[1]


def minimal_quorum(lits, X):
    """was X tested to contain no smaller quorum?  True / False / None"""
    maybe = False
    SURE.clear()
    for k, v in lits:
        r = allsub(k, v, X, False)
        if r is None:
            maybe = maybe or (mentions(k, X) and k.op == "any" and ("contains_quorum" in show(k, 30)))
            continue
        T, x, alone = r
        if piled(T, X):
            SURE.append(X)  # the test is there and understood
            return False
        m, rest = member(T, X, x)
        if m is False and rest and alone:
            return True
        maybe = maybe or not clear(T) or rest is None or alone is None
    return None if maybe else False


def minimal_blocking(lits, X, U):
    """was every U(x) tested to contain a quorum, U being the nodes left without X plus x?
    U: function term -> True/False/None whether a set is `rest` in the right role"""
    maybe = False
    for k, v in lits:
        r = allsub(k, v, X, True)
        if r is None:
            maybe = maybe or (mentions(k, X) and k.op == "any" and ("contains_quorum" in show(k, 30)))
            continue
        T, x, alone = r
        u = U(T, x)
        if u and alone:
            return True, ""
        if u and alone is False:
            return False, "not every node is tested"
        if u is False:
            return False, "minimality is tested with %s" % show(T, 6)
        maybe = True
    return (None, "") if maybe else (False, "no test that putting any node back makes a quorum possible")


class Found(p03.One):
    def checkfound(self):
        """(a) for one recursive search"""
        s, ctx = self.s, self.ctx
        self.roles = {}
        self.prep()
        _, outs, I_ = s.run()
        LVDEFS.clear()
        LVDEFS.update(I_.lvdefs)
        n = 0
        kind = None
        for st, v in outs:
            new = []
            for i in s.idx("found"):
                x = I_.getcell(st, s.cell[i])
                if x is s.syms[i]:
                    continue
                if x.op != "coll" or x.a[2]:
                    self.ob("reported sets", "result list recognised", None)
                    continue
                for p in x.a[1]:
                    if isid(p) is s.syms[i] and not p.a[1]:
                        continue
                    new.append(p)
            for p in new:
                n += 1
                e, g, b = p.a
                fs = dict(st.facts)
                fs.update(dict(g))
                if b:
                    self.ob("reported sets", "single set", None)
                    continue
                kind = self.report_one(e, literals(fs), fs)
            if v.op == "agg" and v.a[1] == "Some" and not s.idx("found"):
                x = fields(v)["0"]
                if x.op in ("pay", "fld") or "REC(" in show(x, 4):
                    continue
                n += 1
                kind = self.pair(x, literals(st.facts))
        if not n:
            self.ob("reported sets", "places that report sets", None)
        return kind

    def prep(self):
        """roles of the sets, from the bookkeeping rules of P03 run silently"""
        quiet = Ctx("P03", "quick", self.ctx.prog)
        o = p03.One(quiet, self.s)
        o.check()
        self.roles = getattr(o, "roles", {})

    def role(self, t):
        for i in self.s.idx("set"):
            if t is self.s.syms[i]:
                return self.roles.get(i)

    def report_one(self, X, lits, fs):
        s = self.s
        rx = self.role(X)
        self.ob("reported set", "is the set of taken nodes", True if rx == "taken" else (False if rx else None), "the %s nodes are reported" % rx, key="reported")
        qs = [(k, v) for k, v in lits if k.op == "call" and k.a[0] == "Fbas::is_quorum"]
        cq = [(k, v) for k, v in lits if k.op == "call" and k.a[0] == "contains_quorum"]
        ai_ = [(k, v) for k, v in lits if k.op == "call" and k.a[0] == "all_intersect"]
        parts = s.idx("parts")
        which = self.searched()
        if which == "quorum":
            t = [v for k, v in qs if k.a[1][1] is X]
            okk = True if True in t else (False if clear_facts(lits) else None)
            self.ob("a reported quorum was tested to be one", "by is_quorum", okk, "no positive quorum test of the reported set on this path", key="tested")
            self.ob("a reported quorum was tested for minimality", "contains no smaller quorum", soften(minimal_quorum(lits, X), lits), "on this path the reported set is not tested for smaller quorums inside it", key="minimal")
        elif which == "blocking":
            t = [self.role(k.a[1][0]) for k, v in cq if v is False]
            okk = True if "left+unprocessed" in t else (False if clear_facts(lits) else None)
            self.ob("a reported blocking set was tested to block", "no quorum in the nodes left", okk,
                    "tested: %s" % (", ".join(map(str, t)) or "nothing"), key="tested")
            SURE.clear()
            m, msg = minimal_blocking(lits, X, lambda T, x: self.putback(T, x, X))
            self.ob("a reported blocking set was tested for minimality", "against the nodes left", soften(m, lits), msg, key="minimal")
        elif which == "splitting":
            t = [v for k, v in ai_ if any(k.a[1][0] is s.syms[i] for i in parts)]
            okk = True if False in t else (False if clear_facts(lits) else None)
            self.ob("a reported splitting set was tested to split", "quorum remainders do not intersect", okk, "no negative intersection test of the remainders on this path", key="tested")
            e = [v for k, v in lits if k is eq0(length(X))]
            self.ob("a reported splitting set is not empty", "tested", True if False in e else (False if clear_facts(lits) else None), "no test on this path", key="nonempty")
        else:
            self.ob("reported set", "kind of search", None)
        return which

    def searched(self):
        return self._kind

    def putback(self, T, x, X):
        """T is the nodes left+unprocessed without X plus x"""
        if T.op != "coll" or T.a[2]:
            return None
        addx, base = False, None
        for e, g, b in (p.a for p in T.a[1]):
            if e is x and not g and not b:
                addx = True
            elif e.op == "elem" and len(b) == 1 and b[0] == (e.a[0], e.a[1]):
                g2 = [(k, v) for k, v in g if not (k.op == "eq" and x in k.a) and not (k is contains(X, e) and v is False)]
                if e.a[0] is X and not g2:
                    return False  # nodes put back before are still there
                if g2 or base is not None:
                    return False if clear(T) and g2 and all(k is contains(X, e) for k, _ in g2) else None
                base = e.a[0]
            else:
                return None
        if base is None:
            return None
        r = self.role(base)
        if r is None:
            return False if clear(base) and base.op == "sym" else None
        return addx and r == "left+unprocessed"

    def pair(self, x, lits):
        s = self.s
        if x.op != "coll" or any(p.a[1] or p.a[2] for p in x.a[1]) or len(x.a[1]) != 2:
            self.ob("two quorums", "recognised", None)
            return "pair"
        xs = [p.a[0] for p in x.a[1]]
        tested = [k.a[1][1] for k, v in lits if k.op == "call" and k.a[0] == "Fbas::is_quorum" and v]
        a = [e for e in xs if e in tested]
        fac = clear_facts(lits)
        self.ob("two quorums: one was tested", "the taken nodes", True if any(self.role(e) == "taken" for e in a) else (False if fac else None), "no positive quorum test on this path", key="pair/tested")
        o = [e for e in xs if e.op == "fld" and e.a[0].op == "call" and e.a[0].a[0] == "find_satisfiable_nodes"]
        if len(o) != 1 or o[0].a[1] != "0":
            bad = len(o) == 1 or all(self.role(e) for e in xs)
            self.ob("two quorums: the other is satisfiable", "satisfiable nodes of the rest", False if bad else None, show(x, 6), key="pair/other")
            return "pair"
        r = self.role(o[0].a[0].a[1][0])
        self.ob("two quorums: the other is satisfiable", "satisfiable nodes of the rest", True if r in ("left+unprocessed", "left") else (False if r else None), "satisfiable part of the %s nodes" % r, key="pair/other")
        e = [v for k, v in lits if k is eq0(length(o[0]))]
        self.ob("two quorums: the other is not empty", "tested", True if False in e else (False if fac else None), "no test on this path", key="pair/nonempty")
        return "pair"


def clear_facts(lits):
    """may the absence of a fact be taken as such?"""
    return all(clear(k) for k, _ in lits)


def soften(v, lits):
    if v is False and not SURE and not clear_facts(lits):
        return None
    return v


EXTR = "extract"
KINDS = {"find_minimal_quorums": "quorum", "find_minimal_blocking_sets": "blocking", "find_minimal_splitting_sets": "splitting", "find_nonintersecting_quorums": "pair"}
STOP = PRED | {"sort_by_rank", "rank_nodes", "find_symmetric_cluster_in_consensus_cluster", "find_symmetric_clusters_in_node_set",
               "QuorumSet::contains_duplicates", "QuorumSet::contained_nodes", "partition_into_strongly_connected_components"}


class Whole(ai.Hook):
    """searches add sets FOUND to their result list and leave everything else as it was; recursive
    extractions from a quorum set are opaque"""

    def __init__(self, prog, roots, extr):
        self.roots, self.extr, self.prog = {s.f.id: s for s in roots}, extr, prog
        self.used = set()

    def opaque(self, I_, fn):
        return fn.short in STOP or fn.id in self.extr or fn.short == "remove_non_minimal_node_sets"

    def call(self, I_, st, fr, span, name, fn, args):
        if fn is None or fn.id not in self.roots:
            return None
        s = self.roots[fn.id]
        self.used.add(fn.id)
        vals = tuple(I_.read(st, a) for a in args)
        n = [mk("call", "FOUND", (vals[i], mk("sym", s.f.name))) for i in s.idx("queue")][0]
        for i in s.idx("found"):
            cell, path = I_.mutref(st, args[i])
            cur = vals[i]
            new = coll("vec", list(parts_of(cur)) + [part(elem(n), (), ((n, 0),))])
            I_.store(st, cell, path, new, fr, span)
        return [(st, n if not s.idx("found") else UNIT)]


def extractors(prog):
    """recursive functions from a quorum set to a list of node sets"""
    out = {}
    for f in prog.fns.values():
        if f.crate == "fbas_analyzer" and f.kind != "Closure" and f.argc >= 1 and tystr(strip_refs(f.argtys()[0])).endswith("QuorumSet") \
                and "Vec<" in tystr(f.retty()) and "BitSet" in tystr(f.retty()) and recursive(prog, f):
            out[f.id] = f
    return out


def sources(t):
    """(element list that the sets of the result come from, guards on the way)"""
    out = []
    if t.op != "coll":
        return [(t, frozenset(), None)]
    for p in t.a[1]:
        e, g, b = p.a
        out.append((e, g, b))
    return out


def pipeline(ctx, name, kind, ss, extr):
    f = ctx.fn(name)
    if f is None:
        ctx.hold("entry points", name, None)
        return set(), set()
    rule = "%s reports only what was found" % name
    h = Whole(ctx.prog, ss, extr)
    I_, outs, _ = ctx.run(f, hooks=[h])
    ctx.hold(rule, "reaches a search", True if h.used else None)
    for st, v in outs:
        base_facts = literals(st.facts)
        walk(ctx, rule, name, kind, f, v, base_facts, extr, 0)
    return h.used, I_.stats["functions"]


def walk(ctx, rule, name, kind, f, v, lits, extr, depth):
    """every set in v stems from a search or from a checked extraction"""
    w = where(f)

    def ob(inst, cond, msg="", key=""):
        ctx.hold(rule, inst, cond, w, msg, key="%s/%s" % (name, key or inst))
    if v.op == "agg" and v.a[0].split("::")[-1] == "Option":
        if kind == "pair":
            if v.a[1] == "Some":
                pairs(ctx, rule, name, f, fields(v)["0"], lits)
                walk(ctx, rule, name, kind, f, fields(v)["0"], lits, extr, depth)
        return
    seen = set()
    reduced = minimalised(v)
    for x in subterms(v):
        if x.op == "call" and x.a[0] in {e.short for e in extr.values()} and x not in seen:
            seen.add(x)
    bad = False
    for x, g in occurrences(v):
        if x.op == "call" and x.a[0] == "FOUND":
            if kind == "splitting":
                ob("sets of the search are reduced to minimal ones", True if reduced(x) else (False if clear(v) else None), "sets of the search are not reduced", "reduced")
            else:
                ob("from the search", True)
        else:
            # extraction from a symmetric cluster
            q = x.a[1][0]
            lit = literals({**dict(lits), **dict(g)})
            dup = [t for k, t in lit if k.op == "call" and k.a[0] == "QuorumSet::contains_duplicates" and k.a[1][0] is q]
            if False in dup:
                ob("from a symmetric cluster without duplicates", True)
                continue
            e = elem(x)
            if kind == "quorum":
                m = minimal_quorum(relit(lit), anyelem(lit, x))
                msg = "not tested for minimality"
            elif kind == "blocking":
                cl = mk("call", "QuorumSet::contained_nodes", (q,))
                X = anyelem(lit, x)
                m, msg = minimal_blocking(lit, X, lambda T, y: cluster_putback(T, y, X, cl))
            else:
                m, msg = False, "splitting sets cannot be read off a cluster with duplicates"
            if m is False and not (clear_facts(lit)):
                m = None
            ob("sets from a symmetric cluster with duplicates are tested like others", m, msg, "symmetric")


def pairs(ctx, rule, name, f, v, lits):
    """quorums of different clusters are their satisfiable parts, and there are at least two"""
    w = where(f)
    if v.op == "coll" and not v.a[2]:
        for p in v.a[1]:
            e, g, b = p.a
            if any(x.op == "call" and x.a[0] == "FOUND" for x in subterms(e)):
                continue
            c = e.a[0] if e.op == "fld" and e.a[1] == "0" else None
            okk = None
            if c is not None and c.op == "call" and c.a[0] == "find_satisfiable_nodes" and len(b) == 1:
                okk = c.a[1][0] is elem(*b[0]) or None
            elif clear(e) and not any(x.op == "call" and x.a[0] == "find_satisfiable_nodes" and mentions(e, x) and x is not e and any(mentions(x, elem(*y)) for y in b) for x in subterms(e)):
                okk = False
            ctx.hold(rule, "clusters are reduced to their satisfiable nodes", okk, w, show(e, 6), key="%s/satisfiable" % name)
            n = length(v)
            two = [x for k, x in lits if k is lt(n, I(2))]
            if two:
                ctx.hold(rule, "at least two", two[0] is False, w, key="%s/two" % name)
            else:
                ctx.hold(rule, "at least two", False if clear_facts(lits) and not any(mentions(k, x) for k, _ in lits for x in [b[0][0]] if b) else None, w, "reported without checking that there are two", key="%s/two" % name)


def relit(l):
    return l


def anyelem(lits, x):
    """the element of the extraction x that the guards speak about"""
    for k, _ in lits:
        for y in subterms(k):
            if y.op == "elem" and y.a[0] is x:
                return y
    return elem(x)


def cluster_putback(T, x, X, cl):
    if clear(T) and not mentions(T, cl):
        return False
    if T.op != "coll" or T.a[2]:
        return None
    addx, base = False, None
    for e, g, b in (p.a for p in T.a[1]):
        if e is x and not g and not b:
            addx = True
        elif e.op == "elem" and len(b) == 1 and b[0] == (e.a[0], e.a[1]):
            g2 = [(k, v) for k, v in g if not (k.op == "eq" and x in k.a) and not (k is contains(X, e) and v is False)]
            if e.a[0] is X and not g2:
                return False
            if g2 or base is not None:
                return False if clear(T) and g2 and all(k is contains(X, e) for k, _ in g2) else None
            base = e.a[0]
        else:
            return None
    if base is None:
        return None
    if base is cl:
        return addx
    return False if clear(base) else None


def occurrences(v):
    """(search result or extraction, guards) for each list the sets in v are drawn from"""
    out = []
    seen = set()

    def go(t, g):
        if (t, g) in seen:
            return
        seen.add((t, g))
        if t.op == "part":
            e, pg, b = t.a
            g2 = g | pg
            for s, _ in b:
                go(s, g2)
            go(e, g2)
            return
        if t.op == "call" and (t.a[0] == "FOUND" or t.a[0] in EXNAMES):
            out.append((t, g))
            return
        if t.op == "call" and t.a[0] in STOP:
            return
        if t.op in ("elem", "fld", "pay", "mcp", "iter", "coll", "call", "combs", "idx", "hashed", "first", "rest", "lv", "phi"):
            for y in kids(t):
                go(y, g)
    go(v, frozenset())
    return out


def minimalised(v):
    inner = set()
    for x in subterms(v):
        if x.op == "call" and x.a[0] == "remove_non_minimal_node_sets":
            for y in subterms(x):
                inner.add(y)
    return lambda x: x in inner


EXNAMES = set()


def check(ctx):
    ss = steps(ctx)
    extr = extractors(ctx.prog)
    EXNAMES.clear()
    EXNAMES.update(f.short for f in extr.values())
    # which entry point reaches which search
    n = 0
    for name, kind in KINDS.items():
        f = ctx.fn(name)
        if not ctx.anchor(name, f):
            continue
        used, fns = pipeline(ctx, name, kind, ss, extr)
        for s in ss:
            if s.f.id in used:
                o = Found(ctx, s)
                o._kind = kind
                o.checkfound()
                n += 1
        if kind in ("quorum", "blocking"):
            repetitions(ctx, name, fns, extr)
    ctx.hold("searches found", "%d searches" % n, True if n >= 4 else None)


DEDUP = mk("sym", "#repetitions removed")


class Once(Whole):
    """notes where repetitions are removed"""
    other = False

    def call(self, I_, st, fr, span, name, fn, args):
        if name in ("Vec::dedup", "Itertools::unique", "Itertools::dedup") and args:
            v = I_.read(st, args[0])
            if name == "Itertools::unique" or v.op == "coll" and "sorted" in v.a[3]:
                st.facts[DEDUP] = True
        elif name and ("dedup" in name or "unique" in name or name.startswith(("BTreeSet", "HashSet", "BTreeMap", "HashMap"))):
            self.other = True
        return super().call(I_, st, fr, span, name, fn, args)


def repetitions(ctx, name, fns, extr):
    """sets extracted from a cluster with duplicates are reported once each"""
    rule = "no repetitions from clusters with duplicates"
    found = False
    for g in sorted((g for g in ctx.prog.fns.values() if g.id in fns), key=lambda g: g.id):
        if g.kind == "Closure" or g.id in extr or not (callees(ctx.prog, g) & set(extr)):
            continue
        h = Once(ctx.prog, [], extr)
        I_, outs, _ = ctx.run(g, hooks=[h])
        for st, v in outs:
            d = [x for k, x in literals(st.facts) if k.op == "call" and k.a[0] == "QuorumSet::contains_duplicates"]
            if d and d[0] is False:
                continue
            found = True
            okk = None
            if v.op == "coll":
                okk = "uniq" in v.a[3] or v.a[0] in SETS or st.facts.get(DEDUP) is True
                okk = okk or None if h.other else okk
                if not okk and not clear(v):
                    okk = None
            elif v.op == "call" and v.a[0] in EXNAMES:
                okk = False
            ctx.hold(rule, g.short, okk, where(g), "the list may contain a set more than once: %s" % show(v, 5), key="%s/repetitions" % name)
    if not found:
        ctx.hold(rule, name, None)
