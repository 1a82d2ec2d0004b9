"""Label spaces of node IDs (caller's IDs and IDs of reduced copies) and the exploration of the
states of an Analysis object.  Used by P01 and P02."""
from base import *

OPAQUE = {"find_minimal_quorums", "find_nonintersecting_quorums", "find_minimal_blocking_sets", "find_minimal_splitting_sets", "find_symmetric_clusters",
          "find_symmetric_top_tier", "Fbas::relevant_nodes", "Fbas::satisfiable_nodes", "Fbas::unsatisfiable_nodes", "Fbas::shrunken", "all_intersect",
          "remove_non_minimal_node_sets", "Fbas::all_nodes"}
# functions whose outcome is a set (or list of sets) of IDs of the FBAS given first
SETFNS = {"find_minimal_quorums", "find_nonintersecting_quorums", "find_minimal_blocking_sets", "find_minimal_splitting_sets", "Fbas::relevant_nodes",
          "Fbas::satisfiable_nodes", "Fbas::unsatisfiable_nodes", "find_symmetric_clusters", "find_symmetric_top_tier", "Fbas::all_nodes"}
QUERIES = ("all_nodes", "satisfiable_nodes", "unsatisfiable_nodes", "has_quorum_intersection", "has_quorum_intersection_via_alternative_check",
           "minimal_quorums", "minimal_blocking_sets", "minimal_splitting_sets", "top_tier", "symmetric_top_tier", "symmetric_clusters")


class Opaque(ai.Hook):
    def __init__(self):
        self.panics = []

    def opaque(self, I, fn):
        return fn.short in OPAQUE and fn.crate == "fbas_analyzer"

    def panic(self, I, st, fr, span, what):
        self.panics.append((fr.where(span), what, tuple(f.short for f in fr.stack()), dict(st.facts)))


class Mismatch(Exception):
    pass


class Spaces:
    """assigns label spaces to terms.  A space is "O" (the caller's IDs) or the call term of the
    reduction that defines the smaller ID space; None if unknown."""

    def __init__(self, axioms=None):
        self.ax = axioms or {}  # term -> space of the IDs in it (at any depth)
        self.tables = {}  # term -> (index space, value space)
        self.bad = []
        self.seen = {}
        self.count = 0

    def fbas(self, t):
        """space of an FBAS"""
        if t in self.ax:
            return self.ax[t]
        if t.op == "fld" and t.a[1] == "0" and t.a[0].op == "call" and t.a[0].a[0] == "Fbas::shrunken":
            return t.a[0]
        return None

    def table(self, t):
        """(index space, value space) of a lookup table, or None"""
        if t in self.tables:
            return self.tables[t]
        if t.op == "fld" and t.a[1] in ("unshrink_table", "shrink_map") and t.a[0].op == "fld" and t.a[0].a[1] == "1":
            c = t.a[0].a[0]
            if c.op == "call" and c.a[0] == "Fbas::shrunken":
                f = self.fbas(c.a[1][0])
                return (c, f) if t.a[1] == "unshrink_table" else (f, c)
        if t.op == "fld" and t.a[1] == "merged_ids":
            return ("O", "O")
        if t.op == "fld" and t.a[1] == "pk_to_id":
            return (None, self.fbas(t.a[0]))
        if t.op == "fld" and t.a[1] == "node_id_to_org_idx":
            return ("O", None)
        if t.op == "coll" and t.a[0] in ("map", "hmap") and not t.a[2]:
            ks = {self.of(fld(p.a[0], "0")) for p in t.a[1]}
            vs = {self.of(fld(p.a[0], "1")) for p in t.a[1]}
            if len(ks) == 1 and len(vs) == 1:
                return (ks.pop(), vs.pop())
        if t.op == "fld" and t.a[1] == "nodes":
            f = self.fbas(t.a[0])
            if f is not None:
                return (f, None)
        return None

    def of(self, t):
        r = self.seen.get(t, 0)
        if r == 0:
            self.seen[t] = None
            r = self.seen[t] = self._of(t)
        return r

    def use(self, what, x, want, ctxterm):
        self.count += 1
        s = self.of(x)
        if s is not None and want is not None and s is not want and s != want:
            self.bad.append((what, x, s, want, ctxterm))

    def _of(self, t):
        if t in self.ax:
            return self.ax[t]
        o = t.op
        if o == "elem":
            src = t.a[0]
            if src.op == "range":
                return None
            return self.of(src)
        if o in ("find", "first", "last", "rest", "slice", "hashed", "chosen", "drained"):
            x = t.a[0]
            return self.of(x.a[0] if x.op == "part" else x)
        if o == "call":
            if t.a[0] in SETFNS:
                for y in t.a[1][1:]:
                    self.use("argument of " + t.a[0], y, self.fbas(t.a[1][0]), t)
                return self.fbas(t.a[1][0])
            if t.a[0] == "remove_non_minimal_node_sets":
                return self.of(t.a[1][0])
            if t.a[0] == "Fbas::shrunken":
                self.use("IDs to keep", t.a[1][1], self.fbas(t.a[1][0]), t)
            return None
        if o == "idx":
            tb = self.table(t.a[0])
            if tb is not None:
                self.use("lookup", t.a[1], tb[0], t)
                return tb[1]
            return self.of(t.a[0])
        if o == "pos":
            tb = self.table(t.a[0])
            if tb is not None:
                return tb[0]
            return None
        if o == "pay" or (o == "fld" and t.a[1] in ("0", "1")):
            return self.of(t.a[0])
        if o == "coll":
            s = {self.of(p.a[0]) for p in t.a[1]} | {self.of(x) for _, x, _, _ in t.a[2]}
            s.discard(None)
            if len(s) > 1:
                self.bad.append(("mixed IDs", t, None, None, t))
            return s.pop() if len(s) == 1 else None
        if o == "phi":
            s = {self.of(x) for x in t.a[0]}
            s.discard(None)
            return s.pop() if len(s) == 1 else None
        if o == "agg":
            s = {self.of(x) for _, x in t.a[2]}
            s.discard(None)
            return s.pop() if len(s) == 1 else None
        return None

    def walk(self, t):
        """check every lookup, comparison and argument inside t"""
        for x in subterms(t):
            if x.op in ("idx", "call", "coll"):
                self.of(x)
                if x.op == "call" and x.a[0].startswith(("serde_json::", "Serialize::", "serde::")):
                    for y in x.a[1][:1]:
                        self.use("written out", y, "O", x)
            elif x.op == "contains":
                c, y = x.a
                tb = self.table(c)
                if tb is not None and c not in self.ax:
                    self.use("key", y, tb[0], x)
                else:
                    self.use("membership", y, self.of(c), x)
            elif x.op == "eq":
                a, b = self.of(x.a[0]), self.of(x.a[1])
                self.count += 1
                if a is not None and b is not None and a != b:
                    self.bad.append(("comparison", x.a[0], a, b, x))


def spname(s):
    if s is None:
        return "?"
    if isinstance(s, T):
        return "IDs of the copy reduced to %s" % show(s.a[1][1], 3)
    return "the caller's IDs" if s == "O" else str(s)


# these tell about the nodes that a reduced FBAS lacks, too
PARTIAL = ("Fbas::satisfiable_nodes", "Fbas::unsatisfiable_nodes", "Fbas::all_nodes")


def isreduced(x):
    return x.op == "fld" and x.a[1] == "0" and x.a[0].op == "call" and x.a[0].a[0] == "Fbas::shrunken"


def denote(t, memo=None):
    """t with every relabelling removed and every reduced FBAS replaced by the original"""
    memo = {} if memo is None else memo

    def maps(x):
        return (x.op == "fld" and x.a[1] in ("unshrink_table", "shrink_map")) or (x.op == "coll" and x.a[0] in ("map", "hmap"))

    def go(x):
        if not isinstance(x, T):
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            if isinstance(x, frozenset):
                return frozenset(go(y) for y in x)
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == "call" and x.a[0] in PARTIAL and len(x.a[1]) == 1 and isreduced(x.a[1][0]):
            # other nodes than those of the original
            y = x.a[1][0].a[0].a[1]
            r = call(x.a[0] + " among", go(y[0]), go(y[1]))
        elif x.op == "eq0" and x.a[0].op == "len" and x.a[0].a[0].op == "call" and x.a[0].a[0].a[0] == "Fbas::satisfiable_nodes" and isreduced(x.a[0].a[0].a[1][0]):
            # the reduced FBAS has satisfiable nodes exactly if the original has some
            r = eq0(length(call("Fbas::satisfiable_nodes", go(x.a[0].a[0].a[1][0].a[0].a[1][0]))))
        elif isreduced(x):
            r = go(x.a[0].a[1][0])
        elif x.op == "idx" and maps(x.a[0]):
            r = go(x.a[1])
        elif x.op == "contains" and maps(x.a[0]):
            r = TRUE
        elif x.op == "agg" and "unshrink_table" in fields(x) and "node_sets" in fields(x):
            r = go(fields(x)["node_sets"])
        elif x.op == "agg" and "node_set" in fields(x):
            r = go(fields(x)["node_set"])
        elif x.op == "coll":
            ps = []
            for p in x.a[1]:
                q = go(p)
                ps.append(part(q.a[0], [y for y in q.a[1] if y != (TRUE, True)], q.a[2]))
            r = coll("iter", ps, go(x.a[2]))
            i = identity(r)
            if i is not None:
                r = i
        elif x.op == "elem":
            r = elem(go(x.a[0]), x.a[1])
        elif x.op in ("part",):
            r = mk(x.op, *[go(y) for y in x.a])
        else:
            r = subst(mk("wrap", *[go(y) for y in x.a]), {}) if False else rebuild(x, [go(y) for y in x.a])
        memo[x] = r
        return r

    def rebuild(x, na):
        o = x.op
        f = {"not": not_, "and": and_, "eq": eq, "contains": contains, "is": isvar, "len": length, "idx": getidx, "fld": fld, "pay": pay, "any": any_,
             "eq0": eq0, "le0": le0}.get(o)
        if f:
            return f(*na)
        return mk(o, *na)
    return go(t)


def top_tier_tokens(t):
    """involved nodes of the minimal quorums and of the minimal blocking sets are the same set"""
    def is_inv(x):
        if x.op == "coll" and len(x.a[1]) == 1:
            e, g, b = x.a[1][0].a
            if len(b) == 2 and e.op == "elem" and e.a[0].op == "elem" and not g:
                s = e.a[0].a[0]
                return s.op == "call" and s.a[0] in ("find_minimal_quorums", "find_minimal_blocking_sets")
        return False
    m = {x: call("top_tier", s.a[1][0] if s.a[1] else s) for x in subterms(t) if is_inv(x) for s in [x.a[1][0].a[0].a[0].a[0]]}
    return subst(t, m) if m else t


class Explorer:
    def __init__(self, ctx):
        self.ctx = ctx
        self.fbas = mk("sym", "fbas")
        self.hook = Opaque()
        self.results = []  # (query, history, state, value, facts)
        self.double = []
        self.transitions = 0

    def explore(self):
        ctx = self.ctx
        new = ctx.fn("Analysis::new")
        if not ctx.anchor("Analysis::new", new):
            return
        qs = [(q, ctx.fn("Analysis::" + q)) for q in QUERIES]
        for q, f in qs:
            ctx.anchor("Analysis::" + q, f)
        # further public queries, if any
        for f in self.ctx.prog.fns.values():
            if f.kind == "AssocFn" and f.short.startswith("Analysis::") and f.crate == "fbas_analyzer" and f.vis and f.argc == 1 and not f.trait \
                    and f.name not in QUERIES and tystr(strip_refs(f.argtys()[0])).split("::")[-1] == "Analysis":
                qs.append((f.name, f))
        I = ctx.interp([self.hook])
        outs = I.run_fn(new, [self.fbas], ai.State(), {}, None, None)
        ctx.note_run(I)
        if not outs:
            ctx.report("new", where(new), "Analysis::new does not return")
            return
        todo = []
        seen = {}
        for s, v in outs:
            c = ("a", "analysis")
            s.cells[c] = v
            todo.append((s, ()))
        base = {c: v for c, v in todo[0][0].cells.items()}
        while todo and self.transitions < 600:
            st, hist = todo.pop(0)
            k = self.key(st)
            if k in seen:
                continue
            seen[k] = hist
            if len(hist) > 5:
                continue
            for q, f in qs:
                if f is None:
                    continue
                s0 = st.clone()
                s0.bor = {}
                a = s0.cells[("a", "analysis")]
                I = ctx.interp([self.hook])
                self.hook.panics = []
                outs = I.run_fn(f, [a], s0, {}, None, None)
                ctx.note_run(I)
                self.transitions += 1
                for e in I.events:
                    if e[0] == "doubleborrow":
                        self.double.append((q, hist, e[1]))
                for p in self.hook.panics:
                    if p[1] != "double borrow":
                        self.results.append((q, hist, None, p + (st.facts,)))
                for s, v in outs:
                    self.results.append((q, hist, s, v))
                    s.bor = {}
                    s2 = s.clone()
                    todo.append((s2, hist + (q,)))
        self.states = len(seen)
        return seen

    def key(self, st):
        """state of the caches, values up to relabelling"""
        out = []
        for c, v in sorted(st.cells.items(), key=lambda x: str(x[0])):
            if c[0] == "h":
                out.append((c, self.token(v)))
        fs = frozenset((k, v) for k, v in st.facts.items())
        return (tuple(out), fs)

    def token(self, v):
        return v


def result_space(sp, v, what=""):
    """checks a result value; returns list of problems"""
    out = []
    todo = [v]
    while todo:
        x = todo.pop()
        if x.op == "agg":
            f = fields(x)
            if "node_sets" in f and "unshrink_table" in f:
                t = f["unshrink_table"]
                s = sp.of(f["node_sets"])
                sp.count += 1
                if t.op == "agg" and t.a[1] == "Some":
                    tb = sp.table(pay(t, "Some", "0"))
                    if tb is not None:
                        if s is not None and s != tb[0]:
                            out.append("sets of %s with a translation table for %s" % (spname(s), spname(tb[0])))
                        if tb[1] not in (None, "O"):
                            out.append("translation table leads to %s" % spname(tb[1]))
                elif t is NONE:
                    if s not in (None, "O"):
                        out.append("sets of %s without a translation table" % spname(s))
                elif t.op == "phi" or t.op != "agg":
                    tb = sp.table(pay(t, "Some", "0"))
                continue
            if "node_set" in f and len(f) == 1:
                sp.count += 1
                s = sp.of(f["node_set"])
                if s not in (None, "O"):
                    out.append("set of %s" % spname(s))
                continue
            todo += list(f.values())
            continue
        if x.op in ("coll", "call", "elem", "idx", "phi", "pay", "find"):
            sp.count += 1
            s = sp.of(x)
            if s not in (None, "O"):
                out.append("%s" % spname(s))
    return out
