"""The exhaustive searches: a recursive step works on a queue of unprocessed nodes and on node sets
that depend on the choices made so far.  One level of the recursion is analysed with symbolic
arguments; recursive calls are taken to restore what they borrow (which is itself checked at the
exits), so the values at the recursive calls and at the exits give the exact bookkeeping."""
from base import *

PRED = {"Fbas::is_quorum", "contains_quorum", "find_satisfiable_nodes", "QuorumSet::is_quorum_slice", "QuorumSet::is_slice_intersection", "all_intersect"}
FUZZY = ("lv", "phi", "opaque", "undef", "out", "dyncall")


def clear(t):
    return not any(x.op in FUZZY for x in subterms(t))


class Rec(ai.Hook):
    """intercept the recursive calls"""

    def __init__(self, root, opaque=PRED):
        self.root, self.ev, self.op = root, [], opaque

    def opaque(self, I_, fn):
        return fn.short in self.op

    def call(self, I_, st, fr, span, name, fn, args):
        if fn is not None and fn.id == self.root.id:
            d = {}
            self.ev.append(([I_.read(st, a) for a in args], dict(st.facts), fr.where(span)))
            return [(st, mk("call", "REC", (I(len(self.ev)),)))]


class First(ai.Hook):
    """intercept the first call of the step from outside"""

    def __init__(self, root, opaque):
        self.root, self.ev, self.op = root, [], opaque

    def opaque(self, I_, fn):
        return fn.short in self.op

    def call(self, I_, st, fr, span, name, fn, args):
        if fn is not None and fn.id == self.root.id:
            self.ev.append(([I_.read(st, a) for a in args], dict(st.facts), st.open, fr.where(span)))
            c = mk("call", "STEP", (I(len(self.ev)),))
            for i, a in enumerate(args):
                if a.op == "ref":
                    cell, path = I_.mutref(st, a)
                    I_.store(st, cell, path, mk("out", c, i), fr, span)
            return [(st, c)]


def mutarg(t):
    return t.k == "ref" and t.a[1]


class Step:
    def __init__(self, ctx, f):
        self.f, self.ctx = f, ctx
        self.names = [f.lnames[i + 1] or "arg%d" % i for i in range(f.argc)]
        self.kind = []
        for t in f.argtys():
            s = tystr(strip_refs(t))
            if "VecDeque" in s:
                k = "queue"
            elif "Vec" in s and "BitSet" in s:
                k = "found" if mutarg(t) else "parts"
            elif "BitSet" in s:
                k = "set" if mutarg(t) else "other"
            elif s == "bool":
                k = "flag"
            elif s == "usize":
                k = "count"
            elif s.endswith("Fbas"):
                k = "fbas"
            else:
                k = "other"
            self.kind.append(k)

    def idx(self, k):
        return [i for i, x in enumerate(self.kind) if x == k]

    def run(self, flag=None):
        st = ai.State()
        args = [symarg(st, self.f, i) for i in range(self.f.argc)]
        for i in self.idx("flag"):
            if flag is not None:
                args[i] = B(flag)
        h = Rec(self.f)
        I_, outs, _ = self.ctx.run(self.f, args, [h], st)
        self.syms = [mk("sym", n) for n in self.names]
        self.cell = {i: args[i].a[0] for i in range(self.f.argc) if args[i].op == "ref"}
        return h.ev, outs, I_


def steps(ctx):
    """recursive functions that work off a queue of nodes"""
    out = []
    for f in sorted(ctx.prog.fns.values(), key=lambda f: f.id):
        if f.crate != "fbas_analyzer" or f.kind == "Closure" or f.derived:
            continue
        if any("VecDeque<usize" in tystr(strip_refs(t)) for t in f.argtys()) and recursive(ctx.prog, f):
            out.append(Step(ctx, f))
    return out


def callees(prog, f):
    c = getattr(f, "_callees", None)
    if c is None:
        c = set()
        for b in f.blocks:
            if b is None:
                continue
            t = b[1]
            if t[0] == "call" and t[1][0] == "fn":
                r = t[1][1]["res"] or t[1][1]["p"]
                if r in prog.fns:
                    c.add(r)
            for s in b[0]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "closure":
                    c.add(s[2][1][1])
        f._callees = c
    return c


def reach(prog, f):
    seen, todo = set(), [f.id]
    while todo:
        x = todo.pop()
        for y in callees(prog, prog.fns[x]) if x in prog.fns else ():
            if y not in seen:
                seen.add(y)
                todo.append(y)
    return seen


def recursive(prog, f):
    return f.id in reach(prog, f)


def member(v, S, c):
    """(membership of c in v: True/False/'same'/None, the rest of v is the rest of S: True/False/None)
    for a set v built from the set S by choices about c"""
    if v is S:
        return "same", True
    if v.op != "coll" or v.a[2]:
        return None, None
    cand, rest, extra = None, None, False
    for e, g, b in (p.a for p in v.a[1]):
        if not b and e is c and not g:
            cand = True
        elif e.op == "elem" and e.a[0] is S and len(b) == 1 and b[0] == (e.a[0], e.a[1]):
            r = {(k, x) for k, x in g if not (k.op == "eq" and set(k.a) == {e, c} and x is False)}
            if r:
                return None, (False if all(clear(k) for k, _ in r) else None)
            rest = True
            if r != set(g):
                cand = cand or False
            else:
                cand = cand or "same"
        elif clear(e) and all(clear(k) for k, _ in g):
            extra = True
        else:
            return None, None
    if extra or not rest:
        return cand, False
    return cand, True


def facts_of(fs):
    return sorted(fs.items(), key=lambda x: x[0].n)
