"""Operations on quorum sets: what they do with the inner quorum sets, as canonical terms.  Every
operation is analysed once with its own recursive calls (and the other operations) as opaque
functions, so the result describes one level in terms of the next one."""
from finders import *

SL, SI = "QuorumSet::is_quorum_slice", "QuorumSet::is_slice_intersection"
CN, CD = "QuorumSet::contained_nodes", "QuorumSet::contained_nodes_with_duplicates"
QS, BS, PS = "QuorumSet::to_quorum_slices", "QuorumSet::to_blocking_sets", "QuorumSet::to_potential_splitting_sets"
SHR, FR, TR = "QuorumSet::shrunken", "QuorumSet::from_raw", "QuorumSet::to_raw"
MG, PP = "Groupings::merge_quorum_set", "QuorumSet::into_pretty_quorum_set"
BASIC = {SL, CN, CD, MG}
PUBLIC = {SL, CN, QS, MG, PP}


class Q(ai.Hook):
    def __init__(self, f, op=BASIC):
        self.f, self.op, self.ev = f, op, []

    def opaque(self, I_, fn):
        return fn.short in self.op and fn.id != self.f.id

    def call(self, I_, st, fr, span, name, fn, args):
        if fn is not None and fn.id == self.f.id:
            self.ev.append(([I_.read(st, a) for a in args], dict(st.facts), fr.where(span)))


def qtype(t):
    return tystr(strip_refs(t)) in ("QuorumSet", "RawQuorumSet")


def qindex(f):
    for i, t in enumerate(f.argtys()):
        if qtype(t):
            return i
    return None


def groupof(prog, f):
    """f and its closures"""
    out, todo = [f], [f]
    while todo:
        g = todo.pop()
        for c in callees(prog, g):
            h = prog.fns[c]
            if h.kind == "Closure" and h not in out:
                out.append(h)
                todo.append(h)
    return out


def direct(prog, f):
    r = set()
    for g in groupof(prog, f):
        r |= {c for c in callees(prog, g) if prog.fns[c].kind != "Closure"}
    return r


def selfrec(prog, f):
    """f calls itself, directly or through helpers"""
    seen, todo = set(), [f.id]
    while todo:
        for c in direct(prog, prog.fns[todo.pop()]):
            if c == f.id:
                return True
            if c not in seen and prog.fns[c].short not in BASIC:
                seen.add(c)
                todo.append(c)
    return False


def resolve(ctx, name):
    """the function that does the recursion of operation `name`: itself or the one it delegates to"""
    f = ctx.fn(name)
    if f is None:
        return None, None
    if selfrec(ctx.prog, f):
        return f, f
    cand = []
    for c in direct(ctx.prog, f):
        g = ctx.prog.fns[c]
        if qindex(g) is not None and selfrec(ctx.prog, g) and (g.short not in BASIC | PUBLIC or (name == CN and g.short == CD)):
            cand.append(g)
    return f, (cand[0] if len(cand) == 1 else None)


class Op:
    def __init__(self, ctx, f):
        self.f = f
        self.h = Q(f)
        self.I, self.outs, self.args = ctx.run(f, hooks=[self.h])
        self.qi = qindex(f)
        self.q = self.args[self.qi]
        self.name = f.short

    def src(self, field):
        r = [mk("fld", self.q, field)]
        return r

    def isfield(self, t, field):
        """t is the field of the quorum set (or of its merged form)"""
        if t.op != "fld" or t.a[1] != field:
            return False
        b = t.a[0]
        return b is self.q or (b.op == "call" and b.a[0] == MG and b.a[1][1] is self.q)

    def selfcalls(self, t):
        return [x for x in subterms(t) if x.op == "call" and x.a[0] == self.name]

    def parts(self, field):
        """all parts of collections in the outcomes that run over the field"""
        seen = set()
        for st, v in self.outs:
            for r in [v] + list(st.facts):
                for p in subterms(r):
                    if p.op == "part" and p not in seen:
                        seen.add(p)
                        for b in p.a[2]:
                            if self.isfield(b[0], field):
                                yield p, elem(*b)


def strip(k, v):
    while k.op == "not":
        k, v = k.a[0], not v
    return k, v


def satlit(k, v, e):
    """the literal says: e can be satisfied"""
    k, v = strip(k, v)
    return v is True and k.op == "call" and k.a[0] == SL and k.a[1][0] is e and k.a[1][1].op == "call" and k.a[1][1].a == (CN, (e,))
