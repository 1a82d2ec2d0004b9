"""Every operation on quorum sets that is defined recursively is analysed on one level (value flow on
MIR, recursive calls opaque): it calls itself on the elements of its own inner quorum sets with its
other arguments unchanged, the results for all of them enter the result, and an inner quorum set is
only left out under the condition the operation is defined with.  Nothing reads the validators of a
node's quorum set without also handling the inner ones."""
from qsets import *

OPS = [(SL, "count"), (SI, "count"), (CD, "all"), (CN, "all"), (QS, "all"), (BS, "sat"), (PS, "sat"),
       (SHR, "nonempty"), (FR, "all"), (TR, "all"), (MG, "merge"), (PP, "all")]


def check(ctx):
    done = set()
    n = 0
    for name, kind in OPS:
        f, g = resolve(ctx, name)
        if f is None:
            if name in PUBLIC:
                ctx.anchor(name, False)
            else:
                ctx.hold("operations", name, None)
            continue
        if g is None:
            o = Op(ctx, f)
            # no recursion at all: results computed from one level
            vals = [v for _, v in o.outs]
            flat = vals and all(clear(v) for v in vals) and any(o.isfield(x, "validators") for v in vals for x in subterms(v))
            own = {h.short for h in ctx.prog.fns.values() if h.crate == "fbas_analyzer"} - BASIC
            inner = [x for v in vals for x in subterms(v) if x.op == "call" and x.a[0] in own]
            inner += [1 for v in vals if v.op == "call" and v.a[0] in BASIC]
            ctx.hold("recursion over inner quorum sets", name, False if flat and not inner else None, where(f), "only the top level is considered", key=name + "/recursion")
            continue
        if g.id in done:
            continue
        done.add(g.id)
        n += 1
        op(ctx, name, kind, Op(ctx, g))
    f = ctx.fn("QuorumSet::contains_duplicates")
    if ctx.anchor("QuorumSet::contains_duplicates", f):
        dup(ctx, f)
    lint(ctx)
    ctx.floor("recursive operations", n, 1)


def op(ctx, name, kind, o):
    w = where(o.f)
    ctx.hold("recursion over inner quorum sets", name, True)
    for args, facts, ww in o.h.ev:
        q = args[o.qi]
        okk = None
        if q.op == "elem":
            s = q.a[0]
            if o.isfield(s, "inner_quorum_sets"):
                okk = True
            elif s.op == "coll":
                okk = all(p.a[0].op == "elem" and o.isfield(p.a[0].a[0], "inner_quorum_sets") for p in s.a[1]) or None
        elif clear(q):
            okk = None
        ctx.hold("recursive calls are about an inner quorum set", name, okk, ww, show(q, 5), key=name + "/callee")
        for i, a in enumerate(args):
            if i == o.qi:
                continue
            same = a is o.args[i]
            if not same and a.op == "ref" and o.args[i].op == "ref":
                same = a.a == o.args[i].a
            if not same and strip_refs(o.f.argtys()[i]).k == "prim":
                continue  # depth counters and the like
            ctx.hold("inner quorum sets are judged in the same context", "%s: argument %s" % (name, o.f.lnames[i + 1] or i), True if same else (False if clear(a) else None), ww,
                     "%s is passed on as %s" % (o.f.lnames[i + 1] or i, show(a, 5)), key="%s/context/%d" % (name, i))
    # contributions
    contrib = 0
    for p, e in o.parts("inner_quorum_sets"):
        x, g, b = p.a
        sc = [c for c in o.selfcalls(p) if c.a[1][o.qi] is e]
        if not sc:
            continue
        contrib += 1
        for k, v in g:
            kk, vv = strip(k, v)
            okk = None
            if kk.op == "within":
                # a limit on what was already found to count
                s = kk.a[1]
                okk = any(c.op == "call" and c.a[0] == o.name for y in parts_of(s) for l, _ in y.a[1] for c in subterms(l)) if s.op == "coll" else False
                if s is not None and s.op != "coll" and not o.isfield(s, "inner_quorum_sets"):
                    okk = None
                if okk and kind != "count":
                    okk = None
            elif any(c in subterms(kk) or c is kk for c in sc):
                if kind in ("count", "sat", "merge"):
                    okk = True
                elif kind == "nonempty":
                    okk = vv is False and kk.op == "eq" or None
                    if kk.op == "eq" and not vv is False:
                        okk = False
                    elif kk.op != "eq" and clear(kk):
                        okk = False
                else:
                    okk = False if clear(kk) else None
            elif satlit(k, v, e):
                okk = True if kind == "sat" else False
            elif kind == "sat" and kk.op == "call" and kk.a[0] == SL:
                okk = False
            elif clear(kk) and not any(c.op == "call" for c in subterms(kk)):
                okk = False
            ctx.hold("no inner quorum set is left out", "%s" % name, okk, w, "only considered if %s%s" % ("" if vv else "not ", show(kk, 6)), key=name + "/left-out")
    for c in (c for st, v in o.outs for c in o.selfcalls(v)):
        contrib += 1
    inf = any(o.selfcalls(k) for st, _ in o.outs for k in st.facts)
    allclear = all(clear(v) for _, v in o.outs) and not o.I.lvdefs and not inf
    ctx.hold("results for inner quorum sets are used", name, True if contrib else (False if allclear else None), w, "the result does not depend on them", key=name + "/used")
    # every outcome
    for st, v in o.outs:
        if kind == "count":
            continue
        if v.op == "agg" and "inner_quorum_sets" in fields(v):
            i = fields(v)["inner_quorum_sets"]
            okk = True if o.selfcalls(i) else (False if clear(i) and not noinner(o, st) else None)
            ctx.hold("every result includes the inner quorum sets", name, okk, w, "inner_quorum_sets: %s" % show(i, 5), key=name + "/included")
            for p in parts_of(i):
                sc = o.selfcalls(p)
                x = p.a[0]
                if sc:
                    ctx.hold("inner quorum sets enter the result unchanged", name, True if x in sc else (False if clear(x) and x.op == "agg" else None), w, show(x, 5), key=name + "/unchanged")
            if kind == "merge":
                merged(ctx, o, name, v, w)
        else:
            usesv = any(o.isfield(x, "validators") for x in subterms(v))
            if usesv and not o.selfcalls(v):
                ctx.hold("every result includes the inner quorum sets", name, False if clear(v) and not noinner(o, st) else None, w, show(v, 5), key=name + "/included")
            else:
                ctx.hold("every result includes the inner quorum sets", name, True)


def noinner(o, st):
    return any(k.op == "eq0" and v and k.a[0].op == "len" and o.isfield(k.a[0].a[0], "inner_quorum_sets") for k, v in st.facts.items())


def merged(ctx, o, name, v, w):
    """what is taken out of the inner quorum sets shows up as validator"""
    i, val = fields(v)["inner_quorum_sets"], fields(v)["validators"]
    for q in subterms(val):
        if q.op == "part":
            for c in o.selfcalls(q.a[0]):
                if q.a[0].op not in ("idx", "fld", "elem") or not any(y is c for y in (q.a[0].a[0], q.a[0].a[0].a[0] if q.a[0].a[0].a else None)):
                    continue
                empty = any(k is eq0(length(mk("fld", c, "inner_quorum_sets"))) and x for k, x in q.a[1])
                ctx.hold("inner quorum sets that become validators have no inner quorum sets", name, True if empty else (False if clear(q) else None), w, "replaced by %s" % show(q.a[0], 5), key=name + "/collapsed")
    for p in parts_of(i):
        e, g, b = p.a
        for k, x in g:
            k, x = strip(k, x)
            if not o.selfcalls(k):
                continue
            neg = {k} if x is False and k.op != "and" else set(k.a) if x is False else None
            okk = None
            if neg is not None:
                for q in subterms(val):
                    if q.op == "part" and q.a[2] == b:
                        if {kk for kk, xx in q.a[1] if xx} == neg and all(xx for _, xx in q.a[1]):
                            okk = True
                if okk is None and clear(val) and not o.selfcalls(val):
                    okk = False
            ctx.hold("inner quorum sets taken out become validators", name, okk, w, "inner quorum sets are dropped if %s" % show(k, 5), key=name + "/dropped")


def dup(ctx, f):
    """duplicates are counted over all levels"""
    class H(ai.Hook):
        def opaque(self, I_, fn):
            return fn.short in (CN, CD)
    I_, outs, a = ctx.run(f, hooks=[H()])
    for st, v in outs:
        n = v
        while n.op == "not":
            n = n.a[0]
        lists = [x for x in subterms(v) if x.op == "call" and x.a[0] in (CN, CD)]
        okk = None
        if n.op == "eq0" and v.op == "not":
            c, d = lin_parts(n.a[0])
            if c == 0 and len(d) == 2 and sorted(d.values()) == [-1, 1] and all(x.op == "len" for x in d):
                base = []
                for x in d:
                    y = x.a[0]
                    if y.op == "call" and y.a[1] == (a[0],):
                        base.append("list" if y.a[0] == CD else "set")
                    elif y.op == "coll" and y.a[0] == "set" and len(y.a[1]) == 1 and isid(y.a[1][0]) is not None and not y.a[1][0].a[1]:
                        base.append("set")
                if sorted(base) == ["list", "set"]:
                    okk = True
                elif not lists or base == ["set", "set"]:
                    okk = False if clear(v) else None
        elif v.op == "bool" or not lists:
            okk = False if clear(v) and not any(x.op == "call" for x in subterms(v)) else None
        ctx.hold("duplicates are looked for at all levels", f.short, okk, where(f), show(v, 6), key="duplicates")


# -- nobody looks at the top level only ---------------------------------------------------------
def reads(prog, f):
    """fields of QuorumSet that f (with its closures) reads: {(field, directly from a node)}"""
    r = set()
    for g in groupof(prog, f):
        for b in g.blocks:
            if b is None:
                continue
            js = [s for s in b[0]] + [b[1]]
            todo = list(js)
            while todo:
                x = todo.pop()
                if isinstance(x, list):
                    if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list):
                        t = g_local(g, x[0])
                        node = False
                        for el in x[1]:
                            if t is None:
                                break
                            if el == "*":
                                t = t.a[2] if t.k in ("ref", "ptr") else t
                            elif isinstance(el, list) and el[0] == "f":
                                t0 = strip_refs(t)
                                if tystr(t0) == "QuorumSet" and el[1] in ("validators", "inner_quorum_sets"):
                                    r.add(el[1])
                                t = None
                                if t0.k == "adt" and t0.a[1] in prog.adts:
                                    for vn, fs in prog.adts[t0.a[1]]["v"]:
                                        for n, ty_, _ in fs:
                                            if n == el[1]:
                                                t = ty_
                            else:
                                t = None
                    todo.extend(x)
                elif isinstance(x, dict):
                    todo.extend(x.values())
    return r


def g_local(g, i):
    return g.locals[i] if i < len(g.locals) else None


def lint(ctx):
    prog = ctx.prog
    mods = ("::analysis::", "::core_types::", "::io::")
    fs = [f for f in prog.fns.values() if f.crate == "fbas_analyzer" and f.kind not in ("Closure", "Promoted") and not f.derived and any(m in f.id for m in mods)]
    callers = {}
    rd = {}
    for f in fs:
        rd[f.id] = reads(prog, f)
        for c in direct(prog, f):
            callers.setdefault(c, set()).add(f.id)

    def both(i, depth=3):
        if "inner_quorum_sets" in rd.get(i, ()):
            return True
        return depth > 0 and any(both(c, depth - 1) for c in callers.get(i, ()))
    n = 0
    for f in fs:
        if "validators" in rd[f.id]:
            n += 1
            okk = both(f.id) or any("inner_quorum_sets" in rd.get(c, ()) and prog.fns[c].short not in BASIC for c in direct(prog, f))
            if not okk and not callers.get(f.id) and f.vis:
                okk = None
            ctx.hold("validators are not read without the inner quorum sets", f.short, okk, where(f), "only the validators of the top level are looked at", key="lint/" + f.short)
    ctx.floor("readers of validators", n, 3)
