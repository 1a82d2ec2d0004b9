"""Label-space analysis of node IDs.  Every ID-valued term is assigned the numbering it belongs to
(the caller's FBAS, or one particular reduced copy), starting from the reductions, the search
functions' arguments and the fields of the result types; lookups, membership tests, comparisons and
outputs must agree on the numbering.  (a) every answer of the analysis front end in every reachable
state of its caches, (b) every method of the two result types, both for results stored with a
translation table and without, (c) the tables built by the shrink manager and the reduced FBAS."""
from labels import *

RES = ("NodeIdSetResult", "NodeIdSetVecResult")


def flush(ctx, sp, w, key):
    for what, x, s, want, t in sp.bad:
        if what == "mixed IDs":
            ctx.hold("IDs of one numbering", key, False, w, "%s mixes IDs of different numberings" % show(x, 5), key=key + "/mixed")
        else:
            ctx.hold("IDs are used in their own numbering", key, False, w, "%s: %s holds %s but is used as %s" % (what, show(x, 5), spname(s), spname(want)),
                     key="%s/%s" % (key, what))
    sp.bad = []


def fronts(ctx):
    ex = Explorer(ctx)
    seen = ex.explore()
    if not seen:
        return
    sp = Spaces({ex.fbas: "O"})
    n = 0
    for q, hist, st, v in ex.results:
        if st is None:
            continue
        f = ctx.fn("Analysis::" + q)
        w = where(f) if f else q
        for p in result_space(sp, v):
            ctx.hold("answers are in the caller's IDs", "%s after %s" % (q, ", ".join(hist) or "new"), False, w, p, key="front/" + q)
        n += 1
        for x in [v] + list(st.facts) + [x for c, x in st.cells.items() if c[0] == "h"]:
            sp.walk(x)
        flush(ctx, sp, w, "front/" + q)
    ctx.hold("answers are in the caller's IDs", "%d answers in %d states" % (n, ex.states), True)
    ctx.floor("answers of the front end", n, 60)
    ctx.floor("uses of IDs in the front end", sp.count, 40)


def results(ctx):
    n = 0
    for f in sorted(ctx.prog.fns.values(), key=lambda f: f.id):
        if f.crate != "fbas_analyzer" or not f.argc or f.kind == "Closure" or f.derived:
            continue
        for i, t in enumerate(f.argtys()):
            b = strip_refs(t)
            if b.k == "adt" and b.a[1].split("::")[-1] in RES:
                break
        else:
            continue
        kind = b.a[1].split("::")[-1]
        a = ctx.prog.adts.get(b.a[1])
        names = [x[0] for x in a["v"][0][1]] if a else []
        if kind == "NodeIdSetVecResult":
            if not ctx.anchor("fields of " + kind, {"node_sets", "unshrink_table"} <= set(names)):
                return
            variants = ["reduced", "plain"]
        else:
            if not ctx.anchor("fields of " + kind, "node_set" in names):
                return
            variants = ["plain"]
        for var in variants:
            n += one(ctx, f, i, kind, b, a["v"][0][0], var)
    ctx.floor("methods of the result types", n, 24)


def one(ctx, f, i, kind, ty, variant, var):
    st = ai.State()
    args = [symarg(st, f, k) for k in range(f.argc)]
    sets, tbl = mk("sym", "sets"), mk("sym", "table")
    if kind == "NodeIdSetVecResult":
        v = agg(ty.a[1], variant, [("node_sets", sets), ("unshrink_table", some(tbl) if var == "reduced" else NONE)])
    else:
        v = agg(ty.a[1], variant, [("node_set", sets)])
    if args[i].op == "ref":
        st.cells[args[i].a[0]] = v
    else:
        args[i] = v
    I, outs, _ = ctx.run(f, args, [RemoveHook()], st)
    sp = Spaces({sets: "S" if var == "reduced" else "O"})
    sp.tables[tbl] = ("S", "O")
    for k, t in enumerate(f.argtys()):
        if k == i:
            continue
        s = tystr(strip_refs(t))
        a = args[k]
        if s.endswith("::Fbas"):
            sp.ax[a] = "O"
        elif "Groupings" in s:
            g = pay(a, "Some", "0") if "Option" in s else a
            sp.ax[fld(g, "groupings")] = "O"
            sp.ax[fld(g, "fbas")] = "O"
        elif s in ("[usize]", "usize", "BitSet") or "usize" in s and "Vec" in s:
            sp.ax[a] = "O"
    key = "%s[%s]" % (f.short, var)
    internal = not f.vis and not f.trait
    for s, v in outs:
        vals = [v] + [s.cells[c] for c in s.cells if c[0] == "p"]
        for x in vals:
            for p in result_space(sp, x, ids_of_type(f, x)):
                ctx.hold("results are in the caller's IDs", key, None if internal else False, where(f), p, key=key)
            sp.walk(x)
        for x in s.facts:
            sp.walk(x)
    for e in I.events:
        if e[0] == "print":
            for x in e[3]:
                if isinstance(x, T):
                    sp.walk(x)
    flush(ctx, sp, where(f), key)
    ctx.hold("results are in the caller's IDs", "%s: %d outcomes" % (key, len(outs)), True if outs else None)
    return 1


def ids_of_type(f, x):
    return ""


class RemoveHook(ai.Hook):
    def opaque(self, I, fn):
        return fn.short in ("remove_non_minimal_node_sets",) and fn.crate == "fbas_analyzer"


def tables(ctx):
    f = ctx.fn("ShrinkManager::new")
    if not ctx.anchor("ShrinkManager::new", f):
        return
    I, outs, args = ctx.run(f)
    ids = args[0]
    for s, v in outs:
        if v.op != "agg":
            ctx.hold("tables", "ShrinkManager::new", None)
            continue
        t, m = fld(v, "unshrink_table"), fld(v, "shrink_map")
        sp = Spaces({ids: "O"})
        sp.tables[ids] = ("N", "O")
        clear = not any(x.op in ("lv", "opaque", "phi", "out", "find", "part", "call") for x in subterms(t))
        src = t if t is ids else identity(t) if t.op == "coll" else None
        okk = src is ids and not (t.op == "coll" and t.a[3] - {"uniq", "sorted"})
        ctx.hold("translation table lists the kept IDs in order", "ShrinkManager::new", okk or (False if clear else None), where(f), show(t, 6), key="table/unshrink")
        clear = not any(x.op in ("lv", "opaque", "phi", "out", "find", "part", "call") for x in subterms(m))
        okk = False
        if m.op == "coll" and len(m.a[1]) == 1 and not m.a[2]:
            e, g, b = m.a[1][0].a
            k, x = fld(e, "0"), fld(e, "1")
            okk = not g and len(b) == 1 and k is elem(*b[0]) and x.op == "pos" and x.a[1] is k and x.a[0] in (ids, t) and b[0][0] in (ids, t)
        ctx.hold("map is the inverse of the table", "ShrinkManager::new", okk or (False if clear else None), where(f), show(m, 6), key="table/map")
    # translations
    me = agg("ShrinkManager", "ShrinkManager", [("unshrink_table", mk("sym", "tbl")), ("shrink_map", mk("sym", "map"))])
    n = 0
    for g in sorted(ctx.prog.fns.values(), key=lambda g: g.id):
        if g.crate != "fbas_analyzer" or not g.short.startswith("ShrinkManager::") or g.short == "ShrinkManager::new" or g.kind == "Closure" or g.derived:
            continue
        if not g.argc or not tystr(strip_refs(g.argtys()[0])).endswith("ShrinkManager"):
            continue
        st = ai.State()
        args = [symarg(st, g, k) for k in range(g.argc)]
        args[0] = me
        sp = Spaces({})
        sp.tables[mk("sym", "tbl")] = ("N", "O")
        sp.tables[mk("sym", "map")] = ("O", "N")
        inp = {"shrink_set": "O", "shrink_sets": "O", "unshrink_set": "N", "unshrink_sets": "N", "reshrink_sets": "P"}.get(g.name)
        out = {"shrink_set": "N", "shrink_sets": "N", "unshrink_set": "O", "unshrink_sets": "O", "reshrink_sets": "N"}.get(g.name)
        if inp is None:
            continue
        n += 1
        sp.ax[args[1]] = inp
        if g.name == "reshrink_sets":
            old = agg("ShrinkManager", "ShrinkManager", [("unshrink_table", mk("sym", "oldtbl")), ("shrink_map", mk("sym", "oldmap"))])
            args[2] = old
            sp.tables[mk("sym", "oldtbl")] = ("P", "O")
            sp.tables[mk("sym", "oldmap")] = ("O", "P")
        I, outs, _ = ctx.run(g, args, (), st)
        for s, v in outs:
            r = sp.of(v)
            ctx.hold("translation ends in the right numbering", g.short, True if r == out else (None if r is None else False), where(g),
                     "%s instead of %s" % (names(r), names(out)), key="manager/" + g.name)
            sp.walk(v)
        flush(ctx, sp, where(g), "manager/" + g.name)
        full(ctx, g, outs, args[1])
    ctx.floor("translations", n, 3)


def full(ctx, g, outs, src):
    """every ID of every set is translated, none dropped"""
    for s, v in outs:
        if v.op != "coll" or any(x.op in ("lv", "opaque", "phi", "out") for x in subterms(v)):
            ctx.hold("all IDs are translated", g.short, None)
            continue
        q = part(v)
        okk = True
        cur = v
        want = src
        depth = 2 if g.name.endswith("sets") else 1
        for d in range(depth):
            if cur.op != "coll" or len(cur.a[1]) != 1 or cur.a[2]:
                okk = None
                break
            e, gd, b = cur.a[1][0].a
            if len(b) != 1 or b[0][0] is not want:
                okk = None
                break
            if any(x.op != "contains" for x, _ in gd):
                okk = False
            want = elem(*b[0])
            cur = e
        ctx.hold("all IDs are translated", g.short, okk, where(g), show(v, 6), key="manager/%s/all" % g.name)


def names(s):
    return {"N": "reduced IDs", "O": "original IDs", "P": "IDs of the other reduction"}.get(s, str(s))


class Writes(ai.Hook):
    def __init__(self):
        self.w = []

    def write(self, I, st, fr, span, cell, path, val):
        if path and path[0] == ("f", "nodes") and len(path) > 1 and path[1][0] in ("i", "e"):
            self.w.append((path, val, fr.where(span) if fr else ""))


def reduced(ctx):
    f = ctx.fn("Fbas::shrunken")
    if not ctx.anchor("Fbas::shrunken", f):
        return
    h = Writes()
    I, outs, args = ctx.run(f, hooks=[h])
    me, ids = args[0], args[1]
    sp = Spaces({ids: "O", me: "O"})
    sp.tables[ids] = ("N", "O")
    nn = 0
    seen = False
    # nodes written one by one
    pairs = []
    for path, val, w in h.w:
        if len(path) == 2:
            pairs.append((path[1][1], val, w))
    for s, v in outs:
        nodes = fld(fld(v, "0"), "nodes")
        for x in subterms(nodes):
            sp.walk(x)
        if nodes.op == "coll":
            for p in nodes.a[1]:
                e, g, b = p.a
                if e.op == "agg" and len(b) == 1 and b[0][0] is ids:
                    pairs.append((pos(ids, elem(*b[0])), e, where(f)))
                    seen = True
    for k, node, w in pairs:
        if node.op != "agg" or "quorum_set" not in fields(node):
            continue
        nn += 1
        seen = True
        # the node stored at new ID k is the one with the old ID that k stands for
        sk = sp.of(k)
        ctx.hold("nodes are stored under their new ID", "Fbas::shrunken", None if sk is None else sk == "N", w, "stored at %s" % show(k, 5), key="reduced/index")
        vals = fld(fld(node, "quorum_set"), "validators")
        sv = qspace(sp, vals, me)
        ctx.hold("validators are translated", "Fbas::shrunken", None if sv is None else sv == "N", w, "validators are %s" % show(vals, 5), key="reduced/validators")
        inner = fld(fld(node, "quorum_set"), "inner_quorum_sets")
        ss = [x for x in subterms(inner) if x.op == "call" and x.a[0].startswith("QuorumSet::")]
        src = [x for x in subterms(inner) if x.op == "fld" and x.a[1] == "inner_quorum_sets"]
        raw = [p for p in (inner.a[1] if inner.op == "coll" else []) if p.a[0].op == "elem" and p.a[0].a[0].op == "fld"]
        ctx.hold("inner quorum sets are translated", "Fbas::shrunken", False if raw or (inner.op == "fld") else True if ss else None, w, show(inner, 5), key="reduced/inner")
        pk = fld(node, "public_key")
        if pk.op == "fld" and pk.a[1] == "public_key":
            n0 = pk.a[0]
            old = n0.a[1] if n0.op == "idx" and n0.a[0] is fld(me, "nodes") else pos(fld(me, "nodes"), n0) if n0.op == "elem" and n0.a[0] is fld(me, "nodes") else None
            tgt = k.a[1] if k.op == "pos" and k.a[0] is ids else None
            if old is not None and tgt is not None:
                ctx.hold("new and old ID belong together", "Fbas::shrunken", True if tgt is old else None, w, "%s is stored for %s" % (show(old, 5), show(tgt, 5)), key="reduced/pair")
    flush(ctx, sp, where(f), "reduced")
    ctx.hold("reduced FBAS", "%d nodes written" % nn, True if seen else None)


def qspace(sp, vals, me):
    if vals.op == "fld" and vals.a[1] == "validators":
        return "O"
    if vals.op == "coll":
        rs = set()
        for p in vals.a[1]:
            e = p.a[0]
            if e.op == "elem" and e.a[0].op == "fld" and e.a[0].a[1] == "validators":
                rs.add("O")
            else:
                rs.add(sp.of(e))
        return rs.pop() if len(rs) == 1 else None
    return None


def check(ctx):
    fronts(ctx)
    results(ctx)
    tables(ctx)
    reduced(ctx)
