"""Equality, hash and order of Fbas, Node and QuorumSet.  Each implementation of PartialEq, Hash,
Ord and PartialOrd is either the compiler's derivation (all fields) or is analysed on two symbolic
values: the equality term must hold when all content fields agree and must imply the equality of
each of them; hash and order must read every content field whole and nothing else.  Content of an
Fbas are its nodes (the key index is a function of them), of Node and QuorumSet all fields."""
from base import *
from models import veq

TYPES = ("Fbas", "Node", "QuorumSet")
INDEX = {"Fbas": ("pk_to_id",)}


class Rec(ai.Hook):
    def __init__(self):
        self.hashed = []

    def call(self, I, st, fr, span, name, fn, args):
        if fn is None and name in ("Hash::hash", "Hash::hash_slice") or name.startswith("Hasher::write"):
            v = I.read(st, args[0 if name.startswith("Hash::") else 1])
            self.hashed.append(v)
            return [(st, UNIT)]
        if fn is not None and fn.derived and fn.name == "hash":
            self.hashed.append(I.read(st, args[0]))
            return [(st, UNIT)]
        return None


def impls(prog, name):
    a = prog.adt(name)
    if not a:
        return None
    out = {}
    for (tr, m), l in prog.trimpl.items():
        for selfty, fid, im in l:
            if selfty.k == "adt" and selfty.a[1] == a["p"]:
                out[(tr.split("::")[-1], m)] = (prog.fns.get(fid), im)
    return out


def covers(ts, x):
    """some term of ts is x itself or ranges over all elements of x, whole"""
    for t in ts:
        for s in subterms(t):
            if s is x or (s.op == "elem" and s.a[0] is x):
                return True
    return False


def whole(ts, root, content):
    """content fields of root that ts read completely, and fields read at all"""
    read, full = set(), set()
    for t in ts:
        st = [(t, None)]
        seen = set()
        while st:
            x, par = st.pop()
            if (x, par) in seen:
                continue
            seen.add((x, par))
            if x is root:
                if par is not None and par.op == "fld":
                    read.add(par.a[1])
                elif par is None or par.op not in ("fld",):
                    read.add("*")
                continue
            if x.op == "fld" and x.a[0] is root:
                if not (par is not None and par.op in ("len", "fld", "idx", "elem", "contains", "slice")):
                    full.add(x.a[1])
                elif par.op == "elem":
                    st.append((par, "el"))
                read.add(x.a[1])
                continue
            for y in kids(x):
                st.append((y, x))
    return read, full


def usedwhole(ts, v):
    """does v, or every element of v whole, enter the terms"""
    el = elem(v)
    for t in ts:
        todo = [(t, None)]
        seen = set()
        while todo:
            x, par = todo.pop()
            if (x, par) in seen:
                continue
            seen.add((x, par))
            if x is v and (par is None or par.op not in ("len", "fld", "idx", "elem", "pos", "part", "coll", "contains", "slice", "first", "range")):
                return True
            if x is el and (par is None or par.op not in ("fld", "pos", "len")):
                return True
            if x.op == "idx" and x.a[0] is v and (par is None or par.op not in ("fld", "len")):
                return True
            if x.op in ("elem", "pos", "idx", "len"):
                if x.op == "idx" and x.a[0].op in ("coll",):
                    todo.append((x.a[0], x))
                continue
            if x.op == "part":
                todo.append((x.a[0], x))
                for k, _ in x.a[1]:
                    todo.append((k, x))
                continue
            for y in kids(x):
                todo.append((y, x))
    return False


def check(ctx):
    prog = ctx.prog
    for n in TYPES:
        a = prog.adt(n)
        if not ctx.anchor("type " + n, a):
            continue
        fs = [f for f, _, _ in a["v"][0][1]]
        content = [f for f in fs if f not in INDEX.get(n, ())]
        ims = impls(prog, n)
        for tr, m in (("PartialEq", "eq"), ("Hash", "hash"), ("Ord", "cmp"), ("PartialOrd", "partial_cmp")):
            f, im = ims.get((tr, m), (None, None))
            if not ctx.anchor("impl %s for %s" % (tr, n), f):
                continue
            inst = "%s for %s" % (tr, n)
            if f.derived:
                ctx.functions.add(f.id)
                ctx.hold("derived over all fields", inst, not INDEX.get(n) or all(x not in fs for x in INDEX[n]), where(f),
                         "derivation would also use the key index")
                continue
            rec = Rec()
            I, outs, av = ctx.run(f, hooks=[rec])
            x, y = [I.read(outs[0][0] if outs else ai.State(), v) for v in av[:2]]
            if tr == "PartialEq":
                t = or_(*[and_(v, *[k if b else not_(k) for k, b in s.facts.items()]) for s, v in outs])
                m_ = {fld(y, c): fld(x, c) for c in content}
                refl = subst(t, m_)
                ctx.hold("equal content is equal", inst, holds(refl), where(f), "not true for equal content: %s" % show(refl, 5))
                s = ai.State()
                s.assume(t, True)
                for c in content:
                    e = eq(fld(x, c), fld(y, c))
                    okk = s.known(e)
                    if okk is not True:
                        okk = True if usedwhole([t], fld(x, c)) and usedwhole([t], fld(y, c)) else False
                    ctx.hold("equality decides " + c, inst, okk, where(f), "equality does not compare %s completely: %s" % (c, show(t, 6)))
                    if okk and s.known(e) is not True and clear_(t):
                        ctx.hold("equality decides the number of " + c, inst, not prefix(t, fld(x, c), fld(y, c)), where(f), "only as many %s as both have are compared: %s" % (c, show(t, 6)))
                used = {z.a[1] for z in subterms(t) if z.op == "fld" and z.a[0] in (x, y)}
                for c in INDEX.get(n, ()):
                    ctx.hold("equality ignores " + c, inst, c not in used, where(f))
                opaque_view(ctx, inst, f, [t])
            elif tr == "Hash":
                ts = rec.hashed
                for c in content:
                    ctx.hold("hash covers " + c, inst, usedwhole(ts, fld(x, c)) or x in ts, where(f), "hash reads %s" % ", ".join(show(t, 5) for t in ts))
                used = {z.a[1] for t in ts for z in subterms(t) if z.op == "fld" and z.a[0] is x}
                for c in INDEX.get(n, ()):
                    ctx.hold("hash ignores " + c, inst, c not in used, where(f))
                opaque_view(ctx, inst, f, ts)
            else:
                ts = [v for s, v in outs] + [k for s, v in outs for k in s.facts]
                if tr == "PartialOrd":
                    none = [1 for s, v in outs if v is NONE]
                    ctx.hold("order is total", inst, not none, where(f))
                for c in content:
                    ctx.hold("order covers " + c, inst, usedwhole(ts, fld(x, c)) and usedwhole(ts, fld(y, c)), where(f), "order reads %s" % ", ".join(show(t, 5) for t in ts))
                used = {z.a[1] for t in ts for z in subterms(t) if z.op == "fld" and z.a[0] in (x, y)}
                for c in INDEX.get(n, ()):
                    ctx.hold("order ignores " + c, inst, c not in used, where(f))
                opaque_view(ctx, inst, f, ts)
        (po, _), (o, _) = ims.get(("PartialOrd", "partial_cmp"), (None, None)), ims.get(("Ord", "cmp"), (None, None))
        if po and o and not po.derived and not o.derived:
            I, o1, a1 = ctx.run(po, hooks=[Rec()])
            I, o2, a2 = ctx.run(o, hooks=[Rec()])
            ok, t = None, ""
            if len(o1) == len(o2) == 1 and a1 == a2 and isagg(o1[0][1]) and o1[0][1].a[1] == "Some":
                v, w = fields(o1[0][1])["0"], o2[0][1]
                x, y = [I.read(o2[0][0], z) for z in a2[:2]]
                t = "partial_cmp answers %s, cmp answers %s" % (show(v, 5), show(w, 5))
                ok = True if v is w else None
                if ok is None and v.op == w.op == "cmp" and clear_(v) and clear_(w) and v.a[:2] == (w.a[1], w.a[0]):
                    ok = False
            ctx.hold("both orders agree", n, ok, where(po), t)
    ctx.floor("obligations", ctx.obl, 12)


def clear_(t):
    return not any(z.op in ("lv", "phi", "opaque", "undef", "out", "dyncall") for z in subterms(t))


def prefix(t, u, v):
    """the elements of u and v are compared pairwise, their numbers are not"""
    pair = any(z.op == "idx" and z.a[0] in (u, v) and z.a[1].op == "pos" and z.a[1].a[0] in (u, v) for z in subterms(t))
    return pair and not any(z.op == "len" and z.a[0] in (u, v) for z in subterms(t))


LOSSY = {"sorted", "uniq", "perm"}


def opaque_view(ctx, inst, f, ts):
    """no reordered or filtered view of the content: it would identify different values"""
    bad = []
    for t in ts:
        for z in subterms(t):
            if z.op == "coll" and (any(p.a[1] for p in z.a[1]) or z.a[3] & LOSSY or z.a[0] in SETS):
                bad.append(z)
            if z.op == "within" or z.op in ("slice", "rest") and z is not t and not any(y.op == "pos" for y in subterms(z)):
                bad.append(z)
    ctx.hold("content is compared as it is", inst, not bad, where(f), "compares a reordered or filtered view: %s" % ", ".join(show(z, 5) for z in bad[:2]))
