"""Configurators report truthfully whether they changed the quorum set of the node at hand; the simulator counts and stops by it."""
from p20 import *

RULE1 = "without a reported change the FBAS is left as it was"
RULE2 = "only the quorum set of the node at hand is changed"
RULE3 = "a change is reported only if the quorum set became another one"


def impls(ctx, trait, name):
    return sorted((f for f in ctx.prog.fns.values() if f.crate == "fbas_analyzer" and f.name == name
                   and f.trait and f.trait.split("::")[-1] == trait and f.blocks), key=lambda f: f.short)


def join(rs):
    rs = list(rs)
    return False if False in rs else (None if None in rs else True)


def touched(N, base, node, lvd, seen=()):
    """(does N differ from `base` at most in the quorum set of `node`, new quorum set or None)"""
    if N is base:
        return True, None
    if N in seen:
        return True, None
    if N.op == "lv":
        d = lvd.get(N)
        if not d or d["init"] is None:
            return None, None
        r, q = touched(d["init"], base, node, lvd, seen)
        rs = [r]
        for w in d["upd"]:
            r2, q2 = touched(w, N, node, lvd, seen + (N,))
            rs.append(r2)
            q = q or (q2 is not None and F(getidx(N, node), "quorum_set")) or None
        return join(rs), q
    if N.op != "coll":
        return None, None
    under = coll(N.a[0], N.a[1], (), N.a[3] - {"uniq", "deduped"})
    if N.a[2]:
        r, q0 = touched(under, base, node, lvd, seen)
        rs, q = [r], q0
        for k, v, g, b in N.a[2]:
            if k is not node:
                m = match(k, node)
                if m is not True:
                    rs.append(False if m is False and not b and clear(k, node) else (False if b and clear(k) and mentions(k, elem(*b[-1])) and not any(mentions(x, node) for x, _ in g) else None))
                    continue
            if g and not b:
                rs.append(None)
            old = getidx(under, k)
            if v is old:
                continue
            rs.append(match(F(v, "public_key"), F(old, "public_key")))
            q = F(v, "quorum_set")
        return join(rs), q
    if len(N.a[1]) == 1:
        e, g, b = N.a[1][0].a
        if not g and len(b) == 1 and e is elem(*b[0]):
            if N.a[3] - {"uniq", "deduped"}:
                return (False, None) if b[0][0] is base else (None, None)
            return touched(b[0][0], base, node, lvd, seen)
        if len(b) == 1 and b[0][0] is base and clear(e) and not mentions(e, node) and not g:
            return False, None  # every node is rewritten
    return (False, None) if len(N.a[1]) != 1 and clear(N, base) and calls(N) <= calls(base) else (None, None)


def nonempty(c, facts):
    if c.op == "coll":
        for p in c.a[1]:
            if not p.a[1] and not p.a[2]:
                return True
            if not p.a[1] and len(p.a[2]) == 1 and nonempty(p.a[2][0][0], facts):
                return True
    if facts.get(eq0(length(c))) is False:
        return True
    return any(w is True and k.op == "contains" and k.a[0] is c for k, w in facts.items())


def empties_of(old, facts):
    """the facts say that `old` is the empty quorum set"""
    for k, w in facts.items():
        if w is True and k.op == "eq" and old in k.a:
            o = k.a[0] if k.a[1] is old else k.a[1]
            v = F(o, "validators")
            if v.op == "coll" and not v.a[1]:
                return True
    return facts.get(eq0(length(F(old, "validators")))) is True


def differs(q, old, st, lvd, base=None):
    facts = st.facts
    if facts.get(eq(q, old)) is False or any(facts.get(eq(F(q, c), F(old, c))) is False for c in PARTS):
        return True
    if match(q, old, facts) is True or facts.get(eq(q, old)) is True:
        return False
    v = F(q, "validators")
    if empties_of(old, facts) and nonempty(v, facts):
        return True
    # grown by a loop: the path has to say that there is at least one round
    hazy = False
    for lv, d in lvd.items():
        if not any(mentions(x, lv) for x in (q,)):
            continue
        if d["init"] is not None and d["init"] is not base and base is not None:
            return True if empties_of(old, facts) else None
        for gs in d["upd"].values():
            for g, b in gs:
                for src, _ in b:
                    if src.op == "range":
                        if implied(facts, lt(src.a[0], src.a[1])):
                            return True
                        hazy = hazy or [k for k in facts if k.op == "le0" and lin_diff(k.a[0], add(src.a[0], src.a[1], -1)) is not None
                                        or k.op == "le0" and lin_diff(k.a[0], add(src.a[1], src.a[0], -1)) is not None] or True
    if hazy:
        # the path compares just these bounds, but allows that there is no round at all
        return False if not st.lossy and hazy is not True else None
    if not any(mentions(k, old) for k in facts):
        # nothing on the path compares with what is there
        return False if not st.lossy and clear(q) else None
    return None


def variant(v):
    if v.op == "agg":
        s = str(v.a[0])
        return s.split("::")[-1]
    return None


def configurators(ctx):
    fs = impls(ctx, "QuorumSetConfigurator", "configure")
    ctx.anchor("QuorumSetConfigurator::configure", fs)
    for f in fs:
        I_, outs, a = ctx.run(f)
        node, key = a[1], a[2].a[0]
        fb = sym(key[1])
        for st, v in outs:
            cell = st.cells.get(key, fb)
            what = name(v)
            if what is None:
                ctx.hold(RULE1, f.short, None, where(f), show(v, 6))
                continue
            N, N0 = F(cell, "nodes"), F(fb, "nodes")
            r, q = touched(N, N0, node, I_.lvdefs) if cell is not fb else (True, None)
            if cell is not fb and F(cell, "pk_to_id") is not F(fb, "pk_to_id"):
                r = join([r, match(F(cell, "pk_to_id"), F(fb, "pk_to_id"), st.facts)])
            ctx.hold(RULE2, f.short, r, where(f), show(cell, 8), key=f.short + "/other")
            old = F(getidx(N0, node), "quorum_set")
            if what == "NoChange":
                if q is None:
                    ctx.hold(RULE1, f.short, True)
                elif st.facts.get(eq(q, old)) is True or match(q, old, st.facts) is True or same_parts(q, old, st):
                    ctx.hold(RULE1, f.short, True)
                else:
                    bad = differs(q, old, st, I_.lvdefs, N0) is True or not st.lossy and not same_as_old(q, old, st)
                    ctx.hold(RULE1, f.short, False if bad else None, where(f), show(q, 8), key=f.short + "/silent")
            elif q is None:
                ctx.hold(RULE3, f.short, False if cell is fb and not st.lossy else None, where(f), "nothing was written", key=f.short + "/claimed")
            else:
                ctx.hold(RULE3, f.short, differs(q, old, st, I_.lvdefs, N0), where(f), show(q, 8), key=f.short + "/claimed")


def same_as_old(q, old, st):
    """the path may say in another way that nothing changed"""
    for c in PARTS:
        x, y = F(q, c), F(old, c)
        if not (x is y or any(w is True and k.op == "eq" and (mentions(k, y) or old in k.a) for k, w in st.facts.items())):
            return False
    return True


PARTS = ("threshold", "validators", "inner_quorum_sets")


def same_parts(q, old, st):
    return all(F(q, c) is F(old, c) or st.facts.get(eq(F(q, c), F(old, c))) is True for c in PARTS)


def name(v):
    for n in ("Change", "NoChange"):
        if isvar(v, n) is TRUE:
            return n
    return None


def deref(x):
    return sym(x.a[0][1]) if x.op == "ref" else x


class Watch(ai.Hook):
    """calls of the configurator and reports to the monitor, with the path they are on"""

    def __init__(self):
        self.I = None

    conf = property(lambda s: [e[1:] for e in s.I.events if e[0] == "configure"] if s.I else [])
    ev = property(lambda s: [e[1:] for e in s.I.events if e[0] == "register"] if s.I else [])

    def call(self, I, st, fr, span, nm, fn, args):
        self.I = I
        s = nm.split("::")[-1]
        if s == "configure" and len(args) == 3:
            fb = I.read(st, args[2]) if args[2].op == "ref" else args[2]
            I.event("configure", dict(st.facts), tuple(st.open), [args[0], args[1], fb], span)
        if s == "register_event" and len(args) == 2:
            I.event("register", dict(st.facts), tuple(st.open), args[1], span)
        return None


def truth(v, atoms, depth=0):
    """the value as 'a change was made', given the values of the atoms"""
    if v in atoms:
        return atoms[v]
    n = name(v)
    if n:
        return n == "Change"
    if v is TRUE or v is FALSE:
        return v is TRUE
    if v.op == "not":
        r = truth(v.a[0], atoms)
        return None if r is None else not r
    if v.op == "is":
        r = truth(v.a[0], atoms)
        n = str(v.a[1])
        return None if r is None else (r if n.endswith("Change") and not n.endswith("NoChange") else (not r if n.endswith("NoChange") else None))
    if v.op in ("and", "or"):
        rs = [truth(x, atoms) for x in v.a]
        if v.op == "and":
            return False if False in rs else (None if None in rs else True)
        return True if True in rs else (None if None in rs else False)
    if v.op == "eq" and len(v.a) == 2:
        rs = [truth(x, atoms) for x in v.a]
        return None if None in rs else rs[0] == rs[1]
    if v.op == "phi":
        return None
    return None


def change_calls(t):
    return [x for x in subterms(t) if x.op == "call" and str(x.a[0]).endswith("configure")]


def accumulates(lv, lvd):
    """lv starts without a change and afterwards tells whether any configure call of the loop made one"""
    d = lvd.get(lv)
    if not d or d["init"] is None:
        return None
    r0 = truth(d["init"], {})
    if r0 is not False:
        return False if r0 is True else None
    cs = {c for w, gs in d["upd"].items() for c in change_calls(w)} | {c for gs in d["upd"].values() for g, b in gs for k, _ in g for c in change_calls(k)}
    if len(cs) != 1:
        return None
    c = cs.pop()
    for A in (False, True):
        for C in (False, True):
            at = {lv: A, c: C}
            res = set()
            for w, gs in d["upd"].items():
                for g, b in gs:
                    ok = True
                    for k, want in g:
                        t = truth(k, at)
                        if t is None:
                            if mentions(k, lv) or mentions(k, c):
                                return None
                            if clear(k):
                                return None
                            continue
                        if t != want:
                            ok = False
                            break
                    if ok:
                        res.add(truth(w, at))
            if not res:
                res = {A}
            if len(res) != 1 or None in res:
                return None
            if res.pop() != (A or C):
                return False
    return True


def covered(paths, base_, lvd):
    """is there one of the paths for each result of the configure call and each earlier result?"""
    extra = [{k: x for k, x in fa.items() if base_.get(k) is None} for fa in paths]
    atoms = set()
    for d in extra:
        for k in d:
            atoms |= {y for y in subterms(k) if change_lv(y, lvd)} | set(change_calls(k))
    atoms = sorted(atoms, key=lambda y: y.n)
    if len(atoms) > 5:
        return None
    ats = [{}]
    for y in atoms:
        ats = [dict(at) | {y: b} for at in ats for b in (True, False)]
    hazy = False
    for at in ats:
        got = set()
        for d in extra:
            ts = [None if (t := truth(k, at)) is None else t == x for k, x in d.items()]
            got.add(False if False in ts else (None if None in ts else True))
        if True not in got:
            if None not in got:
                return False
            hazy = True
    return None if hazy else True


def lin_diff(a, b):
    """a - b if it is a constant"""
    c, d = lin_parts(add(a, b, -1))
    return c if not d else None


def reevaluation(ctx):
    f = ctx.fn("Simulator::simulate_global_reevaluation")
    if not ctx.anchor("Simulator::simulate_global_reevaluation", f):
        return
    w = Watch()
    I_, outs, a = ctx.run(f, hooks=[w])
    S_, mx = deref(a[0]), a[1]
    nodes = F(S_, "fbas", "nodes")
    lvd = I_.lvdefs
    rule = "every node reconfigures once per round"
    if not w.conf:
        ctx.hold(rule, "Simulator::simulate_global_reevaluation", None)
    for facts, opn, args, span in w.conf:
        n = args[1]
        srcs = [s for s, _ in opn]
        r = None
        if opn and opn[-1][0] is nodes and n is pos(nodes, elem(*opn[-1])):
            e = elem(*opn[-1])
            cond = [k for k in facts if mentions(k, e) and not (k.op == "le0")]
            r = True if not cond else (False if clear(*cond) else None)
        elif n.op == "pos" and n.a[0].op in ("rest", "slice") and opn and opn[-1][0] is n.a[0] and clear(n):
            r = False
        elif opn and clear(n) and not mentions(n, elem(*opn[-1])):
            r = False
        elif opn and opn[-1][0].op in ("rest", "slice") and clear(opn[-1][0]):
            r = False
        elif opn and opn[-1][0].op == "range" and clear(opn[-1][0]):
            r = False
        ctx.hold(rule, "call of configure", r, where(f), "node %s for %s" % (show(n, 6), [show(s, 5) for s in srcs]), key="round/nodes")
    rule = "every change report is passed to the monitor with its node"
    reps = [(fa, o, v) for fa, o, v, _ in w.ev if isvar(v, "QuorumSetChange") is TRUE]
    for facts, opn, args, span in w.conf:
        mine, rs = [], []
        for fa, o, v in reps:
            p = [x for x in fields(v).values()] if v.op == "agg" else []
            if len(p) < 2:
                rs.append(None)
                continue
            cs = [x for x in p if x.op == "call" and str(x.a[0]).endswith("configure")]
            if args[1] in p and len(cs) == 1 and args[1] in cs[0].a[1]:
                mine.append(fa)
            elif args[1] in p and not cs:
                rs.append(False if all(clear(x) or change_lv(x, lvd) for x in p) else None)
            elif cs and args[1] not in p:
                rs.append(False)
            else:
                rs.append(None)
        bad = mine and covered(mine, facts, lvd) is False
        if not mine and not rs:
            r = False if not any(x.op in HAZY for _, _, v in reps for x in subterms(v)) else None
        elif bad:
            r = False
        else:
            r = join(rs)
        ctx.hold(rule, "call of configure", r, where(f), "reports: %s" % [show(v, 6) for _, _, v in reps][:3], key="round/report")
    rule = "never exceeds the allowed number of rounds, and stops early only after a round without any change"
    rule2 = "returns the number of rounds made"
    early, odd = False, False
    for st, v in outs:
        odd = odd or st.lossy
        rlv = [x for x in subterms(v) if x.op == "lv"]
        if not rlv:
            # no loop was entered on this path: no round was made
            r = match(v, I(0), st.facts) if not lvd else None
            lim = implied(st.facts, le(mx, I(0)))
            ctx.hold(rule2, "no round", True if v is I(0) and lim else None, where(f), show(v))
            continue
        if len(set(rlv)) != 1:
            ctx.hold(rule2, "rounds", None, where(f), show(v, 8))
            continue
        R = rlv[0]
        d = lvd[R]
        c = lin_diff(v, R)
        if c is None and v.op == "sat" and v.a[1] is R:
            c = lin_diff(v.a[2], I(0))
            c = c if c is None or v.a[0] != "sub" else -c
        inside = any(k.op != "lv" and k.a[0].op == "lv" and k.op == "is" and change_lv(k.a[0], lvd) for k in st.facts)
        i0 = d["init"]
        ups = list(d["upd"])
        steps = [lin_diff(u, R) for u in ups]
        if c is None or i0 is None or i0.op != "int" or None in steps or len(steps) != 1:
            ctx.hold(rule2, "rounds", None, where(f), show(v, 8))
            continue
        if inside and implied(st.facts, lt(R, mx)):
            c -= 1  # left within a round
        made = c + i0.a[0]
        kept = d.get("keep") and not st.lossy and any(change_lv(y, lvd) for gs in d["upd"].values() for g, b in gs for k, _ in g for y in subterms(k) if y.op == "lv")
        ctx.hold(rule2, "rounds", made == 0 and steps[0] == 1 and not kept, where(f), "starts at %d, adds %d, returns %s" % (i0.a[0], steps[0], show(v, 8)), key="rounds/count")
        # the guard of one more round
        for gs in d["upd"].values():
            for g, b in gs:
                G = dict(g)
                if b or st.lossy:
                    ctx.hold(rule, "guard", None)
                    continue
                ok = implied(G, lt(add(R, I(-i0.a[0])), mx))
                ctx.hold(rule, "guard", True if ok else (False if not any(k.op in HAZY and k is not R and not accword(k, lvd) for k in G) else None), where(f),
                         "another round under %s" % [show(k, 6) for k in G], key="rounds/limit")
                quiet = False
                for G2 in alternatives(G, lvd):
                    if any(stable(k, x, lvd) is True for k, x in G2.items()) and not implied(G2, le(R, i0)):
                        quiet = True
                if quiet:
                    ctx.hold("simulation goes on until a round without any change or the limit", "guard", False if not any(k.op in HAZY and k is not R and not accword(k, lvd) for k in G) else None,
                             where(f), "another round under %s" % [(show(k, 6), x) for k, x in G.items()], key="rounds/on")
                stop = [k for k in G if lvbool(k, lvd)]
                if not stop:
                    ctx.hold("simulation goes on until a round without any change or the limit", "guard", None)
        lim = implied(st.facts, le(mx, add(R, I(-i0.a[0]))))
        if lim:
            ctx.hold(rule, "exit at the limit", True)
            continue
        rs = []
        for k, x in st.facts.items():
            t = stable(k, x, lvd)
            if t is not None:
                rs.append(t)
        if True in rs:
            r = True
        elif False in rs:
            r = False
        else:
            r = False if not st.lossy and clear_but(st.facts, R) else None
        early = True
        ctx.hold(rule, "early exit", r, where(f), "stops under %s" % [(show(k, 8), x) for k, x in st.facts.items()][:4], key="rounds/early")
    if outs and not early and lvd:
        ctx.hold("stops early after a round without any change", "Simulator::simulate_global_reevaluation", None if odd else False, where(f),
                 "no path leaves the loop before the limit", key="rounds/never")


def alternatives(G, lvd):
    """G, and for a conjunction that fails although its part about the last round holds: the other part fails"""
    out = [G]
    for k, x in G.items():
        if k.op == "and" and not x:
            for s in k.a:
                for c in k.a:
                    if s is not c and lvbool(s, lvd):
                        G2 = {a: b for a, b in G.items() if a is not k}
                        for y, w in ((s, True), (c, False)):
                            while y.op == "not":
                                y, w = y.a[0], not w
                            G2[y] = w
                        out.append(G2)
    return out


def clear_but(facts, R):
    return not any(x.op in HAZY and x is not R for k in facts for x in subterms(k))


def accword(k, lvd):
    return k.op == "lv" and k in lvd


def lvbool(k, lvd):
    return any(x.op == "lv" for x in subterms(k)) and k.op != "le0"


def stable(k, x, lvd):
    """does the fact (k, x) say that the last round was without a change?  True, False, None"""
    if k.op == "not":
        return stable(k.a[0], not x, lvd)
    if k.op == "lv" and k in lvd:
        d = lvd[k]
        i = truth(d["init"], {}) if d["init"] is not None else None
        if i is None or len(d["upd"]) != 1:
            return None
        w = next(iter(d["upd"]))
        inner = [y for y in subterms(w) if y.op == "lv" and y is not k]
        inner = [y for y in set(inner) if change_lv(y, lvd)]
        if not inner and name_or_bool(w):
            return False  # whatever the round did
        if len(inner) != 1:
            return None
        acc = accumulates(inner[0], lvd)
        ts = [truth(w, {inner[0]: b}) for b in (True, False)]
        if None in ts:
            return None
        if i == x:
            return False  # stops before any round was made
        good = ts == ([False, True] if x else [True, False])
        return acc if good else False
    if k.op == "is" and k.a[0].op == "lv" and change_lv(k.a[0], lvd):
        acc = accumulates(k.a[0], lvd)
        t = truth(k, {k.a[0]: False})
        return None if t is None else (acc if t == x else False)
    return None


def name_or_bool(w):
    return w is TRUE or w is FALSE or w.op == "agg"


def change_lv(y, lvd):
    d = lvd.get(y)
    return bool(d) and any(change_calls(w) or any(change_calls(k) for g, b in gs for k, _ in g) for w, gs in d["upd"].items())


def growth(ctx):
    f = ctx.fn("Simulator::simulate_growth")
    if not ctx.anchor("Simulator::simulate_growth", f):
        return
    w = Watch()
    h = Opaque("Simulator::simulate_global_reevaluation")
    I_, outs, a = ctx.run(f, hooks=[w, h])
    rule = "the requested number of nodes is added, each configured and announced under its ID"
    if not w.conf:
        ctx.hold(rule, "growth", None)
    for facts, opn, args, span in w.conf:
        n, fb = args[1], args[2]
        nd = F(fb, "nodes")
        ctx.hold(rule, "configured", new_id(n, fb, I_, w), where(f), show(n, 6), key="growth/configured")
        r = None
        if len(opn) == 1 and opn[0][0].op == "range":
            lo, hi = opn[0][0].a[:2]
            c = lin_diff(add(hi, lo, -1), a[1])
            r = None if c is None else c == 0
        ctx.hold(rule, "count", r, where(f), show(opn[0][0], 5) if opn else "", key="growth/count")
        adds = [v for _, _, v, _ in w.ev if isvar(v, "AddNode") is TRUE]
        p = [list(fields(v).values()) for v in adds if v.op == "agg"]
        new = [y for x in p for y in x]
        r = False if not adds else worst([new_id(y, fb, I_, w) for y in new])
        r = True if any(n in x for x in p) and r is not False else r
        ctx.hold(rule, "announced", r, where(f), str([show(v, 6) for v in adds]), key="growth/announced")


def new_id(n, fb, I_, w):
    """n is the number of nodes before the last one was added"""
    N = None
    if fb.op == "mut" or fb.op == "ref":
        return None
    try:
        N = F(fb, "nodes")
    except Exception:
        return None
    if N.op == "coll" and not N.a[2]:
        own = [p for p in N.a[1] if p.a[2]]
        new = [p for p in N.a[1] if not p.a[2]]
        if len(own) == 1 and len(new) == 1:
            base = own[0].a[2][0][0]
            return True if n is length(base) else (False if n.op == "int" or lin_diff(n, length(base)) is not None else None)
    return None


def monitors(ctx):
    f = ctx.fn("DebugMonitor::register_event")
    if not f:
        ctx.anchor("DebugMonitor::register_event", None)
        return
    h = Pushes()
    I_, outs, a = ctx.run(f, hooks=[h])
    rule = "the recording monitor keeps every event"
    paths = [x for x in h.seen]
    if not paths:
        ctx.hold(rule, f.short, None)
        return
    for v, facts in paths:
        ctx.hold(rule, f.short, v is a[1] or None, where(f), show(v), key="monitor/kept")
    bad = [k for _, facts in paths for k in facts if mentions(k, a[1])]
    ctx.hold(rule, "unconditional", False if bad and len(paths) == 1 and clear(*bad) else True, where(f), str([show(k) for k in bad]), key="monitor/all")


class Pushes(ai.Hook):
    def __init__(self):
        self.seen = []

    def call(self, I, st, fr, span, nm, fn, args):
        if nm.split("::")[-1] == "push" and len(args) == 2:
            self.seen.append((args[1], dict(st.facts)))
        return None


def check(ctx):
    configurators(ctx)
    reevaluation(ctx)
    growth(ctx)
    monitors(ctx)
