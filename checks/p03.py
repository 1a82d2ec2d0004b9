"""One level of each recursive search is analysed symbolically (value flow on MIR).  From the
values at the recursive calls, at the exits and at the first call: (a) there is a call with the
candidate taken and one with it left out, and each working set differs between the two in the
candidate only; (b) at the exits all sets and the queue are back to what they were; (c) a branch is
skipped only if the feasibility condition for it fails, each condition being evaluated on sets that
stand for the right nodes; a search is stopped early only by the test for the sets searched for;
(d) the flag that suppresses the test is only set if the tested sets did not change; (e) the first
call starts with all nodes unprocessed and each set empty or full."""
from finders import *

# for a set: (initially contains candidate, when taken, when left out) -> what it stands for
ROLE = {(False, True, False): "taken", (True, True, False): "taken+unprocessed", (True, False, True): "left+unprocessed", (False, False, True): "left"}


class One:
    def __init__(self, ctx, s):
        self.ctx, self.s, self.key = ctx, s, s.f.name
        self.w = where(s.f)
        self.c = mk("first", mk("sym", s.names[s.idx("queue")[0]]))

    def ob(self, rule, inst, cond, msg="", w=None, key=None):
        self.ctx.hold(rule, "%s: %s" % (self.s.f.short, inst), cond, w or self.w, msg, key="%s/%s" % (self.key, key or rule))

    def initial(self):
        """first calls from outside; -> {index of set: contains all nodes?}"""
        ctx, s = self.ctx, self.s
        init = {}
        n = 0
        for f in sorted(ctx.prog.fns.values(), key=lambda f: f.id):
            if f.crate != "fbas_analyzer" or f.id == s.f.id or s.f.id not in callees(ctx.prog, f) or f.id in reach(ctx.prog, s.f):
                continue
            g = f
            if f.kind == "Closure":
                g = next((x for x in ctx.prog.fns.values() if x.kind != "Closure" and f.id in reach(ctx.prog, x) and f.id.startswith(x.id)), None)
                if g is None:
                    continue
            h = First(s.f, PRED | {"sort_by_rank", "rank_nodes", "find_symmetric_clusters_in_node_set", "find_symmetric_cluster_in_consensus_cluster"})
            ctx.run(g, hooks=[h])
            for args, facts, op, w in h.ev[:1]:
                n += 1
                q = args[s.idx("queue")[0]]
                self.candidates(q, facts, w)
                for i in s.idx("set"):
                    v = args[i]
                    r = None
                    if v.op == "coll" and not v.a[1] and not v.a[2]:
                        r = False
                    elif same_elems(v, q):
                        r = True
                    self.ob("initial sets", "%s starts empty or with all unprocessed nodes" % s.names[i], True if r is not None else (False if clear(v) and clear(q) else None),
                            "starts as %s" % show(v, 6), w, key="init/%d" % s.idx("set").index(i))
                    if i in init and init[i] is not r:
                        r = None
                    init[i] = r
                for i in s.idx("flag"):
                    self.ob("first test", "is made", True if args[i] is TRUE else False if args[i] is FALSE else None, "", w, key="init/flag")
                for i in s.idx("count"):
                    v = args[i]
                    L = length(q)
                    okk = None
                    if v is mk("div", L, I(2)) or v is L:
                        okk = True
                    elif v.op in ("lin", "int", "div", "len") and clear(v):
                        c0, d = lin_parts(v)
                        okk = True if len(d) == 1 and c0 >= 0 and next(iter(d)) in (L, mk("div", L, I(2))) and list(d.values())[0] >= 1 else False
                        if v.op == "div" and mentions(v, L):
                            okk = True if v is mk("div", add(L, I(1)), I(2)) else okk
                    self.ob("picks allowed", "at least half of the nodes", okk, show(v, 5), w, key="init/count")
                for i in s.idx("parts"):
                    v = args[i]
                    okk = True if v.op == "sym" or v.op in ("fld", "elem") and clear(v) else None
                    if okk is None and v.op == "coll":
                        src = identity(v)
                        okk = True if src is not None else (False if clear(v) else None)
                    self.ob("initial parts", "all quorums", okk, show(v, 6), w, key="init/parts")
        if not n:
            self.ob("initial sets", "first call", None)
        return init

    def candidates(self, q, facts, w):
        """the search starts with all nodes of a component still to be processed"""
        t, ok = q, None
        while True:
            if t.op == "call" and t.a[0] == "sort_by_rank":
                t = t.a[1][0]
            elif t.op == "coll" and identity(t) is not None:
                t = identity(t)
            elif t.op == "coll" and len(t.a[1]) == 1 and not t.a[2]:
                e, g, b = t.a[1][0].a
                if b and e is elem(*b[-1]) and len(b) == 1:
                    if g:
                        ok = False if all(clear(k) for k, _ in g) else None
                        break
                    t = b[0][0]
                else:
                    break
            elif t.op in ("slice", "rest"):
                ok = False if clear(t) else None
                break
            else:
                ok = True if t.op in ("elem", "first", "sym") and all(x.op in ("elem", "first", "sym", "fld") for x in subterms(t)) else None
                break
        self.ob("all nodes are candidates", "of a component", ok, "starts with %s" % show(q, 6), w, key="init/candidates")
        if ok:
            for k, v in facts_of(facts):
                if k.op in ("le0", "eq0") and set(lin_parts(k.a[0])[1]) == {length(t)}:
                    c0, d = lin_parts(k.a[0])
                    n = d[length(t)]
                    bad = [x for x in range(1, 40) if (((c0 + n * x) == 0) if k.op == "eq0" else (c0 + n * x <= 0)) is not v]
                    self.ob("all components are searched", show(k, 4), not bad, "not those of %d nodes" % bad[0] if bad else "", w, key="init/searched")

    def check(self):
        s, ctx = self.s, self.ctx
        f = s.f
        init = self.initial()
        ev, outs, I_ = s.run()
        sets = s.idx("set")
        c = self.c
        qi = s.idx("queue")[0]
        if not ev:
            self.ob("both branches", "recursive calls", None)
            return
        vec = []
        bad = False
        for args, facts, w in ev:
            vals = {}
            for i in sets:
                m, rest = member(args[i], s.syms[i], c)
                self.ob("other nodes keep their place", "%s at %s" % (s.names[i], w), rest, show(args[i], 7), w, key="others/%d" % sets.index(i))
                if m == "same":
                    m = init.get(i)
                elif m is None:
                    bad = True
                vals[i] = m
            vec.append(vals)
            q = args[qi]
            okk = True if q is mk("rest", s.syms[qi]) else (False if clear(q) else None)
            if okk is False and mk("eq0", length(s.syms[qi])) in facts:
                pass
            self.ob("one node is processed per level", "queue at %s" % w, okk, show(q, 6), w, key="queue")
        chosen = self.chosen(outs, sets)
        if chosen is None:
            # the set that starts empty and gains the candidate first
            cs = [i for i in sets if init.get(i) is False]
            chosen = cs[0] if cs else None
        if chosen is None or bad:
            self.ob("both branches", "choices recognised", None)
            return
        T = [k for k, v in enumerate(vec) if v[chosen] is True]
        L = [k for k, v in enumerate(vec) if v[chosen] is False]
        self.ob("both branches", "a recursive call with the candidate taken", bool(T), "no recursive call has the candidate in %s" % s.names[chosen], key="taken")
        self.ob("both branches", "a recursive call with the candidate left out", bool(L), "no recursive call without the candidate in %s" % s.names[chosen], key="left")
        if not T or not L:
            return
        roles = {}
        for i in sets:
            tv = {vec[k][i] for k in T}
            lv = {vec[k][i] for k in L}
            if None in tv | lv or init.get(i) is None:
                self.ob("sets follow the choices", s.names[i], None)
                continue
            okk = len(tv) == 1 and len(lv) == 1 and tv != lv
            self.ob("sets follow the choices", "%s: with the candidate taken and left out" % s.names[i], okk,
                    "the candidate is %s %s both when taken and when left out" % ("in" if True in tv else "not in", s.names[i]) if tv == lv else "differs between calls",
                    key="choice/%d" % sets.index(i))
            if okk:
                roles[i] = ROLE.get((init[i], tv.pop(), lv.pop()))
        self.roles = roles
        self.chosen_i = chosen
        # counters and parts
        for i in s.idx("count"):
            for k, (args, facts, w) in enumerate(ev):
                d = add(args[i], s.syms[i], -1)
                if k in T:
                    okk = d.a[0] >= -1 if d.op == "int" else None
                else:
                    okk = d.a[0] >= 0 if d.op == "int" else None
                self.ob("picks left", "counts taken nodes only", okk, "%s becomes %s" % (s.names[i], show(args[i], 4)), w, key="count/%s" % ("taken" if k in T else "left"))
        for i in s.idx("parts"):
            for k, (args, facts, w) in enumerate(ev):
                self.parts(i, args, w, k in T)
        # exits
        opt = tystr(f.retty()) != "()"
        for st, v in outs:
            if opt and not (v.op == "agg" and v.a[1] == "None"):
                continue
            for i in sets:
                val = ai.Interp.getpath(I_, I_.getcell(st, s.cell[i]), ())
                m, rest = member(val, s.syms[i], c)
                if m in (True, False) and init.get(i) is not None:
                    self.ob("sets are restored", s.names[i], m is init[i], "the candidate is %s %s afterwards" % ("in" if m else "not in", s.names[i]), key="exit/%d" % sets.index(i))
                elif m is None:
                    self.ob("sets are restored", s.names[i], None if rest is not False else False, show(val, 6), key="exit/%d" % sets.index(i))
                if rest is not None:
                    self.ob("sets are restored", s.names[i] + " (other nodes)", rest, show(val, 6), key="exit-others/%d" % sets.index(i))
            q = I_.getcell(st, s.cell[qi])
            self.ob("queue is restored", "at the exits", True if q is s.syms[qi] else (False if clear(q) else None), "becomes %s" % show(q, 5), key="exit/queue")
        self.reported(outs)
        # conditions, for the two values of the flag
        for fl in ((True, False) if s.idx("flag") else (None,)):
            ev2, outs2, I2 = s.run(fl)
            kinds = []
            for args, facts, w in ev2:
                m, _ = member(args[chosen], s.syms[chosen], c)
                m = init.get(chosen) if m == "same" else m
                kinds.append(m)
                for k, v in facts_of(facts):
                    self.cond(k, v, m is True, args, w)
            for want, nm in ((True, "taken"), (False, "left")):
                self.ob("both branches", "%s with flag %s" % (nm, fl), True if want in kinds else False if None not in kinds else None, "no such call", key="flag-%s/%s" % (fl, nm))
        # flag at the calls
        for i in s.idx("flag"):
            tested = self.tested()
            for k, (args, facts, w) in enumerate(ev):
                v = args[i]
                if v is TRUE:
                    okk = True
                elif v is FALSE:
                    ch = [s.names[j] for j in tested if vec[k].get(j) is not init.get(j)]
                    okk = not ch
                else:
                    # depends on sizes only, though the tested sets changed
                    ch = [s.names[j] for j in tested if vec[k].get(j) is not init.get(j)]
                    u = v.a[0] if v.op == "not" else v
                    okk = False if ch and k in T and u.op in ("le0", "eq0") and clear(u) and not any(x.op == "call" for x in subterms(u)) else None
                self.ob("test is repeated when its sets changed", "%s at the call with the candidate %s" % (s.names[i], "taken" if k in T else "left out"), okk,
                        "the test is suppressed although %s changed" % ", ".join(ch) if okk is False else "", w, key="flag/%s" % ("taken" if k in T else "left"))

    def reported(self, outs):
        """sets found are reported whatever is still to be processed"""
        s = self.s
        rule = "sets found are reported whatever is left to process"
        own = {length(s.syms[i]) for i in s.idx("set") + s.idx("queue")} | {s.syms[i] for i in s.idx("count")}
        got = []
        for st, v in outs:
            if any(x.op == "call" and x.a[0] == "REC" for x in subterms(v)):
                continue
            cells = [st.cells.get(s.cell[i]) for i in s.idx("found")]
            if any(x is not None and x.op == "coll" and mentions(x, s.syms[self.chosen_i]) for x in cells) or v.op == "agg" and v.a[1] == "Some":
                got.append(st)
        for st in got:
            for k, w in facts_of(st.facts):
                if k.op not in ("le0", "eq0") or not clear(k) or not set(lin_parts(k.a[0])[1]) or not set(lin_parts(k.a[0])[1]) <= own:
                    continue
                c0, d = lin_parts(k.a[0])
                if set(d) == {length(s.syms[self.chosen_i])}:
                    n, = d.values()
                    if all((((c0 + n * x) == 0) if k.op == "eq0" else (c0 + n * x <= 0)) is w for x in range(1, 40)):
                        continue
                if any(o.facts.get(k) is (not w) for o in got):
                    continue
                self.ob(rule, show(k, 4), False, "only if %s%s" % ("" if w else "not ", show(k, 5)), key="reported")
        self.ob(rule, "%d outcomes" % len(got), True if got else None)

    def tested(self):
        """sets which the test guarded by the flag reads: those in the conditions that exist only
        if the flag is set"""
        s = self.s
        a = {k for args, facts, w in s.run(True)[0] for k in facts}
        b = {k for args, facts, w in s.run(False)[0] for k in facts}
        out = set()
        for k in a - b:
            for i in s.idx("set"):
                if mentions(k, s.syms[i]):
                    out.add(i)
        return out or set([self.chosen_i])

    def chosen(self, outs, sets):
        """the set that is reported"""
        s = self.s
        found = set()
        for i in s.idx("found"):
            for st, v in outs:
                x = st.cells.get(s.cell[i])
                if x is not None and x.op == "coll":
                    for p in x.a[1]:
                        for j in sets:
                            if p.a[0] is s.syms[j]:
                                found.add(j)
        for st, v in outs:
            if v.op == "agg" and v.a[1] == "Some":
                x = fields(v)["0"]
                if x.op == "coll":
                    for p in x.a[1]:
                        for j in sets:
                            if p.a[0] is s.syms[j]:
                                found.add(j)
        return found.pop() if len(found) == 1 else None

    def rolename(self, t, args, taken, st=None):
        """what the set value t stands for at a recursive call with these args (or at entry)"""
        s = self.s
        for i in s.idx("set"):
            if t is s.syms[i]:
                # the set as it was at entry or as it is now, if unchanged
                return self.roles.get(i), "entry"
            if t is args[i]:
                return self.roles.get(i), "now"
        # equal up to the candidate
        for i in s.idx("set"):
            m, rest = member(t, s.syms[i], self.c)
            if rest and m in (True, False):
                m2, r2 = member(args[i], s.syms[i], self.c)
                if m2 is m:
                    return self.roles.get(i), "now"
                return self.roles.get(i), "other"
        return None, None

    def cond(self, k, v, taken, args, w):
        """a condition of a recursive call"""
        s = self.s
        br = "taken" if taken else "left"
        qlen = length(s.syms[s.idx("queue")[0]])
        if k is eq0(qlen) and v is False:
            return
        for i in s.idx("count"):
            if k is eq0(s.syms[i]):
                self.ob("branches are skipped only if hopeless", "picks left", v is False, show(k, 5), w, key="skip/%s/count" % br)
                return
        for i in s.idx("parts"):
            if not mentions(k, s.syms[i]):
                continue
            if k is mk("le0", add(length(s.syms[i]), I(-1))) or k is lt(length(s.syms[i]), I(2)):
                self.ob("branches are skipped only if hopeless", "fewer than two quorum parts", v is False, show(k, 5), w, key="skip/%s/parts" % br)
                return
            if k.op in ("le0", "eq0") and clear(k):
                c0, d = lin_parts(k.a[0])
                okk = None
                if d == {length(s.syms[i]): 1}:
                    okk = v is False and c0 >= -1 if k.op == "le0" else None
                self.ob("branches are skipped only if hopeless", "fewer than two quorum parts", okk, show(k, 5), w, key="skip/%s/parts" % br)
                return
        if k.op == "is" and k.a[0].op == "call" and k.a[0].a[0] == "REC":
            self.ob("branches are skipped only if hopeless", "after a branch that found nothing", v is (k.a[1] == "None"), show(k, 5), w, key="skip/%s/rec" % br)
            return
        if k.op == "sym" or k.op == "bool":
            return
        neg = v is False
        calls = [x for x in subterms(k) if x.op == "call" and x.a[0] in PRED]
        names = {x.a[0] for x in calls}
        if k.op == "call" and k.a[0] == "contains_quorum":
            r, when = self.rolename(k.a[1][0], args, taken)
            if when is None or r is None:
                okk = None
            elif v is False:
                # the nodes left out for good must be blocked
                okk = r == "left" and when != "other"
            else:
                # stop: the complement of the taken nodes contains no quorum
                okk = r == "left+unprocessed" and when == "entry"
                if r == "taken+unprocessed":
                    okk = True
            self.ob("branches are skipped only if hopeless", "%s branch depends on whether the %s nodes contain a quorum" % (br, r), okk, show(k, 5), w, key="skip/%s/contains_quorum" % br)
            return
        if k.op == "call" and k.a[0] == "Fbas::is_quorum":
            r, when = self.rolename(k.a[1][1], args, taken)
            okk = None if r is None else r == "taken" and neg and when == "entry"
            self.ob("branches are skipped only if hopeless", "search stops at quorums", okk, show(k, 5), w, key="skip/%s/is_quorum" % br)
            return
        if k.op == "any" and neg and names <= {"QuorumSet::is_quorum_slice", "QuorumSet::is_slice_intersection"} and len(calls) == 1:
            self.feasible(k, calls[0], args, taken, w, br)
            return
        if names and (k.op in ("and", "not", "any", "eq0")):
            # the compound test for the sets searched for
            if k.op == "and" and neg and any(x.op == "call" and x.a[0] == "all_intersect" for x in subterms(k)):
                self.splits(k, args, taken, w, br)
                return
            self.ob("branches are skipped only if hopeless", "condition recognised", self.compound(k, v), show(k, 5), w, key="skip/%s/compound" % br)
            return
        if not names and k.op in ("le0", "eq0", "not", "contains", "any", "eq") and clear(k):
            m = [s.names[i] for i in s.idx("set") + s.idx("found") + s.idx("queue") + s.idx("count") if mentions(k, s.syms[i])]
            if m and not any(x.op == "fld" for x in subterms(k)):
                self.ob("branches are skipped only if hopeless", "%s branch depends on %s" % (br, ", ".join(m)), False, show(k, 6), w, key="skip/%s/extra" % br)
                return
        self.ob("branches are skipped only if hopeless", "condition recognised", None, show(k, 5), w)

    def compound(self, k, v):
        """False if the branch is skipped for the sizes of sets although the feasibility condition holds"""
        s = self.s
        leaves = []

        def walk(t):
            if t.op in ("and", "not"):
                for x in t.a:
                    walk(x)
            elif t not in leaves:
                leaves.append(t)
        walk(k)
        own = {length(s.syms[i]) for i in s.idx("set") + s.idx("found") + s.idx("queue")}
        fix, free = {}, []
        for t in leaves:
            cs = {x.a[0] for x in subterms(t) if x.op == "call"}
            if t.op == "any" and cs and cs <= {"QuorumSet::is_quorum_slice", "QuorumSet::is_slice_intersection"}:
                fix[t] = False      # all taken nodes can be satisfied
            elif t.op in ("le0", "eq0") and clear(t) and not cs and any(mentions(t, x.a[0]) for x in own):
                free.append(t)
            elif t.op == "any" and not cs and clear(t) and all(any(x is y for x, _ in p.a[2] for y in (s.syms[i] for i in s.idx("set"))) for p in t.a[0]):
                free.append(t)
            else:
                return None
        if len(fix) != 1 or not any(t.op in ("le0", "eq0") for t in free):
            return None

        def val(t, m):
            if t.op == "and":
                return all(val(x, m) for x in t.a)
            if t.op == "not":
                return not val(t.a[0], m)
            return m[t]
        for n in range(2 ** len(free)):
            m = dict(fix)
            m.update({t: bool(n >> j & 1) for j, t in enumerate(free)})
            if val(k, m) is not v:
                return False
        return None

    def feasible(self, k, c, args, taken, w, br):
        """no taken node is unsatisfied by what is still possible"""
        okk = None
        msg = show(k, 6)
        r, when = self.rolename(c.a[1][1], args, taken)
        if len(k.a[0]) == 1:
            p, = k.a[0]
            e, g, b = p.a
            src = {x[0] for x in b}
            lit = {(x, v) for x, v in g if x is c and v is False}
            if lit and len(b) == 1:
                S = b[0][0]
                rs, ws = self.rolename(S, args, taken)
                if rs is not None and r is not None:
                    okk = rs == "taken" and r == "taken+unprocessed" and when != "other"
                    if when == "entry" and args[[i for i in self.s.idx("set") if c.a[1][1] is self.s.syms[i]][0]] is not c.a[1][1]:
                        okk = True and rs == "taken" and r == "taken+unprocessed"
                    msg = "tests the %s nodes against the %s nodes" % (rs, r)
            elif (c, True) in g:
                okk = False
        self.ob("branches are skipped only if hopeless", "%s branch: taken nodes must be satisfiable by what remains possible" % br, okk, msg, w, key="skip/%s/feasible" % br)

    def splits(self, k, args, taken, w, br):
        okk = True
        for x in k.a:
            y = x
            neg = False
            while y.op == "not":
                y, neg = y.a[0], not neg
            if y.op == "call" and y.a[0] == "all_intersect":
                if not neg:
                    okk = False
                continue
            if y.op == "eq0" and neg:
                continue
            cs = [z for z in subterms(y) if z.op == "call" and z.a[0] == "QuorumSet::is_slice_intersection"]
            if y.op == "any" and neg and len(cs) == 1:
                continue
            if okk:
                okk = None
        self.ob("branches are skipped only if hopeless", "search stops at splitting sets", okk, show(k, 5), w, key="skip/%s/splitting" % br)

    def parts(self, i, args, w, taken):
        """the remainders of quorums that contain all taken nodes"""
        s, c = self.s, self.c
        v, P = args[i], s.syms[i]
        key = "parts/%s" % ("taken" if taken else "left")
        rule = "quorum parts follow the choices"
        if not clear(v):
            self.ob(rule, key, None, show(v, 6), w)
            return
        if v is P:
            self.ob(rule, key, False if taken else True, "quorum parts are not narrowed to those with the candidate", w, key=key)
            return
        okk = None
        msg = show(v, 7)
        if v.op == "coll" and len(v.a[1]) == 1 and not v.a[2]:
            e, g, b = v.a[1][0].a
            if len(b) == 1 and b[0][0] is P:
                q = elem(*b[0])
                if taken:
                    g2 = {x for x in g if x != (contains(q, c), True)}
                    m, rest = member(e, q, c)
                    okk = rest is True and m is False and (contains(q, c), True) in g and not g2
                    if not okk and rest is None:
                        okk = None
                else:
                    okk = e is q
                    for k, x in g:
                        if k.op == "any" and x is True:
                            srcs = {y[0] for p in k.a[0] for y in p.a[2]}
                            cont = [y for y in subterms(k) if y.op == "sym" and y in s.syms]
                            rs = {self.roles.get(s.syms.index(y)) for y in cont if y is not P and y is not s.syms[s.idx("queue")[0]]}
                            if rs - {"taken+unprocessed", None}:
                                okk = False
                                msg = "parts are dropped by comparing with the %s nodes" % ", ".join(str(r) for r in rs)
                            elif rs != {"taken+unprocessed"} and okk:
                                okk = None
                        elif k.op == "any" and x is False:
                            okk = False
                        else:
                            okk = None if okk else okk
        self.ob(rule, "candidate %s" % ("taken" if taken else "left out"), okk, msg, w, key=key)


def same_elems(v, q):
    a = set(parts_of(v)) if v.op == "coll" else {v}
    if v.op == "coll":
        s = identity(v)
        if s is not None:
            v = s
    if q.op == "coll":
        s = identity(q)
        if s is not None:
            q = s
    if v is q:
        return True
    if v.op == "coll" and q.op == "coll":
        return set(v.a[1]) == set(q.a[1]) and v.a[2] == q.a[2]
    return False


def check(ctx):
    ss = steps(ctx)
    for s in ss:
        if s.idx("queue") and s.idx("set"):
            One(ctx, s).check()
    ctx.hold("searches found", "%d recursive searches" % len(ss), True if len(ss) >= 4 else None)
