"""Interprocedural taint dataflow on MIR: labels on access paths, points-to for mutable references,
function summaries per labelling of the arguments.

Order labels:  H  a sequence in arbitrary (hash) order      E  an element met in that order
               T  a value that depends on that order        U  not decided
               I  (on a sequence) its elements carry their number in that order
Other labels:  K  depends on the clock                      J  depends on the number of worker threads"""
from base import *
from finders import callees

ORDER = frozenset("HETUI")
NONE = frozenset()
HASHES = ("HashMap", "HashSet", "Receiver")
ITER = {"iter", "keys", "values", "values_mut", "iter_mut", "into_iter", "drain", "into_keys", "into_values", "difference", "union",
        "intersection", "symmetric_difference", "try_iter", "extract_if"}
FULLSORT = {"sort", "sort_unstable"}
KEYSORT = {"sort_by", "sort_by_key", "sort_by_cached_key", "sort_unstable_by", "sort_unstable_by_key"}
PICK = {"next", "first", "last", "nth", "pop", "pop_front", "pop_back", "front", "back", "get", "index", "swap_remove", "next_back", "split_first", "split_last",
        "find", "find_map", "choose", "remove", "first_mut", "last_mut", "get_mut", "index_mut", "split_off", "recv", "try_recv"}
POSITIONAL = {"zip", "take", "skip", "step_by", "chunks", "windows", "take_while", "skip_while", "map_while", "scan", "position", "rposition",
              "truncate", "chunks_exact", "split_at", "peekable_take", "dedup", "dedup_by_key", "tuple_windows", "tuple_combinations_pos", "join", "concat"}
LAUNDER = {"len", "count", "contains", "contains_key", "is_empty", "all", "any", "sum", "product", "min", "max", "minmax", "capacity", "size_hint", "is_some", "is_none"}
KEYPICK = {"min_by", "max_by", "min_by_key", "max_by_key", "fold", "reduce", "try_fold", "eq", "ne", "cmp", "partial_cmp", "partition_point", "binary_search", "hash", "lt", "gt"}
CUT = {"take", "truncate", "chunks_exact", "step_by", "skip", "nth", "split_off", "split_at", "drain", "resize", "array_chunks"}
SEQ = ("Vec", "VecDeque", "slice", "LinkedList", "BinaryHeap")
SETS = ("BTreeMap", "BTreeSet", "HashMap", "HashSet", "BitSet", "BitVec")
PRINTS = ("_print",)


def tyname(t):
    return typename(t)


def hashed_type(t):
    t = strip_refs(t)
    return t.k == "adt" and t.a[1].split("::")[-1] in HASHES


def scalar(t):
    t = strip_refs(t)
    return t.k == "prim" and t.a[1] not in ("str",)


class Flow:
    def __init__(self, prog, sink=None, source=None):
        self.prog = prog
        self.memo = {}
        self.busy = {}
        self.sink = sink          # sink(kind, labels, where, fn, extra)
        self.functions = set()
        self.sites = 0

    def tagfield(self, n):
        return NONE

    # -- summaries ------------------------------------------------------------------------------
    def summary(self, f, ins):
        """ins: per argument (and captured value) a frozenset of (subpath, labels);
        returns (shape of the result, {(i, subpath): labels} of what the mutable references point to)"""
        key = (f.id, ins)
        if key in self.memo:
            return self.memo[key]
        if key in self.busy or len(self.busy) > 60:
            return self.busy.get(key, ({}, {}))
        self.busy[key] = ({}, {})
        r = One(self, f, ins).run()
        for _ in range(3):
            if r == self.busy[key]:
                break
            self.busy[key] = r
            r = One(self, f, ins).run()
        del self.busy[key]
        self.memo[key] = r
        self.functions.add(f.id)
        return r


class St:
    """labels and points-to at one program point"""
    __slots__ = ("lab", "pts", "clo")

    def __init__(self, lab=None, pts=None, clo=None):
        self.lab, self.pts, self.clo = lab or {}, pts or {}, clo or {}

    def copy(self):
        return St(dict(self.lab), dict(self.pts), dict(self.clo))

    def join(self, o):
        ch = False
        for k, v in o.lab.items():
            n = self.lab.get(k, NONE) | v
            if n != self.lab.get(k):
                self.lab[k] = n
                ch = True
        for k, v in o.pts.items():
            n = self.pts.get(k, NONE) | v
            if n != self.pts.get(k):
                self.pts[k] = n
                ch = True
        for k, v in o.clo.items():
            if k not in self.clo:
                self.clo[k] = v
                ch = True
        return ch


class One:
    def __init__(self, flow, f, ins):
        self.F, self.f, self.ins = flow, f, ins
        self.C = f.cfg()
        self.inloop = set()
        for h, body in self.C.loops.items():
            self.inloop |= body
        self.eqs = False
        self.imp = NONE
        self.defs = {}
        self.ret = {}
        self.outs = {}

    def control(self, b):
        """labels of the branches this block is executed under"""
        out = NONE
        for h, v in self.ctl.items():
            if b != h and self.C.dom(h, b) and any(self.C.dom(y, b) and len(self.C.pred[y]) == 1 for y in self.C.succ[h]):
                out = out | v
        return out

    def run(self):
        f = self.f
        self.ctl = {}
        st = St()
        for i, sh in enumerate(self.ins):
            base = i + 1
            if f.kind == "Closure" and i == 0:
                continue
            for sp, labs in sh:
                if labs:
                    st.lab[(base, sp)] = frozenset(labs)
        if f.kind == "Closure" and self.ins:
            for sp, labs in self.ins[0]:
                if labs:
                    st.lab[(1, sp)] = frozenset(labs)
        for k in [k for k in st.lab if len(k[1]) > 2 and k[1][-3] == "@"]:
            del st.lab[k]
            st.clo[(k[0], k[1][:-3])] = (k[1][-2], k[1][-1])
        states = {0: st}
        todo = [0]
        order = self.C.num
        n = 0
        while todo and n < 4000:
            n += 1
            todo.sort(key=lambda b: order.get(b, 0))
            b = todo.pop(0)
            s = states[b].copy()
            self.imp = self.control(b) if self.ctl else NONE
            for x in f.blocks[b][0]:
                self.stmt(s, x)
            self.term(s, b, f.blocks[b][1])
            for y in self.C.succ[b]:
                if y not in states:
                    states[y] = s.copy()
                    if y not in todo:
                        todo.append(y)
                elif states[y].join(s) and y not in todo:
                    todo.append(y)
        if self.eqs:
            for d in (self.ret, self.outs):
                for k in d:
                    if "E" in d[k] and self.f.kind != "Closure":
                        d[k] = d[k] - {"E"} | {"U"}
        return self.ret, self.outs

    # -- places ---------------------------------------------------------------------------------
    def norm(self, s, pl, write=False):
        """access paths a place may denote: list of (path, exact)"""
        cur = [((pl[0], ()), True)]
        for e in pl[1]:
            if e == "*":
                nxt = []
                for (l, sp), ex in cur:
                    p = s.pts.get((l, sp))
                    if p is None and sp:
                        p = s.pts.get((l, ()))
                        if p is not None:
                            p = frozenset((q, False) for q, _ in p)
                    if p:
                        # None: somewhere inside of what the reference was derived from
                        nxt += [(q, None if ex is None or not x else ex and len(p) == 1) for q, x in p]
                        if any(not x for _, x in p):
                            nxt.append(((l, sp), None))
                    else:
                        nxt.append(((l, sp), ex))
                cur = nxt
            elif isinstance(e, list) and e[0] == "f":
                cur = [(((l, sp + (e[1],)), ex) if len(sp) < 3 else ((l, sp), ex and False)) if ex is not None else ((l, sp), None) for (l, sp), ex in cur]
            elif isinstance(e, list) and e[0] == "d":
                pass
            else:
                cur = [(p, ex and False) for p, ex in cur]
        return cur

    def get(self, s, p):
        """labels of everything at or below the path, and of what it is part of"""
        l, sp = p
        out = set()
        for (l2, sp2), v in s.lab.items():
            if l2 == l and (sp2[:len(sp)] == sp or sp[:len(sp2)] == sp2):
                out |= v
        return frozenset(out)

    def shape(self, s, p):
        l, sp = p
        out = {}
        for (l2, sp2), v in s.lab.items():
            if l2 == l and v:
                if sp2[:len(sp)] == sp:
                    out[sp2[len(sp):]] = out.get(sp2[len(sp):], NONE) | v
                elif sp[:len(sp2)] == sp2:
                    out[()] = out.get((), NONE) | v
        return out

    def setp(self, s, p, shape, strong):
        l, sp = p
        if strong:
            for k in [k for k in s.lab if k[0] == l and k[1][:len(sp)] == sp]:
                del s.lab[k]
        for q, v in shape.items():
            if v:
                k = (l, (sp + q)[:3])
                s.lab[k] = s.lab.get(k, NONE) | v

    def rplace(self, s, pl):
        sh = {}
        idx = False
        for e in pl[1]:
            if isinstance(e, list) and e[0] == "i":
                idx = True
        for p, ex in self.norm(s, pl):
            for k, v in self.shape(s, p).items():
                if ex is None and p[0] != pl[0]:
                    k, v = (), v - {"H"}
                sh[k] = sh.get(k, NONE) | v
            if s.pts.get(p):  # reading a reference: labels of what it points to
                for q, x in s.pts[p]:
                    for k, v in self.shape(s, q).items():
                        if not x:
                            k, v = (), v - {"H"}
                        sh[k] = sh.get(k, NONE) | v
        if idx:
            sh = {k: self.pick(v) for k, v in sh.items()}
        for e in pl[1]:
            if isinstance(e, list) and e[0] == "f" and self.F.tagfield(e[1]):
                sh = {k: v for k, v in sh.items()}
                sh[()] = sh.get((), NONE) | self.F.tagfield(e[1])
        return sh

    def pick(self, v):
        return v - {"H"} | {"E" if self.cur in self.inloop else "T"} if "H" in v else v

    def oper(self, s, o):
        if o[0] in ("cp", "mv"):
            return self.rplace(s, o[1])
        return {}

    def flat(self, sh):
        out = set()
        for v in sh.values():
            out |= v
        return frozenset(out)

    def opts(self, s, o):
        """what an operand (a reference, or a value holding one) may point to"""
        if o[0] not in ("cp", "mv"):
            return NONE
        out = set()
        for p, ex in self.norm(s, o[1]):
            out |= s.pts.get(p, NONE)
            for (l, sp), v in s.pts.items():
                if l == p[0] and sp != p[1] and (sp[:len(p[1])] == p[1] or p[1][:len(sp)] == sp):
                    out |= {(q, False) for q, _ in v}
        return frozenset(out)

    def oclo(self, s, o):
        if o[0] == "fn":
            return (o[1]["res"] or o[1]["p"], 0)
        if o[0] in ("cp", "mv"):
            for p, ex in self.norm(s, o[1]):
                if p in s.clo:
                    return s.clo[p]
                for q, _ in s.pts.get(p, NONE):
                    if q in s.clo:
                        return s.clo[q]
        return None

    # -- statements -----------------------------------------------------------------------------
    def assign(self, s, pl, shape, pts=NONE, clo=None):
        if self.imp:
            shape = dict(shape)
            shape[()] = shape.get((), NONE) | self.imp
        tg = self.norm(s, pl)
        strong = len(tg) == 1
        if pl[1] and any("E" in v for v in shape.values()):
            # written to a place chosen by the element itself
            ks = [pl[0]] if pl[1][0] == "*" else []
            ks += [e[1] for e in pl[1] if isinstance(e, list) and e[0] == "i"]
            if any("E" in s.lab.get((k, ()), NONE) for k in ks):
                shape = {k: v - {"E"} for k, v in shape.items()}
        for p, ex in tg:
            deref = any(e == "*" for e in pl[1])
            self.setp(s, p, shape, strong and ex)
            if deref and p[0] <= self.f.argc and p[0] > 0:
                pass
            if strong and ex:
                for k in [k for k in s.pts if k[0] == p[0] and k[1][:len(p[1])] == p[1]]:
                    del s.pts[k]
                s.clo.pop(p, None)
            if pts:
                s.pts[p] = s.pts.get(p, NONE) | pts
            if clo:
                s.clo[p] = clo

    def stmt(self, s, x):
        self.cur = None
        if x[0] == "dead":
            l = x[1]
            for d in (s.lab, s.pts, s.clo):
                for k in [k for k in d if k[0] == l]:
                    del d[k]
            return
        if x[0] != "=":
            return
        pl, rv = x[1], x[2]
        k = rv[0]
        if k == "use":
            self.assign(s, pl, self.oper(s, rv[1]), self.opts(s, rv[1]), self.oclo(s, rv[1]))
        elif k == "ref":
            tg = self.norm(s, rv[2])
            if rv[1]:
                self.assign(s, pl, {}, frozenset((p, ex and len(tg) == 1) for p, ex in tg))
            else:
                pts = frozenset((p, ex and len(tg) == 1) for p, ex in tg)
                self.assign(s, pl, self.rplace(s, rv[2]), pts, self.oclo(s, ["cp", rv[2]]))
        elif k == "cast":
            sh = self.oper(s, rv[2])
            if "Expose" in str(rv[1]) and self.F.sink:
                self.F.sink("address", NONE, x[3], self.f, rv[1])
            self.assign(s, pl, sh, self.opts(s, rv[2]), self.oclo(s, rv[2]))
        elif k == "bin":
            v = self.flat(self.oper(s, rv[2])) | self.flat(self.oper(s, rv[3]))
            if rv[1] in ("Eq", "Ne") and "E" in v:
                self.eqs = True
            if v & {"H", "E"}:
                v = v - {"H", "E"} | {"U"}
            self.assign(s, pl, {(): v} if v else {})
        elif k in ("un", "repeat"):
            o = rv[2] if k == "un" else rv[1]
            v = self.flat(self.oper(s, o))
            self.assign(s, pl, {(): v} if v else {})
        elif k == "discr":
            v = self.flat(self.rplace(s, rv[1])) - {"H", "E"}
            self.assign(s, pl, {(): v} if v else {})
        elif k == "agg":
            kind = rv[1]
            ops = rv[2]
            if kind[0] == "adt":
                names = [str(n) for n in (kind[3] or range(len(ops)))]
                if self.F.sink:
                    for n, o in zip(names, ops):
                        self.F.sink("field", self.flat(self.oper(s, o)), x[3], self.f, (kind[1], n))
                names = names if len(ops) <= len(names) else [str(i) for i in range(len(ops))]
            else:
                names = [str(i) for i in range(len(ops))]
            shapes = [self.oper(s, o) for o in ops]
            ptss = [self.opts(s, o) for o in ops]
            self.assign(s, pl, {})
            for n, o, sh, pt in zip(names, ops, shapes, ptss):
                if kind[0] == "array" or kind[0] == "adt" and kind[1].endswith("Option"):
                    n = None if kind[0] == "array" else n
                sub = [pl[0], list(pl[1]) + ([["f", n]] if n is not None else [])]
                for p, ex in self.norm(s, sub):
                    self.setp(s, p, sh, False)
                    if pt:
                        s.pts[p] = s.pts.get(p, NONE) | pt
            if kind[0] == "closure":
                for p, ex in self.norm(s, pl):
                    s.clo[p] = (kind[1], len(ops))

    # -- calls ----------------------------------------------------------------------------------
    def term(self, s, b, t):
        self.cur = b
        if t[0] == "ret":
            sh = self.rplace(s, [0, []])
            for k, v in sh.items():
                self.ret[k] = self.ret.get(k, NONE) | v
            for (l, sp), v in s.lab.items():
                if 0 < l <= self.f.argc and v:
                    t1 = self.f.locals[l]
                    if self.f.kind == "Closure" and l == 1 or t1.k == "ref" and t1.a[1]:
                        k = (l - 1, sp)
                        self.outs[k] = self.outs.get(k, NONE) | v
        elif t[0] == "switch":
            v = self.flat(self.oper(s, t[1]))
            if v & {"K"}:
                self.ctl[b] = self.ctl.get(b, NONE) | v & {"K"}
            if v and self.F.sink:
                self.F.sink("branch", v, t[4] if len(t) > 4 and isinstance(t[4], list) else self.f.span, self.f, None)
        elif t[0] == "call":
            self.call(s, b, t)

    def call(self, s, b, t):
        fn, ops, dest, span = t[1], t[2], t[3], t[5]
        shapes = [self.oper(s, o) for o in ops]
        ptss = [self.opts(s, o) for o in ops]
        self.F.sites += 1
        ty_ = [self.optype(o) for o in ops]
        if fn[0] != "fn":
            v = frozenset().union(*[self.flat(x) for x in shapes]) if shapes else NONE
            c = self.oclo(s, fn)
            self.assign(s, dest, {(): v} if v else {}, frozenset((q, False) for x in ptss for q, _ in x))
            return
        name = fn[1]["n"]
        ident = fn[1]["res"] or fn[1]["p"]
        labs = [self.flat(x) for x in shapes]
        if self.F.sink:
            self.F.sink("call", frozenset().union(*labs) if labs else NONE, span, self.f, (ident, name, labs, ty_, fn[1]))
        g = self.F.prog.fns.get(ident)
        if g is None and self.F.prog.fns.get(fn[1]["p"]):
            g = self.F.prog.fns.get(fn[1]["p"])
        clo = [self.oclo(s, o) for o in ops]
        if name in ("call", "call_mut", "call_once") and clo and clo[0]:
            # a closure called directly: the second operand is the tuple of arguments
            cf = self.F.prog.fns.get(clo[0][0])
            if cf is not None and len(ops) > 1:
                args = []
                isc = cf.kind == "Closure"
                for i in range(cf.argc - (1 if isc else 0)):
                    args.append(frozenset((k[1:], v) for k, v in shapes[1].items() if k[:1] == (str(i),)) | frozenset((k, v) for k, v in shapes[1].items() if k == ()))
                ret, outs = self.F.summary(cf, ((self.captured(s, ops[0]),) if isc else ()) + tuple(args))
                if isc:
                    self.apply_upvars(s, ops[0], outs)
                self.assign(s, dest, ret)
                return
        if g is not None and g.kind != "Closure":
            self.local(s, g, ops, shapes, ptss, dest)
            return
        self.extern(s, b, name, ident, fn[1], ops, shapes, ptss, ty_, labs, clo, dest)

    def optype(self, o):
        if o[0] in ("cp", "mv"):
            t = self.f.locals[o[1][0]]
            for e in o[1][1]:
                if e == "*":
                    t = t.a[2] if t.k in ("ref", "ptr") else mkty("other", "?")
                elif isinstance(e, list) and e[0] == "f":
                    t = self.fieldty(t, e[1])
                elif isinstance(e, list) and e[0] == "d":
                    pass
                else:
                    t = t.a[1] if t.k in ("slice", "array") else mkty("other", "?")
            return t
        return mkty("other", "const")

    def fieldty(self, t, n):
        if t.k == "tuple" and n.isdigit() and int(n) < len(t.a[1]):
            return t.a[1][int(n)]
        if t.k == "adt" and t.a[1] in self.F.prog.adts:
            for _, fs in self.F.prog.adts[t.a[1]]["v"]:
                for fname, ft, _ in fs:
                    if fname == n:
                        return ft
        return mkty("other", "?")

    def closures(self, s, o):
        """functions an operand holds: {(subpath + ("@", id, captured), {"@"})}"""
        c = self.oclo(s, o)
        out = set()
        if c:
            out.add((("@",) + c, frozenset("@")))
        return out

    def local(self, s, g, ops, shapes, ptss, dest):
        ins = tuple(frozenset((k, v) for k, v in sh.items() if v) | self.closures(s, o) for sh, o in zip(shapes[:g.argc], ops))
        ret, outs = self.F.summary(g, ins)
        for (i, sp), v in outs.items():
            if i < len(ptss):
                for (l, q), ex in ptss[i]:
                    self.setp(s, (l, q), {sp: v}, False)
        # what a callee cleans (sorts in place) is taken to stay labelled only if it says so
        for i in range(min(len(ptss), g.argc)):
            t = g.locals[i + 1]
            if t.k == "ref" and t.a[1] and self.flat(shapes[i]) and not any(j == i for j, _ in outs):
                for (l, q), ex in ptss[i]:
                    if ex and len(ptss[i]) == 1:
                        self.setp(s, (l, q), {}, True)
        pt = frozenset((q, False) for x in ptss for q, _ in x) if g.retty().k == "ref" and g.retty().a[1] else NONE
        self.assign(s, dest, ret, pt)

    def captured(self, s, o):
        out = {}
        for p, ex in self.norm(s, o[1]) if o[0] in ("cp", "mv") else ():
            ps = [p] + [q for q, _ in s.pts.get(p, NONE) if q in s.clo]
            for p in ps:
                if p not in s.clo:
                    continue
                n = s.clo[p][1]
                for i in range(n):
                    q = (p[0], p[1] + (str(i),))
                    sh = dict(self.shape(s, q))
                    for r, _ in s.pts.get(q, NONE):
                        for k, v in self.shape(s, r).items():
                            sh[k] = sh.get(k, NONE) | v
                    for k, v in sh.items():
                        key = ((str(i),) + k)[:3]
                        out[key] = out.get(key, NONE) | v
                    for r in [q] + [r for r, _ in s.pts.get(q, NONE)]:
                        if r in s.clo:
                            out[(str(i), "@") + s.clo[r]] = frozenset("@")
        return frozenset(out.items())

    def apply_upvars(self, s, o, outs):
        for p, ex in self.norm(s, o[1]) if o[0] in ("cp", "mv") else ():
            ps = [p] + [q for q, _ in s.pts.get(p, NONE) if q in s.clo]
            for p in ps:
                if p not in s.clo:
                    continue
                for (i, sp), v in outs.items():
                    if i == 0 and sp:
                        q = (p[0], p[1] + sp[:1])
                        for r, _ in s.pts.get(q, NONE):
                            self.setp(s, r, {sp[1:]: v}, False)

    def extern(self, s, b, name, ident, info, ops, shapes, ptss, ty_, labs, clo, dest):
        rt = self.f.locals[dest[0]] if not dest[1] else mkty("other", "?")
        recv = strip_refs(ty_[0]) if ty_ else None
        rname = tyname(recv) if recv is not None else ""
        if recv is not None and recv.k == "array":
            rname = "slice"
        allv = frozenset().union(*labs) if labs else NONE
        r0 = labs[0] if labs else NONE
        if name in ("with_nb_threads", "num_threads", "with_max_len"):
            allv = allv - {"J"}  # only decides how the work is spread
        # sources
        if name in ("now", "elapsed") and ("time" in ident):
            self.assign(s, dest, {(): allv | {"K"}})
            return
        if ident.startswith("num_cpus") or name == "available_parallelism":
            self.assign(s, dest, {(): allv | {"J"}})
            return
        v = allv
        if name in ITER | {"recv", "try_recv", "recv_timeout"} and ty_ and hashed_type(ty_[0]):
            v = v | {"H"}
            if name.startswith(("recv", "try_recv")):
                v = self.pick(v)
        elif name in ("extend", "from_iter", "chain", "zip", "append", "flatten", "collect", "from", "into") and any(hashed_type(t) for t in ty_[1 if name in ("extend", "append") else 0:]):
            if not (name == "append"):
                v = v | {"H"}
                labs = [l | {"H"} if hashed_type(t) and (i or name not in ("extend",)) else l for i, (l, t) in enumerate(zip(labs, ty_))]
        # closures given to the callee
        cret = NONE
        for i, c in enumerate(clo):
            if c:
                cf = self.F.prog.fns.get(c[0])
                if cf is None:
                    continue
                e = NONE
                x = r0 | (frozenset("H") if ty_ and hashed_type(ty_[0]) and name in ("retain",) else NONE)
                if name in ("for_each", "try_for_each", "inspect") and "H" in x:
                    e = x - {"H"} | {"E"}
                elif x - {"H"}:
                    e = x - {"H"}
                isc = cf.kind == "Closure"
                el = frozenset([((), e)]) if e else NONE
                if "I" in r0:
                    el = el | {(("0",), frozenset("T"))}
                ins = ((self.captured(s, ops[i]),) if isc else ()) + tuple(el for _ in range(cf.argc - (1 if isc else 0)))
                ret, outs = self.F.summary(cf, ins)
                if isc:
                    self.apply_upvars(s, ops[i], outs)
                cret = cret | self.flat(ret)
        # per-method rules
        if name == "enumerate" and "H" in r0:
            v = v | {"I"}
        if "I" in v and name in ("map", "flat_map", "filter_map"):
            v = v - {"I"}
        elif "I" in v and name in ("collect", "from_iter", "extend", "unzip", "partition", "last", "nth", "min", "max", "sorted", "fold"):
            v = v - {"I"} | {"T"}
            labs = [l - {"I"} | {"T"} if "I" in l else l for l in labs]
        if "I" in v and name == "next":
            self.assign(s, dest, {("0", "0"): frozenset("T"), ("0", "1"): frozenset("E")})
            return
        if name in FULLSORT and ptss and ptss[0]:
            for p, ex in ptss[0]:
                if ex and len(ptss[0]) == 1:
                    sh = self.shape(s, p)
                    self.setp(s, p, {k: w - {"H"} for k, w in sh.items()}, True)
                else:
                    self.setp(s, p, {k: w - {"H"} | ({"U"} if "H" in w else NONE) for k, w in self.shape(s, p).items()}, True)
            self.assign(s, dest, {})
            return
        if name in KEYSORT and ptss and ptss[0]:
            for p, ex in ptss[0]:
                self.setp(s, p, {k: w - {"H"} | ({"U"} if "H" in w else NONE) for k, w in self.shape(s, p).items()}, True)
            self.assign(s, dest, {})
            return
        if name in ("sorted", "sorted_unstable"):
            v = v - {"H"}
        elif name.startswith("sorted") or name in KEYPICK:
            v = (v | cret) - {"H"} | ({"U"} if "H" in v or "E" in v and name in ("eq", "ne", "cmp") else NONE)
            if name in ("eq", "ne") and "E" in allv:
                self.eqs = True
                v = v - {"E"} | {"U"}
        elif name in LAUNDER:
            v = v - {"H"} | (cret - ORDER)
        elif name in PICK and "H" in r0:
            if name in ("find", "find_map"):
                v = v - {"H"} | {"U"}
            else:
                loop = self.innermost(b)
                if loop is None or name in ("first", "last", "front", "back", "split_first", "split_last", "choose", "nth", "first_mut", "last_mut"):
                    e = False
                elif name in ("get", "index", "get_mut", "index_mut", "remove", "swap_remove", "split_off"):
                    e = ops[1][0] in ("cp", "mv")
                else:
                    e = not any(q[0] in self.defined(loop) for q, _ in (ptss[0] if ptss else ()))
                v = v - {"H"} | {"E" if e else "T"}
        elif name in POSITIONAL and "H" in r0:
            v = v - {"H"} | {"T" if name not in ("dedup", "dedup_by_key", "position", "rposition") else "U"}
            if ptss and ptss[0] and name in ("truncate",):
                for p, ex in ptss[0]:
                    self.setp(s, p, {(): frozenset("T")}, False)
        elif name in ("flat_map", "filter_map", "map", "flatten", "and_then", "unwrap_or_else", "map_or", "map_or_else", "or_else", "then", "scope", "try_for_each"):
            v = v | cret
        elif name in ("join", "fmt", "format") and "E" in v:
            pass
        if name in ("collect", "from_iter", "into", "from", "extend", "partition", "unzip") or True:
            if tyname(strip_refs(rt)) in SETS and name in ("collect", "from_iter", "from", "into", "clone_from", "sum"):
                v = v - {"H"}
        if scalar(rt) and name in LAUNDER:
            v = v - {"H"}
        # what mutable references among the arguments point to
        rest = NONE
        for i in range(1, len(labs)):
            rest = rest | labs[i]
        if ops and ptss and ptss[0] and ty_[0].k == "ref" and ty_[0].a[1] and name not in ITER and name not in ("next", "pop", "next_back"):
            w = rest | (cret if name in ("retain", "extend_with") else NONE)
            w2 = set(w) - {"H", "E"}
            if rname in SETS:
                if name not in ("extend", "append", "union_with", "intersect_with", "difference_with"):
                    w2 |= w & {"H"}
                if name == "insert" and len(labs) == 3 and "E" in labs[2] and "E" not in labs[1]:
                    w2.add("T")
            elif rname in SEQ:
                if w & {"H", "E"} and name not in ("get_mut", "remove", "index_mut", "reserve", "with_capacity"):
                    w2.add("H")
            elif rname in ("String", "str", "Formatter", "Sha3_256"):
                if w & {"H", "E"}:
                    w2.add("T")
            elif rname in ("Entry", "VacantEntry", "OccupiedEntry"):
                w2 |= w & {"H"}
            else:
                if w & {"H"}:
                    w2.add("H")
                if w & {"E"}:
                    w2.add("U")
            if w2:
                for p, ex in ptss[0]:
                    self.setp(s, p, {(): frozenset(w2)}, False)
        pt = frozenset((q, False) for x in ptss for q, _ in x)
        if not (rt.k == "ref" and rt.a[1] or rt.k in ("adt", "other", "alias") and tyname(rt) in ("Option", "IterMut", "Entry", "Result", "RefMut", "MutexGuard", "ValuesMut", "Map", "Filter", "Drain") or name in ("iter_mut", "entry", "values_mut")):
            pt = NONE
        if name in ("deref", "deref_mut", "as_ref", "as_mut", "borrow", "borrow_mut", "by_ref", "as_slice", "as_mut_slice", "as_str"):
            pt = frozenset(x for y in ptss for x in y)
            pt = frozenset((q, False) for x, _ in pt for q, _ in s.pts.get(x, NONE)) | pt
        c = next((x for x in clo if x), None) if name in ("deref", "clone", "by_ref", "as_ref") else None
        self.assign(s, dest, {(): v} if v else {}, pt, c)

    def innermost(self, b):
        c = [(len(body), h) for h, body in self.C.loops.items() if b in body]
        return min(c)[1] if c else None

    def defined(self, h):
        """locals assigned as a whole inside the loop"""
        d = self.defs.get(h)
        if d is None:
            d = set()
            for b in self.C.loops[h]:
                for x in self.f.blocks[b][0]:
                    if x[0] == "=" and not x[1][1]:
                        d.add(x[1][0])
                t = self.f.blocks[b][1]
                if t[0] == "call" and not t[3][1]:
                    d.add(t[3][0])
            self.defs[h] = d
        return d
