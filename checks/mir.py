"""Loads the facts dumped by the driver: types (interned), functions with MIR, impls, ADTs."""
import json, os, re

_TY = {}


def ty(*a):
    t = _TY.get(a)
    if t is None:
        t = Ty(a)
        _TY[a] = t
    return t


class Ty:
    __slots__ = ("a", "k")

    def __init__(self, a):
        self.a = a
        self.k = a[0]

    def __repr__(self):
        return tystr(self)


def tystr(t):
    a = t.a
    if t.k in ("prim", "param"):
        return a[1]
    if t.k == "adt":
        n = a[1].split("::")[-1]
        return n + ("<%s>" % ",".join(tystr(x) for x in a[2]) if a[2] else "")
    if t.k == "ref":
        return ("&mut " if a[1] else "&") + tystr(a[2])
    if t.k == "ptr":
        return "*" + tystr(a[2])
    if t.k == "tuple":
        return "(%s)" % ",".join(tystr(x) for x in a[1])
    if t.k in ("slice", "array"):
        return "[%s]" % tystr(a[1])
    if t.k == "closure":
        return "closure#" + a[1]
    return "%s:%s" % (t.k, a[1])


def strip_refs(t):
    while t.k in ("ref", "ptr"):
        t = t.a[2]
    return t


def subst(t, env):
    if not env:
        return t
    k = t.k
    if k == "param":
        return env.get(t.a[1], t)
    if k == "adt":
        if not t.a[2]:
            return t
        return ty("adt", t.a[1], tuple(subst(x, env) for x in t.a[2]))
    if k in ("ref", "ptr"):
        return ty(k, t.a[1], subst(t.a[2], env))
    if k == "tuple":
        return ty("tuple", tuple(subst(x, env) for x in t.a[1]))
    if k in ("slice", "array"):
        return ty(k, subst(t.a[1], env))
    return t


class Fn:
    def __init__(self, meta, prog, types):
        b = meta["body"]
        self.id = b["id"]
        self.name = meta.get("name") or ""
        self.kind = meta["kind"]
        self.argc = b["argc"]
        self.span = b["span"]
        self.file = b["span"][0]
        self.locals = [types[l[0]] for l in b["locals"]]
        self.lnames = [l[1] for l in b["locals"]]
        self.blocks = b["blocks"]
        self.vis = meta.get("vis")
        self.reach = meta.get("reach")
        self.derived = bool(meta.get("derived"))
        self.impl = meta.get("impl")
        self.trait = meta.get("trait")
        self.of_trait = meta.get("of_trait")
        self.parent = meta.get("parent")
        self.root = meta.get("root")
        self.gen = meta.get("gen") or []
        self.selfty = types[meta["self"]] if "self" in meta else None
        self._cfg = None
        self.types = types
        self.crate = None

    def __repr__(self):
        return "Fn(%s)" % self.id

    @property
    def short(self):
        """Type::name or name"""
        if self.selfty is not None:
            s = strip_refs(self.selfty)
            return "%s::%s" % (typename(s), self.name)
        if self.of_trait:
            return "%s::%s" % (self.of_trait.split("::")[-1], self.name)
        if self.kind == "Closure":
            return self.id.split("::", 1)[1]
        return self.name

    def argtys(self):
        return self.locals[1:self.argc + 1]

    def retty(self):
        return self.locals[0]

    # -- control flow ------------------------------------------------------------------------
    def succs(self, i):
        bl = self.blocks[i]
        if not bl:
            return []
        t = bl[1]
        k = t[0]
        if k == "goto":
            r = [t[1]]
        elif k == "switch":
            r = [x[1] for x in t[2]] + [t[3]]
        elif k == "drop":
            r = [t[2]]
        elif k == "call":
            r = [t[4]] if t[4] is not None else []
        elif k == "assert":
            r = [t[3]]
        else:
            r = []
        out = []
        for x in r:
            if self.blocks[x] and x not in out:
                out.append(x)
        return out

    def cfg(self):
        if self._cfg:
            return self._cfg
        n = len(self.blocks)
        succ = [self.succs(i) for i in range(n)]
        # rpo
        seen = set()
        post = []
        st = [(0, iter(succ[0]))]
        seen.add(0)
        while st:
            u, it = st[-1]
            for v in it:
                if v not in seen:
                    seen.add(v)
                    st.append((v, iter(succ[v])))
                    break
            else:
                post.append(u)
                st.pop()
        rpo = post[::-1]
        num = {b: i for i, b in enumerate(rpo)}
        pred = {b: [] for b in rpo}
        for u in rpo:
            for v in succ[u]:
                pred[v].append(u)
        # dominators
        idom = {rpo[0]: rpo[0]}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in pred[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while num[x] > num[y]:
                                    x = idom[x]
                                while num[y] > num[x]:
                                    y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == rpo[0]:
                    return False
                b = idom[b]
        loops = {}
        for u in rpo:
            for v in succ[u]:
                if num[v] <= num[u] and dom(v, u):
                    body = loops.setdefault(v, {v})
                    st = [u]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(pred[x])
        self._cfg = C = type("Cfg", (), {})()
        C.succ, C.rpo, C.num, C.pred, C.loops, C.dom, C.idom = succ, rpo, num, pred, loops, dom, idom
        C.live = self._liveness(C)
        return C

    def _liveness(self, C):
        """live-in locals per block (locals whose mutable address is taken stay live until
        StorageDead; drops count as uses of RefCell guards only)."""
        use = {}
        deff = {}
        addr = set()
        for b in C.rpo:
            u, d = set(), set()

            def ruse(pl):
                if pl[0] not in d:
                    u.add(pl[0])
                for e in pl[1]:
                    if isinstance(e, list) and e[0] == "i" and e[1] not in d:
                        u.add(e[1])

            def ouse(o):
                if o[0] in ("cp", "mv"):
                    ruse(o[1])
            for s in self.blocks[b][0]:
                if s[0] == "=":
                    rv = s[2]
                    k = rv[0]
                    if k in ("use",):
                        ouse(rv[1])
                    elif k == "repeat":
                        ouse(rv[1])
                    elif k == "ref":
                        ruse(rv[2])
                        if rv[1] and not any(e == "*" for e in rv[2][1]):
                            addr.add(rv[2][0])
                    elif k == "cast":
                        ouse(rv[2])
                    elif k == "bin":
                        ouse(rv[2])
                        ouse(rv[3])
                    elif k == "un":
                        ouse(rv[2])
                    elif k == "discr":
                        ruse(rv[1])
                    elif k == "agg":
                        for o in rv[2]:
                            ouse(o)
                    if not s[1][1]:
                        d.add(s[1][0])
                    else:
                        ruse(s[1])
                elif s[0] == "setd":
                    ruse(s[1])
                elif s[0] == "dead":
                    d.add(s[1])
            t = self.blocks[b][1]
            if t[0] == "switch":
                ouse(t[1])
            elif t[0] == "call":
                if t[1][0] in ("cp", "mv"):
                    ouse(t[1])
                for o in t[2]:
                    ouse(o)
                if t[3][1]:
                    ruse(t[3])
            elif t[0] == "assert":
                ouse(t[1])
            elif t[0] == "drop":
                tt = tystr(self.locals[t[1][0]])
                if "Ref<" in tt or "RefMut<" in tt:
                    ruse(t[1])
            elif t[0] == "ret":
                if 0 not in d:
                    u.add(0)
            use[b], deff[b] = u, d
        for a in range(1, self.argc + 1):
            if self.locals[a].k == "ref" and self.locals[a].a[1]:
                addr.add(a) if False else None
        dead_after = set()
        live = {b: set() for b in C.rpo}
        ch = True
        while ch:
            ch = False
            for b in reversed(C.rpo):
                out = set()
                for s in C.succ[b]:
                    out |= live[s]
                t = self.blocks[b][1]
                dd = deff[b]
                if t[0] == "call" and not t[3][1]:
                    out = out - {t[3][0]}
                new = use[b] | (out - dd)
                if new != live[b]:
                    live[b] = new
                    ch = True
        self.addr = addr
        return live


def typename(t):
    t = strip_refs(t)
    if t.k == "adt":
        return t.a[1].split("::")[-1]
    if t.k == "prim":
        return t.a[1]
    if t.k in ("slice", "array"):
        return "slice"
    if t.k == "tuple":
        return "tuple"
    if t.k == "param":
        return t.a[1]
    if t.k == "dyn":
        return t.a[1].split("::")[-1]
    return t.k


_gen = re.compile(r"::<[^<>]*(?:<[^<>]*(?:<[^<>]*>[^<>]*)*>[^<>]*)*>")


def extname(u):
    """std::vec::Vec::<T, A>::push -> Vec::push;  core::slice::<impl [T]>::iter -> slice::iter"""
    u = u.replace("<impl [T]>", "slice").replace("<impl str>", "str")
    u = re.sub(r"<impl ([A-Za-z0-9_:]+)>", lambda m: m.group(1).split("::")[-1], u)
    prev = None
    while prev != u:
        prev = u
        u = _gen.sub("", u)
    parts = [p for p in u.split("::") if p]
    return "::".join(parts[-2:])


class Program:
    def __init__(self, dirname):
        self.fns = {}
        self.adts = {}
        self.impls = []
        self.crates = []
        for f in sorted(os.listdir(dirname)):
            if f.endswith(".json"):
                self._load(json.load(open(os.path.join(dirname, f))))
        self.by_short = {}
        for f in self.fns.values():
            if f.kind != "Promoted" and f.kind != "Closure":
                self.by_short.setdefault(f.short, []).append(f)
        # trait impl lookup: (trait, method) -> [(selfty, fnid, impl)]
        self.trimpl = {}
        for im in self.impls:
            if im["trait"]:
                for n, p in im["items"]:
                    self.trimpl.setdefault((im["trait"], n), []).append((im["self"], p, im))

    def _load(self, d):
        raw = d["types"]
        memo = {}

        def conv(i, stack=()):
            if i in memo:
                return memo[i]
            if i in stack:
                return ty("other", "rec")
            j = raw[i]
            s = stack + (i,)
            k = j["k"]
            if k == "prim":
                t = ty("prim", j["n"])
            elif k == "adt":
                t = ty("adt", j["p"], tuple(conv(x, s) for x in j["a"]))
            elif k == "ref":
                t = ty("ref", j["m"], conv(j["t"], s))
            elif k == "ptr":
                t = ty("ptr", j["m"], conv(j["t"], s))
            elif k == "tuple":
                t = ty("tuple", tuple(conv(x, s) for x in j["a"]))
            elif k in ("slice", "array"):
                t = ty(k, conv(j["t"], s))
            elif k == "closure":
                t = ty("closure", j["p"])
            elif k == "fndef":
                t = ty("fndef", j["p"], tuple(conv(x, s) for x in j["a"]))
            elif k == "param":
                t = ty("param", j["n"])
            elif k == "dyn":
                t = ty("dyn", j["p"])
            else:
                t = ty("alias" if k == "alias" else "other", j.get("s", "?"))
            memo[i] = t
            return t
        types = [conv(i) for i in range(len(raw))]
        self.crates.append(d["crate"])
        for m in d["bodies"]:
            f = Fn(m, self, types)
            f.crate = d["crate"]
            self.fns[f.id] = f
        for a in d["adts"]:
            self.adts[a["p"]] = {"n": a["n"], "p": a["p"], "span": a["span"], "crate": d["crate"],
                                 "v": [(v["n"], [(x["n"], types[x["t"]], x["pub"]) for x in v["f"]]) for v in a["v"]]}
        for im in d["impls"]:
            self.impls.append({"p": im["p"], "self": types[im["self"]], "trait": im["trait"],
                               "items": im["items"], "derived": im["derived"], "crate": d["crate"]})

    def is_local(self, path):
        return path.split("::")[0] in self.crates

    def find(self, short, crate=None):
        c = [f for f in self.by_short.get(short, []) if crate is None or f.crate == crate]
        return c

    def one(self, short, crate="fbas_analyzer"):
        c = self.find(short, crate)
        return c[0] if len(c) == 1 else None

    def adt(self, name, crate="fbas_analyzer"):
        for a in self.adts.values():
            if a["n"] == name and a["crate"] == crate:
                return a
        return None


def unify(pat, t, env):
    if pat.k == "param":
        env[pat.a[1]] = t
        return True
    if pat is t:
        return True
    if pat.k != t.k:
        return False
    if pat.k == "adt":
        return pat.a[1] == t.a[1] and len(pat.a[2]) == len(t.a[2]) and all(unify(x, y, env) for x, y in zip(pat.a[2], t.a[2]))
    if pat.k in ("ref", "ptr"):
        return pat.a[1] == t.a[1] and unify(pat.a[2], t.a[2], env)
    if pat.k in ("slice", "array"):
        return unify(pat.a[1], t.a[1], env)
    if pat.k == "tuple":
        return len(pat.a[1]) == len(t.a[1]) and all(unify(x, y, env) for x, y in zip(pat.a[1], t.a[1]))
    return pat.a == t.a
