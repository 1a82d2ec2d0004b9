"""Hash-consed terms: the abstract values of the value-flow analysis."""


class T:
    __slots__ = ("op", "a", "n", "_s")

    def __repr__(self):
        return show(self, 6)

    def __lt__(self, o):
        return self.n < o.n


_tab = {}


def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.n = len(_tab)
        t._s = None
        _tab[k] = t
    return t


TRUE, FALSE = mk("bool", True), mk("bool", False)
UNIT = mk("agg", "tuple", "", (), None)


def I(v):
    return mk("int", v)


def B(v):
    return TRUE if v else FALSE


def agg(path, variant, fields, base=None):
    return mk("agg", path, variant, tuple(sorted(fields, key=lambda f: f[0])), base)


def tup(*v):
    return agg("tuple", "", tuple((str(i), x) for i, x in enumerate(v)))


def some(v):
    return agg("core::option::Option", "Some", (("0", v),))


NONE = agg("core::option::Option", "None", ())


def ok(v):
    return agg("core::result::Result", "Ok", (("0", v),))


def err(v):
    return agg("core::result::Result", "Err", (("0", v),))


def call(name, *args):
    return mk("call", name, tuple(args))


def isagg(t):
    return t.op == "agg"


def fields(t):
    return dict(t.a[2])


# ---- integers: linear normal form ------------------------------------------------------------
def lin_parts(t):
    if t.op == "int":
        return t.a[0], {}
    if t.op == "lin":
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def mk_lin(c, d):
    d = {k: v for k, v in d.items() if v}
    if not d:
        return I(c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    return mk("lin", c, tuple(sorted(d.items(), key=lambda x: x[0].n)))


def add(a, b, sb=1):
    ca, da = lin_parts(a)
    cb, db = lin_parts(b)
    d = dict(da)
    for k, v in db.items():
        d[k] = d.get(k, 0) + sb * v
    return mk_lin(ca + sb * cb, d)


def mul(a, b):
    if a.op != "int" and b.op == "int":
        a, b = b, a
    if a.op == "int":
        cb, db = lin_parts(b)
        return mk_lin(a.a[0] * cb, {k: v * a.a[0] for k, v in db.items()})
    if b.n < a.n:
        a, b = b, a
    return mk("mul", a, b)


def neg_lin(t):
    c, d = lin_parts(t)
    return mk_lin(-c, {k: -v for k, v in d.items()})


def le0(t):
    """t <= 0 as a canonical boolean term (unsigned operands assumed for single terms)"""
    c, d = lin_parts(t)
    if not d:
        return B(c <= 0)
    lead = min(d.items(), key=lambda x: x[0].n)
    if lead[1] < 0:  # -x + c <= 0  <=>  not (x - c + 1 <= 0)
        return not_(le0(add(neg_lin(t), I(1))))
    if len(d) == 1 and lead[1] > 0:
        if c == 0:
            return eq0(t)
        if c > 0:
            return FALSE if all(x.op in ("len", "sym", "call", "lv", "fld") for x in d) and False else mk("le0", t)
    return mk("le0", t)


def eq0(t):
    c, d = lin_parts(t)
    if not d:
        return B(c == 0)
    lead = min(d.items(), key=lambda x: x[0].n)
    if lead[1] < 0:
        t = neg_lin(t)
    return mk("eq0", t)


def lt(a, b):  # a < b  <=>  a - b + 1 <= 0
    return le0(add(add(a, b, -1), I(1)))


def le(a, b):
    return le0(add(a, b, -1))


def ieq(a, b):
    return eq0(add(a, b, -1))


def not_(t):
    if t.op == "bool":
        return B(not t.a[0])
    if t.op == "not":
        return t.a[0]
    return mk("not", t)


def and_(*ts):
    s = []
    for t in ts:
        if t is FALSE:
            return FALSE
        if t is TRUE:
            continue
        if t.op == "and":
            s += [x for x in t.a if x not in s]
        elif t not in s:
            s.append(t)
    ch = True
    while ch:
        ch = False
        for i, t in enumerate(s):
            if not_(t) in s:
                return FALSE
            if t.op == "not" and t.a[0].op == "and":
                inner = t.a[0].a
                rest = [x for x in s if x is not t]
                if any(not_(x) in rest for x in inner):
                    s = rest
                    ch = True
                    break
                keep = [x for x in inner if x not in rest]
                if len(keep) < len(inner):
                    n = not_(and_(*keep)) if keep else FALSE
                    return and_(*(rest + [n]))
    nands = [t for t in s if t.op == "not" and t.a[0].op == "and"]
    for i, x in enumerate(nands):
        for y in nands[:i]:
            dx = [u for u in x.a[0].a if u not in y.a[0].a]
            dy = [u for u in y.a[0].a if u not in x.a[0].a]
            if len(dx) == 1 and len(dy) == 1 and not_(dx[0]) is dy[0]:
                com = [u for u in x.a[0].a if u in y.a[0].a]
                return and_(*([t for t in s if t is not x and t is not y] + [not_(and_(*com))]))
    if not s:
        return TRUE
    if len(s) == 1:
        return s[0]
    return mk("and", *sorted(s))


def or_(*ts):
    return not_(and_(*[not_(t) for t in ts]))


def eq(a, b):
    if a is b:
        return TRUE
    if a.op in ("int", "str", "bool", "float") and b.op == a.op:
        return B(a.a[0] == b.a[0])
    if a.op == "bool":
        return b if a.a[0] else not_(b)
    if b.op == "bool":
        return a if b.a[0] else not_(a)
    if a.op == "agg" and b.op == "agg" and a.a[3] is None and b.a[3] is None:
        if a.a[0] == b.a[0] and a.a[1] != b.a[1]:
            return FALSE
        if a.a[0] == b.a[0] and len(a.a[2]) == len(b.a[2]):
            fa, fb = fields(a), fields(b)
            if set(fa) == set(fb):
                return and_(*[eq(fa[k], fb[k]) for k in fa])
    for x, y in ((a, b), (b, a)):
        if y.op == "getopt" and x.op == "agg" and x.a[3] is None and x.a[1] in ("Some", "None"):
            return and_(y.a[0], eq(fld(x, "0"), y.a[1])) if x.a[1] == "Some" else not_(y.a[0])
        if x.op == "agg" and not x.a[2] and x.a[3] is None and x.a[1] and y.op != "agg":
            return isvar(y, x.a[1])
    if a.op in ("int", "lin", "len") or b.op in ("int", "lin", "len"):
        return ieq(a, b)
    if b.n < a.n:
        a, b = b, a
    return mk("eq", a, b)


def fld(v, n):
    if v.op == "agg":
        for k, x in v.a[2]:
            if k == n:
                return x
        if v.a[3] is not None:
            return fld(v.a[3], n)
    if v.op == "phi":
        return phi([fld(x, n) for x in v.a[0]])
    return mk("fld", v, n)


def pay(v, var, n):
    if v.op == "agg":
        for k, x in v.a[2]:
            if k == n and v.a[1] == var:
                return x
        if v.a[3] is not None:
            return pay(v.a[3], var, n)
    if v.op == "get" and var == "Some":
        return mapval(v.a[0], v.a[1])
    if v.op == "getopt" and var == "Some":
        return v.a[1]
    if v.op == "phi":
        xs = [x for x in v.a[0] if not (x.op == "agg" and x.a[1] != var)]
        if xs:
            return phi([pay(x, var, n) for x in xs])
    return mk("pay", v, var, n)


def phi(xs):
    s = set()
    for x in xs:
        if x.op == "phi":
            s |= x.a[0]
        else:
            s.add(x)
    if len(s) == 1:
        return next(iter(s))
    return mk("phi", frozenset(s))


def any_(parts):
    """some part is inhabited: parts with elem TRUE and the condition in the guards"""
    ps = set()
    for p in parts:
        e, g, b = p.a
        if (TRUE, False) in g or (FALSE, True) in g:
            continue
        g = frozenset(x for x in g if x not in ((TRUE, True), (FALSE, False)))
        if any((k, not v) in g for k, v in g if isinstance(v, bool)):
            continue
        nest = [k for k, v in g if v is True and k.op == "any"]
        if nest:
            k = nest[0]
            g = g - {(k, True)}
            r = any_([part(TRUE, g | q.a[1], b + q.a[2]) for q in k.a[0]])
            if r is TRUE:
                return TRUE
            if r.op == "any":
                ps |= r.a[0]
                continue
            g = frozenset([(r, True)])
        if not g and not b:
            return TRUE
        if len(b) == 1:
            # the element is given: S contains it and the other conditions hold for it
            x = elem(*b[0])
            pt = None
            for k, v in g:
                if v is True and k.op == "eq":
                    if k.a[0] is x and not mentions(k.a[1], x):
                        pt = (k, k.a[1])
                    elif k.a[1] is x and not mentions(k.a[0], x):
                        pt = (k, k.a[0])
            if pt is not None:
                m = {x: pt[1]}
                r = and_(contains(b[0][0], pt[1]), *[subst(k, m) if v else not_(subst(k, m)) for k, v in g if k is not pt[0]])
                if r is TRUE:
                    return TRUE
                if r is FALSE:
                    continue
                g = frozenset((y.a[0], False) if y.op == "not" else (y, True) for y in (r.a if r.op == "and" else (r,)))
                b = ()
        ps.add(part(TRUE, g, b))
    if not ps:
        return FALSE
    if len(ps) == 1:
        g, b = next(iter(ps)).a[1:]
        if not b:
            return and_(*[k if v else not_(k) for k, v in g])
        if not g and len(b) == 1:
            return not_(eq0(length(b[0][0])))
    return mk("any", frozenset(ps))


TWO = {"None": "Some", "Err": "Ok", "Break": "Continue"}  # variant -> canonical partner


def isvar(v, variant):
    """v is of that variant, as a canonical boolean term"""
    if v.op == "agg" and v.a[1]:
        return B(v.a[1] == variant)
    if variant in TWO:
        return not_(isvar(v, TWO[variant]))
    if v.op == "get" and variant == "Some":
        return contains(v.a[0], v.a[1])
    if v.op == "getopt" and variant == "Some":
        return v.a[0]
    return mk("is", v, variant)


# ---- collections -----------------------------------------------------------------------------
NOFACTS = frozenset()


def part(e, g=NOFACTS, b=()):
    return mk("part", e, frozenset(g), tuple(b))


def nopos(tags):
    """tags that survive adding or changing elements"""
    return frozenset(t for t in tags if isinstance(t, str) and t not in ("sorted", "uniq", "rev", "repeat"))


def coll(kind, parts, over=(), tags=frozenset()):
    ps = []
    for p in parts:
        if p not in ps or kind not in ("set", "hset"):
            ps.append(p)
    return mk("coll", kind, tuple(ps), tuple(over), frozenset(tags))


def elem(s, t=0):
    return mk("elem", s, t)


def isid(p):
    """source S if the part stands for all elements of S, unchanged"""
    e, g, b = p.a
    if e.op == "elem" and len(b) == 1 and b[0] == (e.a[0], e.a[1]):
        return e.a[0]
    return None


def identity(c):
    if c.op == "coll" and len(c.a[1]) == 1 and not c.a[2] and not c.a[1][0].a[1]:
        return isid(c.a[1][0])
    return None


SETS = ("set", "hset")


def parts_of(v):
    if v.op == "coll":
        if v.a[2]:
            return [part(elem(v), (), ((v, 0),))]
        return list(v.a[1])
    if v.op == "agg":
        p = v.a[0].split("::")[-1]
        if p == "Option":
            return [part(x) for _, x in v.a[2]]
        if p == "Result":
            return [part(x) for _, x in v.a[2]] if v.a[1] == "Ok" else []
        if p in ("Range", "RangeInclusive"):
            f = fields(v)
            lo, hi = f.get("start"), f.get("end")
            if lo is not None and hi is not None:
                if p == "RangeInclusive":
                    hi = add(hi, I(1))
                if lo == I(0) and hi.op == "len":
                    return [part(pos(hi.a[0], elem(hi.a[0])), (), ((hi.a[0], 0),))]
                r = mk("range", lo, hi)
                return [part(elem(r), (), ((r, 0),))]
    if v.op == "getopt":
        return [part(v.a[1], ((v.a[0], True),))]
    return [part(elem(v), (), ((v, 0),))]


def pos(s, e):
    return mk("pos", s, e)


def length(c):
    if c.op == "coll" and not c.a[2]:
        ps = c.a[1]
        s = identity(c)
        if s is not None and (c.a[0] not in SETS or "uniq" in c.a[3]):
            return length(s)
        if "repeat" in c.a[3]:
            return mk("len", c)
        if c.a[0] not in SETS and len(ps) == 1 and not ps[0].a[1] and len(ps[0].a[2]) == 1:
            return length(ps[0].a[2][0][0])
        if c.a[0] not in SETS and len(ps) > 1 or (c.a[0] in SETS and len(ps) <= 1) or not ps or (len(ps) == 1 and not ps[0].a[2]):
            n = I(0)
            for p in ps:
                if not p.a[1] and not p.a[2]:
                    n = add(n, I(1))
                else:
                    n = add(n, mk("len", coll(c.a[0], [p])) if len(ps) > 1 else mk("len", c))
            return n
    if c.op == "agg" and c.a[0].split("::")[-1] == "Range":
        f = fields(c)
        if f.get("start") == I(0):
            return f["end"]
    if c.op == "range":
        return c.a[1] if c.a[0] == I(0) else mk("len", c)
    if c.op in ("hashed",):
        return length(c.a[0])
    return mk("len", c)


def contains(c, x):
    if x.op == "elem" and x.a[0] is c:
        return TRUE
    if c.op == "agg" and c.a[0].split("::")[-1] in ("Range", "RangeInclusive"):
        return mk("contains", c, x)
    if c.op == "coll" and not c.a[2]:
        ismap = c.a[0] in ("map", "hmap")
        res = FALSE
        for p in c.a[1]:
            e, g, b = p.a
            if ismap:
                e = fields(e).get("0", e) if e.op == "agg" else mk("fld", e, "0")
            if not b:
                t = eq(e, x)
                t = and_(t, *[k if v else not_(k) for k, v in g])
            elif e.op == "elem" and len(b) == 1 and b[0] == (e.a[0], e.a[1]):
                m = {e: x}
                t = and_(contains(e.a[0], x), *[subst(k, m) if v else not_(subst(k, m)) for k, v in g])
            else:
                t = None
            if t is None:
                return mk("contains", c, x)
            res = or_(res, t)
        return res
    return mk("contains", c, x)


def mapval(m, k):
    if m.op == "coll":
        for kk, v, g, b in m.a[2]:
            if kk is k and not b:
                return v
        if not m.a[2]:
            for p in reversed(m.a[1]):
                e, g, b = p.a
                if e.op == "agg" and not b and fields(e).get("0") is k:
                    return fields(e)["1"]
            if len(m.a[1]) == 1:
                e, g, b = m.a[1][0].a
                if e.op == "agg" and not g and len(b) == 1:
                    f = fields(e)
                    if f["0"] is elem(*b[0]):
                        return subst(f["1"], {f["0"]: k})
    return mk("idx", m, k)


def getidx(v, k):
    if v.op == "coll":
        for kk, x, g, b in reversed(v.a[2]):
            if kk is k and not b:
                return x
        if not v.a[2]:
            if k.op == "int" and all(not p.a[2] and not p.a[1] for p in v.a[1][:k.a[0] + 1]) and k.a[0] < len(v.a[1]) and v.a[0] not in SETS:
                return v.a[1][k.a[0]].a[0]
            s = identity(v)
            if s is not None and v.a[0] not in ("map", "hmap"):
                return getidx(s, k)
            if v.a[0] in ("map", "hmap"):
                return mapval(v, k)
            if len(v.a[1]) == 1 and k.op == "pos":
                # vec built by mapping over S in order, read at the position of an element of S
                e, g, b = v.a[1][0].a
                if not g and len(b) == 1 and b[0][0] is k.a[0] and "perm" not in v.a[3]:
                    return subst(e, {elem(*b[0]): k.a[1]})
            if len(v.a[1]) == 1 and k.op != "pos":
                e, g, b = v.a[1][0].a
                if not g and len(b) == 1 and b[0][0].op == "range" and b[0][0].a[0] == I(0):
                    return subst(e, {elem(*b[0]): k})
                if not g and not mentions_any(e, b) and len(b) == 1 and e.op in ("int", "bool", "float"):
                    return e
    if v.op == "agg" and v.a[0].split("::")[-1] in ("Range",):
        return add(fields(v)["start"], k)
    if k.op == "pos" and k.a[0] is v and k.a[1].op == "elem" and k.a[1].a[0] is v:
        return k.a[1]
    return mk("idx", v, k)


def mentions_any(t, binds):
    return any(mentions(t, elem(*b)) for b in binds)


# ---- traversal ------------------------------------------------------------------------------
def kids(x):
    """direct sub-terms of a term or nested tuple/frozenset"""
    st = list(x.a) if isinstance(x, T) else list(x)
    out = []
    while st:
        y = st.pop()
        if isinstance(y, T):
            out.append(y)
        elif isinstance(y, (tuple, frozenset)):
            st.extend(y)
    return out


def subterms(t, skip=None):
    seen = set()
    st = [t] if isinstance(t, T) else list(kids(t))
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        if skip and skip(x):
            continue
        st.extend(kids(x))


_mentions = {}


def mentions(t, x):
    """does t contain sub-term x"""
    k = (t, x)
    r = _mentions.get(k)
    if r is None:
        if t is x:
            r = True
        elif t.n < x.n:
            r = False
        else:
            r = any(mentions(y, x) for y in kids(t))
        _mentions[k] = r
    return r


def rename_part(p, avoid, extra=()):
    """p with the bound elements that occur in avoid renamed"""
    e, g, b = p.a
    if not any(elem(*q) in avoid for q in b):
        return p
    m, nb = {}, []
    for src, tag in b:
        s2 = subst(src, m) if m else src
        t = tag
        while elem(s2, t) in avoid or (s2, t) in nb or (s2, t) in extra:
            t = t + 1 if isinstance(t, int) else 0
        if (s2, t) != (src, tag):
            m[elem(src, tag)] = elem(s2, t)
        nb.append((s2, t))
    if not m:
        return p
    return part(subst(e, m), [(subst(k, m), v) for k, v in g], nb)


def subst(t, m, memo=None):
    if memo is None:
        memo = {}
    mfree = {}

    def gopart(x):
        b = x.a[2]
        if not b:
            return None
        bound = [elem(*q) for q in b]
        if any(y in m for y in bound):
            # shadowed: only the sources up to the binding are outside
            m2 = {k: v for k, v in m.items() if k not in bound}
            if not m2:
                return x
            return subst(x, m2)
        av = set()
        for k, v in m.items():
            f = mfree.get(k)
            if f is None:
                f = mfree[k] = freevars(v)
            if f and any(y in f for y in bound) and mentions(x, k):
                av |= f
        if any(y in av for y in bound):
            return subst(rename_part(x, av), m)
        return None

    def go(x):
        if isinstance(x, T):
            r = m.get(x)
            if r is not None:
                return r
            r = memo.get(x)
            if r is None and x.op == "part":
                r = memo[x] = gopart(x)
            if r is None:
                na = tuple(go(y) for y in x.a)
                if na == x.a:
                    r = x
                elif x.op == "lin":
                    r = I(na[0])
                    for k, v in na[1]:
                        r = add(r, mul(I(v), k))
                elif x.op == "eq0":
                    r = eq0(na[0])
                elif x.op == "le0":
                    r = le0(na[0])
                elif x.op == "not":
                    r = not_(na[0])
                elif x.op == "and":
                    r = and_(*na)
                elif x.op == "eq":
                    r = eq(*na)
                elif x.op == "contains":
                    r = contains(*na)
                elif x.op == "is":
                    r = isvar(*na)
                elif x.op == "len":
                    r = length(*na)
                elif x.op == "idx":
                    r = getidx(*na)
                elif x.op == "fld":
                    r = fld(*na)
                elif x.op == "pay":
                    r = pay(*na)
                elif x.op == "any":
                    r = any_(na[0])
                elif x.op == "coll":
                    r = coll(*na)
                elif x.op == "fbin" and na[0] in ("Add", "Mul") and na[2].n < na[1].n:
                    r = mk("fbin", na[0], na[2], na[1])
                elif x.op in ("max2", "min2") and len(na) == 2 and na[1].n < na[0].n:
                    r = mk(x.op, na[1], na[0])
                else:
                    r = mk(x.op, *na)
                memo[x] = r
            return r
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if isinstance(x, frozenset):
            return frozenset(go(y) for y in x)
        return x
    return go(t)


_free = {}
EMPTY = frozenset()


def freevars(t):
    """element terms occurring free (not bound by a comprehension)"""
    if not isinstance(t, T):
        if isinstance(t, (tuple, frozenset)):
            r = EMPTY
            for x in t:
                r = r | freevars(x)
            return r
        return EMPTY
    r = _free.get(t)
    if r is None:
        if t.op == "elem":
            r = freevars(t.a[0]) | {t}
        elif t.op == "part":
            e, g, b = t.a
            r = freevars(e) | freevars(g)
            for src, tag in reversed(b):
                r = (r - {elem(src, tag)}) | freevars(src)
        elif t.op == "lv":
            r = EMPTY
        elif t.op == "coll":
            r = freevars(t.a[1])
            for k, x, g, b in t.a[2]:
                q = freevars(k) | freevars(x) | freevars(g)
                for src, tag in reversed(b):
                    q = (q - {elem(src, tag)}) | freevars(src)
                r = r | q
        else:
            r = freevars(t.a)
        _free[t] = r
    return r


# ---- printing ---------------------------------------------------------------------------------
def show(t, d=6):
    if not isinstance(t, T):
        if isinstance(t, (tuple, frozenset)):
            return "(" + ",".join(show(x, d) for x in t) + ")"
        return str(t)
    if d <= 0:
        return "…"
    o, a = t.op, t.a
    if o in ("int", "bool", "float"):
        return str(a[0])
    if o == "str":
        return repr(a[0])
    if o == "sym":
        return str(a[0])
    if o == "agg":
        p = a[0].split("::")[-1]
        if p == "tuple":
            return "(" + ", ".join(show(v, d - 1) for _, v in a[2]) + ")"
        s = (a[1] if a[1] and a[1] != p else p)
        if a[2] or a[3] is not None:
            s += "{" + ", ".join("%s:%s" % (f, show(v, d - 1)) for f, v in a[2]) + (", ..%s" % show(a[3], d - 1) if a[3] is not None else "") + "}"
        return s
    if o == "fld":
        return "%s.%s" % (show(a[0], d), a[1])
    if o == "pay":
        return "%s.%s" % (show(a[0], d), a[1] + ("." + a[2] if a[2] != "0" else ""))
    if o == "idx":
        return "%s[%s]" % (show(a[0], d), show(a[1], d - 1))
    if o == "elem":
        return "∈%s%s" % (show(a[0], d - 1), "'" * a[1] if isinstance(a[1], int) else "")
    if o == "coll":
        return "%s[%s%s%s]" % (a[0], "; ".join(showpart(p, d - 1) for p in a[1]),
                               (" |over " + ", ".join("%s:=%s" % (show(k, d - 1), show(v, d - 1)) for k, v, g, b in a[2])) if a[2] else "",
                               (" #" + ",".join(sorted(map(str, a[3])))) if a[3] else "")
    if o == "lin":
        s = "+".join(("%s*" % k if k != 1 else "") + show(x, d - 1) for x, k in a[1])
        return "(%s%+d)" % (s, a[0]) if a[0] else "(%s)" % s
    if o == "call":
        return "%s(%s)" % (a[0], ", ".join(show(x, d - 1) for x in a[1]))
    if o == "clo":
        return "|%s|" % a[0].split("::", 1)[-1]
    if o == "ref":
        return "&mut%s%s" % (a[0], a[1] or "")
    if o == "fn":
        return "fn:%s" % (a[0],)
    return "%s(%s)" % (o, ", ".join(show(x, d - 1) for x in a))


def showpart(p, d=4):
    e, g, b = p.a
    s = show(e, d)
    if g:
        s += " | " + " & ".join(sorted(("" if v is True else "!" if v is False else "%s=" % v) + show(k, d - 1) for k, v in g))
    if b:
        s += " for " + ",".join(show(x, d - 2) for x, tag in b)
    return s
