"""What library functions do to abstract values."""
from mir import *
from mir import ty as mkty
import terms
from terms import *

M = {}


def model(*names):
    def deco(f):
        for n in names:
            M[n] = f
        return f
    return deco


class C:
    """one library call"""

    def __init__(self, ms, fr, st, name, fv, args, key, span):
        self.I, self.ms, self.fr, self.st, self.name, self.fv, self.args, self.key, self.span = ms.I, ms, fr, st, name, fv, args, key, span
        self.ta = fv.a[5] if fv.op == "fn" else ()

    def v(self, i):
        return self.I.read(self.st, self.args[i])

    def kind(self, i=0):
        return kindof(strip_refs(self.ta[i])) if i < len(self.ta) else None

    def app(self, st, f, args, sub=""):
        return self.I.apply(self.fr, st, f, args, self.key + (sub, self.name) if sub != "" else self.key + (self.name,), self.span)

    def each(self, it, body, st=None):
        return self.I.each(self.fr, st or self.st, it, body, self.key + (self.name,))

    def apart(self, p, x):
        """p with bound elements distinct from those free in x"""
        return rename_part(p, freevars(x), self.st.open)

    def mutate(self, f, i=0, st=None):
        return self.I.mutate(st or self.st, self.args[i], f, self.fr, self.span)

    def fork(self, cond):
        """(state where cond, state where not cond); None if contradictory"""
        a, b = self.st.clone(), self.st
        return (a if a.assume(cond, True) else None), (b if b.assume(cond, False) else None)


KINDS = {"Vec": "vec", "HashMap": "hmap", "BTreeMap": "map", "HashSet": "hset", "BTreeSet": "set", "BitSet": "set", "String": "str",
         "VecDeque": "deque", "BinaryHeap": "vec", "Box": "vec", "Rc": "vec", "PathBuf": "str", "OsString": "str"}


def kindof(t):
    if t.k in ("slice", "array"):
        return "vec"
    if t.k == "adt":
        return KINDS.get(t.a[1].split("::")[-1])
    return None


def wrap(v, kind="vec"):
    """v as a collection whose parts may be changed"""
    if v.op == "coll":
        return v.a[0], list(v.a[1]), list(v.a[2]), v.a[3]
    return kind, parts_of(v), [], frozenset()


def tagsof(v):
    return v.a[3] if v.op == "coll" else frozenset()


def seq(v):
    """v without the elements' order"""
    if v.op == "coll":
        return coll(v.a[0], v.a[1], v.a[2], v.a[3])
    return v


def lit(t, v=True):
    while t.op == "not":
        t, v = t.a[0], not v
    return t, v


def fromres(rs, kind="iter", tags=frozenset()):
    r = coll(kind, [part(v, g, b) for v, g, b in rs], (), tags)
    return idc(r)


def idc(r):
    """the source itself if r is all of it, unchanged"""
    if r.op == "coll" and r.a[0] in ("iter", "vec", "deque", "str") and not r.a[3]:
        i = identity(r)
        if i is not None and i.op not in ("range", "hashed"):
            return i
    return r


def keep(tags):
    return frozenset(t for t in tags if t in ("hashorder", "perm", "random"))


def moved(tags):
    """tags of the images of elements: their order is another one than that of the source"""
    return keep(tags) | (frozenset(["reord"]) if any(t in ("rev", "sorted", "reord") or isinstance(t, tuple) and t[0] == "by" for t in tags) else frozenset())


def nonempty(c):
    return not_(eq0(length(c)))


class Models:
    def __init__(self, interp):
        self.I = interp
        self.unknown = {}

    def call(self, fr, st, name, fv, args, key, span):
        f = M.get(name)
        if f is None:
            g = M.get("*::" + name.split("::")[-1])
            f = g
        c = C(self, fr, st, name, fv, args, key, span)
        if f is not None:
            r = f(c)
            if r is not NotImplemented:
                if isinstance(r, T):
                    return [(c.st, r)]
                return r
        return self.default(c)

    def default(self, c):
        self.unknown[c.name] = self.unknown.get(c.name, 0) + 1
        st = c.st
        vals = []
        for i, a in enumerate(c.args):
            v = self.I.read(st, a)
            if v.op == "clo":
                outs = c.app(st, v, [mk("arg", c.name, c.key, j) for j in range(self.cloargs(v))], "clo%d" % i)
                if outs:
                    st = outs[0][0]
                    for s2, _ in outs[1:]:
                        self.I.phi_into(st, s2)
                    v = mk("lam", phi([x for _, x in outs]))
            vals.append(v)
        t = call(c.name, *vals)
        for i, a in enumerate(c.args):
            if a.op == "ref":
                cell, path = self.I.mutref(st, a)
                self.I.store(st, cell, path, mk("out", t, i), c.fr, c.span)
        return [(st, t)]

    def cloargs(self, v):
        fn = self.I.prog.fns.get(v.a[0])
        return max(0, fn.argc - 1) if fn else 0


# ---- identities ---------------------------------------------------------------------------------
@model("Clone::clone", "ToOwned::to_owned", "slice::to_vec", "Borrow::borrow", "AsRef::as_ref", "Vec::as_slice", "String::as_str",
       "Vec::into_boxed_slice", "str::to_string", "String::as_bytes", "Option::cloned", "Option::copied", "Iterator::cloned", "Iterator::copied",
       "Iterator::peekable", "Iterator::fuse", "VecDeque::iter", "slice::into_vec", "hint::must_use", "Arc::new", "ParMap::with_nb_threads",
       "Option::as_ref", "Option::as_deref", "Result::as_ref", "convert::identity", "String::into_bytes", "str::as_bytes", "Vec::shrink_to_fit",
       "Option::iter", "OsString::into_string_", "str::into_string", "Cow::into_owned", "hint::black_box", "BTreeSet::iter", "BitSet::iter",
       "slice::iter", "Path::to_path_buf", "OsStr::to_os_string", "Box::into_inner", "BTreeMap::iter", "BTreeMap::into_iter", "str::to_owned")
def _id(c):
    if len(c.args) != 1 and c.name not in ("ParMap::with_nb_threads",):
        return NotImplemented
    v = c.v(0)
    if c.name == "BitSet::iter" or c.name == "BTreeSet::iter":
        return v
    return v


@model("Box::new", "Rc::new", "Rc::from", "Box::from")
def _box(c):
    return c.args[0]


@model("Deref::deref", "DerefMut::deref_mut", "AsMut::as_mut", "BorrowMut::borrow_mut", "Vec::as_mut_slice", "Iterator::by_ref", "Box::as_mut", "Box::as_ref")
def _deref(c):
    a = c.args[0]
    if c.name == "Deref::deref":
        return c.I.read(c.st, a)
    return a


@model("From::from", "Into::into", "FromIterator::from_iter")
def _from(c):
    if c.name == "FromIterator::from_iter":
        return collect(c, c.v(0), strip_refs(c.ta[0]) if c.ta else None)
    t = None
    if c.name == "From::from" and c.ta:
        t = strip_refs(c.ta[0])
    elif len(c.ta) > 1:
        t = strip_refs(c.ta[1])
    # user From impls of local types (Into::into is blanket)
    if c.name == "Into::into" and t is not None and c.ta:
        for tr, n in list(c.I.prog.trimpl):
            if n == "from" and tr.split("::")[-1] == "From":
                for selfty, fid, im in c.I.prog.trimpl[(tr, n)]:
                    if fid in c.I.prog.fns and unify(selfty, t, {}):
                        fn = c.I.prog.fns[fid]
                        if unify(fn.argtys()[0], c.ta[0], {}):
                            return c.I.call_fn(c.fr, c.st, fn, {}, c.args, c.key, c.span)
    if t is not None and t.k == "adt" and t.a[1].split("::")[-1] in ("Box", "Rc", "Arc"):
        return c.args[0]
    v = c.v(0)
    if t is not None:
        k = kindof(t)
        if k in ("map", "hmap", "set", "hset", "deque") and v.op == "coll":
            return coll(k, v.a[1], v.a[2], keep(v.a[3]) - {"hashorder"} if k in ("map", "set") else v.a[3])
    if tystr(t).endswith("f64") if t is not None else False:
        return mk("f64", v)
    return v


@model("Box::new_uninit")
def _uninit(c):
    h = ("h", c.fr.id, c.key)
    c.st.cells[h] = mk("undef", "box")
    return mk("ref", h, ())


@model("boxed::box_assume_init_into_vec_unsafe")
def _boxvec(c):
    v = c.v(0)
    n = 0
    while v.op == "agg" and len(v.a[2]) == 1 and n < 4:
        v = v.a[2][0][1]
        n += 1
    return v


# ---- constructors -------------------------------------------------------------------------------
@model("Vec::new", "Vec::with_capacity")
def _vec(c):
    return coll("vec", [])


@model("String::new", "String::with_capacity")
def _str(c):
    return mk("str", "")


@model("HashMap::new", "HashMap::with_capacity")
def _hm(c):
    return coll("hmap", [])


@model("BTreeMap::new")
def _bm(c):
    return coll("map", [])


@model("HashSet::new", "HashSet::with_capacity")
def _hs(c):
    return coll("hset", [])


@model("BTreeSet::new", "BitSet::new", "BitSet::with_capacity")
def _bs(c):
    return coll("set", [])


@model("VecDeque::new", "VecDeque::with_capacity")
def _vd(c):
    return coll("deque", [])


@model("iter::empty", "iter::once", "iter::repeat")
def _iters(c):
    if c.name == "iter::empty":
        return coll("iter", [])
    return coll("iter", [part(c.v(0))], (), ["repeat"] if c.name == "iter::repeat" else [])


@model("iter::repeat_with", "iter::from_fn", "iter::successors")
def _rw(c):
    f = c.v(0)
    outs = c.app(c.st, f, [])
    if len(outs) != 1:
        return NotImplemented
    c.st = outs[0][0]
    return coll("iter", [part(outs[0][1])], (), ["repeat"])


@model("Default::default")
def _default(c):
    t = strip_refs(c.ta[0]) if c.ta else None
    return default_of(c, t)


def default_of(c, t):
    if t is None:
        return call("Default::default")
    s = tystr(t)
    if t.k == "prim":
        if s == "bool":
            return FALSE
        if s in ("f64", "f32"):
            return mk("float", "0")
        return I(0)
    if t.k == "tuple":
        xs = [default_of(c, x) for x in t.a[1]]
        return tup(*xs)
    n = t.a[1].split("::")[-1] if t.k == "adt" else ""
    if n == "Option":
        return NONE
    k = kindof(t)
    if k == "str":
        return mk("str", "")
    if k and n not in ("Box", "Rc"):
        return coll(k, [])
    if t.k == "adt":
        im = c.I.impl_for("core::default::Default", "default", (t,)) or c.I.impl_for("std::default::Default", "default", (t,))
        if im:
            outs = c.I.call_fn(c.fr, c.st, im[0], im[1], [], c.key, c.span)
            if len(outs) == 1:
                return outs[0][1]
    return call("Default::default", mk("type", s))


@model("vec::from_elem")
def _fromelem(c):
    n = c.v(1)
    r = mk("range", I(0), n)
    if n.op == "len":
        r = n.a[0]
    return coll("vec", [part(c.v(0), (), ((r, 0),))])


@model("RangeInclusive::new")
def _ri(c):
    return agg("core::ops::RangeInclusive", "RangeInclusive", [("start", c.v(0)), ("end", c.v(1))])


@model("RangeInclusive::contains", "Range::contains")
def _rc(c):
    f = fields(c.v(0)) if c.v(0).op == "agg" else None
    if not f:
        return NotImplemented
    x = c.v(1)
    hi = le(x, f["end"]) if c.name.startswith("RangeI") else lt(x, f["end"])
    return and_(le(f["start"], x), hi)


# ---- iteration ----------------------------------------------------------------------------------
HASHITER = ("HashMap::iter", "HashMap::keys", "HashMap::values", "HashMap::into_iter", "HashSet::iter", "HashMap::iter_mut", "HashMap::values_mut",
            "HashMap::drain", "HashSet::drain", "HashMap::into_keys", "HashMap::into_values", "HashSet::into_iter")


def hashed(v):
    """iteration in hash order"""
    if v.op == "coll":
        return coll("iter", v.a[1], v.a[2], v.a[3] | {"hashorder"})
    return coll("iter", parts_of(v), (), ["hashorder"])


@model("IntoIterator::into_iter")
def _into_iter(c):
    a = c.args[0]
    t = c.ta[0] if c.ta else None
    base = strip_refs(t) if t is not None else None
    n = base.a[1].split("::")[-1] if base is not None and base.k == "adt" else ""
    if t is not None and t.k == "ref" and t.a[1] and kindof(base):
        return iter_mut(c, a, n)
    if a.op == "ref" and t is not None and t.k == "ref" and t.a[1]:
        return a
    v = c.I.read(c.st, a)
    if n in ("HashMap", "HashSet"):
        c.I.event("hashiter", c.fr.where(c.span), c.fr.fn.id)
        return hashed(v)
    return v


def iter_mut(c, a, n=""):
    cell, path = c.I.mutref(c.st, a)
    v = c.I.getpath(c.I.getcell(c.st, cell), path)
    tags = frozenset(["hashorder"]) if n in ("HashMap", "HashSet") else frozenset()
    ps = []
    ismap = n in ("HashMap", "BTreeMap")
    if v.op == "coll" and not v.a[2] and all(not p.a[2] and not p.a[1] for p in v.a[1]) and not ismap:
        return coll("iter", [part(mk("ref", cell, path + (("i", I(i)),))) for i, p in enumerate(v.a[1])])
    for p in parts_of(v):
        e, g, b = p.a
        if ismap:
            k = fld(e, "0")
            r = mk("ref", cell, path + (("i", k),))
            ps.append(part(r if c.name.endswith("values_mut") else tup(k, r), g, b))
        else:
            ps.append(part(mk("ref", cell, path + (("e", e),)), g, b))
    return coll("iter", ps, (), tags)


@model("slice::iter_mut", "HashMap::iter_mut", "HashMap::values_mut", "BTreeMap::iter_mut", "BTreeMap::values_mut", "VecDeque::iter_mut", "Option::iter_mut", "Vec::iter_mut")
def _iter_mut(c):
    return iter_mut(c, c.args[0], c.name.split("::")[0])


@model("HashMap::iter", "HashMap::into_iter", "HashSet::iter", "HashSet::into_iter", "HashMap::drain")
def _hiter(c):
    c.I.event("hashiter", c.fr.where(c.span), c.fr.fn.id)
    return hashed(c.v(0))


@model("HashMap::keys", "BTreeMap::keys", "HashMap::values", "BTreeMap::values", "HashMap::into_keys", "HashMap::into_values", "BTreeMap::into_keys", "BTreeMap::into_values")
def _keys(c):
    v = c.v(0)
    i = "0" if "keys" in c.name else "1"
    tags = frozenset(["hashorder"]) if c.name.startswith("Hash") else frozenset(["sorted", "uniq"] if i == "0" else ())
    if tags and i == "0" and "hashorder" in tags or c.name.startswith("Hash"):
        c.I.event("hashiter", c.fr.where(c.span), c.fr.fn.id)
    if v.op == "coll":
        ps = [part(fld(p.a[0], i), p.a[1], p.a[2]) for p in v.a[1]]
        if i == "1":
            for k, x, g, b in v.a[2]:
                ps.append(part(x, g, b))
        return coll("iter", ps, (), tags)
    return coll("iter", [part(fld(elem(v), i), (), ((v, 0),))], (), tags)


def isiter_cell(st, cell):
    L = st.loops[-1] if st.loops else None
    return L if L is not None and L.kind == "loop" and cell in L.cells else None


def take_next(c, cell, path, consume):
    """fork over the elements of the iterator/queue in (cell,path); None marks exhaustion"""
    I_, st = c.I, c.st
    v = I_.getpath(I_.getcell(st, cell), path)
    L = isiter_cell(st, cell)
    if L is not None:
        res = []
        for p in parts_of(v):
            s = st.clone()
            e = I_.open_part(s, p)
            if e is not None:
                res.append((s, some(e)))
        s = st.clone()
        s.done = L.id
        res.append((s, NONE))
        return res
    if v.op == "coll" and v.a[1] and not v.a[2]:
        p0 = v.a[1][0]
        if not p0.a[1] and not p0.a[2] and "repeat" not in v.a[3]:
            I_.store(st, cell, path, coll(v.a[0], v.a[1][1:], (), v.a[3]), c.fr, c.span)
            return [(st, some(p0.a[0]))]
    if v.op == "coll" and not v.a[1] and not v.a[2]:
        return [(st, NONE)]
    f = mk("first", v)
    a, b = c.fork(nonempty(v))
    res = []
    if a is not None:
        I_.store(a, cell, path, mk("rest", v), c.fr, c.span)
        res.append((a, some(f)))
    if b is not None:
        res.append((b, NONE))
    return res


@model("Iterator::next")
def _next(c):
    cell, path = c.I.mutref(c.st, c.args[0])
    return take_next(c, cell, path, False)


@model("VecDeque::pop_front", "Vec::pop", "VecDeque::pop_back", "DoubleEndedIterator::next_back", "BinaryHeap::pop", "BTreeSet::pop_first", "BTreeMap::pop_first")
def _pop(c):
    cell, path = c.I.mutref(c.st, c.args[0])
    v = c.I.getpath(c.I.getcell(c.st, cell), path)
    if c.name == "Vec::pop" and v.op == "coll" and v.a[1] and not v.a[2] and isiter_cell(c.st, cell) is None:
        p0 = v.a[1][-1]
        if not p0.a[1] and not p0.a[2]:
            c.I.store(c.st, cell, path, coll(v.a[0], v.a[1][:-1], (), v.a[3]), c.fr, c.span)
            return some(p0.a[0])
    return take_next(c, cell, path, True)


def rest_of(v):
    return v


@model("Iterator::map", "ParMapBuilder::par_map", "Option::map_iter")
def _map(c):
    f = c.v(1)
    it = c.v(0)
    st, rs = c.each(it, lambda s, e: c.app(s, f, [e]))
    c.st = st
    return fromres(rs, "iter", moved(tagsof(it)))


@model("Iterator::inspect")
def _inspect(c):
    f = c.v(1)
    it = c.v(0)
    c.st, rs = c.each(it, lambda s, e: c.app(s, f, [e]))
    return it


@model("Iterator::for_each", "Itertools::foreach")
def _foreach(c):
    f = c.v(1)
    c.st, rs = c.each(c.v(0), lambda s, e: c.app(s, f, [e]))
    return UNIT


@model("Iterator::filter", "Vec::retain", "String::retain", "BTreeSet::retain", "HashSet::retain", "VecDeque::retain")
def _filter(c):
    f = c.v(1)
    it = c.v(0)

    def body(s, e):
        out = []
        for s2, v in c.app(s, f, [e]):
            if s2.assume(v, True):
                out.append((s2, e))
        return out
    st, rs = c.each(it, body)
    c.st = st
    if c.name != "Iterator::filter":
        k = c.kind() or "vec"
        r = fromres(rs, k, tagsof(it))
        c.mutate(lambda old, g: r if not g else phi([old, r]))
        return UNIT
    return fromres(rs, "iter", tagsof(it))


@model("HashMap::retain", "BTreeMap::retain")
def _mretain(c):
    f = c.v(1)
    it = c.v(0)

    def body(s, e):
        out = []
        for s2, v in c.app(s, f, [fld(e, "0"), fld(e, "1")]):
            if s2.assume(v, True):
                out.append((s2, e))
        return out
    c.st, rs = c.each(it, body)
    k = c.name[0] == "H" and "hmap" or "map"
    c.mutate(lambda old, g: fromres(rs, k))
    return UNIT


@model("Iterator::filter_map", "Iterator::flat_map", "Iterator::flatten", "Itertools::concat", "slice::concat", "Option::flatten_")
def _flat(c):
    it = c.v(0)
    f = c.v(1) if len(c.args) > 1 else None

    def body(s, e):
        outs = []
        for s2, v in (c.app(s, f, [e]) if f is not None else [(s, e)]):
            v = c.I.read(s2, v)
            if v.op == "agg" and v.a[0].endswith("Option"):
                for _, x in v.a[2]:
                    outs.append((s2, x))
                continue
            if c.name == "Iterator::filter_map" or isopt(v):
                if s2.assume(isvar(v, "Some"), True):
                    outs.append((s2, pay(v, "Some", "0")))
                continue
            for p in parts_of(v):
                s3 = s2.clone()
                e3 = c.I.open_part(s3, p)
                if e3 is not None:
                    outs.append((s3, e3))
        return outs
    c.st, rs = c.each(it, body)
    return fromres(rs, "vec" if "concat" in c.name else "iter", keep(tagsof(it)))


def isopt(v):
    return v.op in ("get", "getopt")


@model("Iterator::chain")
def _chain(c):
    a, b = c.v(0), c.v(1)
    return coll("iter", parts_of(a) + parts_of(b), (), keep(tagsof(a) | tagsof(b)))


@model("Iterator::zip", "itertools::zip", "Itertools::zip_eq")
def _zip(c):
    a, b = c.v(0), c.v(1)
    st, rs = c.each(a, lambda s, e: [(s, tup(e, zipped(b, e, s.open[-1] if s.open else None)))])
    c.st = st
    return fromres(rs, "iter", keep(tagsof(a) | tagsof(b)))


def zipped(b, e, bind):
    if bind is None:
        return mk("zipwith", b, e)
    src, tag = bind
    if b.op == "agg" and b.a[0].split("::")[-1] in ("Range", "RangeFrom"):
        return add(fields(b)["start"], pos(src, elem(src, tag)))
    return getidx(b, pos(src, elem(src, tag)))


@model("Iterator::enumerate")
def _enum(c):
    it = c.v(0)
    whole = not tagsof(it) & {"rev", "perm", "sorted"} and (it.op != "coll" or len(it.a[1]) == 1 and not it.a[1][0].a[1] and len(it.a[1][0].a[2]) == 1)

    def body(s, e):
        if whole and s.open:
            src, tag = s.open[-1]
            return [(s, tup(pos(src, elem(src, tag)) if src.op != "range" else add(elem(src, tag), src.a[0], -1), e))]
        return [(s, tup(mk("ordinal", it, e), e))]
    c.st, rs = c.each(it, body)
    return fromres(rs, "iter", keep(tagsof(it)))


@model("Iterator::rev")
def _rev(c):
    v = c.v(0)
    if v.op == "coll":
        ps = list(reversed(v.a[1])) if all(not p.a[2] for p in v.a[1]) else list(v.a[1])
        t = keep(v.a[3]) | (frozenset(["rev"]) if "rev" not in v.a[3] else frozenset())
        if all(not p.a[2] for p in v.a[1]):
            t = keep(v.a[3])
        return coll("iter", ps, v.a[2], t)
    return coll("iter", parts_of(v), (), ["rev"])


@model("Iterator::take", "Iterator::skip", "Iterator::step_by")
def _take(c):
    v, n = c.v(0), c.v(1)
    if c.name.endswith("take") and "repeat" in tagsof(v) and len(v.a[1]) == 1:
        p = v.a[1][0]
        return coll("iter", [part(p.a[0], p.a[1], p.a[2] + ((n.a[0] if n.op == "len" else mk("range", I(0), n), 0),))])
    op = c.name.split("::")[1]
    if op in ("take", "skip") and v.op == "coll" and not v.a[2] and n.op == "int" and all(not p.a[1] and not p.a[2] for p in v.a[1]):
        return coll("iter", v.a[1][:n.a[0]] if op == "take" else v.a[1][n.a[0]:], (), v.a[3])
    if op == "skip" and n == I(0):
        return v
    return coll("iter", [part(p.a[0], p.a[1] | {(mk("within", op, v, n, p.a[0]), True)}, p.a[2]) for p in [rename_part(q, freevars(n), c.st.open) for q in parts_of(v)]], (), tagsof(v))


@model("Iterator::take_while", "Iterator::skip_while", "Iterator::map_while")
def _takewhile(c):
    it, f = c.v(0), c.v(1)

    def body(s, e):
        out = []
        for s2, v in c.app(s, f, [e]):
            out.append((s2, tup(v, e)))
        return out
    c.st, rs = c.each(it, body)
    op = c.name.split("::")[1]
    if op == "map_while":
        return NotImplemented
    return coll("iter", [part(fld(v, "1"), g | {(mk("within", op, it, fld(v, "0"), fld(v, "1")), True)}, b) for v, g, b in rs], (), tagsof(it))


@model("Iterator::any", "Iterator::all")
def _any(c):
    it, f = c.v(0), c.v(1)
    neg = c.name.endswith("all")
    st, rs = c.each(it, lambda s, e: c.app(s, f, [e]))
    c.st = st
    ps = []
    for v, g, b in rs:
        k, x = lit(v, not neg)
        if k.op == "bool":
            if k.a[0] != x:
                continue
            ps.append(part(TRUE, g, b))
        elif k.op == "and" and x:
            ps.append(part(TRUE, g | frozenset(lit(y) for y in k.a), b))
        else:
            ps.append(part(TRUE, g | {(k, x)}, b))
    r = any_(ps)
    return not_(r) if neg else r


@model("Iterator::find", "Iterator::position", "Iterator::find_map", "Iterator::rposition")
def _find(c):
    it, f = c.v(0), c.v(1)
    op = c.name.split("::")[1]

    def body(s, e):
        out = []
        for s2, v in c.app(s, f, [e]):
            v = c.I.read(s2, v)
            if op == "find_map":
                if s2.assume(isvar(v, "Some"), True):
                    out.append((s2, pay(v, "Some", "0")))
            elif s2.assume(v, True):
                src = s2.open[-1] if s2.open else None
                out.append((s2, (pos(src[0], elem(*src)) if src else mk("ordinal", it, e)) if "position" in op else e))
        return out
    c.st, rs = c.each(it, body)
    cond = any_([part(TRUE, g, b) for v, g, b in rs])
    vals = [mk("find", part(v, g, b)) if b else v for v, g, b in rs]
    if not vals:
        return NONE
    return mk("getopt", cond, phi(vals))


@model("Iterator::partition")
def _partition(c):
    it, f = c.v(0), c.v(1)

    def body(s, e):
        out = []
        for s2, v in c.app(s, f, [e]):
            s3 = s2.clone()
            if s2.assume(v, True):
                out.append((s2, tup(TRUE, e)))
            if s3.assume(v, False):
                out.append((s3, tup(FALSE, e)))
        return out
    c.st, rs = c.each(it, body)
    k = kindof(strip_refs(c.ta[1])) if len(c.ta) > 1 else "vec"
    k = k or "vec"
    tt = tagsof(it) if k in ("vec",) else frozenset()
    y = coll(k, [part(fld(v, "1"), g, b) for v, g, b in rs if fld(v, "0") is TRUE], (), tt)
    n = coll(k, [part(fld(v, "1"), g, b) for v, g, b in rs if fld(v, "0") is FALSE], (), tt)
    return tup(y, n)


@model("Iterator::unzip")
def _unzip(c):
    it = c.v(0)
    k1 = kindof(strip_refs(c.ta[-2])) or "vec" if len(c.ta) > 2 else "vec"
    k2 = kindof(strip_refs(c.ta[-1])) or "vec" if len(c.ta) > 2 else "vec"
    ps = parts_of(it)
    return tup(idc(coll(k1, [part(fld(p.a[0], "0"), p.a[1], p.a[2]) for p in ps])), idc(coll(k2, [part(fld(p.a[0], "1"), p.a[1], p.a[2]) for p in ps])))


@model("Iterator::collect", "Itertools::collect_vec", "Itertools::collect_tuple_")
def _collect(c):
    t = strip_refs(c.ta[1]) if c.name == "Iterator::collect" and len(c.ta) > 1 else None
    return collect(c, c.v(0), t)


def collect(c, v, t):
    n = t.a[1].split("::")[-1] if t is not None and t.k == "adt" else "Vec"
    if n in ("Result", "Option"):
        var = "Ok" if n == "Result" else "Some"
        ps, bad = [], []
        for p in parts_of(v):
            e, g, b = p.a
            cnd = isvar(e, var)
            bad.append(part(TRUE, g | {lit(cnd, False)}, b))
            if cnd is not FALSE:
                ps.append(part(pay(e, var, "0"), g, b))
        fail = any_(bad)
        inner = collect(c, coll("iter", ps, (), tagsof(v)), strip_refs(t.a[2][0]) if t.k == "adt" and t.a[2] else None)
        a, b = c.fork(fail)
        res = []
        if b is not None:
            res.append((b, ok(inner) if n == "Result" else some(inner)))
        if a is not None:
            res.append((a, err(mk("firsterr", v)) if n == "Result" else NONE))
        return res
    k = kindof(t) if t is not None else "vec"
    k = k or "vec"
    if k == "str":
        ps = parts_of(v)
        return mk("fmt", tuple(p.a[0] for p in ps)) if all(not p.a[1] and not p.a[2] for p in ps) and ps else mk("concat", v)
    tags = tagsof(v)
    if k in ("set", "hset", "map", "hmap"):
        tags = frozenset(t for t in tags if t == "random")
        if v.op == "coll":
            return coll(k, v.a[1], v.a[2], tags)
        return coll(k, parts_of(v), (), tags)
    if v.op == "coll":
        return idc(coll(k, v.a[1], v.a[2], tags))
    if v.op == "agg":
        return idc(coll(k, parts_of(v)))
    return v


@model("Iterator::count", "ExactSizeIterator::len", "Vec::len", "slice::len", "VecDeque::len", "HashMap::len", "BTreeMap::len", "BitSet::len", "HashSet::len",
       "BTreeSet::len", "String::len", "str::len", "Range::len")
def _len(c):
    v = c.v(0)
    if v.op == "coll" and v.a[0] == "iter" and v.a[3] - frozenset(["hashorder", "perm", "rev", "sorted", "uniq"]) == v.a[3] and v.a[3]:
        v = coll("iter", v.a[1], v.a[2])
    return length(v)


@model("Vec::is_empty", "slice::is_empty", "VecDeque::is_empty", "HashMap::is_empty", "BTreeMap::is_empty", "BitSet::is_empty", "HashSet::is_empty",
       "BTreeSet::is_empty", "String::is_empty", "str::is_empty", "ExactSizeIterator::is_empty")
def _isempty(c):
    return isempty(c.v(0))


def isempty(v):
    if v.op == "coll" and not v.a[2]:
        return not_(any_([part(TRUE, p.a[1], p.a[2]) for p in v.a[1]]))
    if v.op == "str":
        return B(v.a[0] == "")
    return eq0(length(v))


@model("Iterator::sum", "Iterator::product")
def _sum(c):
    v = c.v(0)
    if c.name.endswith("sum") and v.op == "coll" and not v.a[2]:
        if all(not p.a[1] and not p.a[2] for p in v.a[1]) and all(p.a[0].op in ("int", "len", "lin") for p in v.a[1]):
            r = I(0)
            for p in v.a[1]:
                r = add(r, p.a[0])
            return r
        if len(v.a[1]) == 1 and v.a[1][0].a[0].op == "int":
            return mul(v.a[1][0].a[0], length(coll("iter", v.a[1])))
    return mk(c.name.split("::")[1], v)


@model("Iterator::max", "Iterator::min")
def _max(c):
    v = c.v(0)
    return mk("getopt", not_(isempty(v)), mk(c.name.split("::")[1], seqset(v)))


def seqset(v):
    if v.op == "coll":
        return idc(coll("iter", v.a[1], v.a[2], ()))
    return v


@model("Iterator::max_by", "Iterator::min_by", "Iterator::max_by_key", "Iterator::min_by_key", "Iterator::last", "slice::last", "slice::first", "Iterator::nth",
       "VecDeque::front", "VecDeque::back", "BTreeSet::first", "BTreeSet::last", "BTreeMap::first_key_value", "BTreeMap::last_key_value")
def _pick(c):
    v = c.v(0)
    op = c.name.split("::")[1]
    if op == "nth":
        n = c.v(1)
        return mk("getopt", lt(n, length(v)), getidx(v, n))
    if op == "front":
        op = "first"
    if op == "back":
        op = "last"
    if op in ("first", "last") and v.op == "coll" and v.a[1] and not v.a[2] and v.a[0] not in SETS:
        p = v.a[1][0 if op == "first" else -1]
        if not p.a[1] and not p.a[2]:
            return some(p.a[0])
    if op in ("first", "last"):
        return mk("getopt", not_(isempty(v)), mk(op, v))
    key = keyterm(c, v, c.v(1), op.endswith("key"))
    return mk("getopt", not_(isempty(v)), mk("pick", op, seqset(v), key))


def keyterm(c, v, f, single):
    """key by which a comparison closure orders (for one and two-argument closures)"""
    if f.op not in ("clo", "fn"):
        return f
    e1, e2 = mk("sym", "x"), mk("sym", "y")
    outs = c.app(c.st.clone(), f, [e1] if single else [e1, e2], "key")
    return phi([x for _, x in outs]) if outs else mk("opaque", "nokey")


@model("Iterator::fold")
def _fold(c):
    it, init, f = c.v(0), c.args[1], c.v(2)
    cell = ("h", c.fr.id, c.key + ("fold",))
    c.st.cells[cell] = init
    def body(s, e):
        out = []
        for s2, v in c.app(s, f, [s.cells[cell], e]):
            s2.cells[cell] = v
            out.append((s2, UNIT))
        return out
    c.st, rs = c.each(it, body)
    return c.st.cells.pop(cell)


@model("Itertools::combinations")
def _combs(c):
    v = mk("combs", c.v(0), c.v(1))
    return v


@model("Itertools::multi_cartesian_product")
def _mcp(c):
    return mk("mcp", c.v(0))


@model("Itertools::permutations", "Itertools::powerset", "Itertools::tuple_combinations", "slice::windows", "slice::chunks")
def _other(c):
    return mk(c.name.split("::")[1], *[c.v(i) for i in range(len(c.args))])


@model("Itertools::sorted", "Itertools::unique", "Itertools::dedup")
def _sorted(c):
    v = c.v(0)
    k, ps, ov, tg = wrap(v)
    t = "sorted" if c.name.endswith("sorted") else "uniq"
    return coll("vec", ps, ov, (tg - {"hashorder", "rev", "perm"} if t == "sorted" else tg) | {t})


@model("Itertools::join", "slice::join", "Join::join")
def _join(c):
    return mk("join", c.v(0), c.v(1))


# ---- vectors ------------------------------------------------------------------------------------
@model("Vec::push", "VecDeque::push_back", "VecDeque::push_front", "BinaryHeap::push")
def _push(c):
    x = c.args[1]
    cell, path = c.I.mutref(c.st, c.args[0])

    def f(old, g):
        if c.name.endswith("push_front") and not g:
            if old.op == "rest" and x.op == "first" and x.a[0] is old.a[0]:
                return old.a[0]
        k, ps, ov, tg = wrap(old, "vec" if c.name.startswith("Vec::") else "deque")
        tg = nopos(tg)
        if c.name.endswith("push_front"):
            return coll(k, [part(x, g)] + ps, ov, tg)
        return coll(k, ps + [part(x, g)], ov, tg)
    c.mutate(f)
    return UNIT


def empty_by_fact(st, t):
    """t is a field of something the path has found equal to a value whose field is empty"""
    if t.op != "fld":
        return False
    for k, w in st.facts.items():
        if w is True and k.op == "eq" and t.a[0] in k.a:
            o = fld(k.a[0] if k.a[1] is t.a[0] else k.a[1], t.a[1])
            if o.op == "coll" and not o.a[1] and not o.a[2]:
                return True
    return False


@model("Vec::append", "Vec::extend_from_slice", "Extend::extend", "VecDeque::append", "String::extend", "VecDeque::extend", "Vec::extend", "BTreeSet::append")
def _append(c):
    o = c.v(1)
    ismap = False
    k0 = c.kind() or "vec"
    add_ = []
    s = c.st
    ops = parts_of(o)

    def f(old, g):
        k, ps, ov, tg = wrap(old, k0)
        if k == "str" or old.op == "str":
            return mk("fmt", (old, mk("concat", o)))
        new = [part(p.a[0], p.a[1] | g, p.a[2]) for p in ops]
        if k == "vec" and not g and not ov and o.op == "coll" and o.a[0] in ("vec", "iter") and not o.a[2] and (not ps or empty_by_fact(s, old)):
            return idc(coll(k, new, (), tagsof(o)))
        if not ps and not ov and not g and k in ("vec",) and not tagsof(o):
            return idc(coll(k, new))
        return coll(k, ps + new, ov, nopos(tg) | (keep(tagsof(o)) if k in ("vec", "deque", "iter") else frozenset()))
    c.mutate(f)
    if c.name.endswith("append") and c.args[1].op == "ref":
        c.mutate(lambda old, g: coll(k0, []), 1)
    return UNIT


@model("Vec::clear", "HashMap::clear", "BTreeMap::clear", "BitSet::clear", "HashSet::clear", "BTreeSet::clear", "VecDeque::clear", "String::clear")
def _clear(c):
    k = KINDS.get(c.name.split("::")[0], "vec")
    c.mutate(lambda old, g: mk("str", "") if k == "str" else coll(k, []))
    return UNIT


@model("Vec::truncate", "VecDeque::truncate")
def _truncate(c):
    n = c.v(1)

    def f(old, g):
        k, ps, ov, tg = wrap(old)
        if n == I(0):
            return coll(k, [])
        return coll(k, [part(p.a[0], p.a[1] | {(mk("within", "take", old, n, p.a[0]), True)}, p.a[2]) for p in [rename_part(q, freevars(n), c.st.open) for q in ps]], ov, tg)
    c.mutate(f)
    return UNIT


@model("Vec::resize_with", "Vec::resize")
def _resize(c):
    n, f = c.v(1), c.v(2)
    if c.name.endswith("with"):
        outs = c.app(c.st, f, [])
        if len(outs) != 1:
            return NotImplemented
        c.st, x = outs[0]
    else:
        x = f

    def g_(old, g):
        k, ps, ov, tg = wrap(old)
        r = n.a[0] if n.op == "len" else mk("range", I(0), n)
        if not ps:
            return coll(k, [part(x, g, ((r, 0),))])
        return coll(k, ps + [part(x, g, ((mk("range", length(old), n), 0),))], ov, nopos(tg))
    c.mutate(g_)
    return UNIT


@model("slice::sort", "slice::sort_unstable", "slice::sort_by", "slice::sort_by_key", "slice::sort_by_cached_key", "slice::sort_unstable_by", "slice::sort_unstable_by_key")
def _sort(c):
    op = c.name.split("::")[1]
    if op in ("sort", "sort_unstable"):
        t = "sorted"
    else:
        t = ("by", keyterm(c, c.v(0), c.v(1), op.endswith("key")))
        if t[1] is mk("sym", "x") or t[1] is mk("call", "cmp", (mk("sym", "x"), mk("sym", "y"))) or t[1] is mk("cmp", mk("sym", "x"), mk("sym", "y")):
            t = "sorted"

    def f(old, g):
        k, ps, ov, tg = wrap(old)
        if g and t != "sorted":
            return coll(k, ps, ov, nopos(tg))
        return coll(k, ps, ov, (nopos(tg) | (tg & {"uniq"})) - {"hashorder", "rev", "perm"} | {t})
    c.mutate(f)
    return UNIT


@model("slice::reverse", "Vec::reverse")
def _reverse(c):
    def f(old, g):
        k, ps, ov, tg = wrap(old)
        return coll(k, ps, ov, keep(tg) | {"rev"})
    c.mutate(f)
    return UNIT


@model("Vec::dedup")
def _dedup(c):
    def f(old, g):
        k, ps, ov, tg = wrap(old)
        return coll(k, ps, ov, tg | ({"uniq"} if "sorted" in tg else {"deduped"}))
    c.mutate(f)
    return UNIT


@model("Vec::remove", "Vec::swap_remove", "VecDeque::remove")
def _vremove(c):
    i = c.v(1)
    old0 = c.v(0)

    def f(old, g):
        k, ps, ov, tg = wrap(old)
        if i.op == "int" and not ov and all(not p.a[1] and not p.a[2] for p in ps[:i.a[0] + 1]) and i.a[0] < len(ps) and not g:
            return coll(k, ps[:i.a[0]] + ps[i.a[0] + 1:], ov, tg)
        x = getidx(old, i)
        return coll(k, [part(p.a[0], p.a[1] | {(mk("at", old, i, p.a[0]), False)}, p.a[2]) for p in ps], ov, tg)
    c.mutate(f)
    return getidx(old0, i)


@model("Vec::insert", "VecDeque::insert")
def _vinsert(c):
    i, x = c.v(1), c.args[2]

    def f(old, g):
        k, ps, ov, tg = wrap(old)
        if i == I(0):
            return coll(k, [part(x, g)] + ps, ov, nopos(tg))
        return coll(k, ps + [part(x, g)], ov, nopos(tg))
    c.mutate(f)
    return UNIT


@model("Vec::drain", "VecDeque::drain")
def _drain(c):
    v, r = c.v(0), c.v(1)
    out = slice_of(v, r)
    c.mutate(lambda old, g: mk("drained", old, r) if not isfull(r) else coll(v.a[0] if v.op == "coll" else "vec", []))
    return out


def isfull(r):
    return r.op == "agg" and r.a[0].split("::")[-1] == "RangeFull"


def slice_of(v, r):
    n = r.a[0].split("::")[-1] if r.op == "agg" else ""
    f = fields(r) if r.op == "agg" else {}
    if n == "RangeFull":
        return v
    if n == "RangeFrom":
        return mk("slice", v, f["start"], mk("end"))if f["start"] != I(0) else v
    if n == "RangeTo":
        return mk("slice", v, I(0), f["end"])
    if n == "Range":
        return mk("slice", v, f["start"], f["end"])
    if n == "RangeToInclusive":
        return mk("slice", v, I(0), add(f["end"], I(1)))
    return mk("slice", v, r, r)


@model("Vec::split_off", "String::split_off", "VecDeque::split_off")
def _splitoff(c):
    v, n = c.v(0), c.v(1)
    c.mutate(lambda old, g: mk("slice", old, I(0), n))
    return mk("slice", v, n, mk("end"))


@model("slice::split_at", "str::split_at")
def _splitat(c):
    v, n = c.v(0), c.v(1)
    return tup(mk("slice", v, I(0), n), mk("slice", v, n, mk("end")))


@model("Index::index", "IndexMut::index_mut")
def _index(c):
    base = strip_refs(c.ta[0]) if c.ta else None
    i = c.v(1)
    kt = kindof(base) if base is not None else None
    for h in c.I.hooks:
        h.check(c.I, c.st, c.fr, c.span, "index", tup(c.v(0), i))
        if kt in ("hmap", "map"):
            h.check(c.I, c.st, c.fr, c.span, "lookup", tup(c.v(0), i))
    if i.op == "agg" and "Range" in i.a[0]:
        if c.name.startswith("IndexMut"):
            return c.args[0] if isfull(i) else NotImplemented
        return slice_of(c.v(0), i)
    if c.name.startswith("IndexMut"):
        cell, path = c.I.mutref(c.st, c.args[0])
        return mk("ref", cell, path + (("i", i),))
    if kt in ("map", "hmap"):
        return mapval(c.v(0), i)
    return getidx(c.v(0), i)


@model("slice::get", "Vec::get", "VecDeque::get")
def _get(c):
    v, i = c.v(0), c.v(1)
    if i.op == "agg" and "Range" in i.a[0]:
        return NotImplemented
    if i.op == "pos" and i.a[0] is v:
        return some(getidx(v, i))
    return mk("getopt", lt(i, length(v)), getidx(v, i))


@model("slice::get_mut", "Vec::get_mut")
def _getmut(c):
    v, i = c.v(0), c.v(1)
    cell, path = c.I.mutref(c.st, c.args[0])
    a, b = c.fork(lt(i, length(v)))
    res = []
    if a is not None:
        res.append((a, some(mk("ref", cell, path + (("i", i),)))))
    if b is not None:
        res.append((b, NONE))
    return res


@model("slice::contains", "BitSet::contains", "HashSet::contains", "BTreeSet::contains", "HashMap::contains_key", "BTreeMap::contains_key", "VecDeque::contains")
def _contains(c):
    return contains(c.v(0), c.v(1))


def ascending(v):
    """binary search finds what is there: the list is sorted"""
    if v.op == "range":
        return True
    if v.op != "coll":
        return False
    if "sorted" in v.a[3]:
        return True
    if "rev" in v.a[3] or "reord" in v.a[3] or v.a[2] or len(v.a[1]) != 1:
        return False
    e, g, b = v.a[1][0].a
    return len(b) == 1 and e is elem(*b[0]) and (b[0][0].op == "sym" or ascending(b[0][0]) or b[0][0].op == "coll" and b[0][0].a[0] in ("set", "bset"))


@model("slice::binary_search")
def _bs_(c):
    v, x = c.v(0), c.v(1)
    a, b = c.fork(contains(v, x) if ascending(v) else mk("bsearch", v, x))
    res = []
    if a is not None:
        res.append((a, ok(mk("posof", v, x))))
    if b is not None:
        res.append((b, err(mk("inspos", v, x))))
    return res


@model("slice::swap", "Vec::swap")
def _vswap(c):
    i, j = c.v(1), c.v(2)
    v = c.v(0)
    x, y = getidx(v, i), getidx(v, j)

    def f(old, g):
        return c.I.setidx(c.I.setidx(old, i, y, g), j, x, g)
    c.mutate(f)
    return UNIT


@model("SliceRandom::shuffle")
def _shuffle(c):
    c.I.event("random", c.fr.where(c.span), c.fr.fn.id)
    c.mutate(lambda old, g: (lambda w: coll(w[0], w[1], w[2], nopos(w[3]) | {"perm"}))(wrap(old)))
    return UNIT


@model("SliceRandom::choose", "SliceRandom::choose_weighted", "IteratorRandom::choose", "SliceRandom::choose_multiple")
def _choose(c):
    c.I.event("random", c.fr.where(c.span), c.fr.fn.id)
    v = c.v(0)
    if "multiple" in c.name:
        return coll("iter", [part(p.a[0], p.a[1] | {(mk("within", "choose", v, c.v(2), p.a[0]), True)}, p.a[2]) for p in parts_of(v)], (), ["random"])
    if c.name.endswith("weighted"):
        w = keyterm(c, v, c.v(2), True)
        return mk("chosen", v, w, c.key)
    return mk("getopt", not_(isempty(v)), mk("chosen", v, UNIT, c.key))


# ---- sets and maps ------------------------------------------------------------------------------
def restrict(c, st, cell, p, cond, g, path=()):
    """p without the elements for which cond holds (under the path facts g)"""
    e, pg, b = p.a
    k, v = lit(cond)
    if k.op == "bool":
        return [p] if k.a[0] != v else []
    return [part(e, pg | {(k, not v)}, b)]


@model("BitSet::insert", "HashSet::insert", "BTreeSet::insert")
def _sinsert(c):
    x = c.v(1)
    k0 = "hset" if c.name.startswith("Hash") else "set"
    old0 = c.v(0)
    cell, path = c.I.mutref(c.st, c.args[0])

    def f(old, g):
        k, ps, ov, tg = wrap(old, k0)
        out = []
        for p in ps:
            p0 = p
            p = c.apart(p, x)
            e, pg, b = p.a
            # reinsertion of an element taken out before
            rg = frozenset(y for y in pg if not (y[1] is False and y[0] is eq(e, x)))
            if rg != pg:
                p = part(e, rg, b)
                if contains(coll(k, [p]), x) is TRUE or c.st.known(contains(coll(k, [p]), x)):
                    ps2 = [q if q is not p0 else p for q in ps]
                    return idset(coll(k, ps2, ov, tg))
            out.append(p0)
        return coll(k, ps + [part(x, g)], ov, nopos(tg))
    c.mutate(f)
    return not_(contains(old0, x))


def idset(r):
    i = identity(r)
    return r if i is None or r.a[3] else i


@model("BitSet::remove", "HashSet::remove", "BTreeSet::remove")
def _sremove(c):
    x = c.v(1)
    k0 = "hset" if c.name.startswith("Hash") else "set"
    old0 = c.v(0)
    cell, path = c.I.mutref(c.st, c.args[0])

    def f(old, g):
        k, ps, ov, tg = wrap(old, k0)
        out = []
        for p in ps:
            if not p.a[1] and not p.a[2] and p.a[0] is x:
                continue
            if not p.a[1] and p.a[2] and c.st.known(contains(coll(k, [p]), x)) is False:
                out.append(p)
                continue
            p = c.apart(p, x)
            out += restrict(c, c.st, cell, p, eq(p.a[0], x), g, path)
        r = coll(k, out, ov, tg)
        return idset(r)
    c.mutate(f)
    return contains(old0, x)


@model("BitSet::union_with", "BitSet::difference_with", "BitSet::intersect_with", "BitSet::symmetric_difference_with")
def _setop(c):
    o = c.v(1)
    cell, path = c.I.mutref(c.st, c.args[0])
    op = c.name.split("::")[1]

    def f(old, g):
        k, ps, ov, tg = wrap(old, "set")
        if op == "union_with":
            return coll(k, ps + [part(p.a[0], p.a[1] | g, p.a[2]) for p in fresh(parts_of(o))], ov, nopos(tg))
        out = []
        for p in ps:
            p = c.apart(p, o)
            t = contains(o, p.a[0])
            out += restrict(c, c.st, cell, p, t if op == "difference_with" else not_(t), g, path)
        return idset(coll(k, out, ov, tg))
    c.mutate(f)
    return UNIT


def fresh(ps):
    return ps


@model("BitSet::union", "BitSet::difference", "BitSet::intersection", "HashSet::union", "HashSet::difference", "HashSet::intersection", "BTreeSet::union",
       "BTreeSet::difference", "BTreeSet::intersection")
def _setbin(c):
    a, b = c.v(0), c.v(1)
    op = c.name.split("::")[1]
    if op == "union":
        return coll("set", parts_of(a) + parts_of(b))
    out = []
    for p in parts_of(a):
        p = c.apart(p, b)
        k, v = lit(contains(b, p.a[0]), op == "intersection")
        if k.op == "bool":
            if k.a[0] == v:
                out.append(p)
        else:
            out.append(part(p.a[0], p.a[1] | {(k, v)}, p.a[2]))
    return idset(coll("set", out))


@model("BitSet::is_subset", "BitSet::is_superset", "BitSet::is_disjoint", "HashSet::is_subset", "HashSet::is_superset", "HashSet::is_disjoint",
       "BTreeSet::is_subset", "BTreeSet::is_superset", "BTreeSet::is_disjoint")
def _setrel(c):
    a, b = c.v(0), c.v(1)
    op = c.name.split("::")[1]
    return setrel(op, a, b)


def setrel(op, a, b):
    if op == "is_superset":
        a, b = b, a
        op = "is_subset"
    if op == "is_disjoint" and b.n < a.n:
        a, b = b, a
    ps = []
    for p in parts_of(a):
        p = rename_part(p, freevars(b))
        k, v = lit(contains(b, p.a[0]), op == "is_disjoint")
        if k.op == "bool":
            if k.a[0] != v:
                continue
            ps.append(part(TRUE, p.a[1], p.a[2]))
        else:
            ps.append(part(TRUE, p.a[1] | {(k, v)}, p.a[2]))
    return not_(any_(ps))


@model("HashMap::insert", "BTreeMap::insert")
def _minsert(c):
    k, x = c.v(1), c.args[2]
    old0 = c.v(0)
    kd = "hmap" if c.name.startswith("Hash") else "map"

    def f(old, g):
        kk, ps, ov, tg = wrap(old, kd)
        ps = [p for p in ps if not (not p.a[2] and fld(p.a[0], "0") is k and not p.a[1])]
        return coll(kk, ps + [part(tup(k, x), g)], ov, nopos(tg))
    c.mutate(f)
    return mk("get", old0, k)


@model("HashMap::remove", "BTreeMap::remove")
def _mremove(c):
    k = c.v(1)
    old0 = c.v(0)
    cell, path = c.I.mutref(c.st, c.args[0])

    def f(old, g):
        kk, ps, ov, tg = wrap(old, "map")
        out = []
        for p in ps:
            out += restrict(c, c.st, cell, p, eq(fld(p.a[0], "0"), k), g, path)
        return coll(kk, out, ov, tg)
    c.mutate(f)
    return mk("get", old0, k)


@model("HashMap::get", "BTreeMap::get", "HashMap::get_key_value")
def _mget(c):
    return mk("get", c.v(0), c.v(1))


@model("HashMap::get_mut", "BTreeMap::get_mut")
def _mgetmut(c):
    v, k = c.v(0), c.v(1)
    cell, path = c.I.mutref(c.st, c.args[0])
    a, b = c.fork(contains(v, k))
    res = []
    if a is not None:
        res.append((a, some(mk("ref", cell, path + (("i", k),)))))
    if b is not None:
        res.append((b, NONE))
    return res


@model("HashMap::entry", "BTreeMap::entry")
def _entry(c):
    cell, path = c.I.mutref(c.st, c.args[0])
    return mk("entry", mk("ref", cell, path), c.v(1), c.kind() or "map")


@model("Entry::or_insert", "Entry::or_insert_with", "Entry::or_default")
def _orinsert(c):
    e = c.v(0)
    if e.op != "entry":
        return NotImplemented
    r, k, kd = e.a
    st = c.st
    m = c.I.read(st, r)
    has, miss = c.fork(contains(m, k))
    ref = mk("ref", r.a[0], r.a[1] + (("i", k),))
    res = []
    if has is not None:
        res.append((has, ref))
    if miss is not None:
        if c.name.endswith("or_insert"):
            outs = [(miss, c.args[1])]
        elif c.name.endswith("or_default"):
            outs = [(miss, default_of(c, strip_refs(c.ta[-1]) if c.ta else None))]
        else:
            outs = c.app(miss, c.v(1), [])
        for s, x in outs:
            def f(old, g):
                kk, ps, ov, tg = wrap(old, kd)
                return coll(kk, ps + [part(tup(k, x), g)], ov, nopos(tg))
            c.I.mutate(s, r, f, c.fr, c.span)
            res.append((s, ref))
    return res


# ---- Option and Result --------------------------------------------------------------------------
def opt(c, v=None):
    """(state where present, payload), (state where absent)"""
    v = c.v(0) if v is None else v
    var = variant_of(c)
    a, b = c.fork(isvar(v, var))
    return (a, pay(v, var, "0")), b


def variant_of(c):
    return "Some" if c.name.startswith("Option") else "Ok"


@model("Option::is_some", "Result::is_ok")
def _issome(c):
    return isvar(c.v(0), variant_of(c))


@model("Option::is_none", "Result::is_err")
def _isnone(c):
    return not_(isvar(c.v(0), variant_of(c)))


@model("Option::unwrap", "Option::expect", "Result::unwrap", "Result::expect", "Option::unwrap_unchecked")
def _unwrap(c):
    a0 = c.args[0]
    (a, x), b = opt(c)
    if b is not None:
        for h in c.I.hooks:
            h.panic(c.I, b, c.fr, c.span, c.name)
    if a is None:
        return []
    return [(a, x)]


@model("Option::unwrap_or", "Result::unwrap_or", "Option::unwrap_or_default", "Result::unwrap_or_default", "Option::unwrap_or_else", "Result::unwrap_or_else")
def _unwrapor(c):
    v = c.v(0)
    if c.name == "Result::unwrap_or" and v.op == "call" and v.a[0] == "TryInto":
        pass
    (a, x), b = opt(c)
    res = []
    if a is not None:
        res.append((a, x))
    if b is not None:
        if c.name.endswith("default"):
            t = strip_refs(c.ta[0]) if c.ta else None
            res.append((b, default_of(c, t)))
        elif c.name.endswith("else"):
            res += c.app(b, c.v(1), [] if c.name.startswith("Option") else [pay(v, "Err", "0")])
        else:
            res.append((b, c.I.read(b, c.args[1])))
    return fold_val(c, res)


def fold_val(c, res):
    return res


@model("Option::map", "Result::map", "Option::and_then", "Result::and_then", "Option::map_or", "Option::map_or_else", "Result::map_or", "Option::is_some_and", "Result::is_ok_and",
       "Option::filter", "Result::map_err", "Result::or_else", "Option::or_else", "Option::or", "Result::ok", "Result::err", "Option::ok_or", "Option::ok_or_else", "Option::zip", "Option::and", "Result::and",
       "Result::map_or_else", "Option::is_none_or", "Option::xor")
def _omap(c):
    v = c.v(0)
    isO = c.name.startswith("Option")
    op = c.name.split("::")[1]
    (a, x), b = opt(c)
    wrap_ = some if isO else ok
    bad = NONE if isO else err(pay(v, "Err", "0"))
    res = []
    if op in ("map", "and_then", "map_or", "map_or_else", "is_some_and", "is_ok_and"):
        f = c.I.read(c.st, c.args[2 if op in ("map_or", "map_or_else") else 1])
        if a is not None:
            for s, y in c.app(a, f, [x]):
                res.append((s, wrap_(y) if op == "map" else y))
        if b is not None:
            if op == "map_or":
                res.append((b, c.I.read(b, c.args[1])))
            elif op == "map_or_else":
                res += c.app(b, c.v(1), [] if isO else [pay(v, "Err", "0")], "none")
            elif op.startswith("is_"):
                res.append((b, FALSE))
            else:
                res.append((b, bad))
        if op.startswith("is_"):
            res = c.I.fold_bool(c.st, res) if len(res) > 1 and False else res
        return res
    if op == "filter":
        if a is not None:
            for s, y in c.app(a, c.v(1), [x]):
                s2 = s.clone()
                if s.assume(y, True):
                    res.append((s, v))
                if s2.assume(y, False):
                    res.append((s2, NONE))
        if b is not None:
            res.append((b, NONE))
        return res
    if op == "map_err":
        if a is not None:
            res.append((a, ok(x)))
        if b is not None:
            for s, y in c.app(b, c.v(1), [pay(v, "Err", "0")]):
                res.append((s, err(y)))
        return res
    if op in ("or_else", "or"):
        if a is not None:
            res.append((a, v))
        if b is not None:
            if op == "or":
                res.append((b, c.I.read(b, c.args[1])))
            else:
                res += c.app(b, c.v(1), [] if isO else [pay(v, "Err", "0")])
        return res
    if op == "ok":
        if v.op == "phi":
            pass
        if a is not None:
            res.append((a, some(x)))
        if b is not None:
            res.append((b, NONE))
        return res
    if op in ("ok_or", "ok_or_else"):
        if a is not None:
            res.append((a, ok(x)))
        if b is not None:
            if op == "ok_or":
                res.append((b, err(c.I.read(b, c.args[1]))))
            else:
                for s, y in c.app(b, c.v(1), []):
                    res.append((s, err(y)))
        return res
    if op == "and":
        if a is not None:
            res.append((a, c.I.read(a, c.args[1])))
        if b is not None:
            res.append((b, bad))
        return res
    return NotImplemented


@model("Option::take", "Option::replace", "Option::insert", "Option::get_or_insert_with", "Option::as_mut", "Option::as_deref_mut")
def _otake(c):
    op = c.name.split("::")[1]
    v = c.v(0)
    if op == "take":
        c.mutate(lambda old, g: NONE)
        return v
    if op == "replace":
        c.mutate(lambda old, g: some(c.args[1]))
        return v
    cell, path = c.I.mutref(c.st, c.args[0])
    ref = mk("ref", cell, path + (("d", "Some"), ("f", "0")))
    if op == "insert":
        c.mutate(lambda old, g: some(c.args[1]))
        return ref
    (a, x), b = opt(c)
    res = []
    if op in ("as_mut", "as_deref_mut"):
        if a is not None:
            res.append((a, some(ref)))
        if b is not None:
            res.append((b, NONE))
        return res
    if a is not None:
        res.append((a, ref))
    if b is not None:
        for s, y in c.app(b, c.v(1), []):
            c.I.mutate(s, c.args[0], lambda old, g: some(y), c.fr, c.span)
            res.append((s, ref))
    return res


@model("Try::branch")
def _branch(c):
    v = c.v(0)
    n = strip_refs(c.ta[0]).a[1].split("::")[-1] if c.ta else "Result"
    var = "Some" if n == "Option" else "Ok"
    a, b = c.fork(isvar(v, var))
    res = []
    cf = "core::ops::ControlFlow"
    if a is not None:
        res.append((a, agg(cf, "Continue", [("0", pay(v, var, "0"))])))
    if b is not None:
        res.append((b, agg(cf, "Break", [("0", NONE if var == "Some" else err(pay(v, "Err", "0")))])))
    return res


@model("FromResidual::from_residual")
def _residual(c):
    return c.v(0)


@model("Try::from_output")
def _fromout(c):
    t = strip_refs(c.ta[0]) if c.ta else None
    return some(c.args[0]) if t is not None and t.a[1].endswith("Option") else ok(c.args[0])


# ---- cells, memory ------------------------------------------------------------------------------
@model("RefCell::new", "Cell::new", "OnceCell::new", "Mutex::new", "RwLock::new")
def _refcell(c):
    h = ("h", c.fr.id, c.key)
    c.st.cells[h] = c.args[0] if c.args else NONE
    return mk("cellv", h)


def cellref(c, a):
    """reference to the content of a RefCell (or Cell, ...)"""
    v = c.I.read(c.st, a)
    if v.op == "cellv":
        return mk("ref", v.a[0], ())
    return a if a.op == "ref" else mk("ref", ("o", a), ())


@model("RefCell::borrow", "RefCell::borrow_mut")
def _rborrow(c):
    r = cellref(c, c.args[0])
    mode = "m" if c.name.endswith("mut") else "s"
    for k, b in c.st.bor.items():
        if b[0] is r and (mode == "m" or b[1] == "m"):
            c.I.event("doubleborrow", c.fr.where(c.span), r)
            for h in c.I.hooks:
                h.panic(c.I, c.st, c.fr, c.span, "double borrow")
    c.st.bor["ret"] = (r, mode)
    return r


@model("RefCell::replace", "Cell::replace", "Cell::set", "mem::replace", "mem::take", "RefCell::take", "Cell::take")
def _rreplace(c):
    a = c.args[0]
    r = cellref(c, a) if "Cell" in c.name else a if a.op == "ref" else mk("ref", ("o", a), ())
    v = c.I.read(c.st, r)
    if c.name.startswith("RefCell"):
        for k, b in c.st.bor.items():
            if b[0] is r:
                c.I.event("doubleborrow", c.fr.where(c.span), r)
                for h in c.I.hooks:
                    h.panic(c.I, c.st, c.fr, c.span, "double borrow")
    if c.name.endswith("take"):
        new = default_of(c, strip_refs(c.ta[0]) if c.ta else None)
    else:
        new = c.args[1]
    c.I.mutate(c.st, r, lambda old, g: new, c.fr, c.span)
    return v if not c.name.endswith("set") else UNIT


@model("RefCell::into_inner", "Cell::get", "Cell::into_inner", "RefCell::get_mut")
def _rinto(c):
    if c.name.endswith("get_mut"):
        return cellref(c, c.args[0])
    return c.I.read(c.st, cellref(c, c.args[0]))


@model("mem::swap")
def _swap(c):
    x, y = c.v(0), c.v(1)
    c.mutate(lambda o, g: y, 0)
    c.mutate(lambda o, g: x, 1)
    return UNIT


@model("mem::drop", "mem::forget")
def _drop(c):
    return UNIT


# ---- numbers, comparison ------------------------------------------------------------------------
@model("PartialEq::eq", "PartialEq::ne")
def _eq(c):
    a, b = c.v(0), c.v(1)
    r = veq(a, b)
    return r if c.name.endswith("eq") else not_(r)


def veq(a, b):
    if a.op == "coll" and not a.a[1] and not a.a[2]:
        return isempty(b)
    if b.op == "coll" and not b.a[1] and not b.a[2]:
        return isempty(a)
    return eq(a, b)


@model("PartialOrd::lt", "PartialOrd::le", "PartialOrd::gt", "PartialOrd::ge")
def _lt(c):
    a, b = c.v(0), c.v(1)
    op = c.name[-2:]
    t = strip_refs(c.ta[0]) if c.ta else None
    if t is not None and t.k == "prim" and not tystr(t).startswith("f"):
        return {"lt": lt(a, b), "le": le(a, b), "gt": lt(b, a), "ge": le(b, a)}[op]
    if op == "gt":
        return mk("olt", b, a)
    if op == "ge":
        return not_(mk("olt", a, b))
    if op == "lt":
        return mk("olt", a, b)
    return not_(mk("olt", b, a))


@model("Ord::cmp", "PartialOrd::partial_cmp")
def _cmp(c):
    t = mk("cmp", c.v(0), c.v(1))
    return t if c.name.startswith("Ord") else some(t)


@model("cmp::max", "Ord::max", "cmp::min", "Ord::min", "f64::max", "f64::min")
def _max2(c):
    a, b = c.v(0), c.v(1)
    op = c.name.split("::")[1] + "2"
    if a is b:
        return a
    if a.op == "int" and b.op == "int":
        return I((max if op == "max2" else min)(a.a[0], b.a[0]))
    if b.n < a.n:
        a, b = b, a
    return mk(op, a, b)


@model("usize::checked_add", "usize::checked_sub", "usize::checked_mul")
def _checked(c):
    op = c.name.split("_")[1]
    r = {"add": add(c.v(0), c.v(1)), "sub": add(c.v(0), c.v(1), -1), "mul": mul(c.v(0), c.v(1))}[op]
    return mk("getopt", mk("fits", r) if op != "sub" else le(c.v(1), c.v(0)), r)


@model("usize::saturating_sub", "usize::saturating_add", "usize::saturating_mul")
def _sat(c):
    a, b = c.v(0), c.v(1)
    return mk("sat", c.name.split("_")[1], a, b)


@model("Add::add", "Sub::sub", "Mul::mul")
def _add(c):
    t = strip_refs(c.ta[0]) if c.ta else None
    a, b = c.v(0), c.v(1)
    if t is not None and t.k == "prim":
        return c.I.binop(c.st, c.fr, c.name.split("::")[0], a, b, t, c.span)
    if t is not None and kindof(t) == "str":
        return fmtcat(a, b)
    return NotImplemented


@model("AddAssign::add_assign", "SubAssign::sub_assign", "MulAssign::mul_assign")
def _addassign(c):
    t = strip_refs(c.ta[0]) if c.ta else None
    b = c.v(1)
    if t is not None and t.k == "prim":
        c.mutate(lambda old, g: c.I.binop(c.st, c.fr, c.name.split("::")[0][:3], old, b, t, c.span))
        return UNIT
    if t is not None and kindof(t) == "str":
        c.mutate(lambda old, g: fmtcat(old, b))
        return UNIT
    return NotImplemented


@model("TryInto::try_into", "TryFrom::try_from")
def _tryinto(c):
    to = c.ta[0 if c.name.startswith("TryFrom") else 1] if len(c.ta) > 1 else None
    if to is not None and to.k == "prim" and tystr(to) in ("u8", "u16", "u32", "i8", "i16", "i32", "i64", "isize"):
        for h in c.I.hooks:
            h.check(c.I, c.st, c.fr, c.span, "narrow " + tystr(to), c.v(0))
        return mk("call", c.name, (c.v(0), mk("type", tystr(to))))
    return ok(c.v(0))


@model("Not::not")
def _not(c):
    return not_(c.v(0))


# ---- text ---------------------------------------------------------------------------------------
def fmtcat(*xs):
    out = []
    for x in xs:
        for y in (x.a[0] if x.op == "fmt" else (x,)):
            if y.op == "str" and not y.a[0]:
                continue
            if y.op == "str" and out and out[-1].op == "str":
                out[-1] = mk("str", out[-1].a[0] + y.a[0])
            else:
                out.append(y)
    if not out:
        return mk("str", "")
    if len(out) == 1:
        return out[0]
    return mk("fmt", tuple(out))


@model("String::push_str", "String::push", "String::insert_str", "String::insert")
def _pushstr(c):
    if "insert" in c.name:
        return NotImplemented
    x = c.v(1)
    cell, path = c.I.mutref(c.st, c.args[0])
    L = next((L for L in c.st.loops if cell in L.cells), None)

    def f(old, g):
        if L is not None or g or old.op == "coll":
            k, ps, ov, tg = wrap(old, "str") if old.op == "coll" else ("str", [part(old)] if old != mk("str", "") else [], [], frozenset())
            # extend the piece written in the same iteration
            if ps and ps[-1].a[1] == g and not ps[-1].a[2] and L is not None and ps[-1] not in (c.I.headparts.get((L.id, cell)) or ()):
                return coll("str", ps[:-1] + [part(fmtcat(ps[-1].a[0], x), g)], ov, tg)
            return coll("str", ps + [part(x, g)], ov, tg)
        return fmtcat(old, x)
    c.mutate(f)
    return UNIT


@model("ToString::to_string")
def _tostring(c):
    v = c.v(0)
    t = strip_refs(c.ta[0]) if c.ta else None
    return disp(c, v, t)


def disp(c, v, t):
    if v.op == "str":
        return v
    if t is not None and (kindof(t) == "str" or tystr(t) in ("str", "String") or t.k == "prim" and tystr(t) == "str"):
        return v
    if v.op == "int":
        return mk("str", str(v.a[0]))
    return mk("disp", v)


@model("Argument::new_display", "Argument::new_debug", "Argument::new_lower_hex", "Argument::new_lower_exp")
def _argument(c):
    v = c.v(0)
    t = strip_refs(c.ta[-1]) if c.ta else None
    if c.name.endswith("display"):
        return disp(c, v, t)
    return mk("debug", v)


@model("Arguments::from_str", "Arguments::new_const")
def _fromstr(c):
    return c.v(0)


@model("Arguments::new")
def _arguments(c):
    tpl, av = c.v(0), c.v(1)
    xs = [p.a[0] for p in av.a[1]] if av.op == "coll" else None
    if tpl.op not in ("bytes",) or xs is None:
        return mk("fmt", (tpl, av))
    b = bytes.fromhex(tpl.a[0])
    out = []
    i = nxt = 0
    while i < len(b):
        n = b[i]
        if n == 0:
            break
        if n < 0x80:
            out.append(mk("str", b[i + 1:i + 1 + n].decode("utf8", "replace")))
            i += 1 + n
        elif n == 0x80:
            ln = b[i + 1] | b[i + 2] << 8
            out.append(mk("str", b[i + 3:i + 3 + ln].decode("utf8", "replace")))
            i += 3 + ln
        else:
            i += 1
            spec = ""
            if n & 1:
                spec += "f" + b[i:i + 4].hex()
                i += 4
            if n & 2:
                spec += "w" + b[i:i + 2].hex()
                i += 2
            if n & 4:
                spec += "p" + b[i:i + 2].hex()
                i += 2
            if n & 8:
                nxt = b[i] | b[i + 1] << 8
                i += 2
            x = xs[nxt] if nxt < len(xs) else mk("opaque", "fmtarg")
            out.append(mk("spec", spec, x) if spec else x)
            nxt += 1
    return fmtcat(*out)


@model("fmt::format")
def _format(c):
    return c.v(0)


@model("Formatter::write_fmt", "Write::write_fmt", "Formatter::write_str", "Write::write_str")
def _writefmt(c):
    c.I.event("write", c.name, c.v(0), c.v(1), c.st.gained({}))
    if c.fv.op == "fn" and "::io::" in str(c.fv.a[0]):
        return mk("call", c.name, (c.v(0), c.v(1)))  # may fail
    return ok(UNIT)


@model("io::_print", "io::_eprint")
def _print(c):
    c.I.event("print", c.name, c.v(0), frozenset(c.st.facts.items()), c.fr.where(c.span), c.st.open)
    return UNIT


@model("str::lines", "str::split", "str::split_whitespace", "str::chars", "str::split_terminator", "str::char_indices", "str::bytes")
def _split(c):
    return mk(c.name.split("::")[1], *[c.v(i) for i in range(len(c.args))])


@model("str::trim", "str::trim_end", "str::trim_start", "str::replace", "str::starts_with", "str::ends_with", "str::contains", "str::to_lowercase", "str::parse", "str::find", "str::strip_prefix", "str::strip_suffix")
def _strop(c):
    vals = []
    for i in range(len(c.args)):
        v = c.v(i)
        if v.op == "clo":
            v = mk("lam", keyterm(c, v, v, True))
        vals.append(v)
    extra = ()
    if c.name == "str::parse" and c.ta:
        extra = (mk("type", tystr(c.ta[-1])),)
    return call(c.name, *(tuple(vals) + extra))


# ---- panics -------------------------------------------------------------------------------------
@model("panicking::panic", "rt::begin_panic", "rt::panic_fmt", "rt::panic_display", "panicking::assert_failed", "panicking::panic_fmt", "panicking::panic_bounds_check",
       "option::expect_failed", "result::unwrap_failed", "panicking::panic_display", "panicking::panic_explicit", "panicking::unreachable_display", "process::exit")
def _panic(c):
    for h in c.I.hooks:
        h.panic(c.I, c.st, c.fr, c.span, c.name)
    return []


# ---- randomness, clock, environment -------------------------------------------------------------
@model("rand::thread_rng", "rngs::thread_rng")
def _rng(c):
    c.I.event("random", c.fr.where(c.span), c.fr.fn.id)
    return mk("sym", "rng")


@model("Rng::gen_bool", "Rng::gen_range", "Rng::gen", "rand::random")
def _gen(c):
    c.I.event("random", c.fr.where(c.span), c.fr.fn.id)
    return mk("random", c.name, tuple(c.v(i) for i in range(1, len(c.args))), c.key)


@model("Instant::now", "SystemTime::now")
def _now(c):
    c.I.event("clock", c.fr.where(c.span), c.fr.fn.id)
    return mk("call", "Instant::now", (mk("key", c.key),))


@model("Instant::elapsed")
def _elapsed(c):
    return call("elapsed", c.v(0))
